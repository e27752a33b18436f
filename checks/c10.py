"""C10: every option argument documented in the manual is turned into exactly the documented setting."""
from cmdl import Run, initial, OPTARG
from words import Word
from bx import enumval, fields
from sim import UNK, ZERO
from common import Broken

H, V, J = ("halign", 0), ("valign", 0), ("justify", 0)


def c(x):
    return ord(x) if isinstance(x, str) and len(x) == 1 else x


TREE = None


def sym(mod, n):
    v = enumval(mod, n)
    return TREE.macroint(n) if v is None else v


def side(mod, n):
    v = sym(mod, n)
    return {"BTOP": 0, "BRIG": 1, "BBOT": 2, "BLEF": 3}[n] if v is None else v


def spec(mod):
    """option -> (words with expected settings, words that must be refused, fields the option may set at all)"""
    P = lambda **k: {("padding", 4 * side(mod, {"t": "BTOP", "r": "BRIG", "b": "BBOT", "l": "BLEF"}[n])): v for n, v in k.items()}
    A = {}
    a = {"l": {H: "l", V: "c", J: "l"}, "c": {H: "c", V: "c", J: "c"}, "r": {H: "r", V: "c", J: "r"}}
    for x in "lcr":
        a["h" + x] = {H: x}
        a["j" + x] = {J: x}
    for x in "tcb":
        a["v" + x] = {V: x}
    a.update({k.upper(): v for k, v in list(a.items())})
    A["a"] = (a, ["", "x", "h", "v", "j", "ht", "vl", "vr", "jt", "hx", "t", "b", "vj"], {"halign", "valign", "justify"})
    p = {}
    for q in ("t", "r", "b", "l"):
        p[q + "3"] = P(**{q: 3})
        p[q.upper() + "12"] = P(**{q: 12})
    p["a4"] = P(t=4, r=4, b=4, l=4)
    p["h2"] = P(l=2, r=2)
    p["v5"] = P(t=5, b=5)
    p["a4t2"] = P(t=2, r=4, b=4, l=4)
    p["l1r7"] = P(l=1, r=7)
    p["t0"] = P(t=0)
    A["p"] = (p, ["", "t", "x3", "t-1", "3", "w2", "a-4", "a99999999999999999999"], {"padding"})
    k = {w: {("killblank", 0): 1} for w in ("true", "yes", "on", "1", "t", "TRUE", "Yes")}
    k.update({w: {("killblank", 0): 0} for w in ("false", "no", "off", "0", "f", "False", "OFF")})
    A["k"] = (k, ["maybe", "2", "", "x"], {"killblank"})
    i = {}
    for w, ch in (("box", "b"), ("text", "t"), ("none", "n"), ("BOX", "b"), ("Text", "t"), ("b", "b"), ("t", "t"), ("n", "n"), ("bo", "b"), ("tex", "t"), ("no", "n")):
        i[w] = {("indentmode", 0): ch}
    A["i"] = (i, ["x", "boxes", "boxx", "texts", "nope", "tt", "nonesuch"], {"indentmode"})
    e = {}
    for w, s in (("CRLF", "\r\n"), ("LF", "\n"), ("CR", "\r"), ("crlf", "\r\n"), ("lf", "\n"), ("cr", "\r")):
        e[w] = {("eol", 0): s, ("eol_overridden", 0): 1}
    A["e"] = (e, ["", "x", "LFCR", "C", "CRL"], {"eol", "eol_overridden"})
    t = {}
    for n in (1, 3, 8, 16):
        t[str(n)] = {("tabstop", 0): n}
        for ch in "eku":
            t[str(n) + ch] = {("tabstop", 0): n, ("tabexp", 0): ch}
            t[str(n) + ch.upper()] = {("tabstop", 0): n, ("tabexp", 0): ch}
    A["t"] = (t, ["0", "17", "-1", "", "x", "4x", "4ee", "4eu", "e"], {"tabstop", "tabexp"})
    s = {"40x10": {("reqwidth", 0): 40, ("reqheight", 0): 10}, "7": {("reqwidth", 0): 7}, "x5": {("reqheight", 0): 5}, "3x4": {("reqwidth", 0): 3, ("reqheight", 0): 4},
         "3X4": {("reqwidth", 0): 3, ("reqheight", 0): 4}}
    A["s"] = (s, ["", "0x0", "-1", "x-2", "-3x4", "4x-4", "abc", "99999999999999999999x3", "3x99999999999999999999"], {"reqwidth", "reqheight"})
    return A


PLAIN = {"h": {"help": 1}, "l": {"l": 1}, "r": {"r": 1}, "v": {"version_requested": 1}, "m": {"mend": 2, "r": 1, "killblank": 0}}
COPY = {"c": ("cld", {"design_choice_by_user": 1}), "d": ("design", {"design_choice_by_user": 1}), "f": ("f", {}), "n": ("encoding", {})}


def value(mod, sim, w, v):
    """comparable value of a stored abstract value under the word"""
    if v[0] == "c":
        return v[1]
    l = sim.lit(v)
    if l is not None:
        return l
    return w.ev(v)


def check(tree, rep):
    global TREE
    TREE = tree
    mod = tree.module()
    r0, i0 = initial(mod)
    n_words = n_ob = n_undec = 0
    steps = 0
    # settings in effect when no option is given
    want0 = {"tabstop": 8, "tabexp": ord("e"), "killblank": -1, "color": sym(mod, "color_from_terminal"), "r": 0, "mend": 0, "l": 0, "help": 0, "version_requested": 0,
             "halign": 0, "valign": 0, "justify": 0, "indentmode": 0, "reqwidth": 0, "reqheight": 0, "qundoc": 0, "design_choice_by_user": 0, "eol_overridden": 0, "cld": 0, "f": 0, "query": 0, "encoding": 0, "design": 0}
    F = fields(mod, "opt_t")
    for f, x in want0.items():
        if f not in F or x is None:
            continue
        n_ob += 1
        v = r0.field(i0, f)
        if v[0] == "c" and v[1] != x:
            rep.violation("default-" + f, "without any option, the setting '%s' starts as %s instead of %s" % (f, v[1], x))
    for k in range(4):
        n_ob += 1
        v = r0.field(i0, "padding", 4 * k)
        if v[0] == "c" and v[1] >= 0:
            rep.violation("default-padding", "without -p, padding[%d] starts as %d, which counts as given on the command line" % (k, v[1]))
    l = r0.h and None
    s0 = Run(mod, ord("r"))
    d = s0.sim.lit(r0.field(i0, "eol"))
    n_ob += 1
    if d is not None and d != "\n":
        rep.violation("default-eol", "without -e, lines end in %r" % d)

    for o, (good, bad, allowed) in spec(mod).items():
        r = Run(mod, ord(o), cap=3000)
        steps += r.sim.steps
        if r.sim.overrun:
            rep.unresolved.append("-%s: exploration budget exhausted" % o)
            continue
        acc = r.next
        ch = [(st, r.changed(st, i0)) for st in acc]
        for st, d in ch:
            for (f, idx) in d:
                n_ob += 1
                if f not in allowed:
                    rep.violation("side-%s-%s" % (o, f), "-%s also changes the setting '%s'" % (o, f))
        decided = 0
        for word, want in good.items():
            n_words += 1
            w = Word(OPTARG, word)
            con = [(st, d, w.consistent(st)) for st, d in ch]
            sure = [(st, d) for st, d, k in con if k is True]
            maybe = [(st, d) for st, d, k in con if k is None]
            rejs = [w.consistent(st) for st in r.rejected]
            if not sure and not maybe:
                if any(k is True for k in rejs):
                    rep.violation("refused-%s-%s" % (o, word), "-%s %s is documented but refused: no accepting path of the parser is compatible with it, a refusing one is" % (o, word))
                else:
                    n_undec += 1
                    rep.unresolved.append("-%s %s: no path decided" % (o, word))
                continue
            if not sure:
                n_undec += 1
                rep.unresolved.append("-%s %s: only undecided paths" % (o, word))
                continue
            decided += 1
            for st, d in sure:
                got = {f: value(mod, r.sim, w, v) for f, v in d.items()}
                for f, x in want.items():
                    n_ob += 1
                    if f in d:
                        g = got[f]
                    else:
                        g = value(mod, r.sim, w, r0.field(i0, f[0], f[1]))
                    if g is not None and g != c(x) and g != x:
                        rep.violation("value-%s-%s-%s" % (o, word, f[0]), "-%s %s sets %s[%d] to %r instead of %r" % (o, word, f[0], f[1], g, x))
                for f, g in got.items():
                    n_ob += 1
                    if f not in want and g is not None and g != value(mod, r.sim, w, r0.field(i0, f[0], f[1])):
                        rep.violation("extra-%s-%s-%s" % (o, word, f[0]), "-%s %s also sets %s[%d] to %r" % (o, word, f[0], f[1], g))
        for word in bad:
            n_words += 1
            w = Word(OPTARG, word)
            n_ob += 1
            for st, d in ch:
                if w.consistent(st) is True and not r.lossy:
                    rep.violation("accepted-%s-%s" % (o, word or "empty"), "-%s '%s' is not a documented argument but is accepted (sets %s)" % (
                        o, word, {f[0]: value(mod, r.sim, w, v) for f, v in d.items()}))
                    break
        if not decided:
            rep.unresolved.append("-%s: no documented word could be decided" % o)
    for o, want in PLAIN.items():
        r = Run(mod, ord(o))
        steps += r.sim.steps
        sts = r.next + [x for _, x in r.returned]
        for st in sts:
            d = {f: v for (f, i), v in r.changed(st, i0).items()}
            for f, x in want.items():
                n_ob += 1
                v = d.get(f, r0.field(i0, f))
                if v[0] == "c" and v[1] != x and not (f not in ("mend", "killblank") and v[1] != 0 and x != 0):
                    rep.violation("plain-%s-%s" % (o, f), "-%s leaves the setting '%s' at %d instead of %d" % (o, f, v[1], x))
            for f in d:
                n_ob += 1
                if f not in want:
                    rep.violation("side-%s-%s" % (o, f), "-%s also changes the setting '%s'" % (o, f))
    # long-only options
    from c09 import tables
    short, longs, I = tables(mod)
    LO = {"color": ("color", "force_ansi_color"), "no-color": ("color", "force_monochrome"), "kill-blank": ("killblank", 1), "no-kill-blank": ("killblank", 0)}
    for name, arg, val, flag in longs:
        if name not in LO:
            continue
        f, x = LO[name]
        if isinstance(x, str):
            x = sym(mod, x)
        r = Run(mod, val)
        for st in r.next:
            d = {ff: v for (ff, i), v in r.changed(st, i0).items()}
            n_ob += 1
            v = d.get(f, r0.field(i0, f))
            if v[0] == "c" and x is not None and v[1] != x:
                rep.violation("long-" + name, "--%s sets '%s' to %d instead of %d" % (name, f, v[1], x))
            for ff in d:
                if ff != f:
                    rep.violation("side-%s-%s" % (name, ff), "--%s also changes the setting '%s'" % (name, ff))
    # options whose argument is kept as it is
    for o, (fld, also) in COPY.items():
        r = Run(mod, ord(o))
        for st in r.next:
            d = {f: v for (f, i), v in r.changed(st, i0).items()}
            n_ob += 1
            if fld not in d:
                rep.violation("copy-" + o, "-%s does not store its argument in the setting '%s'" % (o, fld))
            for f in d:
                if f != fld and f not in also:
                    rep.violation("side-%s-%s" % (o, f), "-%s also changes the setting '%s'" % (o, f))
            for f, x in also.items():
                n_ob += 1
                v = d.get(f, r0.field(i0, f))
                if v[0] == "c" and (v[1] != 0) != (x != 0):
                    rep.violation("copy-%s-%s" % (o, f), "-%s does not set '%s'" % (o, f))
    rep.need(n_words - n_undec > 30, "too few documented words could be decided (%d of %d)" % (n_words - n_undec, n_words))
    rep.cov.update({"obligations": n_ob, "discharged": n_ob - len(rep.viol), "documented_words": n_words, "undecided_words": n_undec, "interpreter_steps": steps,
                    "rule": "abstract interpretation of process_commandline per option with an opaque argument string; every accepting path's facts about the argument are a guard, "
                            "the settings written on it the effect; guards are evaluated at the manual's words, effects compared with the manual",
                    "explanation": "decision table (guards over argument bytes / library predicates -> option record fields) extracted from the code and compared with the manual's table"})
    rep.assumptions.append("memory allocation succeeds; debug logging off")
