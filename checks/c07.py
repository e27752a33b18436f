"""C07: line breaks are those asked for; text printed without a box holds each line once with its indentation."""
import re
from drawbox import *
from drawbox import _sim
from bx import cell
from ustr import UHooks, put, get
from streams import Streams
from c06 import literals, RESULT

TS = 4
TXT = lambda i: ("u", ("line", i))


class Plain(Draw):
    def __init__(self, mod):
        Draw.__init__(self, mod, (), True)
        self.trunc = []

    def off(self, l):
        o = {1: l[1][0]} if l[1][0] else {}
        for x, s in l[1][1]:
            y = lin(x)
            o = add(o, y if y is not None else {x: 1}, s)
        return o

    def call2(self, sim, st, I, name, args, ctx):
        def val(key):
            v = ("u", key)
            st.facts[("ne", v)] = frozenset((0,))
            return [(v, st)]
        if name in ("malloc", "calloc"):
            k = len(st.q[1])
            st.q = (st.q[0], st.q[1] + ((k, ()),))
            st.mem[(("bufsz", k), NOOFF)] = args[0] if name == "malloc" else args[1] if args[0] == ("c", 1) else args[0] if args[1] == ("c", 1) else UNK
            if name == "calloc":
                st.mem[(("bufz", k), NOOFF)] = ("c", 1)
            return val(("buf", k))
        if name == "memset" or name.startswith("llvm.memset"):
            l = sim.loc(args[0])
            if l and l[0][0] == "s" and l[0][1][0] == "u" and l[0][1][1][0] == "buf":
                o = tuple(sorted(self.off(l).items(), key=repr))
                b = l[0][1][1][1]
                if args[2] != ZERO:
                    st.q = (st.q[0], tuple((k, f + ((o, args[1][1] if args[1][0] == "c" else None, args[2]),)) if k == b else (k, f) for k, f in st.q[1]))
            return [(args[0], st)]
        if name == "strdup":
            return [(args[0], st)] if sim.lit(args[0]) is not None else val(("dup", args[0]))
        if name == "bxs_strdup":
            t = self.text(sim, st, args[0])
            return val(("line", t[0][1]) if len(t) == 1 and t[0][0] == "line" else ("rtrim", t[0][1]) if len(t) == 1 and t[0][0] == "rtrim" else ("cat", t))
        if name in ("bxs_is_blank", "bxs_is_empty"):
            t = self.text(sim, st, args[0])
            if len(t) == 1 and t[0][0] in ("line", "rtrim"):
                i = t[0][1][0][1] if t[0][0] == "rtrim" else t[0][1]
                if name == "bxs_is_blank":
                    return [(("u", ("blank", i)), st)]
            return [(UNK, st)]
        if name == "bxs_new_empty_string":
            return val(("cat", ()))
        if name == "tabbify_indent":
            if args[1] != ZERO:
                return val(("?", "tabbify_indent"))
            return val(("ind", args[0], (), args[2]))
        if name == "bxs_cut_front":
            t = self.text(sim, st, args[0])
            return val(("cat", t if args[1] == ZERO else (("cutp", t, args[1]),)))
        return Draw.call2(self, sim, st, I, name, args, ctx)

    def outs(self, sim, st, v):
        if v[0] == "p" and v[2] == NOOFF and v[1][0] == "s":
            v = v[1][1]
        if v[0] == "u" and v[1][0] == "buf":
            fills = dict(st.q[1])[v[1][1]]
            ends = [(self.off((None, o)), x) for (b, o), x in st.mem.items() if b == ("s", v)]
            pos, res = {}, ()
            for o, ch, n in fills:
                if ch not in (9, 32) or lin(n) is None or add(pos, dict(o), -1):
                    return (("?", v),)
                res += (("tab" if ch == 9 else "sp", n),)
                pos = add(pos, lin(n))
            if not any(x == ZERO and not add(pos, o, -1) for o, x in ends) and not st.mem.get((("bufz", v[1][1]), NOOFF)):
                zs = zeros(st)
                if st.mem.get((("bufz", v[1][1]), NOOFF)) is None and all(x == ZERO and not is_zero(add(pos, o, -1), zs) for o, x in ends):
                    return (("bad", "the string is not terminated where it ends"),)
                return (("?", v),)
            sz = lin(st.mem.get((("bufsz", v[1][1]), NOOFF), UNK))
            if sz is not None:
                d = add(sz, pos, -1)
                if set(d) <= {1} and d.get(1, 0) < 1:
                    return (("bad", "the string is longer than the memory allocated for it"),)
            return res
        if v[0] == "u" and v[1][0] == "ind":
            return (v[1],)
        return Draw.outs(self, sim, st, v)


def flat(ps):
    out = []
    for p in ps:
        if p[0] == "line" and len(p) == 2 and isinstance(p[1], tuple):
            out += flat(p[1])
        else:
            out.append(p)
    return out


def plain(tree, rep, mod, V):
    need_fn(mod, "output_input")
    O, I, L, B = fields(mod, "opt_t"), fields(mod, "input_t"), fields(mod, "line_t"), fields(mod, "bxstr_t")
    lsz = mod.structs["struct.line_t"]["size"]
    n = 0
    for trim in (0, 1):
        for te in "euk":
            for nl, hole, final in ((3, None, 1), (3, None, 0), (3, 1, 1), (1, None, 0), (0, None, 1)):
                h = Plain(mod)
                s = DrawSim(mod, h, cap=400)
                st = St(q=((), ()))
                g = lambda nm, f, t, v: st.mem.__setitem__((("g", nm), (t[f][0], ())), v)
                for f, v in (("tabexp", ("c", ord(te))), ("tabstop", ("c", TS)), ("outfile", OUT), ("eol", EOL)):
                    g("opt", f, O, v)
                st.mem[(("g", "stderr"), NOOFF)] = ("u", "stderr")
                for f, v in (("indent", IND), ("num_lines", ("c", nl)), ("final_newline", ("c", final)), ("lines", ("p", LINES, NOOFF))):
                    g("input", f, I, v)
                for v in (OUT, EOL):
                    st.facts[("ne", v)] = frozenset((0,))
                for i in range(nl):
                    st.mem[(LINES, (i * lsz + L["text"][0], ()))] = TXT(i) if i != hole else ZERO
                    st.facts[("ne", TXT(i))] = frozenset((0,))
                    for x in (TXT(i), ("u", ("rtrim", (("line", i),)))):
                        st.mem[(("s", x), (B["indent"][0], ()))] = ("u", ("indent of line", i))
                where = "%d lines%s, tab mode %s, the input %s with a line break%s" % (nl, ", line %d removed" % (hole + 1) if hole is not None else "", te, "ends" if final else "does not end", ", trimming only" if trim else "")
                res = s.run("output_input", [("c", trim)], st)
                if s.overrun or s.merged:
                    rep.unresolved("output of %s: too many paths" % where)
                    n += 1
                    continue
                for rv, x in res:
                    n += 1
                    if any(p[0] == "bad" for p in x.q[0]):
                        V("buffer", "blanks in front of the text: %s [%s]" % ([p[1] for p in x.q[0] if p[0] == "bad"][0], where))
                        continue
                    got = split_lines(x.q[0])
                    zs = zeros(x)
                    # texts are trimmed and kept
                    for i in range(nl):
                        t = cell(x, LINES, i * lsz + L["text"][0])
                        if i == hole:
                            continue
                        b = ("u", ("blank", i))
                        lo, hi = x.facts.get(("rng", b), (None, None))
                        blank = False if x.facts.get(("eq", b)) == 0 or (lo, hi) == (0, 0) or x.facts.get(("eq", b)) == ZERO else True if 0 in x.facts.get(("ne", b), ()) else None
                        if t == ("u", ("cat", ())) and blank:
                            continue
                        if trim and blank is not False and t == ("u", ("rtrim", (("line", i),))):
                            V("blank", "of a line of nothing but blanks these are kept as text of the box to be mended, which gets wider [%s]" % where)
                        elif t == TXT(i):
                            V("untrimmed", "the trailing white space of a line is kept [%s]" % where)
                        elif t != ("u", ("rtrim", (("line", i),))):
                            k = h.text(s, x, t)
                            if not k or k[0][0] != "?":
                                V("kept", "a line is replaced by another text [%s]" % where)
                    if trim:
                        if x.q[0]:
                            V("printed", "the text is printed before the box is mended [%s]" % where)
                        continue
                    want = [i for i in range(nl) if i != hole]
                    if any(p[0] == "?" for l, _ in got for p in flat(l)):
                        rep.unresolved("output of %s" % where)
                        continue
                    if len(got) != len(want):
                        V("count", "%d lines are printed instead of %d [%s]" % (len(got), len(want), where))
                        continue
                    for k, ((line, eol), i) in enumerate(zip(got, want)):
                        last = k == len(want) - 1
                        if eol != (not last or bool(final)):
                            V("eol:%s" % ("last" if last else "inner"), "line %d of %d is printed %s line break [%s]" % (k + 1, len(want), "with" if eol else "without", where))
                        a = flat(line)
                        f, cut, org, bad = {}, {}, None, False
                        while a and a[0][0] in ("sp", "tab", "ind"):
                            p = a.pop(0)
                            y = lin(p[3] if p[0] == "ind" else p[1])
                            if p[0] == "ind" and p[1] != ("c", i):
                                V("tabs:line", "tabs in the indentation are taken from another line [%s]" % where)
                            if y is None:
                                bad = True
                                break
                            f = add(f, y, TS if p[0] == "tab" else 1)
                        if bad or len(a) > 1:
                            rep.unresolved("line %d of %s" % (k + 1, where))
                            continue
                        if a and a[0][0] == "cutp":
                            cut = lin(a[0][2])
                            a = list(a[0][1])
                        if a and a[0][0] == "rtrim":
                            a = list(a[0][1])
                        if cut is None or any(p[0] not in ("line", "cutp") for p in a):
                            rep.unresolved("line %d of %s" % (k + 1, where))
                            continue
                        if not a and not f and 0 in x.facts.get(("ne", ("u", ("blank", i))), ()):
                            continue
                        if [p for p in a] != [("line", i)]:
                            V("text", "line %d shows %s [%s]" % (k + 1, "another line" if a and a[0][0] == "line" else "another text", where))
                            continue
                        if not is_zero(add(f, cut, -1), zs):
                            V("indent", "the indentation printed is not as wide as the one taken off the text [%s]" % where)
                        own = {("u", ("indent of line", i)): 1}
                        if cut and cut not in (own, {IND: 1}):
                            V("cut", "more or less than the indentation of the line is replaced [%s]" % where)
                        if te == "u" and not is_zero(add(cut, own, -1), zs):
                            V("mode:u", "indentation is not converted into tabs [%s]" % where)
    return n


# ---- indentation with the tabs of the line (tab mode k) ---------------------------------------------------------------------------------
class Keep(UHooks):
    def __init__(self, mod):
        self.mod = mod
        self.cap = {}
        self.over = None

    def call2(self, sim, st, I, name, args, ctx):
        def val(v):
            st.facts[("ne", v)] = frozenset((0,))
            return [(v, st)]
        if name in ("malloc", "calloc"):
            v = ("u", ("mem", I.id))
            if args[0][0] == "c" and (name == "malloc" or args[1][0] == "c"):
                self.cap[("s", v)] = args[0][1] * (args[1][1] if name == "calloc" else 1)
            if name == "calloc" and self.cap.get(("s", v), 9999) < 400:
                for o in range(0, self.cap[("s", v)], 4):
                    st.mem[(("s", v), (o, ()))] = ZERO
            return val(v)
        if name in ("new_empty_string32",):
            v = ("u", ("mem", I.id))
            st.mem[(("s", v), NOOFF)] = ZERO
            return val(v)
        if name == "u32_nspaces" and args[0][0] == "c":
            v = ("u", ("mem", I.id))
            put(st, ("s", v), " " * args[0][1])
            return val(v)
        if name == "u32_set" and args[2][0] == "c":
            l = sim.loc(args[0])
            if l and l[0] in self.cap and not l[1][1] and l[1][0] + 4 * args[2][1] > self.cap[l[0]]:
                self.over = "beyond"
        return self.str_call(sim, st, I, name, args, ctx)

    def store(self, sim, st, I, loc, val, ctx):
        if loc and loc[0] in self.cap and not loc[1][1]:
            if loc[1][0] < 0:
                self.over = "in front of"
            elif loc[1][0] >= self.cap[loc[0]]:
                self.over = "beyond"


def columns(t):
    c = 0
    for x in t:
        c += TS - c % TS if x == "\t" else 1
    return c


def kept(tree, rep, mod, V):
    need_fn(mod, "tabbify_indent")
    O, I, L = fields(mod, "opt_t"), fields(mod, "input_t"), fields(mod, "line_t")
    lsz = mod.structs["struct.line_t"]["size"]
    n = 0
    for pre in ("", "\t", "\t\t", "  \t", "    \t", "\t  ", "\t\t\t", "  \t\t  ", " \t \t   ", "    ", "\t   \t", "        \t  ", "   \t\t\t "):
        w = columns(pre)
        for short in (0, 1, 3):
            ln = w - short
            if ln < 0:
                continue
            for lineno in (0, 1):
                h = Keep(mod)
                s = Sim(mod, h, cap=60, budget=100000)
                st = St(q=0)
                g = lambda nm, f, t, v: st.mem.__setitem__((("g", nm), (t[f][0], ())), v)
                g("opt", "tabexp", O, ("c", ord("k")))
                g("opt", "tabstop", O, ("c", TS))
                g("input", "indent", I, ("c", ln))
                g("input", "num_lines", I, ("c", 2))
                g("input", "lines", I, ("p", LINES, NOOFF))
                tabs, c = [], 0
                for x in pre + "x\t":          # another tab behind the indentation
                    if x == "\t":
                        tabs.append(c)
                    c += TS - c % TS if x == "\t" else 1
                for k in (0, 1):
                    arr = ("h", "tabs", k)
                    tl = tabs if k == lineno else [0]
                    st.mem[(LINES, (k * lsz + L["tabpos"][0], ()))] = ("p", arr, NOOFF)
                    st.mem[(LINES, (k * lsz + L["tabpos_len"][0], ()))] = ("c", len(tl))
                    for i, t in enumerate(tl):
                        st.mem[(arr, (8 * i, ()))] = ("c", t)
                want, c = "", 0
                for x in pre:
                    e = c + (TS - c % TS if x == "\t" else 1)
                    if e > ln:
                        want += " " * (ln - c)
                        break
                    want += x
                    c = e
                for rv, x in s.run("tabbify_indent", [("c", lineno), ("u", "blanks"), ("c", ln)], st):
                    n += 1
                    if h.over:
                        V("kept:memory", "writes %s the memory allocated [indentation %r]" % (h.over, pre[:]))
                        break
                    if rv == ZERO:
                        V("kept:none", "no indentation although the line exists [indentation %r]" % pre)
                        continue
                    l = sim_loc(s, rv)
                    t = get(x, l) if l else None
                    if t is None or any(c[0] != "c" for c in t):
                        rep.unresolved("indentation %r, %d columns" % (pre, ln))
                        continue
                    t = "".join(chr(c[1]) for c in t)
                    if columns(t) != ln:
                        V("kept:width", "the indentation takes %d columns instead of %d [indentation %r of the line]" % (columns(t), ln, pre))
                    elif t != want:
                        V("kept:tabs", "the indentation is %r instead of %r" % (t, want))
    return n


def sim_loc(s, v):
    return s.loc(v) if v[0] in ("p", "u") else None


def breaks(tree, rep, mod, V):
    S = Streams(mod)
    fns = set()
    for r in RESULT + ("output_box",):
        if r in mod.defined:
            fns |= mod.reachable(r)
    lits = 0

    def bad(t):
        return t is not None and ("\n" in t or "\r" in t)
    for s in S.sites:
        if "file" not in s.stream or s.f.name not in fns:
            continue
        if s.name in ("puts",):
            V("puts:" + s.f.name, "%s %s: prints a line break of its own" % (s.f.name, s.I.where()))
        vals = ([s.fmt] if s.fmt is not None else []) + list(s.args)
        if s.name in ("fputc", "putc", "putchar"):
            c = s.I.ops[0]
            if c[0] == "c" and c[1] in (10, 13):
                V("char:" + s.f.name, "%s %s: a fixed line break is printed instead of the one asked for" % (s.f.name, s.I.where()))
            lits += 1
        for v in vals:
            for t in literals(mod, s.f, v):
                lits += t is not None
                if bad(t):
                    V("literal:" + s.f.name, "%s %s: a fixed line break is printed instead of the one asked for" % (s.f.name, s.I.where()))
    # writers of the field
    w = 0
    from effects import name_of
    cl = mod.reachable("process_commandline") if "process_commandline" in mod.defined else set()
    for f in mod.defined.values():
        for I in f.all_ins():
            if I.op == "store":
                lf = mod.last_field(f, I.ops[1])
                if lf and lf[1] == "eol":
                    w += 1
                    if f.name not in cl:
                        V("writer:" + f.name, "%s %s: the line break asked for is replaced" % (f.name, I.where()))
    return lits, w


def check(tree, rep):
    mod = tree.module()
    lits, w = breaks(tree, rep, mod, lambda k, t: rep.violation(k, t))
    n = plain(tree, rep, mod, lambda k, t: rep.violation(k, "output_input (src/remove.c): " + t))
    k = kept(tree, rep, mod, lambda k, t: rep.violation(k, "tabbify_indent (src/tools.c): " + t))
    rep.cov.update(literals=lits, writers=w, paths=n, tab_indentations=k,
                   explanation="%d fixed texts which reach the output stream were searched for line breaks; %d places set the line break asked for; output_input was interpreted on %d paths (tab modes, final line break, removed lines, trimming only); tabbify_indent for %d layouts of tabs and blanks" % (lits, w, n, k))
    rep.assumptions += ["line breaks within the sample of a design are those of the configuration file", "the line breaks of drawn boxes are checked with C18"]
    rep.need(lits > 20 and n > 20 and w >= 1 and k > 40, "output not found")
