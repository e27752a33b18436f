"""C38: texts are measured, cut, trimmed and joined by their visible characters."""
from itertools import product
from bx import fields
from common import Broken
from sim import Sim, St, UNK, ZERO, NOOFF
from ustr import UHooks

ESC = 27
WIDE, COMB, EMSP = 0x4e2d, 0x301, 0x2003
COLOR, RESET = (ESC, 0x5b, 0x33, 0x31, 0x6d), (ESC, 0x5b, 0x30, 0x6d)
# one letter per element of a text
ITEM = {"a": (97,), "b": (98,), "x": (120,), " ": (32,), "t": (9,), "W": (WIDE,), "Z": (COMB,), "m": (EMSP,), "C": COLOR, "R": RESET}
SHOW = {"t": "<tab>", "W": "<2 columns>", "Z": "<0 columns>", "m": "<em space>", "C": "<color>", "R": "<reset>"}


def show(t):
    return "'" + "".join(SHOW.get(c, c) for c in t) + "'" if t is not None else "NULL"


def chars(t):
    return [x for c in t for x in ITEM[c]]


def width(c):
    return 2 if 0x4e00 <= c < 0xa000 else 0 if c == COMB or c < 32 else 1


class Text:
    """what is known of a text by its elements"""
    def __init__(self, t):
        self.t = t
        self.chars = chars(t)
        self.vis, self.first, self.cols, self.asc, self.invis = [], [], 0, "", 0
        self.elem, self.felem = [], []     # index of the element of each visible character, and of where it begins
        i, cand = 0, None
        for k, c in enumerate(t):
            if c in "CR":
                cand = (i, k) if c == "C" else None
                self.invis += len(ITEM[c])
            else:
                self.vis.append(i)
                self.elem.append(k)
                self.first.append(cand[0] if cand else i)
                self.felem.append(cand[1] if cand else k)
                cand = None
                w = 1 if c == "t" else width(ITEM[c][0])
                self.cols += w
                self.asc += (" " if c in " tm" else "x" if c in "WZ" else c) * w
            i += len(ITEM[c])
        self.vis.append(i)
        self.first.append(i)
        self.felem.append(len(t))
        v = [c for c in t if c not in "CR"]
        self.indent = len(v) - len("".join("." if c in " tm" else "!" for c in v).lstrip("."))
        self.blank = self.indent == len(v)
        self.trailing = 0 if self.blank else len(v) - len("".join("." if c in " tm" else "!" for c in v).rstrip("."))
        self.n = len(v)
        self.visible = "".join(v)

    def part(self, a, b):
        """visible characters a up to b, with what belongs to them"""
        return self.t[self.felem[a]:self.felem[b]]


class Str(UHooks):
    """strings in memory, all of whose characters are known"""
    def __init__(self, mod):
        UHooks.__init__(self)
        self.size, self.nr, self.bad = {}, 0, None

    def block(self, n):
        self.nr += 1
        b = ("h", "blk", self.nr)
        self.size[b] = n
        return b

    def chk(self, l, n, what):
        b, (o, t) = l
        if b in self.size and not t and not (0 <= o and o + n <= self.size[b]):
            self.bad = "%s %d bytes at offset %d of a block of %d bytes" % (what, n, o, self.size[b])

    def load(self, sim, st, I, loc, ctx):
        if not loc[1][1]:
            self.chk(loc, 1, "reads")
        return None

    def store(self, sim, st, I, loc, val, ctx):
        if not loc[1][1]:
            self.chk(loc, 1, "writes")
        return None

    def text(self, sim, st, a, w):
        l = sim.loc(a)
        r = []
        if l is None or l[1][1]:
            return None
        for i in range(2000):
            v = self.at(sim, st, ("p", l[0], (l[1][0] + w * i, ())))
            if v is None and l[0] in self.size and (l[0], "dflt0") in self.zero:
                v = ZERO
            if l[0][0] == "g" and v is None:
                g = sim.lit(a)
                return [ord(c) for c in g] if g is not None and w == 1 else None
            if v is None or v[0] != "c":
                return None
            if v[1] == 0:
                self.chk((l[0], (l[1][0] + w * i, ())), w, "reads")
                return r
            r.append(v[1] & (0xff if w == 1 else 0xffffffff))
        return None

    zero = ()

    def put(self, st, b, o, cs, w):
        for i, c in enumerate(cs):
            st.mem[(b, (o + w * i, ()))] = ("c", c)

    def fresh(self, st, cs, w):
        b = self.block(w * (len(cs) + 1))
        self.put(st, b, 0, list(cs) + [0], w)
        return ("p", b, NOOFF)

    def cells(self, st, b):
        return {m[1][0]: v for m, v in st.mem.items() if m[0] == b and m[1] != "dflt" and isinstance(m[1], tuple) and not m[1][1]}

    def call2(self, sim, st, I, name, args, ctx):
        num = lambda k: args[k][1] if args[k][0] == "c" else None
        if name in ("malloc", "calloc"):
            n = num(0) if name == "malloc" else num(0) * num(1) if num(0) is not None and num(1) is not None else None
            if n is None or n > 100000:
                return None
            b = self.block(n)
            if name == "calloc":
                w = num(1)
                step = w if w in (1, 4, 8) else 4
                for o in range(0, n, step):
                    st.mem[(b, (o, ()))] = ZERO
            return [(("p", b, NOOFF), st)]
        if name == "realloc":
            l, n = sim.loc(args[0]), num(1)
            if n is None or l is None or l[0] not in self.size:
                return None
            b = self.block(n)
            for o, v in self.cells(st, l[0]).items():
                if o < n:
                    st.mem[(b, (o, ()))] = v
            return [(("p", b, NOOFF), st)]
        if name == "free":
            return [(UNK, st)]
        if name in ("memset", "u32_set"):
            l, n = sim.loc(args[0]), num(2)
            w = 4 if name == "u32_set" else 1
            if l is None or l[1][1] or n is None or n > 5000:
                return None
            if n:
                self.chk(l, n * w, "sets")
            if w == 1 and args[1] == ZERO and l[0] not in self.size:
                return None
            for i in range(n):
                st.mem[(l[0], (l[1][0] + w * i, ()))] = args[1]
            return [(args[0], st)]
        if name in ("memcpy", "memmove", "u32_cpy", "u32_move"):
            d, s, n = sim.loc(args[0]), sim.loc(args[1]), num(2)
            w = 4 if name[0] == "u" else 1
            if None in (d, s, n) or d[1][1] or s[1][1] or d[0] not in self.size or s[0] not in self.size:
                return None
            if n:
                self.chk(d, n * w, "copies")
                self.chk(s, n * w, "copies")
            for o, v in self.cells(st, s[0]).items():
                if s[1][0] <= o < s[1][0] + n * w:
                    st.mem[(d[0], (o - s[1][0] + d[1][0], ()))] = v
            return [(args[0], st)]
        if name in ("strdup", "u32_strdup"):
            w = 4 if name[0] == "u" else 1
            t = self.text(sim, st, args[0], w)
            return [(self.fresh(st, t, w), st)] if t is not None else None
        if name in ("strlen", "u32_strlen"):
            t = self.text(sim, st, args[0], 4 if name[0] == "u" else 1)
            return [(("c", len(t)), st)] if t is not None else None
        if name in ("strcpy", "strcat", "u32_strcpy", "u32_strcat"):
            w = 4 if name[0] == "u" else 1
            t, d = self.text(sim, st, args[1], w), sim.loc(args[0])
            if t is None or d is None or d[1][1]:
                return None
            o = d[1][0]
            if name.endswith("cat"):
                u = self.text(sim, st, args[0], w)
                if u is None:
                    return None
                o += w * len(u)
            self.chk((d[0], (o, ())), w * (len(t) + 1), "copies")
            self.put(st, d[0], o, t + [0], w)
            return [(args[0], st)]
        if name in ("u32_strncmp", "strncmp", "u32_strcmp", "strcmp", "strncasecmp", "strcasecmp"):
            w = 4 if name[0] == "u" else 1
            a, b = (self.text(sim, st, x, w) for x in args[:2])
            if a is None or b is None:
                return None
            if "case" in name:
                a, b = ([ord(chr(c).lower()) for c in x] for x in (a, b))
            if len(args) > 2:
                if num(2) is None:
                    return None
                a, b = (x[:num(2)] for x in (a, b))
            return [(("c", 0 if a == b else 1 if a > b else 0xffffffff), st)]
        if name in ("u32_strchr", "u32_strrchr", "strchr", "strrchr"):
            w = 4 if name[0] == "u" else 1
            t = self.text(sim, st, args[0], w)
            l = sim.loc(args[0])
            if t is None or num(1) is None:
                return None
            t = t + [0]
            at = [i for i, c in enumerate(t) if c == num(1)]
            if not at:
                return [(ZERO, st)]
            i = at[-1] if "rchr" in name else at[0]
            return [(("p", l[0], (l[1][0] + w * i, ())) if l[0][0] != "g" else ("c", 1), st)]
        if name == "strspn":
            t, acc = self.text(sim, st, args[0], 1), self.text(sim, st, args[1], 1)
            if t is None or acc is None:
                return None
            n = 0
            while n < len(t) and t[n] in acc:
                n += 1
            return [(("c", n), st)]
        if name == "u32_strwidth":
            t = self.text(sim, st, args[0], 4)
            if t is None:
                return None
            return [(("c", sum(max(0, width(c)) for c in t)), st)]
        if name == "uc_width" and num(0) is not None:
            return [(("c", width(num(0)) if num(0) >= 32 else 0), st)]
        if name == "uc_is_blank" and num(0) is not None:
            return [(("c", int(num(0) in (9, 32, EMSP))), st)]
        if name in ("uc_is_property_white_space", "uc_is_property_bidi_whitespace") and num(0) is not None:
            return [(("c", int(num(0) in (9, 10, 11, 12, 13, 32, EMSP))), st)]
        if name in ("u32_strconv_from_arg", "u32_strconv_from_encoding", "u32_strconv_from_input"):
            t = self.text(sim, st, args[0], 1)
            if t is None:
                return None
            return [(self.fresh(st, t, 4), st)]
        if name in ("u32_strconv_to_output", "u32_strconv_to_arg", "u32_strconv_to_encoding"):
            t = self.text(sim, st, args[0], 4)
            return [(("u", ("out", tuple(t))), st)] if t is not None else None
        if name in ("bx_fprintf", "fprintf", "fflush", "perror", "bx_fprintf_original"):
            self.told = True
            return [(ZERO, st)]
        return self.str_call(sim, st, I, name, args, ctx)

    told = False


class Case:
    """one function applied to a text"""
    def __init__(self, env, V, fn, texts, more=(), colored=True, raw=False):
        self.env, self.V, self.fn, self.texts = env, V, fn, texts
        self.h = Str(env.mod)
        self.s = Sim(env.mod, self.h, cap=60, budget=300000)
        self.s.fuel = None
        st = St(q=0)
        if "color_output_enabled" in env.mod.globals:
            st.mem[(("g", "color_output_enabled"), NOOFF)] = ("c", int(colored))
        self.args = []
        self.st = st
        for t in texts:
            self.args.append(ZERO if t is None else self.h.fresh(st, chars(t), 4) if raw else self.make(t))
        for m in more:
            self.args.append(m if isinstance(m, tuple) else ("c", m))

    def make(self, t):
        x, st, h, B = Text(t), self.st, self.h, self.env.B
        b = h.block(self.env.bsz)
        w = lambda f, v: st.mem.__setitem__((b, (B[f][0], ())), v)
        w("memory", h.fresh(st, x.chars, 4))
        w("ascii", h.fresh(st, [ord(c) for c in x.asc], 1))
        for f, v in (("num_columns", x.cols), ("num_chars", len(x.chars)), ("num_chars_visible", x.n), ("num_chars_invisible", x.invis), ("indent", x.indent), ("trailing", x.trailing)):
            w(f, ("c", v))
        for f, v in (("first_char", x.first), ("visible_char", x.vis)):
            a = h.block(8 * len(v))
            h.put(st, a, 0, v, 8)
            w(f, ("p", a, NOOFF))
        return ("p", b, NOOFF)

    def run(self):
        """(result, state) or None if undecided"""
        if self.fn not in self.env.mod.defined:
            raise Broken("function %s not found" % self.fn)
        r = list(self.s.run(self.fn, self.args, self.st))
        self.env.n += 1
        if self.h.bad:
            self.V("memory:" + self.fn, "%s: %s [%s]" % (self.fn, self.h.bad, ", ".join(show(t) for t in self.texts)))
            return None
        if len(r) != 1 or r[0][0] == UNK:
            self.env.open += 1
            return None
        return r[0]

    def chars(self, st, v):
        return self.h.text(self.s, st, v, 4) if v != ZERO else None


class Env:
    def __init__(self, tree):
        self.mod = tree.module()
        self.B = fields(self.mod, "bxstr_t")
        for k in ("struct.bxstr_t", "bxstr_t", "struct._bxstr_t"):
            if k in self.mod.structs:
                self.bsz = self.mod.structs[k]["size"]
        self.n = self.open = 0


def same(env, V, c, fn, rv, st, t, what):
    """is the text in *rv the one made of the elements t, and recorded as such?"""
    x = Text(t)
    l = c.s.loc(rv)
    if rv == ZERO or l is None:
        if rv == ZERO:
            V("none:" + fn, "%s: no result, %s expected [%s]" % (fn, show(t), what))
        else:
            env.open += 1
        return
    g = lambda f: st.mem.get((l[0], (l[1][0] + env.B[f][0], ())))
    mem = c.chars(st, g("memory")) if g("memory") else None
    if mem is None:
        env.open += 1
        return
    if mem != x.chars:
        V("text:" + fn, "%s: the result is %s instead of %s [%s]" % (fn, decode(mem), show(t), what))
        return
    asc = c.h.text(c.s, st, g("ascii"), 1)
    if asc is not None and asc != [ord(k) for k in x.asc]:
        V("ascii:" + fn, "%s: the plain form of %s is %r instead of %r [%s]" % (fn, show(t), "".join(map(chr, asc)), x.asc, what))
        return
    for f, v, nm in (("num_columns", x.cols, "columns"), ("num_chars", len(x.chars), "characters"), ("num_chars_visible", x.n, "visible characters"), ("num_chars_invisible", x.invis, "invisible characters"),
                     ("indent", x.indent, "leading blanks"), ("trailing", x.trailing, "trailing blanks")):
        w = g(f)
        if w is None or w[0] != "c":
            env.open += 1
        elif f == "trailing" and x.blank and fn != "bxs_from_unicode":
            continue       # a text of blanks only: those are its indentation, or its end
        elif w[1] != v:
            V("%s:%s" % (f, fn), "%s: %d %s are recorded for %s, which has %d [%s]" % (fn, w[1], nm, show(t), v, what))
            return
    for f, v, nm in (("visible_char", x.vis, "visible character"), ("first_char", x.first, "beginning of visible character")):
        a = c.s.loc(g(f)) if g(f) else None
        for i, p in enumerate(v):
            w = st.mem.get((a[0], (a[1][0] + 8 * i, ()))) if a else None
            if w is None and a and a[0] in c.h.size:
                V("%s:%s:unset" % (f, fn), "%s: the %s %d of %s is not recorded at all [%s]" % (fn, nm, i + 1, show(t), what))
                return
            if w is None or w[0] != "c":
                env.open += 1
            elif w[1] != p:
                V("%s:%s" % (f, fn), "%s: the %s %d of %s is recorded at %d instead of %d [%s]" % (fn, nm, i + 1, show(t), w[1], p, what))
                return


def decode(cs):
    r, i = "", 0
    while i < len(cs):
        for k, v in sorted(ITEM.items(), key=lambda e: -len(e[1])):
            if tuple(cs[i:i + len(v)]) == v:
                r += SHOW.get(k, k)
                i += len(v)
                break
        else:
            r += "<%#x>" % cs[i]
            i += 1
    return "'%s'" % r


TEXTS = ("", "a", " ", "ab", "a b", " a", "a ", "  a  ", "   ", " ta", "a t", "Wa", "aW", " W ", "aZb", "mam", "Ca", "CaR", "aCbR", " CaR ", "C aR", "aC bR", "CaRb", " CaRCbR ", "WCaRt", "CWR", "aCR", "aR b",
         "  CaZbR  ", "abxabxabx", "CaRCbRCxRab", " a b x ", "WWWW", "ttab", "  C aR ", "mCaRm", "abxab W xCabR ", "aaaaaaaaaaaaaaaa", "WWWWWWWWWW", "C  RaC  R")
PLAIN = tuple(t for t in TEXTS if not set(t) & set("CRWZm"))


def measure(env, V):
    # all short texts, and the longer ones
    short = ["".join(p) for k in range(1, 4) for p in product("a tWZCR", repeat=k) if "CC" not in "".join(p) and "CR" not in "".join(p)]
    for t in list(TEXTS) + short:
        c = Case(env, V, "bxs_from_unicode", [t], raw=True)
        r = c.run()
        if r:
            same(env, V, c, "bxs_from_unicode", r[0], r[1], t, show(t))
    for t in TEXTS:
        c = Case(env, V, "bxs_strdup", [t])
        r = c.run()
        if r:
            same(env, V, c, "bxs_strdup", r[0], r[1], t, show(t))
    if "bxs_from_ascii" in env.mod.defined:
        for t in PLAIN:
            if "t" in t:
                continue
            c = Case(env, V, "bxs_from_ascii", [])
            c.args = [c.h.fresh(c.st, chars(t), 1)]
            r = c.run()
            if r:
                same(env, V, c, "bxs_from_ascii", r[0], r[1], t, show(t))


def steps(env, V):
    """advance_next32, is_csi_reset, count_invisible_chars"""
    two = (ESC, 0x4d)
    seqs = [COLOR, RESET, (ESC, 0x5b, 0x6d), (ESC, 0x28, 0x42), two, (ESC, 0x5b, 0x33, 0x38, 0x3b, 0x35, 0x3b, 0x31, 0x6d), (ESC, 0x5b, 0x40), (ESC, 0x5b, 0x31, 0x7e), (ESC, 0x40), (ESC, 0x5f), (97,), (WIDE,), (32,)]
    for q in seqs:
        for tail in ((), (98,), COLOR, (32, 98)):
            c = Case(env, V, "advance_next32", [])
            st = c.st
            out = ("h", "out", 0)
            st.mem[(out, NOOFF)] = ("c", 77)
            a = c.h.fresh(st, q + tail, 4)
            c.args = [a, ("p", out, NOOFF)]
            r = c.run()
            if not r:
                continue
            l = c.s.loc(r[0])
            n = r[1].mem.get((out, NOOFF))
            want = len(q) if q[0] == ESC else 0
            if l and l[0] == a[1] and not l[1][1] and l[1][0] != 4 * len(q):
                V("step", "advance_next32: continues %d characters behind the start of %s [followed by %s]" % (l[1][0] // 4, decode(q), decode(tail)))
            elif n and n[0] == "c" and n[1] != want:
                V("step:count", "advance_next32: %d characters of %s are counted as invisible instead of %d [followed by %s]" % (n[1], decode(q), want, decode(tail)))
    for q, want in (("[0m", 1), ("[m", 1), ("(B", 1), ("[39m", 1), ("[49m", 1), ("[10m", 1), ("[59m", 1), ("[75m", 1), ("[1m", 0), ("[31m", 0), ("[30m", 0), ("[38;5;1m", 0), ("[40m", 0), ("[7m", 0), ("[90m", 0), ("[11m", 0), ("[59", 0), ("M", 0), ("", 0)):
        c = Case(env, V, "is_csi_reset", [])
        c.args = [c.h.fresh(c.st, [ESC] + [ord(k) for k in q] + ([98] if want else []), 4)]
        r = c.run()
        if r and r[0][0] == "c" and bool(r[0][1]) != bool(want):
            V("reset", "is_csi_reset: the escape sequence ESC %s is %staken for one which ends a color" % (q, "" if r[0][1] else "not "))
    for t in TEXTS:
        if "t" in t:
            continue     # tabs have been replaced when this is called
        x = Text(t)
        c = Case(env, V, "count_invisible_chars", [t], raw=True)
        o = [("h", "out", k) for k in range(3)]
        c.args += [("p", b, NOOFF) for b in o]
        r = c.run()
        if not r or r[0][0] != "c":
            continue
        st = r[1]
        if r[0][1] != x.invis:
            V("invisible", "count_invisible_chars: %d invisible characters in %s instead of %d" % (r[0][1], show(t), x.invis))
        e = st.mem.get((o[0], NOOFF))
        if e and e[0] == "c" and e[1] != t.count("C") + t.count("R"):
            V("invisible:esc", "count_invisible_chars: %d escape sequences in %s" % (e[1], show(t)))
        a = st.mem.get((o[1], NOOFF))
        a = c.h.text(c.s, st, a, 1) if a else None
        asc, pos, i = "", [], 0
        for k in t:
            if k not in "CR":
                w = width(ITEM[k][0])
                asc += ("x" if k in "WZm" else k) * w
                pos += [i] * w
            i += len(ITEM[k])
        if a is not None and a != [ord(k) for k in asc]:
            V("invisible:ascii", "count_invisible_chars: the plain form of %s is %r instead of %r" % (show(t), "".join(map(chr, a)), asc))
            continue
        m = st.mem.get((o[2], NOOFF))
        m = c.s.loc(m) if m and m != ZERO else None
        for k, p in enumerate(pos):
            v = st.mem.get((m[0], (m[1][0] + 8 * k, ()))) if m else None
            if v and v[0] == "c" and v[1] != p:
                V("invisible:map", "count_invisible_chars: column %d of %s is said to be at character %d instead of %d" % (k + 1, show(t), v[1], p))
                break


def cut(env, V):
    def result(fn, t, more, want, texts=None):
        c = Case(env, V, fn, [t] + list(texts or ()), more)
        r = c.run()
        if r:
            same(env, V, c, fn, r[0], r[1], want, ", ".join([show(t)] + [str(m) for m in more]))
            if fn not in ("bxs_append_spaces",) and t is not None:
                same(env, V, c, fn, c.args[0], r[1], t, "its argument " + show(t) + ", " + str(list(more)))

    def chars_of(fn, t, more, want, texts=()):
        c = Case(env, V, fn, [t] + list(texts), more)
        r = c.run()
        if r:
            s = c.chars(r[1], r[0])
            if s is None:
                env.open += 1
            elif s != (chars(want) if isinstance(want, str) else want):
                V("text:" + fn, "%s: the result is %s instead of %s [%s]" % (fn, decode(s), show(want), ", ".join([show(t)] + [str(m) for m in more])))

    def number(fn, t, more, want, texts=()):
        c = Case(env, V, fn, [t] + list(texts), more)
        r = c.run()
        if r and r[0][0] == "c" and bool(r[0][1]) != bool(want):
            V("answer:" + fn, "%s: answers %s for %s" % (fn, "yes" if r[0][1] else "no", ", ".join([show(x) for x in [t] + list(texts)] + [str(m) for m in more])))

    has = lambda f: f in env.mod.defined
    for t in TEXTS:
        x = Text(t)
        if has("bxs_trim"):
            result("bxs_trim", t, (), "" if x.blank else x.part(x.indent, x.n - x.trailing) if x.indent or x.trailing else t)
        if has("bxs_rtrim") and not x.blank:
            result("bxs_rtrim", t, (), t[:x.felem[x.n - x.trailing]] if x.trailing else t)
        for n in range(0, x.n + 2):
            if has("bxs_cut_front"):
                result("bxs_cut_front", t, (n,), "" if n >= x.n else t if n == 0 else t[x.felem[n]:])
            if has("bxs_first_char_ptr"):
                chars_of("bxs_first_char_ptr", t, (n,), t[x.felem[min(n, x.n)]:])
            if has("bxs_ltrim") and n <= x.n:
                chars_of("bxs_ltrim", t, (n,), t[x.felem[min(n, x.indent)]:])
        for n in range(0, len(x.chars) + 2):
            if has("bxs_is_visible_char"):
                number("bxs_is_visible_char", t, (n,), n in x.vis[:-1])
        if has("bxs_last_char_ptr"):
            chars_of("bxs_last_char_ptr", t, (), "")
        if has("bxs_unindent_ptr") and "m" not in t:
            chars_of("bxs_unindent_ptr", t, (), t[x.felem[x.indent]:])
        if has("bxs_filter_visible"):
            chars_of("bxs_filter_visible", t, (), x.visible)
        if has("bxs_is_blank"):
            number("bxs_is_blank", t, (), x.blank)
        if has("bxs_is_empty"):
            number("bxs_is_empty", t, (), not t)
        for n in (0, 1, 3):
            if has("bxs_prepend_spaces") and "tt" not in t and not x.blank:
                result("bxs_prepend_spaces", t, (n,), " " * n + t if not t[:1] == "R" else t) if t[:1] != "R" else None
            if has("bxs_append_spaces"):
                c = Case(env, V, "bxs_append_spaces", [t], (n,))
                r = list(c.s.run("bxs_append_spaces", c.args, c.st))
                env.n += 1
                if c.h.bad:
                    V("memory:bxs_append_spaces", "bxs_append_spaces: %s [%s, %d]" % (c.h.bad, show(t), n))
                elif len(r) == 1 and (not t or t[-1] != "C") and not x.blank and "CR" not in t:
                    same(env, V, c, "bxs_append_spaces", c.args[0], r[0][1], t + " " * n, "%s, %d" % (show(t), n))
        if has("btrim32"):
            c = Case(env, V, "btrim32", [t], raw=True)
            ln, p = ("h", "len", 0), c.args[0]
            c.st.mem[(ln, NOOFF)] = ("c", len(x.chars))
            c.args.append(("p", ln, NOOFF))
            e = max((k + 1 for k in range(len(t)) if t[k] not in " tmCR"), default=0)
            if e and t[e:e + 1] in ("C", "R"):
                e += 1        # a color which ends there
            for rv, st in c.s.run("btrim32", c.args, c.st):
                env.n += 1
                g, k = c.chars(st, p), st.mem.get((ln, NOOFF))
                if c.h.bad:
                    V("memory:btrim32", "btrim32: %s [%s]" % (c.h.bad, show(t)))
                elif g is None:
                    env.open += 1
                elif g != chars(t[:e]) or k and k[0] == "c" and k[1] != len(g):
                    V("text:btrim32", "btrim32: %s becomes %s, its length %s" % (show(t), decode(g), k[1] if k and k[0] == "c" else "?"))
        if has("bxs_trimdup") and not x.blank:
            for a in range(0, x.n + 1):
                for b in range(a, x.n + 1):
                    if x.n > 5 and (a not in (0, 2, x.n) or b not in (3, x.n - 1, x.n)):
                        continue
                    i, j = a, b
                    v = [k for k in t if k not in "CR"]
                    bl = lambda k: v[k] in " tm"
                    while i < j and bl(i):
                        i += 1
                    while i < j and bl(j - 1):
                        j -= 1
                    if i < j:
                        result("bxs_trimdup", t, (a, b), t[x.felem[i]:x.felem[j]] if j < x.n else t[x.felem[i]:])
        if has("bxs_substr") and not set(t) & set("CR"):
            for a in range(0, len(t) + 2):
                for b in range(a, len(t) + 2):
                    if len(t) < 6 or (a in (0, 2) and b in (3, len(t), len(t) + 1)):
                        result("bxs_substr", t, (a, b), t[a:b])
        for u in ("", "b", "CbR", " W"):
            if has("bxs_strcat") and t[-1:] != "C" and not (u[:1] == "C" and t[-1:] in "R" and False):
                c = Case(env, V, "bxs_strcat", [t])
                c.args.append(c.h.fresh(c.st, chars(u), 4))
                r = c.run()
                if r:
                    same(env, V, c, "bxs_strcat", r[0], r[1], t + u, "%s, %s" % (show(t), show(u)))
        for u in TEXTS[:12] + (t,):
            if has("bxs_strcmp"):
                c = Case(env, V, "bxs_strcmp", [t, u])
                r = c.run()
                if r and r[0][0] == "c" and (r[0][1] == 0) != (t == u):
                    V("answer:bxs_strcmp", "bxs_strcmp: %s and %s are considered %s" % (show(t), show(u), "equal" if r[0][1] == 0 else "different"))
        if has("bxs_strchr"):
            v = [k for k in t if k not in "CR"]
            for cur in range(-1, len(v)):
                want = next((i for i in range(cur + 1, len(v)) if v[i] == "a"), None)
                c = Case(env, V, "bxs_strchr", [t], (97,))
                cu = ("h", "cursor", 0)
                c.st.mem[(cu, NOOFF)] = ("c", cur & 0xffffffff)
                c.args.append(("p", cu, NOOFF))
                r = c.run()
                if not r:
                    continue
                l = c.s.loc(r[0]) if r[0] != ZERO else None
                got = l[1][0] // 4 if l and not l[1][1] else None
                if r[0] == ZERO and want is not None or got is not None and (want is None or got != x.vis[want]):
                    V("answer:bxs_strchr", "bxs_strchr: 'a' is %s in %s behind position %d" % ("found at %d" % got if got is not None else "not found", show(t), cur))
        if has("bxs_to_output"):
            for col in (True, False):
                c = Case(env, V, "bxs_to_output", [t], colored=col)
                r = c.run()
                if r and r[0][0] == "u" and r[0][1][0] == "out" and list(r[0][1][1]) != chars(t if col else x.visible):
                    V("output", "bxs_to_output: %s is written as %s, colors %s" % (show(t), decode(list(r[0][1][1])), "on" if col else "off"))
    for t in ("", "a", "ab", "aab", "abxab", "xabab"):
        for u in ("a", "ab", "b", "abx", "bb"):
            if not has("u32_strnrstr"):
                break
            c = Case(env, V, "u32_strnrstr", [t, u], (len(u),), raw=True)
            r = c.run()
            if not r:
                continue
            w = t.rfind(u)
            l = c.s.loc(r[0]) if r[0] != ZERO else None
            if r[0] == ZERO and w >= 0 or l and not l[1][1] and l[1][0] != 4 * w:
                V("answer:u32_strnrstr", "u32_strnrstr: %r is %s in %r" % (u, "found at %d" % (l[1][0] // 4) if l else "not found", t))


def plain(env, V):
    """strings of bytes"""
    has = lambda f: f in env.mod.defined

    def run(fn, strs, more=(), ptr=None):
        c = Case(env, V, fn, [])
        c.args = [c.h.fresh(c.st, [ord(k) for k in s], 1) for s in strs]
        if ptr:
            c.args = ptr(c)
        c.args += [("c", m) for m in more]
        r = c.run()
        return c, r

    def text(fn, strs, more, want, ptr=None):
        c, r = run(fn, strs, more, ptr)
        if r:
            t = c.h.text(c.s, r[1], r[0], 1) if r[0] != ZERO else None
            if t is None:
                env.open += 1
            elif t != [ord(k) for k in want]:
                V("text:" + fn, "%s: the result is %r instead of %r [%s]" % (fn, "".join(map(chr, t)), want, ", ".join([repr(s) for s in strs] + [str(m) for m in more])))

    for s in ("", "a", "abc", " a ", "\ta b\t ", "   "):
        for n in (0, 1, 2, 3, 9):
            if has("bx_strndup"):
                text("bx_strndup", [s], (n,), s[:n])
            if has("repeat"):
                text("repeat", [s], (n,), s * n)
        for a in range(len(s)):
            for b in range(a, len(s)):
                if has("trimdup") and s[a:b + 1].strip(" \t"):
                    def ptr(c, a=a, b=b):
                        p = c.args[0]
                        return [("p", p[1], (a, ())), ("p", p[1], (b, ()))]
                    text("trimdup", [s], (), s[a:b + 1].strip(" \t"), ptr)
        if has("btrim"):
            for e in ("", "\n", "\r\n", " \t\n"):
                c = Case(env, V, "btrim", [])
                ln = ("h", "len", 0)
                c.st.mem[(ln, NOOFF)] = ("c", len(s + e))
                p = c.h.fresh(c.st, [ord(k) for k in s + e], 1)
                c.args = [p, ("p", ln, NOOFF)]
                for rv, st in c.s.run("btrim", c.args, c.st):
                    env.n += 1
                    t = c.h.text(c.s, st, p, 1)
                    w = (s + e).rstrip(" \t\r\n")
                    k = st.mem.get((ln, NOOFF))
                    if c.h.bad or t is not None and t != [ord(k) for k in w] or k and k[0] == "c" and k[1] != len(w):
                        V("text:btrim", "btrim: %r becomes %r, length %s" % (s + e, "".join(map(chr, t or [])), k[1] if k else "?"))
    for s, no in (("on", 0), ("yes", 0), ("true", 0), ("1", 0), ("t", 0), ("T", 0), ("YES", 0), ("off", 1), ("no", 1), ("false", 1), ("0", 1), ("f", 1), ("False", 1), ("", 2), ("10", 2), ("o", 2), ("yess", 2), ("tr", 2), ("offf", 2), ("none", 2), ("fa", 2), ("00", 2), ("x", 2), ("y", 2), ("n", 2)):
        for fn, w in (("strisyes", no == 0), ("strisno", no == 1)):
            if has(fn):
                c, r = run(fn, [s])
                if r and r[0][0] == "c" and bool(r[0][1]) != w:
                    V("answer:" + fn, "%s: the word %r is %s" % (fn, s, "taken for " + fn[5:] if r[0][1] else "not taken for " + fn[5:]))


def check(tree, rep):
    env = Env(tree)

    def V(k, t):
        rep.violation(k, t)
    measure(env, V)
    k1 = env.n
    steps(env, V)
    k2 = env.n
    cut(env, V)
    k3 = env.n
    plain(env, V)
    if env.open:
        rep.unresolved("%d of %d results not decided" % (env.open, env.n))
    rep.cov.update(measured=k1, stepped=k2 - k1, cut=k3 - k2, plain=env.n - k3, undecided=env.open, explanation="the functions which measure, step through, cut, trim and join texts are interpreted on texts whose elements (characters of no, one and two columns, blanks, tabs, escape sequences) are known; "
                   "the characters and the figures recorded in the result are compared with those which follow from the elements")
    rep.assumptions += ["libunistring and the C library do what they document", "memory allocation succeeds; debug output off"]
