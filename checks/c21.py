"""C21: input lines are taken over completely; indentation and width are those of the text."""
from ustr import UHooks, put, get, ch, learn, TAB, SP
from sim import Sim, St, UNK, ZERO, NOOFF
from bx import fields, need_fn, cell, BxHooks
from drawbox import lin, add, zeros, is_zero
from common import Broken

LINES = ("h", "lines", 0)
TS = 4
OUTR = ("u", "input file")


class Read(UHooks):
    def __init__(self, mod, raw):
        self.mod = mod
        self.raw = raw
        self.cap = 0
        self.lsz = mod.structs["struct.line_t"]["size"]
        self.order = []
        self.badline = None

    def inline(self, sim, name):
        return name not in ("bxs_free",)

    def call2(self, sim, st, I, name, args, ctx):
        def val(key):
            v = ("u", key)
            st.facts[("ne", v)] = frozenset((0,))
            return [(v, st)]
        if name in ("fgets", "getline"):
            k = st.q
            if k >= len(self.raw):
                return [(ZERO, st)]
            if args[-1] != OUTR:
                self.order.append("reads from another file than the input")
            st.q = k + 1
            l = sim.loc(args[0])
            if l:
                st.mem[l] = ("u", ("bytes", k))
                sz = sim.alsize.get(l[0])
                if name == "fgets" and sz and args[1][0] == "c" and l[1] == NOOFF and args[1][1] > sz:
                    self.order.append("reads up to %d bytes into a buffer of %d" % (args[1][1], sz))
            return [(args[0], st)]
        if name in ("u32_strconv_from_input", "u32_strconv_from_arg"):
            l = sim.loc(args[0])
            src = st.mem.get(l) if l else None
            if src is None or src[0] != "u" or src[1][0] != "bytes":
                return None
            k = src[1][1]
            b = ("h", "raw", k)
            put(st, b, self.raw[k])
            return [(("p", b, NOOFF), st)]
        if name == "realloc":
            l = sim.loc(args[0]) if args[0] != ZERO else None
            if args[1][0] == "c" and (args[0] == ZERO or l and l[0] == LINES):
                self.cap = args[1][1]
                return [(("p", LINES, NOOFF), st)]
        if name == "bxs_from_unicode":
            v = args[0]
            if v[0] == "p":
                s = get(st, sim.loc(v))
                v = ("u", ("str", s)) if s is not None else v
            return val(("text", v[1][1] if v[0] == "u" and v[1][0] == "str" else None, None))
        if name == "bxs_new_empty_string":
            return val(("text", (), "new"))
        if name == "ferror":
            return [(ZERO, st)]
        if name in ("bxs_free", "free"):
            return [(UNK, st)]
        return self.str_call(sim, st, I, name, args, ctx)

    def store(self, sim, st, I, loc, val, ctx):
        if loc and loc[0] == LINES and not loc[1][1]:
            if loc[1][0] >= self.cap:
                self.badline = loc[1][0] // self.lsz


WS = {"\t", " ", "\n", "\r", "\x0b", "\x0c"}


def expect(s, r, keep):
    """(text, tab positions) of a raw line"""
    if r:
        if s.endswith("\n"):
            s = s[:-1]
        if s.endswith("\r"):
            s = s[:-1]
    else:
        i = 0
        toks = []
        while i < len(s):
            if s[i] == "\x1b" and s[i + 1:i + 2] == "[":
                j = i + 2
                while j < len(s) and not "@" <= s[j] <= "~":
                    j += 1
                toks.append((s[i:j + 1], "esc"))
                i = j + 1
            else:
                toks.append((s[i], "ws" if s[i] in WS else "ch"))
                i += 1
        last = max([k for k, t in enumerate(toks) if t[1] == "ch"], default=-1)
        if 0 <= last < len(toks) - 1 and toks[last + 1][1] == "esc":
            last += 1
        s = "".join(t[0] for t in toks[:last + 1])
    out, tabs = [], []
    for c in s:
        if c == "\t":
            tabs.append(len(out))
            out += [("c", SP)] * (TS - len(out) % TS)
        else:
            out.append(ch(c))
    return tuple(out), tabs if keep else []


def show(s):
    return repr(s)[1:-1]


def reading(tree, rep, mod, V):
    need_fn(mod, "read_all_input")
    O, IN, L = fields(mod, "opt_t"), fields(mod, "input_t"), fields(mod, "line_t")
    lsz = mod.structs["struct.line_t"]["size"]
    n = 0
    texts = [["ab\n"], ["ab"], ["ab \t\n", "\tx\ty\n"], ["a\r\n", "b\r\n"], ["\n", "\n", "z"], [" a\n", "   \n", "b  c \n"], ["abc\tx\n"], ["abcd\tx\n", "\n"], ["\t\ta\n"], ["a\r"], ["a", ], ["\r\n", "a\n"],
             ["a \n", " "], ["a\n", "\t"], ["  \t x\t \n"]]
    for r in (0, 1):
        for keep in (0, 1):
            for raw in texts:
                h = Read(mod, raw)
                s = Sim(mod, h, cap=50, budget=200000)
                st = St(q=0)
                g = lambda f, v: st.mem.__setitem__((("g", "opt"), (O[f][0], ())), v)
                g("r", ("c", r))
                g("tabexp", ("c", ord("k" if keep else "e")))
                g("tabstop", ("c", TS))
                g("infile", OUTR)
                res = s.run("read_all_input", [], st)
                what = "%s%s" % (" + ".join("'%s'" % show(x) for x in raw), ", removing a box" if r else "")
                if h.problem:
                    V("bounds", "%s [%s]" % (h.problem, what))
                for o in h.order:
                    V("file", o)
                for rv, x in res:
                    n += 1
                    if rv == ZERO:
                        V("fails", "reading %s fails although nothing is wrong" % what)
                        continue
                    b = ("s", rv) if rv[0] == "u" else rv[1] if rv[0] == "p" else None
                    if b is None or s.overrun:
                        rep.unresolved("result of reading %s" % what)
                        continue
                    nl = cell(x, b, IN["num_lines"][0])
                    if nl != ("c", len(raw)):
                        if nl[0] == "c":
                            V("count", "%s is taken for %d lines" % (what, nl[1]))
                        else:
                            rep.unresolved("number of lines")
                        continue
                    fn = cell(x, b, IN["final_newline"][0])
                    if fn[0] == "c":
                        if bool(fn[1]) != (raw[-1][-1] in "\r\n"):
                            V("final", "%s is said to end %s line break" % (what, "with a" if fn[1] else "without a"))
                    else:
                        rep.unresolved("final newline of %s" % what)
                    for i, line in enumerate(raw):
                        t = cell(x, LINES, i * lsz + L["text"][0])
                        want, tabs = expect(line, r, keep)
                        if t[0] == "u" and t[1][0] == "text" and t[1][1] is not None:
                            if t[1][1] != want:
                                V("text", "line %d of %s is recorded as '%s', not '%s'" % (i + 1, what, txt(t[1][1]), txt(want)))
                        elif t == ZERO:
                            V("text", "line %d of %s is not recorded" % (i + 1, what))
                        else:
                            rep.unresolved("text of line %d of %s" % (i + 1, what))
                        if not want:
                            continue
                        tl = cell(x, LINES, i * lsz + L["tabpos_len"][0])
                        if tl[0] == "c" and keep and tl[1] != len(tabs):
                            V("tabs", "%d tabs are recorded in line %d of %s" % (tl[1], i + 1, what))
                            continue
                        tp = cell(x, LINES, i * lsz + L["tabpos"][0])
                        if tabs and tp[0] in ("u", "p"):
                            tb = ("s", tp) if tp[0] == "u" else tp[1]
                            pos = [cell(x, tb, 8 * j) for j in range(len(tabs))]
                            if all(p[0] == "c" for p in pos):
                                if [p[1] for p in pos] != tabs:
                                    V("tabpos", "tabs of line %d of %s are recorded at columns %s instead of %s" % (i + 1, what, [p[1] for p in pos], tabs))
                            else:
                                rep.unresolved("tab positions")
    # many lines: the memory for them grows
    h = Read(mod, ["\n"] * 203)
    s = Sim(mod, h, cap=50, budget=2000000)
    st = St(q=0)
    for f, v in (("r", ZERO), ("tabexp", ("c", ord("e"))), ("tabstop", ("c", TS)), ("infile", OUTR)):
        st.mem[(("g", "opt"), (O[f][0], ()))] = v
    for rv, x in s.run("read_all_input", [], st):
        n += 1
        b = ("s", rv) if rv[0] == "u" else None
        if b and cell(x, b, IN["num_lines"][0]) not in (("c", 203),) and cell(x, b, IN["num_lines"][0])[0] == "c":
            V("count", "203 lines are taken for %d" % cell(x, b, IN["num_lines"][0])[1])
    if h.badline is not None:
        V("memory", "line %d is stored behind the memory allocated for the lines" % (h.badline + 1))
    return n


def txt(t):
    return "".join(chr(c[1]) if c[0] == "c" else c[1][1] for c in t)


# ---- analysis -------------------------------------------------------------------------------------------------------------------------
class An(BxHooks):
    alloc_ok = True
    subst = ZERO

    def __init__(self, mod):
        self.mod = mod

    def call2(self, sim, st, I, name, args, ctx):
        if name == "apply_substitutions":
            st.q = (st.q or ()) + (args[1],)
            return [(ZERO, st)]
        if name == "bxs_cut_front":
            v = ("u", ("cut", args[0], args[1]))
            st.facts[("ne", v)] = frozenset((0,))
            return [(v, st)]
        if name in ("bxs_free", "free"):
            return [(UNK, st)]
        return None


class Narrow(Sim):
    """widths and indentations fit the integer types they are kept in"""

    def gc(self, st, rv=None):
        pass

    def do_ins(self, f, I, s, ctx):
        if I.op in ("trunc", "sext", "zext") and I.t != "i1":
            v = self.val(s, ctx, I.ops[0])
            if v[0] in ("u", "e") and v not in (UNK,):
                return v
        return Sim.do_ins(self, f, I, s, ctx)


class Order:
    """transitive closure of the comparisons made on a path (all values are non-negative, so signedness is irrelevant)"""

    def __init__(self, st, extra=()):
        e = {}
        N = set()

        def edge(a, b, strict):
            N.update((a, b))
            e[a, b] = e.get((a, b), False) or strict
        for k, v in st.facts.items():
            if k[0] == "cmp" and v is True and UNK not in k:
                p, a, b = k[1:]
                if p[1:] == "lt" or p[1:] == "le":
                    edge(a, b, p[1:] == "lt")
                elif p[1:] in ("gt", "ge"):
                    edge(b, a, p[1:] == "gt")
                elif p == "eq":
                    edge(a, b, False)
                    edge(b, a, False)
            elif k[0] == "rng":
                if v[0] is not None:
                    edge(("c", v[0]), k[1], False)
                if v[1] is not None:
                    edge(k[1], ("c", v[1]), False)
            elif k[0] == "eq" and v[0] == "c":
                edge(k[1], v, False)
                edge(v, k[1], False)
            elif k[0] == "ne" and 0 in v:
                edge(ZERO, k[1], True)
        N.update(extra)
        cs = sorted({n for n in N if n[0] == "c"}, key=lambda c: c[1])
        for x, y in zip(cs, cs[1:]):
            edge(x, y, True)
        for m in N:
            for a in N:
                if (a, m) in e:
                    for b in N:
                        if (m, b) in e:
                            t = e[a, m] or e[m, b]
                            if t or (a, b) not in e:
                                e[a, b] = e.get((a, b), False) or t
        self.e = e
        self.ok = not any(e.get((n, n)) for n in N)

    def le(self, a, b):
        if a == b or (a, b) in self.e or a[0] == b[0] == "c" and a[1] <= b[1]:
            return True
        if b[0] == "c" and a[0] != "c":
            return any(x == a and y[0] == "c" and y[1] <= b[1] for x, y in self.e)
        if a[0] == "c" and b[0] != "c":
            return any(y == b and x[0] == "c" and x[1] >= a[1] for x, y in self.e)
        return False

    def lt(self, a, b):
        return bool(self.e.get((a, b))) or a[0] == b[0] == "c" and a[1] < b[1]


def strip(v):
    while v[0] == "e" and v[1] in ("trunc", "sext", "zext"):
        v = v[2]
    return v


def analysis(tree, rep, mod, V):
    need_fn(mod, "analyze_input")
    O, IN, L, D, B = fields(mod, "opt_t"), fields(mod, "input_t"), fields(mod, "line_t"), fields(mod, "design_t"), fields(mod, "bxstr_t")
    lsz = mod.structs["struct.line_t"]["size"]
    INP, DES = ("h", "input", 0), ("h", "design", 0)
    lmax = tree.macroint("LINE_MAX_BYTES")
    n = 0
    for r in (0, 1):
        for mode in "btn":
            for nl in (1, 2, 3):
                h = An(mod)
                s = Narrow(mod, h, cap=400, budget=400000)
                st = St(q=())
                st.mem[(("g", "opt"), (O["r"][0], ()))] = ("c", r)
                st.mem[(("g", "opt"), (O["design"][0], ()))] = ("p", DES, NOOFF)
                st.mem[(DES, (D["indentmode"][0], ()))] = ("c", ord(mode))
                st.mem[(INP, (IN["num_lines"][0], ()))] = ("c", nl)
                st.mem[(INP, (IN["lines"][0], ()))] = ("p", LINES, NOOFF)
                st.mem[(INP, (IN["maxline"][0], ()))] = ("u", "old width")
                st.mem[(INP, (IN["indent"][0], ()))] = ("u", "old indent")
                cols = [("u", ("cols", i)) for i in range(nl)]
                ind = [("u", ("ind", i)) for i in range(nl)]
                for i in range(nl):
                    t = ("u", ("line", i))
                    st.facts[("ne", t)] = frozenset((0,))
                    st.mem[(LINES, (i * lsz + L["text"][0], ()))] = t
                    st.mem[(("s", t), (B["num_columns"][0], ()))] = cols[i]
                    st.mem[(("s", t), (B["indent"][0], ()))] = ind[i]
                    st.facts[("rng", ind[i])] = st.facts[("rng", cols[i])] = (0, 10000)
                    s.learn(st, "uge", cols[i], ind[i])
                where = "%s, indentation mode %s, %d lines" % ("removal" if r else "drawing", {"b": "box", "t": "text", "n": "none"}[mode], nl)
                for rv, x in s.run("analyze_input", [("p", INP, NOOFF)], st):
                    n += 1
                    if rv != ZERO:
                        if rv[0] == "c":
                            V("analysis:fails", "fails although nothing is wrong [%s]" % where)
                        continue
                    ml, idt = cell(x, INP, IN["maxline"][0]), strip(cell(x, INP, IN["indent"][0]))
                    f, g = lin(ml), lin(idt)
                    od = Order(x, [ZERO, ("c", lmax)])
                    if not od.ok:
                        n -= 1
                        continue
                    zero = {v for v in cols + ind if x.facts.get(("eq", v)) == ZERO}
                    blank = [i for i in range(nl) if cols[i] in zero]
                    # indentation
                    text = [i for i in range(nl) if i not in blank]
                    if f is None or g is None:
                        rep.unresolved("analysis of %s" % where)
                        continue
                    cand = [ind[i] for i in text]
                    if not text:
                        if g and idt[0] in ("c", "u"):
                            V("indent:blank", "the indentation of blank lines is taken for one [%s]" % where)
                    else:
                        pick = [v for v in cand if not add(g, lin(v), -1)] or ([("c", lmax)] if idt == ("c", lmax) else []) or ([ZERO] if not g else [])
                        if not pick:
                            if idt[0] == "u" and idt in ind or idt[0] == "c":
                                V("indent:which", "the indentation is not that of a text line [%s]" % where)
                            else:
                                rep.unresolved("indentation, %s" % where)
                        else:
                            p = pick[0]
                            for v in cand:
                                if od.le(p, v):
                                    continue
                                V("indent:min", "the indentation is not the smallest one of the lines with text [%s]" % where)
                    # width
                    cut = mode != "t" and not r
                    base = add(f, g, 1) if cut else f
                    pick = [v for v in cols if not add(base, lin(v), -1)] or ([ZERO] if not base else [])
                    if not pick:
                        two = [v for v in cols if is_zero(add(f if cut else add(f, g, 1), lin(v), -1), [])]
                        if two or all(a in cols + ind + [1, ("u", "old width")] for a in base):
                            V("width:%s" % ("cut" if cut else "keep"), "the width of the text is %sreduced by the indentation [%s]" % ("not " if cut else "", where) if two else "the width of the text is not that of one of its lines [%s]" % where)
                        else:
                            rep.unresolved("width, %s" % where)
                    else:
                        for v in cols:
                            if not od.le(v, pick[0]):
                                V("width:max", "the width of the text is not the largest one of its lines [%s]" % where)
                    # lines
                    for i in range(nl):
                        t = cell(x, LINES, i * lsz + L["text"][0])
                        org = ("u", ("line", i))
                        if cut:
                            if t == org:
                                if i not in blank and not od.lt(cols[i], idt) and idt != ZERO:
                                    V("cut:missing", "indentation is not removed from a line [%s]" % where)
                            elif t[0] == "u" and t[1][0] == "cut":
                                if t[1][1] != org:
                                    V("cut:which", "a line is replaced by %s [%s]" % ("another one" if t[1][1][1][0] == "line" else "a line whose indentation is removed twice", where))
                                elif lin(t[1][2]) is None:
                                    rep.unresolved("amount cut off, %s" % where)
                                elif not is_zero(add(lin(t[1][2]), g, -1), zeros(x)) and not (od.le(strip(t[1][2]), idt) and od.le(idt, strip(t[1][2]))):
                                    V("cut:amount", "another amount than the indentation is removed from a line [%s]" % where)
                            else:
                                rep.unresolved("line after %s" % where)
                        elif t != org:
                            V("cut:kept", "indentation is removed although it is to be kept [%s]" % where)
                    if (x.q or ()) != (() if r else (ZERO,)):
                        V("rules", "replacement rules are %s [%s]" % ("applied when removing" if r else "not applied exactly once", where))
    return n


def check(tree, rep):
    mod = tree.module()

    a = reading(tree, rep, mod, lambda k, t: rep.violation(k, "read_all_input (src/input.c): " + t))
    b = analysis(tree, rep, mod, lambda k, t: rep.violation(k, "analyze_input (src/input.c): " + t))
    rep.cov.update(functions=2, reading_paths=a, analysis_paths=b,
                   explanation="read_all_input is interpreted for inputs of a given shape (position of tabs, blanks, line breaks; all other characters opaque), the lines recorded are compared with the documented ones (%d paths); "
                               "analyze_input is interpreted for up to three lines of opaque width and indentation (%d paths)" % (a, b))
    rep.assumptions += ["fgets returns one line at a time; memory allocation succeeds; debug output off", "tab stops every 4 columns; the character conversion yields the characters of the line"]
    rep.need(a > 30 and b > 20, "input functions not found")
