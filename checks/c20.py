"""C20: removal takes away exactly the box (its sides, padding) and keeps the text, in order and with its indentation."""
from sim import Sim, St, UNK, ZERO, NOOFF
from bx import fields, need_fn, cell, BxHooks, enumval
from drawbox import lin, add, zeros, is_zero
from c21 import Order, strip

LINES, DES, CTX = ("h", "lines", 0), ("h", "design", 0), ("h", "ctx", 0)
IND = ("u", "indent")
TOP, RIG, BOT, LEF = 0, 1, 2, 3
ASKED = set()        # ways in which the program looks for blank lines
STUBS = ("find_top_side", "find_bottom_side", "find_vertical_shapes")


class Case:
    def __init__(self, n, blank, top, bot, body, empty=(), kill=0, mend=0, indentmode="\0", comp=0, light=1):
        """n lines, the ones in blank are blank; top: end of the top side found, bot: beginning of the bottom side found; body: {line: (left side matched, right side matched)}"""
        self.__dict__.update(locals())
        self.pad = {TOP: 2, RIG: 1, BOT: 1, LEF: 0 if light and LEF not in empty else 2}
        self.first = min(i for i in range(n) if i not in blank)
        self.T = self.first if TOP in empty else top
        self.E = max(max(i for i in range(n) if i not in blank) + 1, self.T)
        self.B = self.E if BOT in empty else max(bot, self.T)

    def __str__(self):
        nm = {TOP: "top", RIG: "right", BOT: "bottom", LEF: "left"}
        return "%d lines, %stop side up to line %d, bottom side from line %d, blank lines %s%s%s%s, comparison %d" % (
            self.n, "".join("no %s side, " % nm[s] for s in self.empty), self.T, self.B + 1, [i + 1 for i in self.blank] or "none", ", -k" if self.kill else "", ", -m" if self.mend else "", ", -i " + self.indentmode if self.indentmode != "\0" else "", self.comp)


class Rem(BxHooks):
    alloc_ok = True

    def __init__(self, mod, case, V):
        self.mod, self.c, self.V = mod, case, V
        self.R, self.L = fields(mod, "remove_ctx_t"), fields(mod, "line_ctx_t")
        self.csz = [v["size"] for k, v in mod.structs.items() if k.endswith("line_ctx_t") and "shape" not in k][0]
        self.lt = fields(mod, "line_t")
        self.lsz = mod.structs["struct.line_t"]["size"]
        self.used = set()
        self.bt = fields(mod, "bxstr_t")
        self.mod_vis = {enumval(mod, "ignore_invisible_input"), enumval(mod, "ignore_invisible_all")}

    def measure(self, st, t):
        """width and indentation of a text: opaque, or numbers where only the lines matter"""
        i = base_text(t)[0]
        for k, f in enumerate(("indent", "num_columns")):
            v = ("u", (f, t))
            if self.c.light and i is not None:
                v = ("c", (5, 3, 7, 3, 9, 4)[i] + (11, 8, 20, 6, 13, 20)[i] * k)
            else:
                st.facts[("rng", v)] = (0, 10000)
            st.mem[(("s", t), (self.bt[f][0], ()))] = v

    def dead(self, st, v, what):
        if v in (st.q or ()):
            self.V("freed", "%s although it was released" % what, self.c)

    def call2(self, sim, st, I, name, args, ctx):
        c = self.c

        def val(key):
            v = ("u", key)
            st.facts[("ne", v)] = frozenset((0,))
            self.measure(st, v)
            return [(v, st)]
        if name == "empty_side" and args[1][0] == "c":
            return [(("c", int(args[1][1] in c.empty)), st)]
        if name in ("design_is_mono", "input_is_mono"):
            return [(("c", int(c.comp == 0)), st)]
        if name == "find_top_side":
            self.used.add(name)
            return [(("c", c.top), st)]
        if name == "find_bottom_side":
            self.used.add(name)
            return [(("c", c.bot), st)]
        if name == "find_vertical_shapes":
            self.used.add(name)
            l = sim.loc(args[0])
            bp = cell(st, l[0], l[1][0] + self.R["body"][0])
            n = cell(st, l[0], l[1][0] + self.R["body_num_lines"][0])
            bl = sim.loc(bp) if bp != ZERO else None
            if n[0] != "c" or n[1] and bl is None:
                return None
            if n[1] != c.B - c.T:
                self.V("body", "%d lines are taken for the inside of the box, which has %d" % (n[1], c.B - c.T), c)
            if LEF in c.empty and RIG in c.empty:
                return [(UNK, st)]
            st.mem[(l[0], (l[1][0] + self.R["comp_type"][0], ()))] = ("c", c.comp)
            for k in range(n[1]):
                w, e = c.body.get(c.T + k, (1, 1))
                w, e = w and LEF not in c.empty, e and RIG not in c.empty
                if w and e and c.light:
                    sim.learn(st, "ugt", ("u", ("east", c.T + k)), ("u", ("west", c.T + k)))
                if w and c.light:
                    sim.learn(st, "ugt", cell(st, ("s", ("u", ("line", c.T + k))), self.bt["num_chars"][0]), ("u", ("west", c.T + k)))
                for f, v in (("west_quality", ("c", 2 if w else 0)), ("west_end", ("u", ("west", c.T + k)) if w else ZERO), ("east_quality", ("c", 2 if e else 0)), ("east_start", ("u", ("east", c.T + k)) if e else ZERO)):
                    st.mem[(bl[0], (bl[1][0] + k * self.csz + self.L[f][0], ()))] = v
            return [(UNK, st)]
        if name == "bxs_is_blank" or name == "empty_line" and sim.loc(args[0]) and sim.loc(args[0])[0] == LINES:
            t = args[0] if name == "bxs_is_blank" else cell(st, LINES, sim.loc(args[0])[1][0] + self.lt["text"][0])
            self.dead(st, t, "a text is inspected")
            if t[0] == "u" and t[1][0] == "line":
                return [(("c", int(t[1][1] in c.blank)), st)]
            ASKED.add(name)
            v = ("u", ("isblank", t))
            k = sim.cmp(st, "eq", v, ZERO)
            if k is not None:
                return [(("c", 0 if k else 1), st)]
            s2 = st.copy()
            sim.learn(st, "eq", v, ZERO)
            sim.learn(s2, "eq", v, ("c", 1))
            return [(ZERO, st), (("c", 1), s2)]
        if name == "is_blank":
            v = ("u", ("blankchar", args[0]))
            s2 = st.copy()
            sim.learn(st, "eq", v, ZERO)
            sim.learn(s2, "eq", v, ("c", 1))
            return [(ZERO, st), (("c", 1), s2)]
        if name == "bxs_substr":
            self.dead(st, args[0], "a text is cut")
            s, e = args[1], args[2]
            if s != e and not Order(st).le(s, e):
                a, b = lin(s), lin(e)
                ind = lambda f, k: f is not None and any(x != 1 and x[0] == "u" and x[1][0] in ("west", "east") for x in f) and not any(x != 1 and x[0] == "e" for x in f)
                if ind(a, 0) and ind(b, 0):
                    self.V("overlap", "fails for a line on which the left and the right side of the box overlap", c)
                    return [(ZERO, st)]
            return val(("sub", args[0], s, e))
        if name == "bxs_prepend_spaces":
            self.dead(st, args[0], "a text is indented")
            return val(("pre", args[0], args[1])) if args[0] != ZERO else val(("blank", args[1]))
        if name == "bxs_strdup":
            return val(("dup", args[0]))
        if name == "bxs_cut_front":
            self.dead(st, args[0], "a text is cut")
            return val(("cutf", args[0], args[1]))
        if name in ("free", "bxs_free"):
            v = args[0]
            if v[0] == "p" and v[2] == NOOFF and v[1][0] == "s":
                v = v[1][1]
            if v[0] == "u" and v[1][0] in ("line", "sub", "pre", "cutf", "tabpos", "cache"):
                self.dead(st, v, "something is released again")
                st.q = (st.q or frozenset()) | {v}
            return [(UNK, st)]
        if name == "memmove" or name == "memcpy" or name.startswith(("llvm.memmove", "llvm.memcpy")):
            d, s, n = sim.loc(args[0]), sim.loc(args[1]), args[2]
            if d and s and d[0] == s[0] == LINES and n[0] == "c" and not d[1][1] and not s[1][1]:
                n = n[1]
                if n < 0 or n >= 1 << 31 or s[1][0] + n > c.n * self.lsz or d[1][0] + n > c.n * self.lsz:
                    self.V("memory", "lines are moved from or to beyond the last line", c)
                    return []
                new = {}
                for (b, o), v in list(st.mem.items()):
                    if b == LINES and not o[1] and s[1][0] <= o[0] < s[1][0] + n:
                        new[(LINES, (o[0] - s[1][0] + d[1][0], ()))] = v
                st.mem.update(new)
                return [(args[0], st)]
            return None
        if name == "memset" or name.startswith("llvm.memset"):
            d, n = sim.loc(args[0]), args[2]
            if d and d[0] == LINES and n[0] == "c" and not d[1][1]:
                n = n[1]
                if n < 0 or n >= 1 << 31 or d[1][0] + n > c.n * self.lsz:
                    self.V("memory", "memory beyond the last line is cleared", c)
                    return []
                for (b, o) in list(st.mem):
                    if b == LINES and not o[1] and d[1][0] <= o[0] < d[1][0] + n:
                        st.mem[(b, o)] = ZERO
                return [(args[0], st)]
        return None


class Wide(Sim):
    def gc(self, st, rv=None):
        pass

    def cmp(self, st, p, a, b):
        if p[0] == "u" or p in ("eq", "ne"):
            for x, y, q in ((a, b, p), (b, a, {"ult": "ugt", "ugt": "ult", "ule": "uge", "uge": "ule"}.get(p, p))):
                if y == ("c", -1) and x[0] in "ue" and x != UNK:        # no size is SIZE_MAX
                    return q in ("ult", "ule", "ne")
            if a[0] in "ue" and b[0] in "uec" and UNK not in (a, b):
                x, y = lin(a), lin(b)
                d = add(x, y, -1) if x is not None and y is not None else {0: 0}
                if set(d) <= {1}:
                    d = d.get(1, 0)
                    return {"ult": d < 0, "ule": d <= 0, "ugt": d > 0, "uge": d >= 0, "eq": d == 0, "ne": d != 0}[p]
        return Sim.cmp(self, st, p, a, b)

    def do_ins(self, f, I, s, ctx):
        if I.op in ("trunc", "sext", "zext") and I.t != "i1":
            v = self.val(s, ctx, I.ops[0])
            if v[0] in ("u", "e") and v != UNK:
                return v
        return Sim.do_ins(self, f, I, s, ctx)


def cases():
    for comp in range(4):
        for w in (0, 1):
            for e in (0, 1):
                yield Case(3, (), 1, 2, {1: (w, e)}, comp=comp, light=0)
    for im in "btn":
        yield Case(3, (), 1, 2, {1: (im != "b", 1)}, indentmode=im, light=0)
    for em in ((LEF,), (LEF, RIG), (RIG,)):
        yield Case(3, (), 1, 2, {}, empty=em, light=0)
    yield Case(4, (), 1, 3, {}, empty=(LEF,), light=0)
    yield Case(3, (), 1, 2, {}, empty=(LEF,), indentmode="t", light=0)
    yield Case(4, (), 1, 3, {1: (1, 1), 2: (1, 1)})
    yield Case(6, (0, 5), 2, 4, {2: (1, 0), 3: (0, 1)})
    for im in "tn":
        yield Case(4, (), 1, 3, {1: (1, 1), 2: (0, 1)}, indentmode=im)
    for k, m in ((1, 0), (0, 1), (1, 1), (0, 0)):
        yield Case(6, (), 1, 5, {}, kill=k, mend=m)
    yield Case(6, (0,), 2, 5, {}, kill=1, empty=(RIG,))
    yield Case(6, (0, 5), 1, 5, {}, kill=1, empty=(TOP, BOT))
    yield Case(2, (), 1, 1, {})                  # nothing inside
    yield Case(1, (), 1, 0, {})                  # the only line looks like both top and bottom
    yield Case(3, (1, 2), 3, 0, {})              # the top side ends with blank lines
    yield Case(3, (), 2, 0, {})
    yield Case(3, (), 0, 2, {})                  # no top side found
    yield Case(3, (), 1, 3, {})                  # no bottom side found
    for em in ((LEF,), (LEF, RIG), (TOP,), (BOT,), (TOP, BOT), (RIG,)):
        yield Case(4, (3,) if BOT not in em else (), 1, 2, {}, empty=em)
    yield Case(6, (0,), 2, 5, {}, empty=(LEF,), kill=1)
    yield Case(3, (0,), 1, 3, {}, empty=(TOP, BOT, LEF))


def base_text(t):
    """(original line, [operations outermost first]) of a derived text"""
    ops = []
    while t[0] == "u" and t[1][0] in ("sub", "pre", "cutf", "dup"):
        ops.append(t[1])
        t = t[1][1]
    return (t[1][1] if t[0] == "u" and t[1][0] == "line" else None), ops


def ldof(v, base, off):
    return v == ("u", ("ld", (base, (off, ()))))


def check(tree, rep):
    mod = tree.module()
    need_fn(mod, "remove_box")
    missing = [f for f in STUBS if f not in mod.defined]
    paths = nlines = nc = 0

    def V(k, t, c):
        rep.violation(k, "remove_box (src/remove.c): %s [%s]" % (t, c))
    if missing:
        rep.unresolved("functions which find the sides: %s" % ", ".join(missing))
        cs = []
    else:
        cs = list(cases())
    O, IN, L, D, B = fields(mod, "opt_t"), fields(mod, "input_t"), fields(mod, "line_t"), fields(mod, "design_t"), fields(mod, "bxstr_t")
    lsz = mod.structs["struct.line_t"]["size"]
    for c in cs:
        nc += 1
        h = Rem(mod, c, V)
        s = Wide(mod, h, cap=600, budget=600000)
        st = St(q=frozenset())
        g = lambda nm, f, t, v: st.mem.__setitem__((("g", nm), (t[f][0], ())), v)
        for f, v in (("design", ("p", DES, NOOFF)), ("design_choice_by_user", ("c", 1)), ("r", ("c", 1)), ("mend", ("c", c.mend)), ("killblank", ("c", c.kill)), ("indentmode", ("c", ord(c.indentmode)))):
            g("opt", f, O, v)
        for f, v in (("num_lines", ("c", c.n)), ("lines", ("p", LINES, NOOFF)), ("indent", IND), ("maxline", ("u", "maxline"))):
            g("input", f, IN, v)
        for k, v in c.pad.items():
            st.mem[(DES, (D["padding"][0] + 4 * k, ()))] = ("c", v)
        for i in range(c.n):
            for f, v in (("text", ("u", ("line", i))), ("tabpos", ("u", ("tabpos", i))), ("tabpos_len", ("u", ("tabn", i))), ("cache_visible", ("u", ("cache", i)))):
                st.mem[(LINES, (i * lsz + L[f][0], ()))] = v
                if f == "text":
                    h.measure(st, v)
                if f != "tabpos_len":
                    st.facts[("ne", v)] = frozenset((0,))
        res = s.run("remove_box", [], st)
        if not res:
            rep.unresolved("too many paths: %s" % c)
        for rv, x in res:
            paths += 1
            if rv != ZERO:
                if rv[0] == "c":
                    V("fails", "reports failure although nothing went wrong", c)
                continue
            judge(mod, c, h, x, V, rep, L, B, IN, lsz)
            nlines += c.n
    rep.cov.update(scenarios=nc, paths=paths, lines=nlines,
                   explanation="remove_box is interpreted with the search for the sides replaced by its possible results (%d arrangements of sides, blank lines, lines on which a side is missing, modes, kinds of comparison); on each of %d paths "
                               "the remaining lines are compared with the documented ones" % (nc, paths))
    rep.assumptions += ["the positions of the sides in each line are arbitrary", "strings: bxs_substr, bxs_prepend_spaces and bxs_cut_front do what they are named for; memory allocation succeeds; debug output off"]
    rep.need(missing or nc > 10 and paths > 50, "nothing analysed")


def judge(mod, c, h, x, V, rep, L, B, IN, lsz):
    n = cell(x, ("g", "input"), IN["num_lines"][0])
    if n[0] != "c":
        rep.unresolved("number of lines, %s" % c)
        return
    n = n[1]
    od = Order(x)
    zs = zeros(x)
    if not od.ok:
        return
    texts = [cell(x, LINES, i * lsz + L["text"][0]) for i in range(max(0, min(n, c.n)))]
    bases = [base_text(t) for t in texts]
    # which lines
    keep = list(range(c.T, c.B))

    def blank(i):
        for k, v in x.facts.items():
            if k[0] == "eq" and k[1][0] == "u" and k[1][1][0] == "isblank" and base_text(k[1][1][1])[0] == i:
                return v != ZERO
        return None
    if c.kill or c.mend:
        for side, lim in ((0, c.pad[TOP]), (-1, c.pad[BOT])):
            k = 0
            while keep and blank(keep[side]) and (c.kill or k < lim):
                keep.pop(side)
                k += 1
            if keep and (c.kill or k < lim) and blank(keep[side]) is None:
                if ASKED:
                    V("kill:unseen", "blank lines %s are left in the text without being looked for" % ("below the top side" if side == 0 else "above the bottom side"), c)
                    return
                rep.unresolved("blank lines, %s" % c)
    want = list(range(c.first)) + keep + list(range(c.E, c.n))
    got = [b[0] for b in bases]
    if any(b is None for b in got):
        if any(t == ZERO for t in texts):
            V("lost", "a line without text remains", c)
        else:
            rep.unresolved("lines of %s" % c)
        return
    if n != len(want) or got != want:
        V("lines", "lines %s remain instead of %s" % ([i + 1 for i in got], [i + 1 for i in want]), c)
        return
    for k, (t, i) in enumerate(zip(texts, want)):
        if t in (x.q or ()):
            V("freed", "the text of a remaining line was released", c)
        tp = cell(x, LINES, k * lsz + L["tabpos"][0])
        if tp[0] == "u" and tp[1][0] == "tabpos" and tp[1][1] != i or tp in (x.q or ()):
            V("tabs", "the tab positions of a remaining line are those of another one", c)
        if k >= 0 and cell(x, LINES, k * lsz + L["cache_visible"][0]) in (x.q or ()):
            V("cache", "a remaining line refers to released memory", c)
    # what remains of each line
    cuts = set()
    for (i, ops), t in zip(bases, texts):
        ops = [o for o in ops if o[0] != "dup"]
        if i < c.T or i >= c.B:
            if ops:
                V("outside", "a line outside of the box is changed", c)
            continue
        cut = None
        if ops and ops[0][0] == "cutf":
            cut = ops.pop(0)[2]
        cuts.add(cut)
        pre = ZERO
        if ops and ops[0][0] == "pre":
            pre = ops.pop(0)[2]
        wantpre = c.indentmode in "b\0"
        p = lin(pre)
        if p is None or len(ops) > 1 or ops and ops[0][0] != "sub":
            rep.unresolved("line %d of %s" % (i + 1, c))
            continue
        if not is_zero(add(p, {IND: 1} if wantpre else {}, -1), zs):
            V("indent:%s" % ("restore" if wantpre else "drop"), "the indentation of the box is %s" % ("not restored in front of the text" if wantpre else "put in front of the text although it is to be dropped"), c)
        org = ("s", ("u", ("line", i)))
        w, e = c.body.get(i, (1, 1))
        w, e = bool(w and LEF not in c.empty), bool(e and RIG not in c.empty)
        if not ops:
            if w or e:
                V("side", "a side of the box remains in the text", c)
            continue
        start, end = ops[0][2], ops[0][3]
        vis = c.comp in h.mod_vis
        fc = cell(x, org, B["first_char"][0])

        def unmap(v):
            """index an element of first_char was taken at"""
            if v[0] == "u" and v[1][0] == "ld" and v[1][1][0] == ("s", fc):
                o = v[1][1][1]
                f = {1: o[0] // 8} if o[0] else {}
                for y, m in o[1]:
                    if lin(y) is None or m != 8:
                        return None
                    f = add(f, lin(y))
                return f
            return None
        # beginning
        if w:
            f = unmap(start) if vis else lin(start)
            if f is None:
                if vis and lin(start) is not None and any(a != 1 for a in lin(start)):
                    V("units", "positions among the visible characters are used for all characters", c)
                else:
                    rep.unresolved("beginning of line %d, %s" % (i + 1, c))
                continue
            d = add(f, {("u", ("west", i)): 1}, -1)
            if set(d) - {1}:
                if any(a != 1 and a[0] == "u" and a[1][0] in ("west", "east") for a in d):
                    V("start", "the text does not start behind the left side", c)
                else:
                    rep.unresolved("beginning of line %d, %s" % (i + 1, c))
                continue
            k = d.get(1, 0)
            if not 0 <= k <= c.pad[LEF]:
                V("padding:amount", "%d columns are removed behind the left side, the padding is %d" % (k, c.pad[LEF]), c)
            else:
                mem, vc = ("s", cell(x, org, B["memory"][0])), ("s", cell(x, org, B["visible_char"][0]))

                def index(v, base, size):
                    if v[0] == "u" and v[1][0] == "ld" and v[1][1][0] == base:
                        o = v[1][1][1]
                        f = {1: o[0] // size} if o[0] else {}
                        for y, m in o[1]:
                            if m != size or lin(y) is None:
                                return y if m == size and len(o[1]) == 1 and not f else None
                            f = add(f, lin(y))
                        if len(o[1]) == 1 and not o[0] and o[1][0][0][0] == "u" and o[1][0][0][1][0] == "ld":
                            return o[1][0][0]
                        return f
                    return None
                known = {}
                for q, v in x.facts.items():
                    if q[0] == "eq" and q[1][0] == "u" and q[1][1][0] == "blankchar":
                        f = index(q[1][1][1], mem, 4)
                        if vis and isinstance(f, tuple):
                            f = index(f, vc, 8)
                        elif vis and isinstance(f, dict) and ("u", ("west", i)) in f:
                            V("units", "positions among the visible characters are used for all characters", c)
                        if isinstance(f, dict):
                            f = add(f, {("u", ("west", i)): 1}, -1)
                            if not set(f) - {1}:
                                known[f.get(1, 0)] = v != ZERO
                char = lambda j: j
                for j in range(k):
                    if known.get(char(j)) is False:
                        V("padding:text", "text is removed as if it were padding", c)
                    elif char(j) not in known:
                        if len(known) and any(char(m) in known for m in range(c.pad[LEF])) or not known:
                            V("padding:unseen", "characters behind the left side are removed without being blank", c)
                        else:
                            rep.unresolved("padding of line %d, %s" % (i + 1, c))
                if k < c.pad[LEF] and known.get(char(k)) is True:
                    V("padding:kept", "the padding remains in the text", c)
        else:
            f = unmap(start)
            ownv = cell(x, org, B["indent"][0])
            own = lin(ownv)
            if f is not None and (not add(f, own, -1) or not add(f, {IND: 1}, -1)):
                a, b = (ownv, IND) if not add(f, own, -1) else (IND, ownv)
                if not od.le(a, b):
                    V("indent:amount", "more than the indentation of the box is removed from a line without a left side", c)
            elif start == ZERO:
                if not (od.le(ownv, ZERO) or od.le(IND, ZERO)):
                    V("indent:double", "the indentation remains in a line without a left side%s" % (" and is put in front of it again" if wantpre else ""), c)
            else:
                rep.unresolved("beginning of line %d, %s" % (i + 1, c))
        # end
        full = cell(x, org, B["num_chars_visible" if vis else "num_chars"][0])
        wv = {("u", ("east", i)): 1} if e else {full: 1}
        f = unmap(end) if vis else lin(end)
        if end == start:
            pass        # sides overlap, or nothing between them
        elif f is None:
            if vis and lin(end) is not None:
                V("units", "positions among the visible characters are used for all characters", c)
            else:
                rep.unresolved("end of line %d, %s" % (i + 1, c))
        elif add(f, wv, -1):
            if all(a == 1 or a in (full, ("u", ("east", i)), ("u", ("west", i))) for a in f):
                V("end", "the text does not extend up to %s" % ("the right side" if e else "the end of the line"), c)
            else:
                rep.unresolved("end of line %d, %s" % (i + 1, c))
    # indentation and width of what remains
    f = lin(strip(cell(x, ("g", "input"), IN["indent"][0])))
    m = lin(strip(cell(x, ("g", "input"), IN["maxline"][0])))
    before = [t if t[1][0] != "cutf" else t[1][1] for t in texts]
    inds = [cell(x, ("s", t), B["indent"][0]) for t in before]
    cols = [cell(x, ("s", t), B["num_columns"][0]) for t in before]
    cut = {}
    real = [v for v in cuts if v is not None]
    if real:
        if LEF not in c.empty:
            V("cut:again", "padding is removed although the left side was removed with its padding", c)
        if len(set(real)) > 1 or None in cuts:
            V("cut:some", "the padding is removed from some lines only", c)
            return
        cut = lin(strip(real[0]))
        if cut is None:
            rep.unresolved("padding removed, %s" % c)
            return
        v = strip(real[0])
        if v[0] == "c" and v[1] > c.pad[LEF]:
            V("cut:much", "more than the padding is removed", c)
        elif v[0] == "u" and not od.le(v, ("c", c.pad[LEF])) and v in inds:
            V("cut:much", "more than the padding is removed", c)
        for w in inds:
            if not od.le(v, w) and v[0] in "cu" and (v[0] == "c" or v in inds):
                V("cut:text", "more than the indentation is removed", c)
    elif LEF in c.empty and keep:
        if all(od.lt(ZERO, w) for w in inds):
            V("cut:none", "the padding remains although the text is indented", c)
    if keep and f is not None and m is not None:
        pick = [v for v in inds if is_zero(add(add(f, cut), lin(v), -1), zs)]
        if not pick:
            if all(a == 1 or a in inds for a in f):
                V("total:indent", "the indentation is not updated", c)
        elif any(not od.le(pick[0], w) for w in inds):
            V("total:indent", "the indentation is not that of the least indented line", c)
        pick = [v for v in cols if is_zero(add(add(m, cut), lin(v), -1), zs)]
        if not pick:
            if all(a == 1 or a in cols or a == ("u", "maxline") for a in m) and not all(od.le(v, ZERO) for v in cols):
                V("total:width", "the width of the text is not updated", c)
        elif any(not od.le(w, pick[0]) for w in cols):
            V("total:width", "the width of the text is not that of its longest line", c)
