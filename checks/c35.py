"""C35: the sides of a box which is to be removed are found where the shapes of the design are, in every line."""
from sim import DFLT, NOOFF, St, UNK, ZERO
from bx import fields, cell, BxHooks, enumval
from c20 import Wide

DES, CTX, BODY, LINES = ("h", "design", 0), ("h", "ctx", 0), ("h", "body", 0), ("h", "lines", 0)
TOP, RIG, BOT, LEF = 0, 1, 2, 3
P = lambda *k: ("p", ("h",) + k, NOOFF)
SIDES = {LEF: ("WNW", "W", "WSW"), RIG: ("ENE", "E", "ESE"), TOP: ("NW", "NNW", "N", "NNE", "NE"), BOT: ("SW", "SSW", "S", "SSE", "SE")}


def key(v):
    return v[1][2] if v[0] == "p" and v[1][0:2] in (("h", "t"), ("h", "bx")) else None


class Env:
    def __init__(self, mod):
        self.mod = mod
        self.R, self.L, self.S, self.B, self.O, self.I, self.D, self.N = [fields(mod, x) for x in ("remove_ctx_t", "line_ctx_t", "shape_line_ctx_t", "bxstr_t", "opt_t", "input_t", "design_t", "sentry_t")]
        self.M = fields(mod, "match_result_t")
        sz = lambda n: [v["size"] for k, v in mod.structs.items() if k in ("struct." + n, "struct._" + n, n)][0]
        self.csz, self.ssz, self.nsz, self.lsz = sz("line_ctx_t"), sz("shape_line_ctx_t"), sz("sentry_t"), sz("line_t")
        self.shape = {n: enumval(mod, n) for n in ("NW", "NNW", "N", "NNE", "NE", "ENE", "E", "ESE", "SE", "SSE", "S", "SSW", "SW", "WSW", "W", "WNW")}
        self.name = {v: k for k, v in self.shape.items()}
        self.comps = [enumval(mod, n) for n in ("literal", "ignore_invisible_input", "ignore_invisible_shape", "ignore_invisible_all")]

    def state(self, lines, heights, ctx, elastic=()):
        st = St(q=())
        st.mem[(("g", "opt"), (self.O["design"][0], ()))] = ("p", DES, NOOFF)
        st.mem[(("g", "input"), (self.I["num_lines"][0], ()))] = ("c", lines)
        st.mem[(("g", "input"), (self.I["lines"][0], ()))] = ("p", LINES, NOOFF)
        for n, v in self.shape.items():
            o = self.D["shape"][0] + v * self.nsz
            for f, x in (("height", heights.get(n, 1)), ("width", 3 if n in ("NW", "SW") else 4), ("elastic", int(n in elastic))):
                st.mem[(DES, (o + self.N[f][0], ()))] = ("c", x)
        for f, v in ctx.items():
            if isinstance(v, dict):
                for k, x in v.items():
                    st.mem[(CTX, (self.R[f][0] + 4 * k, ()))] = ("c", x)
            else:
                st.mem[(CTX, (self.R[f][0], ()))] = ("c", v) if isinstance(v, int) else v
        return st

    def shapeof(self, sim, v):
        l = sim.loc(v)
        if l and l[0] == DES and not l[1][1] and (l[1][0] - self.D["shape"][0]) % self.nsz == 0:
            return self.name.get((l[1][0] - self.D["shape"][0]) // self.nsz)
        return None


class Base(BxHooks):
    alloc_ok = True

    def __init__(self, env, V, viable=None, empty=(), length=None, blank=()):
        self.e, self.V, self.viable, self.empty, self.blank, self.length = env, V, viable, empty, blank, length or (lambda k: 2)
        self.lost = []

    def nullderef(self, sim, st, I, kind, ctx):
        if not sim.merged and not sim.overrun and not self.lost:
            self.V("null", "%s: something which is not there is used" % I.where())

    def text(self, st, k):
        v = P("bx", k)
        t = P("t", k)
        st.mem[(v[1], (self.e.B["memory"][0], ()))] = t
        for f in ("num_chars", "num_chars_visible", "num_columns"):
            st.mem[(v[1], (self.e.B[f][0], ()))] = ("c", self.length(k))
        return v

    def call2(self, sim, st, I, name, args, ctx):
        if name in ("calloc", "malloc"):
            c = (("h", "count", 0), NOOFF)
            n = st.mem.get(c, ZERO)
            if n[0] != "c":
                self.lost.append(name)
                return [(UNK, st)]
            n = n[1]
            st.mem[c] = ("c", n + 1)
            if name == "calloc":
                st.mem[(("h", "new", n), DFLT)] = ZERO
            return [(P("new", n), st)]
        if name in ("free", "bxs_free"):
            return [(UNK, st)]
        if name == "comp_type_is_viable" and self.viable is not None and args[0][0] == "c":
            if args[1] != ("c", 71) or args[2] != ("c", 72):
                self.V("viable", "the wrong facts about colors decide on the kind of comparison")
            return [(("c", int(args[0][1] in self.viable)), st)]
        if name in ("isempty", "isdeepempty"):
            n = self.e.shapeof(sim, args[0])
            return [(("c", int(n in self.empty or name == "isdeepempty" and n in self.blank)), st)] if n else None
        if name == "prepare_comp_shape":
            sh, no, comp = args[1], args[2], args[3]
            if args[0] == ("p", DES, NOOFF) and all(x[0] == "c" for x in (sh, no, comp) + tuple(args[4:6])):
                return [(P("t", ("shape", self.e.name.get(sh[1]), no[1], comp[1], args[4][1], args[5][1])), st)]
            return [(P("t", ("?",)), st)]
        if name == "prepare_comp_input":
            no, tl, comp = args[0], args[1], args[2]
            if all(x[0] == "c" for x in args[:4]):
                for a, v in zip(args[4:6], (("c", 0 if tl[1] else 3), ("c", 2))):
                    l = sim.loc(a)
                    if a != ZERO and l:
                        st.mem[l] = v
                return [(P("t", ("in", no[1], comp[1], tl[1], args[3][1])), st)]
            return [(P("t", ("?",)), st)]
        if name in ("bxs_from_unicode", "bxs_rtrim", "bxs_strdup", "u32_strdup") and key(args[0]) is not None:
            return [(args[0] if name == "u32_strdup" else self.text(st, key(args[0])), st)]
        if name == "bxs_append_spaces":
            return [(UNK, st)]
        if name == "u32_strlen" and key(args[0]) is not None and args[0][2] == NOOFF:
            return [(("c", self.length(key(args[0]))), st)]
        return None


# ---- top and bottom side: consecutive lines which match a line of the side --------------------------------------------------------------
class Ends(Base):
    def call2(self, sim, st, I, name, args, ctx):
        if name == "match_horiz_line":
            if any(a[0] != "c" for a in args[1:4]):
                self.lost.append(name)
                return [(UNK, st)]
            k = tuple(a[1] for a in args[1:4])
            for q, r in st.q:
                if q == k:
                    return [(("c", r), st)]
            s2 = st.copy()
            st.q += ((k, 0),)
            s2.q += ((k, 1),)
            return [(ZERO, st), (("c", 1), s2)]
        return Base.call2(self, sim, st, I, name, args, ctx)


def ends(env, rep, V):
    n = 0
    for fn, side, corner, what in (("find_top_side", TOP, "NE", "top"), ("find_bottom_side", BOT, "SE", "bottom")):
        if fn not in env.mod.defined or "match_horiz_line" not in env.mod.defined:
            rep.unresolved("search for the %s side" % what)
            continue
        for h in (1, 2, 3):
            for total, at in ((5, 1), (2, 0), (1, 0), (4, 2)):
                c = {"top_start_idx": at} if side == TOP else {"bottom_end_idx": total - at, "top_start_idx": 0, "top_end_idx": 0}
                if side == BOT and total - at < 1:
                    continue
                hk = Ends(env, V)
                s = Wide(env.mod, hk, cap=2000)
                res = s.run(fn, [("p", CTX, NOOFF)], env.state(total, {corner: h, "NW": h, "SW": h}, c))
                where = "side of %d lines, %d lines of input, %s at line %d" % (h, total, "beginning" if side == TOP else "end", at + 1 if side == TOP else total - at)
                if s.overrun or s.merged or hk.lost:
                    rep.unresolved("search for the %s side: %s" % (what, where))
                    continue
                for rv, x in res:
                    n += 1
                    if any(k[0] != side for k, r in x.q):
                        V("%s:side" % what, "the lines of the wrong side are looked for [%s]" % where)
                        continue
                    if any(not 0 <= k[1] < total for k, r in x.q):
                        V("%s:beyond" % what, "a line which does not exist is compared [%s]" % where)
                        continue
                    if any(not 0 <= k[2] < h for k, r in x.q):
                        V("%s:shape" % what, "a line of the side which does not exist is compared [%s]" % where)
                        continue
                    i = c["top_start_idx"] if side == TOP else c["bottom_end_idx"] - 1
                    d = 1 if side == TOP else -1
                    k = 0
                    bad = None
                    while k < h and 0 <= i < total:
                        rs = {q[2]: r for q, r in x.q if q[1] == i}
                        if not any(rs.values()):
                            if len(rs) < h:
                                bad = "it is not tried whether line %d is line %d of the side" % (i + 1, min(set(range(h)) - set(rs)) + 1)
                            break
                        i += d
                        k += 1
                    want = i if side == TOP else i + 1
                    if rv[0] != "c":
                        rep.unresolved("search for the %s side: %s" % (what, where))
                    elif rv[1] != want:
                        V("%s:result" % what, "the %s side is said to %s at line %d, but %d lines match it [%s]" % (what, "end" if side == TOP else "begin", rv[1] + (side == BOT), k, where))
                    elif bad:
                        V("%s:tried" % what, "%s [%s]" % (bad, where))
    return n


# ---- left and right side ----------------------------------------------------------------------------------------------------------------
class Vert(Base):
    """found: {(kind of comparison, line, shape, line of the shape): [(quality, position)]}, best first"""
    def __init__(self, env, V, found, **kw):
        Base.__init__(self, env, V, **kw)
        self.found = found

    def call2(self, sim, st, I, name, args, ctx):
        e = self.e
        if name in ("u32_strstr", "u32_strnrstr"):
            a, b = key(args[0]), key(args[1])
            if a is None or b is None or a[0] != "in" or b[0] not in ("shape", "short") or args[0][2] != NOOFF:
                self.lost.append(name)
                return [(UNK, st)]
            q = b[2] if b[0] == "short" else self.length(b)
            sh = b[1] if b[0] == "short" else b
            if sh[3] != a[2]:
                self.V("vertical:mixed", "a line and a shape prepared for different kinds of comparison are compared")
            if name == "u32_strnrstr" and args[2] != ("c", q):
                self.V("vertical:length", "the length stated along with a shape is not that of the shape")
            if a[4]:
                self.lost.append("prepare_comp_input")
            for q2, p, s in self.found.get((a[2], a[1], sh[1], sh[2]), ()):
                p = (p if name == "u32_strstr" or s is None else s) - (3 if a[3] else 0)
                if q2 == q and p >= 0:
                    return [(("p", args[0][1], (4 * p, ())), st)]
            return [(ZERO, st)]
        if name == "shorten":
            l, lq = sim.loc(args[0]), sim.loc(args[1])
            if not l or not lq or l[1][1]:
                self.lost.append(name)
                return [(UNK, st)]
            t = cell(st, l[0], l[1][0] + e.S["text"][0])
            if t == ZERO:
                return [(ZERO, st)]
            t = key(t)
            q = st.mem.get(lq)
            if t is None or t[0] != "shape" or q is None or q[0] != "c":
                self.lost.append(name)
                return [(UNK, st)]
            q = q[1] - 1
            if q < 1:
                return [(ZERO, st)]
            st.mem[lq] = ("c", q)
            return [(P("t", ("short", t, q)), st)]
        return Base.call2(self, sim, st, I, name, args, ctx)


def vertical(env, rep, V):
    n = 0
    if any(f not in env.mod.defined for f in ("find_vertical_shapes", "shorten")):
        rep.unresolved("search for the left and the right side")
        return 0
    heights = {"WNW": 1, "W": 2, "WSW": 1, "ENE": 1, "E": 1, "ESE": 2}
    L, LEN, IND, TR = {"W": 3, "E": 3}, 20, 3, 2
    length = lambda k: LEN if k[0] == "in" else k[2] if k[0] == "short" else L.get(k[1], 2) if len(k) > 1 else 2
    a, b, c, d = env.comps
    # positions: the first and the last one of a text in the line; on the left it may begin in column 3 (later if it was shortened), on the right it has to end in column 18
    full = {(a, 3, "W", 0): [(3, 0, None)], (a, 4, "W", 1): [(3, 3, 9)], (a, 3, "E", 0): [(3, 15, None)], (a, 4, "E", 0): [(3, 2, 16)]}
    scen = [
        ((a,), full, ()),
        ((a,), {(a, 3, "W", 0): [(3, 4, None), (2, 4, None)], (a, 4, "WSW", 0): [(1, 4, None)], (a, 3, "ESE", 1): [(2, 3, 15), (1, 17, None)], (a, 4, "ENE", 0): [(2, 16, None)]}, ()),
        ((a,), {(a, 3, "WNW", 0): [(1, 0, None)], (a, 3, "W", 0): [(2, 1, None)], (a, 3, "W", 1): [(3, 2, None)], (a, 3, "WSW", 0): [(2, 3, None)], (a, 4, "ENE", 0): [(1, 18, None)], (a, 4, "E", 0): [(3, 16, None)], (a, 4, "ESE", 0): [(2, 17, None)]}, ()),
        ((b,), {(b, 4, "W", 1): [(1, 5, None)], (b, 3, "E", 0): [(1, 17, None), (2, 14, None)]}, ()),
        ((b, c), {(b, 3, "W", 0): [(1, 0, None)], (c, 4, "W", 0): [(3, 0, None)], (c, 4, "E", 0): [(3, 15, None)], (c, 3, "E", 0): [(3, 15, None)]}, ()),
        ((a, d), {(a, 3, "E", 0): [(1, 19, None)], (d, 3, "W", 0): [(3, 0, None)], (d, 4, "W", 0): [(3, 0, None)]}, ()),
        ((a,), {(a, 3, "W", 0): [(2, 5, None)], (a, 3, "E", 0): [(2, 15, None), (1, 16, None)], (a, 4, "W", 1): [(2, 5, None), (1, 5, None)], (a, 4, "ENE", 0): [(2, 15, None)]}, ()),
        ((c,), {(c, 3, "W", 0): [(3, 0, None)], (c, 4, "W", 0): [(3, 0, None)], (c, 3, "E", 0): [(3, 15, None)]}, (LEF,)),
        ((d,), {(d, 3, "W", 0): [(3, 0, None)], (d, 3, "E", 0): [(3, 15, None)], (d, 4, "E", 0): [(3, 15, None)]}, (RIG,)),
    ]
    for viable, found, es in scen:
        for T, B in ((3, 5), (3, 4)):
            for none, blank in (((), ()), (("W",), ()), (("ESE", "WNW"), ()), ((), ("WNW", "ENE"))):
                h = Vert(env, V, found, viable=viable, empty=none, length=length, blank=blank)
                none += blank
                s = Wide(env.mod, h, cap=2000)
                ctx = {"top_start_idx": 1, "top_end_idx": T, "bottom_start_idx": B, "bottom_end_idx": 6, "body_num_lines": B - T, "empty_side": {k: int(k in es) for k in range(4)}, "body": ("p", BODY, NOOFF),
                       "comp_type": 0, "input_is_mono": 71, "design_is_mono": 72}
                st = env.state(7, heights, ctx, ("W", "E"))
                for k in range(B - T):
                    for f, (o, z) in env.L.items():
                        st.mem[(BODY, (k * env.csz + o, ()))] = ZERO
                where = "kinds of comparison %s, inside of %d lines%s%s" % (list(viable), B - T, "".join(", no %s side" % {LEF: "left", RIG: "right"}[x] for x in es), "".join(", no shape %s" % x for x in none))
                res = s.run("find_vertical_shapes", [("p", CTX, NOOFF)], st)
                if s.overrun or s.merged or h.lost:
                    rep.unresolved("search for left and right side, %s: %s" % (where, ", ".join(sorted(set(h.lost))) or "too many paths"))
                    continue
                for rv, x in res:
                    n += 1
                    comp = cell(x, CTX, env.R["comp_type"][0])
                    if comp[0] != "c" or comp[1] not in viable:
                        V("vertical:comparison", "the kind of comparison which is recorded was not used [%s]" % where)
                        continue
                    comp = comp[1]
                    for k in range(B - T):
                        g = lambda f: cell(x, BODY, k * env.csz + env.L[f][0])
                        for side, pre, nm in ((LEF, "west", "left"), (RIG, "east", "right")):
                            best = None
                            for shp in SIDES[side]:
                                if shp in none or side in es:
                                    continue
                                for ln in range(heights[shp]):
                                    z = L.get(shp, 2)
                                    for q in range(z, 0, -1):
                                        r = [(p if side == LEF or l is None else l) for q2, p, l in found.get((comp, T + k, shp, ln), ()) if q2 == q]
                                        if r and (r[0] <= IND + z - q if side == LEF else r[0] >= LEN - TR - q):
                                            if best is None or q > best[0]:
                                                best = (q, {r[0]})
                                            elif q == best[0]:
                                                best[1].add(r[0])
                                            break
                            q = g(pre + "_quality")
                            if q[0] != "c" or q[1] and g(pre + "_start")[0] != "c":
                                rep.unresolved("%s side, %s" % (nm, where))
                            elif not best and q[1]:
                                V("vertical:%s:none" % nm, "the %s side is said to be on line %d, but it is not there%s [%s]" % (nm, k + 1, " when compared in the way which is recorded" if len(viable) > 1 else "", where))
                            elif best and not q[1]:
                                V("vertical:%s:missed" % nm, "the %s side is on line %d, but is not found [%s]" % (nm, k + 1, where))
                            elif best and q[1] != best[0]:
                                V("vertical:%s:best" % nm, "%d characters of the %s side match on line %d, but %d are recorded [%s]" % (best[0], nm, k + 1, q[1], where))
                            elif best and g(pre + "_start")[1] not in best[1]:
                                V("vertical:%s:start" % nm, "the %s side is on line %d in column %s, but %s is recorded [%s]" % (nm, k + 1, sorted(best[1]), g(pre + "_start")[1], where))
                            elif best and g(pre + "_end") != ("c", g(pre + "_start")[1] + q[1]):
                                V("vertical:%s:end" % nm, "the end of the %s side is not behind its last character [%s]" % (nm, where))
    return n


# ---- one line of the top or the bottom side ---------------------------------------------------------------------------------------------
class Horiz(Base):
    def call2(self, sim, st, I, name, args, ctx):
        e = self.e
        if name == "match_outer_shape":
            side, t, s = args[0], key(args[1]), key(args[2]) if args[2] != ZERO else ("none",)
            if side[0] != "c" or t is None or s is None:
                self.lost.append(name)
                return [(UNK, st)]
            out = []
            n = len(st.q)
            for r in (None, 0, 1):
                x = st.copy()
                if r is None:
                    x.q += (("outer", side[1], t, s, None),)
                    out.append((ZERO, x))
                    continue
                o = P("match", side[1], n)
                for f, v in (("p", ("p", args[1][1][:1] + ("t",) + args[1][1][2:], (40 if side[1] == LEF else 80, ()))), ("p_idx", ("c", 10 if side[1] == LEF else 20)), ("len", ("c", 5)), ("shiftable", ("c", r))):
                    x.mem[(o[1], (e.M[f][0], ()))] = v
                x.q += (("outer", side[1], t, s, r),)
                out.append((o, x))
            return out
        if name == "bxs_last_char_ptr" and key(args[0]):
            return [(("p", ("h", "t", key(args[0])), (4 * 30, ())), st)]
        if name == "hmm":
            l = sim.loc(args[0])
            if not l:
                self.lost.append(name)
                return [(UNK, st)]
            ts = []
            for k in range(5):
                em = cell(st, l[0], l[1][0] + k * e.ssz + e.S["empty"][0])
                el = cell(st, l[0], l[1][0] + k * e.ssz + e.S["elastic"][0])
                t = cell(st, l[0], l[1][0] + k * e.ssz + e.S["text"][0])
                ts.append((em, el, None if t == ZERO else key(t)))
            s2 = st.copy()
            st.q += (("hmm", tuple(ts)) + tuple(args[1:6]) + (0,),)
            s2.q += (("hmm", tuple(ts)) + tuple(args[1:6]) + (1,),)
            return [(ZERO, st), (("c", 1), s2)]
        return Base.call2(self, sim, st, I, name, args, ctx)


def horizontal(env, rep, V):
    n = 0
    if any(f not in env.mod.defined for f in ("match_horiz_line", "match_outer_shape", "hmm")):
        rep.unresolved("comparison with a line of the top or bottom side")
        return 0
    a, b, c, d = env.comps
    for side in (TOP, BOT):
        for viable in ((a,), (b, c), (d,)):
            for es in ((), (LEF,), (RIG,), (LEF, RIG)):
                for none in ((), ("NNE", "SSW"), ("N", "S", "NW", "SE")):
                    if (es or none) and viable != (a,) and len(es) != 1:
                        continue
                    h = Horiz(env, V, viable=viable, empty=none)
                    s = Wide(env.mod, h, cap=4000)
                    st = env.state(9, {}, {"empty_side": {k: int(k in es) for k in range(4)}, "comp_type": 0, "input_is_mono": 71, "design_is_mono": 72}, ("N", "SSE"))
                    where = "%s side, kinds of comparison %s%s%s" % ("top" if side == TOP else "bottom", list(viable), "".join(", no %s side" % {LEF: "left", RIG: "right"}[x] for x in es), "".join(", no shape %s" % x for x in none))
                    res = s.run("match_horiz_line", [("p", CTX, NOOFF), ("c", side), ("c", 6), ("c", 2)], st)
                    if s.overrun or s.merged or h.lost:
                        rep.unresolved("%s: %s" % (where, ", ".join(sorted(set(h.lost))) or "too many paths"))
                        continue
                    for rv, x in res:
                        n += 1
                        line(env, rep, V, side, viable, es, none, where, rv, x)
    return n


def line(env, rep, V, side, viable, es, none, where, rv, x):
    hm = [q for q in x.q if q[0] == "hmm"]
    success = any(q[-1] for q in hm)
    if rv[0] != "c":
        rep.unresolved("%s: %s" % (where, rv))
        return
    if bool(rv[1]) != success:
        V("line:result", "a line is said %sto be part of the side although the comparison %s [%s]" % ("" if rv[1] else "not ", "failed" if rv[1] else "was successful", where))
        return
    tried = []
    ou = []
    for q in x.q:
        if q[0] == "outer":
            ou.append(q)
            continue
        ts, cur, idx, end, al, ar, r = q[1:]
        keys = [t[2] for t in ts]
        cs = {t[3] for t in keys if t and t[0] == "shape"} | {o[2][2] for o in ou if o[2][0] == "in"}
        if len(cs) != 1 or any(t is not None and t[0] != "shape" for t in keys):
            if len(cs) > 1:
                V("line:mixed", "a line and shapes prepared for different kinds of comparison are compared [%s]" % where)
            return
        comp = cs.pop()
        tried.append(comp)
        for k, (em, el, t) in enumerate(ts):
            want = SIDES[side][k]
            if em != ("c", int(want in none)):
                V("line:empty", "a shape which is %sthere is treated as if it were %sthere [%s]" % ("not " if want in none else "", "" if want in none else "not ", where))
                return
            if want in none:
                continue
            if t is None or t[1] != want or t[2] != 2:
                V("line:shape", "line %d of the side is not compared with line %d of the shape %s [%s]" % (3, 3, want, where))
                return
            if el != ("c", int(want in ("N", "SSE"))):
                V("line:elastic", "whether the shape %s is elastic is taken from another one [%s]" % (want, where))
                return
        if any(o[2][0] != "in" or o[2][1] != 6 for o in ou):
            V("line:input", "another line of the input is compared [%s]" % where)
            return
        got = {o[1]: o for o in ou}
        for sd, pos, anch, i, nm in ((LEF, cur, al, 0, "left"), (RIG, end, ar, 4, "right")):
            o = got.get(sd)
            if sd in es:
                if o:
                    V("line:open", "the %s side is looked for, but the design has none [%s]" % (nm, where))
                    return
            elif o is None:
                V("line:corner", "the %s corner is not looked for [%s]" % (nm, where))
                return
            elif SIDES[side][i] not in none and (o[3][0] != "shape" or o[3][1] != SIDES[side][i]):
                V("line:corner", "another shape is taken for the %s corner [%s]" % (nm, where))
                return
            r = o[4] if o else None
            want = (60 if sd == LEF else 80) if r is not None else (0 if sd == LEF else 120)
            if pos[0] != "p" or pos[1][1] != "t" or pos[1][2][0] != "in" or pos[2][1]:
                rep.unresolved("%s: %s" % (where, pos))
                return
            if pos[1][2][1] != 6:
                V("line:input", "another line of the input is compared [%s]" % where)
                return
            if pos[2][0] != want:
                V("line:%s" % nm, "what is between the corners does not %s [%s]" % (("begin right after the left corner" if r is not None else "begin at the beginning of the line") if sd == LEF else
                                                                           ("end at the right corner" if r is not None else "end at the end of the line"), where))
                return
            if anch[0] == "c" and bool(anch[1]) != (r == 0):
                V("line:anchor", "the %s corner is said to be %s [%s]" % (nm, "certain although it is blank or missing" if anch[1] else "uncertain although it was matched", where))
                return
        if idx != ("c", 1):
            V("line:first", "the comparison does not begin with the shape next to the left corner [%s]" % where)
            return
        ou = []
        if r_success(q) and q is not hm[-1]:
            V("line:again", "the comparison goes on after it was successful [%s]" % where)
            return
    if any(t not in viable for t in tried) or not success and set(tried) != set(viable):
        V("line:kinds", "kinds of comparison %s are tried although %s apply [%s]" % (tried, list(viable), where))


def r_success(q):
    return bool(q[-1])


# ---- shortening of shapes ---------------------------------------------------------------------------------------------------------------
class Short(Base):
    def __init__(self, env, V, blanks):
        Base.__init__(self, env, V)
        self.blanks = blanks

    def load(self, sim, st, I, loc, ctx):
        if loc[0] == ("h", "t", ("text",)) and not loc[1][1]:
            return ("u", ("char", loc[1][0] // 4))
        return None

    def call2(self, sim, st, I, name, args, ctx):
        if name in ("is_blank", "uc_is_blank") and args[0][0] == "u" and args[0][1][0] == "char":
            return [(("c", int(args[0][1][1] in self.blanks)), st)]
        if name == "u32_strdup" and args[0][0] == "p":
            return [(args[0], st)]
        if name == "set_char_at" and args[0][0] == "p" and args[1][0] == "c":
            st.q += (args[0][2][0] // 4 + args[1][1],)
            return [(UNK, st)]
        return Base.call2(self, sim, st, I, name, args, ctx)


def shortening(env, rep, V):
    n = 0
    if "shorten" not in env.mod.defined:
        return 0
    for num, blanks in ((4, (0, 3)), (4, (0, 1, 3)), (3, ()), (3, (0, 1, 2)), (5, (3, 4)), (5, (0, 1)), (4, (1, 3))):
        for left in (0, 1):
            for al in (0, 1):
                for ar in (0, 1):
                    for q in range(num, 0, -1):
                        h = Short(env, V, blanks)
                        s = Wide(env.mod, h)
                        st = St(q=())
                        sl, Q = ("h", "shapeline", 0), ("h", "quality", 0)
                        t = P("bx", ("text",))
                        st.mem[(sl, (env.S["text"][0], ()))] = t
                        st.mem[(t[1], (env.B["memory"][0], ()))] = P("t", ("text",))
                        st.mem[(t[1], (env.B["num_chars"][0], ()))] = ("c", num)
                        st.mem[(Q, NOOFF)] = ("c", q)
                        i, j = 0, num
                        lb = lambda: al and i < j and i in blanks
                        rb = lambda: ar and i < j and j - 1 in blanks
                        while j - i >= q and (lb() or rb()):
                            if lb() and (left or not rb()):
                                i += 1
                            else:
                                j -= 1
                        where = "%d characters, blanks at %s, %s first, %s%s, %d left" % (num, [b + 1 for b in blanks], "left" if left and al else "right", "left " if al else "", "right" if ar else "", q)
                        for rv, x in s.run("shorten", [("p", sl, NOOFF), ("p", Q, NOOFF), ("c", left), ("c", al), ("c", ar)], st):
                            n += 1
                            got = cell(x, Q, 0)
                            if rv == ZERO:
                                if j - i < q:
                                    V("shorten:not", "shorten (src/remove.c): a shape with a blank at its end is not shortened [%s]" % where)
                                elif got != ("c", q):
                                    V("shorten:quality", "shorten (src/remove.c): the number of characters changes although nothing was shortened [%s]" % where)
                            elif rv[0] == "p" and rv[1] == ("h", "t", ("text",)) and got[0] == "c":
                                if j - i >= q:
                                    V("shorten:same", "shorten (src/remove.c): a shape is shortened although there is no blank to be taken away [%s]" % where)
                                elif got[1] != j - i or rv[2][0] // 4 != i:
                                    V("shorten:part", "shorten (src/remove.c): characters %d to %d remain instead of %d to %d [%s]" % (rv[2][0] // 4 + 1, rv[2][0] // 4 + got[1], i + 1, j, where))
                                elif x.q and x.q[-1] not in (j - i, j):
                                    V("shorten:end", "shorten (src/remove.c): the shape does not end behind its last character [%s]" % where)
    return n


# ---- what the search is told ------------------------------------------------------------------------------------------------------------
class Told(Base):
    def call2(self, sim, st, I, name, args, ctx):
        e = self.e
        if name == "empty_side" and args[1][0] == "c":
            return [(("c", int(args[1][1] in self.empty)), st)]
        if name in ("design_is_mono", "input_is_mono"):
            return [(("c", 72 if name[0] == "d" else 71), st)]
        if name in ("empty_line", "bxs_is_blank"):
            return [(ZERO, st)]
        if name in ("find_top_side", "find_bottom_side"):
            l = sim.loc(args[0])
            for f, w, t in [("input_is_mono", 71, "whether the input has colors"), ("design_is_mono", 72, "whether the design has colors")]:
                v = cell(st, l[0], l[1][0] + e.R[f][0]) if l else UNK
                if v[0] == "c" and v[1] != w:
                    self.V("told:" + f, "%s is not what decides on the kinds of comparison" % t)
            for k in range(4):
                v = cell(st, l[0], l[1][0] + e.R["empty_side"][0] + 4 * k) if l else UNK
                if v[0] == "c" and bool(v[1]) != (k in self.empty):
                    self.V("told:empty", "the %s side is said to be %sthere, but it is %s" % (("top", "right", "bottom", "left")[k], "not " if v[1] else "", "there" if v[1] else "not"))
            self.n += 1
            return []
        return Base.call2(self, sim, st, I, name, args, ctx)


def told(env, rep, V):
    n = 0
    if "find_top_side" not in env.mod.defined or "find_bottom_side" not in env.mod.defined:
        return 0
    for es in ((), (RIG,), (LEF,), (TOP,), (BOT,), (LEF, RIG)):
        h = Told(env, V, empty=es)
        h.n = 0
        st = env.state(4, {}, {})
        st.mem[(("g", "opt"), (env.O["design_choice_by_user"][0], ()))] = ("c", 1)
        Wide(env.mod, h, budget=20000).run("remove_box", [], st)
        n += h.n
    return n


# ---- kinds of comparison ----------------------------------------------------------------------------------------------------------------
def kinds(env, rep, V):
    n = 0
    if "comp_type_is_viable" not in env.mod.defined:
        return 0
    for k, comp in enumerate(env.comps):
        for mi in (0, 1):
            for md in (0, 1):
                s = Wide(env.mod, Base(env, V))
                want = [mi == md, not mi and md, mi and not md, not mi and not md][k]
                for rv, x in s.run("comp_type_is_viable", [("c", comp), ("c", mi), ("c", md)], St()):
                    n += 1
                    if rv[0] == "c" and bool(rv[1]) != bool(want):
                        V("kind:%d:%d:%d" % (k, mi, md), "comp_type_is_viable (src/detect.c): %s is %s for %s input and a design %s colors" % (
                            ("literal comparison", "ignoring the colors of the input", "ignoring the colors of the design", "ignoring all colors")[k], "used" if rv[1] else "not used", "plain" if mi else "colored", "without" if md else "with"))
    return n


def check(tree, rep):
    env = Env(tree.module())

    def V(k, t):
        rep.violation(k, t if "(src/" in t else "remove_box (src/remove.c): " + t)
    e = ends(env, rep, V)
    v = vertical(env, rep, V)
    h = horizontal(env, rep, V)
    k = kinds(env, rep, V)
    sh = shortening(env, rep, V)
    t = told(env, rep, V)
    rep.cov.update(top_and_bottom=e, left_and_right=v, lines=h, kinds=k, shortened=sh, told=t, explanation="the functions which look for the sides are interpreted with the comparison of texts replaced by all of its outcomes (top and bottom: %d paths; single lines: %d paths), "
                   "or by given positions of the shapes in each line (left and right: %d paths), and compared with the sides which are there; the choice of comparisons for all combinations of colored and plain (%d)" % (e, h, v, k))
    rep.assumptions += ["searching in texts, preparing and shortening them do what they are named for", "memory allocation succeeds; debug output off"]
    rep.need(k >= 16, "kinds of comparison not found")
