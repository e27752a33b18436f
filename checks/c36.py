"""C36: the design found for a box of unknown design is the one whose shapes are found most often in the input."""
from itertools import product
from sim import NOOFF, St, UNK, ZERO
from bx import fields, cell, BxHooks, enumval
from c20 import Wide
from c35 import Env, Base, P, key, LEF, RIG, TOP, BOT

DESIGNS, LINE, TXT, VIS, FC = ("h", "designs", 0), ("h", "lines", 0), ("h", "t", ("text",)), ("h", "t", ("visible",)), ("h", "firstchar", 0)
WEST, EAST = ("WSW", "W", "WNW"), ("ENE", "E", "ESE")
HORIZ = {TOP: ("NNW", "N", "NNE"), BOT: ("SSE", "S", "SSW")}


# ---- choice among the designs -----------------------------------------------------------------------------------------------------------
class Choice(BxHooks):
    alloc_ok = True

    def __init__(self, env, dsz, mono, inmono, hits):
        self.e, self.dsz, self.mono, self.inmono, self.hits, self.lost, self.seen = env, dsz, mono, inmono, hits, [], []

    def which(self, sim, v):
        l = sim.loc(v)
        return l[1][0] // self.dsz if l and l[0] == DESIGNS and not l[1][1] and l[1][0] % self.dsz == 0 else None

    def call2(self, sim, st, I, name, args, ctx):
        if name == "input_is_mono":
            return [(("c", self.inmono), st)]
        if name in ("design_is_mono", "match_design"):
            d = self.which(sim, args[0])
            if d is None or d >= len(self.mono) or name == "match_design" and args[1][0] != "c":
                self.lost.append(name)
                return [(UNK, st)]
            if name == "design_is_mono":
                return [(("c", self.mono[d]), st)]
            self.seen.append((d, args[1][1]))
            return [(("c", self.hits[d][self.e.comps.index(args[1][1])]), st)]
        return None


def viable(k, mi, md):
    return [mi == md, not mi and md, mi and not md, not mi and not md][k]


def choice(env, rep, V):
    n = 0
    if any(f not in env.mod.defined for f in ("autodetect_design", "match_design", "design_is_mono", "input_is_mono")):
        return 0
    dsz = [v["size"] for k, v in env.mod.structs.items() if k in ("struct.design_t", "struct._design_t")][0]
    T = (0, 1, 2, 3, 5)
    cases = []
    for inmono in (0, 1):
        for mono in ((1,), (0,), (0, 1), (1, 0), (1, 1), (0, 0), (1, 0, 1), (0, 1, 0), (1, 1, 1), (0, 0, 0)):
            for a in range(9):
                # hits per design and kind of comparison, each table different, with ties, none, few and many
                hits = [[T[(a * (d + 1) + 2 * k + d) % 5] for k in range(4)] for d in range(len(mono))]
                if a == 5:
                    hits = [[0] * 4 for _ in mono]
                if a == 6:
                    hits = [[2] * 4 for _ in mono]
                if a == 7:
                    hits = [[7 - d] * 4 for d in range(len(mono))]
                if a == 8:
                    hits = [[2 + 2 * (k % 2) for k in range(4)] for _ in mono]
                cases.append((inmono, mono, hits))
    cases.append((1, (), []))
    for inmono, mono, hits in cases:
        best, most = None, 0
        for k in range(4):
            for d in range(len(mono)):
                if viable(k, inmono, mono[d]) and hits[d][k] > most:
                    best, most = d, hits[d][k]
            if most > 2:
                break
        h = Choice(env, dsz, mono, inmono, hits)
        st = St(q=())
        st.mem[(("g", "designs"), NOOFF)] = ("p", DESIGNS, NOOFF)
        st.mem[(("g", "num_designs"), NOOFF)] = ("c", len(mono))
        s = Wide(env.mod, h)
        where = "%s input, %d designs%s, hits for the kinds of comparison %s" % ("plain" if inmono else "colored", len(mono), "".join(", %s" % ("plain" if m else "colored") for m in mono), hits)
        for rv, x in s.run("autodetect_design", [], st):
            if s.merged or s.overrun or h.lost:
                rep.unresolved("autodetect_design: " + where)
                break
            n += 1
            got = None if rv == ZERO else h.which(s, rv)
            if rv != ZERO and got is None:
                if rv[0] == "p" and rv[1] == DESIGNS:
                    V("choice:none", "what is chosen is not a design [%s]" % where)
                else:
                    rep.unresolved("autodetect_design: " + where)
            elif got != best:
                nm = lambda d: "no design" if d is None else "design %d" % (d + 1)
                V("choice", "autodetect_design (src/detect.c): %s is chosen instead of %s [%s]" % (nm(got), nm(best), where))
    return n


# ---- what is a hit ----------------------------------------------------------------------------------------------------------------------
class Hits(Base):
    """texts are found where `found` says: the shape line (shape, line) in line no of the input, at its 'begin', 'end', 'inside', or 'twice' in a row"""

    def __init__(self, env, V, empty, blank, found):
        Base.__init__(self, env, V, empty=empty, length=lambda k: 20 if k[0] == "in" else 3)
        self.blanklines, self.found = blank, found

    def where(self, k, s):
        return self.found.get((s[1], s[2], k[1])) if k[2] == s[3] else None

    def call2(self, sim, st, I, name, args, ctx):
        if name == "empty_side" and args[1][0] == "c":
            return [(("c", int(args[1][1] in self.sides)), st)]
        if name == "bxs_is_blank" and args[0][0] == "p" and args[0][1][:2] == ("h", "mb"):
            return [(("c", int(args[0][1][2] in self.blanklines)), st)]
        if name == "is_blankward" and all(a[0] == "c" for a in args[1:4]):
            sh, j, left = self.e.name.get(args[1][1]), args[2][1], args[3][1]
            if args[0] != ("p", ("h", "design", 0), NOOFF) or sh is None:
                return [(UNK, st)]
            return [(("c", int(bool(self.bw(sh, j, bool(left))))), st)]
        if name == "u32_strlen" and key(args[0]) is not None and not args[0][2][1]:
            k = key(args[0])
            return [(("c", self.length(k) - args[0][2][0] // 4), st)]
        if name in ("u32_strncmp", "u32_strstr", "u32_strcmp", "u32_startswith"):
            a, b = args[0], args[1]
            ka, kb = key(a), key(b)
            if name == "u32_strncmp" and ka and ka[0] == "shape":
                a, b, ka, kb = b, a, kb, ka
            if not ka or not kb or ka[0] != "in" or kb[0] != "shape" or b[2] != NOOFF or a[2][1]:
                self.lost.append(name)
                return [(UNK, st)]
            pos = a[2][0] // 4
            w = self.where(ka, kb)
            self.seen.append((ka, kb))
            off = ka[4]
            # the text of the line: begin -> 0, inside/twice -> 5 (and 8), end -> 3 characters before what trails; the compared part is one character shorter when whole shape lines were asked for wrongly
            trimmed = (kb[4], kb[5]) == self.trim(kb)
            spots = {None: (), "begin": (0,), "inside": (5,), "twice": (5, 8), "end": ("e",), "last": (17,)}[w] if trimmed else ()
            if name == "u32_strncmp":
                if off:
                    hit = "e" in spots and off == 3 and pos == 0
                else:
                    hit = pos in spots and (pos > 0 or ka[3])
                if args[2] != ("c", 3):
                    hit = hit and args[2][0] == "c" and args[2][1] < 3
                return [(("c", 0 if hit else 1), st)]
            if name == "u32_strstr":
                for p in spots:
                    if p != "e" and p >= pos:
                        return [(("p", a[1], (4 * p, ())), st)]
                return [(ZERO, st)]
            self.lost.append(name)
            return [(UNK, st)]
        return Base.call2(self, sim, st, I, name, args, ctx)

    def trim(self, kb):
        sh = kb[1]
        if sh in ("NW", "SW"):
            return (1, 0)
        if sh in ("NE", "SE"):
            return (0, 1)
        if sh in WEST:
            return (1, 0)
        if sh in EAST:
            return (1, 1)
        return (int(bool(self.bw(sh, kb[2], True))), int(bool(self.bw(sh, kb[2], False))))


def expected(lines, top, bot, left, right, heights, blank, elastic, found, empties):
    """documented way of counting"""
    hits = 0
    H = lambda s: heights[s]
    rows = {TOP: (0, H("NW")), BOT: (lines - H("SW"), lines)}
    inside = lambda a, b: [i for i in range(a, b) if 0 <= i < lines]
    for sh in heights:
        nb = [j for j in range(H(sh)) if (sh, j) not in blank]
        if sh in ("NW", "SW", "NE", "SE"):
            if (top if sh[0] == "N" else bot) or (left if sh[1] == "W" else right):
                continue
            ls = inside(0, H(sh)) if sh[0] == "N" else inside(lines - H(sh), lines)
            hits += sum(1 for j in nb for i in ls if found.get((sh, j, i)) == ("begin" if sh[1] == "W" else "end"))
        elif sh in HORIZ[TOP] + HORIZ[BOT]:
            if top or bot:
                continue
            ls = inside(0, H(sh)) if sh in HORIZ[TOP] else inside(lines - H(sh), lines)
            ok = ("twice",) if sh in elastic else ("begin", "inside", "twice", "last")
            hits += sum(1 for j in nb for i in ls if found.get((sh, j, i)) in ok)
        else:
            if sh in empties:
                continue
            a, b = 0 if top else H("NW"), lines - (0 if bot else H("SW"))
            if sh in WEST:
                hits += sum(1 for i in inside(a, b) if any(found.get((sh, j, i)) == "begin" for j in nb))
            else:
                hits += sum(1 for j in nb if any(found.get((sh, j, i)) == "end" for i in inside(a, b)))
    return hits


def hits(env, rep, V):
    n = pairs = 0
    if "match_design" not in env.mod.defined:
        rep.unresolved("counting of hits")
        return 0, 0
    names = list(env.shape)
    DES = ("h", "design", 0)
    bad = 0
    for lines in (1, 4, 6):
        for sides in ((), (LEF,), (RIG,), (TOP,), (BOT,), (LEF, RIG), (TOP, BOT)):
            for hv, ht, hb in ((2, 2, 1), (3, 1, 2)):
                heights = {s: hv if s in WEST + EAST else (ht if s[0] == "N" else hb) for s in names}
                for target in names:
                    h = heights[target]
                    own, other = ("end", "begin") if target in EAST + ("NE", "SE") else ("begin", "end")
                    if target in HORIZ[TOP] + HORIZ[BOT]:
                        own, other = "twice", "inside"
                    kinds = [own]
                    if lines == 6 and not sides:
                        kinds = ["begin", "end", "inside", "twice", "last"] if hv == 2 else [own, other]
                    if lines < 6 and (hv == 2 or len(sides) == 2) or target[0] == "S" and target not in WEST + EAST and lines < h:
                        continue
                    for kind in kinds:
                        for variant in ("all", "one", "blank", "gone"):
                            if variant != "all" and (lines < 6 or kind != own or len(sides) == 2):
                                continue
                            found = {(target, j, i): kind for j in range(h) for i in range(lines)}
                            blank, empties = set(), set()
                            if variant == "one":
                                # one line of the shape is found on one line of the input, the last one where it counts
                                at = {"N": ht - 1, "S": lines - 1}.get(target[0], lines - hb - 1 if BOT not in sides else lines - 1) if target not in WEST + EAST else (lines - hb - 1 if BOT not in sides else lines - 1)
                                found = {(target, h - 1, at): kind}
                            elif variant == "blank":
                                blank = {(target, 0)}
                            elif variant == "gone":
                                if target not in WEST + EAST:
                                    continue
                                empties = {target}
                            for el in ((), (target,)) if target in HORIZ[TOP] + HORIZ[BOT] else ((),):
                                hk = Hits(env, V, tuple(empties), blank, found)
                                hk.sides, hk.seen = sides, []
                                hk.bw = lambda sh, j, left: (sh in ("NNW", "SSW")) == left
                                st = env.state(lines, heights, {}, elastic=el)
                                for s_, v in env.shape.items():
                                    o = env.D["shape"][0] + v * env.nsz
                                    st.mem[(DES, (o + env.N["mbcs"][0], ()))] = P("mbs", s_)
                                    for j in range(heights[s_]):
                                        st.mem[(("h", "mbs", s_), (8 * j, ()))] = P("mb", (s_, j))
                                want = expected(lines, TOP in sides, BOT in sides, LEF in sides, RIG in sides, heights, blank, el, found, empties)
                                comp = env.comps[n % 4]
                                s = Wide(env.mod, hk)
                                where = "%d lines of input%s, %s%s of %d lines %s%s" % (lines, "".join(", no %s side" % {LEF: "left", RIG: "right", TOP: "top", BOT: "bottom"}[x] for x in sides), "elastic " if el else "", target, h,
                                                                                      {"begin": "at the beginning", "end": "at the end", "inside": "inside", "twice": "twice in a row", "last": "as the last characters"}[kind] +
                                                                                      (" of all lines" if variant != "one" else " of line %d" % (at + 1)), {"blank": ", its first line blank", "gone": ", which has no characters", "one": ", only its last line", "all": ""}[variant])
                                res = list(s.run("match_design", [("p", DES, NOOFF), ("c", comp)], st))
                                if s.merged or s.overrun or hk.lost or len(res) != 1 or res[0][0][0] != "c":
                                    bad += 1
                                    if bad < 3:
                                        rep.unresolved("hits: " + where)
                                    if bad > 20:
                                        return n, pairs
                                    continue
                                n += 1
                                pairs += len(hk.seen)
                                if res[0][0][1] != want:
                                    V("hits:%s:%s" % (target, variant), "autodetect_design (src/detect.c): %d hits are counted instead of %d [%s]" % (res[0][0][1], want, where))
    return n, pairs


# ---- which part of a line is compared ---------------------------------------------------------------------------------------------------
class Part(BxHooks):
    alloc_ok = True

    def __init__(self, env):
        self.e, self.lost, self.cut = env, [], []

    def load(self, sim, st, I, loc, ctx):
        if loc[0] == FC and not loc[1][1]:
            return ("c", self.first(loc[1][0] // 8))
        return None

    def call2(self, sim, st, I, name, args, ctx):
        if name in ("bxs_filter_visible", "get_visible_text"):
            return [(("p", VIS, NOOFF), st)]
        if name == "u32_strdup" and args[0][0] == "p":
            return [(args[0], st)]
        if name == "free":
            return [(UNK, st)]
        if name == "set_char_at" and args[0][0] == "p" and not args[0][2][1] and args[1][0] == "c":
            self.cut.append((args[0][1], args[0][2][0] // 4 + args[1][1]))
            return [(UNK, st)]
        return None


def put(env, st, base, off, ind, vis, tr, inv, first):
    """a text with `vis` visible characters, `ind` and `tr` of them blanks at its ends, and `inv` invisible ones"""
    for f, v in (("indent", ind), ("num_chars_visible", vis), ("trailing", tr), ("num_chars_invisible", inv), ("num_chars", vis + inv), ("num_columns", vis)):
        st.mem[(base, (off + env.B[f][0], ()))] = ("c", v)
    st.mem[(base, (off + env.B["memory"][0], ()))] = ("p", TXT, NOOFF)
    st.mem[(base, (off + env.B["first_char"][0], ()))] = ("p", FC, NOOFF)


def parts(env, rep, V):
    n = 0
    lt = fields(env.mod, "line_t")
    layouts = [(0, 8, 0, 0, lambda i: i), (3, 10, 2, 0, lambda i: i), (0, 9, 4, 6, lambda i: i + min(i, 6)), (2, 9, 0, 5, lambda i: i + (5 if i > 4 else 0)), (3, 9, 2, 6, lambda i: i + (0 if i <= 3 else 4) + (2 if i >= 7 else 0)),
               (1, 4, 3, 0, lambda i: i)]
    lsz = env.lsz
    if "prepare_comp_input" in env.mod.defined:
        for ind, vis, tr, inv, fc in layouts:
            for ck, comp in enumerate(env.comps):
                for tl in (0, 1):
                    for off in (0, 1, 3, 30):
                        for row in (0, 1):
                            h = Part(env)
                            h.first = fc
                            st = St(q=())
                            st.mem[(("g", "input"), (env.I["num_lines"][0], ()))] = ("c", 2)
                            st.mem[(("g", "input"), (env.I["lines"][0], ()))] = ("p", LINE, NOOFF)
                            for r in (0, 1):
                                b = ("h", "line%d" % r, 0)
                                st.mem[(LINE, (r * lsz + lt["text"][0], ()))] = ("p", b, NOOFF)
                                if r == row:
                                    put(env, st, b, 0, ind, vis, tr, inv, fc)
                                else:
                                    st.mem[(b, (env.B["memory"][0], ()))] = ("p", ("h", "t", ("other",)), NOOFF)
                            oi, ot = ("h", "oi", 0), ("h", "ot", 0)
                            only = ck in (1, 3)
                            F = (lambda i: i) if only else fc
                            if off:
                                at = F(vis - tr) - off
                                want = at if at >= 0 else None
                            else:
                                want = F(ind) if tl else 0
                            wind = max(F(ind) - want, 0) if want is not None else None
                            wtr = tr if only else vis + inv - F(vis - tr)
                            s = Wide(env.mod, h)
                            where = "%s, %s%d blanks before, %d after, %d visible and %d other characters" % (("literal", "ignoring colors of the input", "ignoring colors of the design", "ignoring all colors")[ck], "%d characters before the end, " % off if off else ("without indentation, " if tl else ""), ind, tr, vis, inv)
                            for rv, x in s.run("prepare_comp_input", [("c", row), ("c", tl), ("c", comp), ("c", off), ("p", oi, NOOFF), ("p", ot, NOOFF)], st):
                                if rv != ZERO and (rv[0] != "p" or rv[2][1] or rv[1][1] != "t") or s.merged or s.overrun:
                                    rep.unresolved("prepare_comp_input: %s" % where)
                                    continue
                                n += 1
                                if rv == ZERO:
                                    if want is not None:
                                        V("part:none", "prepare_comp_input (src/detect.c): there is nothing to compare with [%s]" % where)
                                    continue
                                if want is None:
                                    V("part:before", "prepare_comp_input (src/detect.c): text before the beginning of the line is compared [%s]" % where)
                                    continue
                                if rv[1] != (VIS if only else TXT):
                                    V("part:which", "prepare_comp_input (src/detect.c): %s [%s]" % ("another line is compared" if rv[1] not in (VIS, TXT) else "only the visible characters are compared" if rv[1] == VIS else "all characters are compared, also invisible ones", where))
                                elif rv[2][0] != 4 * want:
                                    V("part:begin", "prepare_comp_input (src/detect.c): comparison begins at character %d instead of %d [%s]" % (rv[2][0] // 4 + 1, want + 1, where))
                                # blanks before and after are asked for with whole lines only
                                for base, w, t in ((oi, wind, "before"), (ot, wtr, "after")):
                                    g = cell(x, base, 0)
                                    if g[0] == "c" and g[1] != w and not off:
                                        V("part:" + t, "prepare_comp_input (src/detect.c): %d blanks are said to be %s the text, there are %d [%s]" % (g[1], t, w, where))
    if "prepare_comp_shape" in env.mod.defined:
        for ind, vis, tr, inv, fc in layouts:
            for ck, comp in enumerate(env.comps):
                for tl, trr in product((0, 1), (0, 1)):
                    only = ck in (2, 3)
                    if tl and trr and inv and not only:
                        continue        # known to be inexact: shapes with escape sequences among the blanks
                    h = Part(env)
                    h.first = fc
                    st = St(q=())
                    d, b = ("h", "design", 0), ("h", "shapetext", 0)
                    for nm, v in env.shape.items():
                        o = env.D["shape"][0] + v * env.nsz
                        st.mem[(d, (o + env.N["height"][0], ()))] = ("c", 2 if nm == "WNW" else 1)
                        st.mem[(d, (o + env.N["mbcs"][0], ()))] = P("mbs", nm)
                        for j in (0, 1):
                            st.mem[(("h", "mbs", nm), (8 * j, ()))] = ("p", b, NOOFF) if nm == "WNW" and j == 1 else P("othertext", j)
                    put(env, st, b, 0, ind, vis, tr, inv, fc)
                    only = only and inv > 0
                    F = (lambda i: i) if only else fc
                    want = F(ind) if tl else 0
                    s = Wide(env.mod, h)
                    where = "%s%s%s, %d blanks before, %d after, %d visible and %d other characters" % (("literal", "ignoring colors of the input", "ignoring colors of the design", "ignoring all colors")[ck], ", not blanks before" if tl else "", ", not blanks after" if trr else "", ind, tr, vis, inv)
                    for rv, x in s.run("prepare_comp_shape", [("p", d, NOOFF), ("c", env.shape["WNW"]), ("c", 1), ("c", comp), ("c", tl), ("c", trr)], st):
                        if rv[0] != "p" or rv[1] not in (VIS, TXT) or rv[2][1] or s.merged or s.overrun:
                            rep.unresolved("prepare_comp_shape: %s" % where)
                            continue
                        n += 1
                        if rv[1] != (VIS if only else TXT) and inv:
                            V("shape:which", "prepare_comp_shape (src/detect.c): %s [%s]" % ("only the visible characters are compared" if rv[1] == VIS else "all characters are compared, also invisible ones", where))
                        elif rv[2][0] != 4 * want:
                            V("shape:begin", "prepare_comp_shape (src/detect.c): comparison begins at character %d instead of %d [%s]" % (rv[2][0] // 4 + 1, want + 1, where))
                        end = vis + (0 if only or rv[1] == VIS else inv)
                        if trr and tr:
                            end = F(vis - tr)
                        got = h.cut[-1][1] if h.cut else vis + (0 if rv[1] == VIS else inv)
                        if rv[1] == (VIS if only else TXT) and got != end:
                            V("shape:end", "prepare_comp_shape (src/detect.c): comparison ends with character %d instead of %d [%s]" % (got, end, where))
    return n


# ---- which input and which design has colors --------------------------------------------------------------------------------------------
class Mono(Base):
    def call2(self, sim, st, I, name, args, ctx):
        return Base.call2(self, sim, st, I, name, args, ctx)


def colors(env, rep, V):
    n = 0
    lt = fields(env.mod, "line_t")
    if "input_is_mono" in env.mod.defined:
        for inv in product((0, 4), repeat=3):
            for num in (1, 2, 3):
                st = St(q=())
                st.mem[(("g", "input"), (env.I["num_lines"][0], ()))] = ("c", num)
                st.mem[(("g", "input"), (env.I["lines"][0], ()))] = ("p", LINE, NOOFF)
                for r in range(3):
                    b = ("h", "line%d" % r, 0)
                    st.mem[(LINE, (r * env.lsz + lt["text"][0], ()))] = ("p", b, NOOFF)
                    put(env, st, b, 0, 0, 5, 0, inv[r], None)
                s = Wide(env.mod, Mono(env, V), cap=300)
                for rv, x in s.run("input_is_mono", [], st):
                    n += 1
                    if rv[0] == "c" and bool(rv[1]) == any(inv[:num]) and not s.merged:
                        V("colors:input", "input_is_mono (src/detect.c): input is taken for %s, invisible characters in its lines: %s" % ("plain" if rv[1] else "colored", list(inv[:num])))
    if "design_is_mono" in env.mod.defined:
        for where in [None] + [(nm, j) for nm in env.shape for j in (0, 1)]:
            for empty in ((), ("NW", "S", "ENE")):
                st = env.state(3, {nm: 2 for nm in env.shape}, {})
                d = ("h", "design", 0)
                for nm, v in env.shape.items():
                    o = env.D["shape"][0] + v * env.nsz
                    st.mem[(d, (o + env.N["mbcs"][0], ()))] = P("mbs", nm)
                    for j in (0, 1):
                        b = ("h", "st", (nm, j))
                        st.mem[(("h", "mbs", nm), (8 * j, ()))] = ("p", b, NOOFF)
                        put(env, st, b, 0, 0, 5, 0, 4 if where == (nm, j) else 0, None)
                s = Wide(env.mod, Mono(env, V, empty=empty), cap=300)
                want = where is None or where[0] in empty
                for rv, x in s.run("design_is_mono", [("p", d, NOOFF)], st):
                    n += 1
                    if rv[0] == "c" and bool(rv[1]) != want and not s.merged and not (where and where[0] in empty):
                        V("colors:design", "design_is_mono (src/detect.c): a design is taken for %s, %s" % ("plain" if rv[1] else "colored", "line %d of %s has invisible characters" % (where[1] + 1, where[0]) if where else "none of its shapes has invisible characters"))
    return n


def check(tree, rep):
    env = Env(tree.module())

    def V(k, t):
        rep.violation(k, t if "(src/" in t else "autodetect_design (src/detect.c): " + t)
    c = choice(env, rep, V)
    h, p = hits(env, rep, V)
    a = parts(env, rep, V)
    m = colors(env, rep, V)
    rep.cov.update(colors=m, choices=c, designs_matched=h, comparisons=p, parts=a, explanation="autodetect_design is interpreted for %d tables of hits per design and kind of comparison, match_design for %d layouts of input and design with the comparison of texts replaced by where the shape is (%d comparisons), "
                   "and the functions which say what is compared for %d texts; results compared with the documented way of counting" % (c, h, p, a))
    rep.assumptions += ["u32_strncmp, u32_strstr, bxs_filter_visible do what they are named for", "memory allocation succeeds; debug output off"]
