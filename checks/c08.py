"""C08: shapes which a design leaves out are made up of blanks so that they fit; shapes which are given stay as they are."""
import os
from itertools import product
from concurrent.futures import ProcessPoolExecutor
from parse import Parser, ParserHooks, cell, ZERO, UNK, NOOFF, BISON
from bx import need_fn, fields
from c13 import NAMES, SIDES, block_rules
from common import Broken

HOR = ("top", "bottom")
_P = None


class H(ParserHooks):
    def __init__(self, P, **kw):
        ParserHooks.__init__(self, P.mod, **kw)
        self.P = P
        self.shape_params = {}
        for n, f in P.mod.defined.items():
            ks = [k for k, t in enumerate(f.dtypes[1:] if len(f.dtypes) == f.nargs + 1 else f.dtypes) if t and "sentry_t" in t and t.count("*") == 1]
            if ks:
                self.shape_params[n] = ks

    def call2(self, sim, st, I, n, args, ctx):
        P = self.P
        if n in self.shape_params:
            l = P.design(st)
            for k in self.shape_params[n]:
                if k < len(args) and args[k][0] == "p" and l and args[k][1] == l[0] and not args[k][2][1]:
                    o = args[k][2][0] - l[1] - P.D["shape"][0]
                    if not 0 <= o < 16 * P.ssize:
                        self.ev(st, "outside", n, o // P.ssize, I.where())
        if n == "genshape" and len(args) == 4:
            l = P.design(st)
            w = []
            for k in (2, 3):
                a = args[k]
                w.append((a[2][0] - l[1] - P.D["shape"][0]) if a[0] == "p" and a[1] == l[0] and not a[2][1] else None)
            if None in w or w[0] // P.ssize != w[1] // P.ssize or w[0] % P.ssize != P.S["chars"][0] or w[1] % P.ssize != P.S["mbcs"][0]:
                self.ev(st, "gen?", I.where())
            else:
                i = w[0] // P.ssize
                self.ev(st, "gen", i, args[0], args[1], I.where())
                for f in ("chars", "mbcs"):
                    v = ("u", ("gen", f, i))
                    st.facts[("ne", v)] = frozenset((0,))
                    P.dset(st, "shape", v, i * P.ssize + P.S[f][0])
            return [(ZERO, st)]
        return ParserHooks.call2(self, sim, st, I, n, args, ctx)


def one(given):
    """given: {shape: (width, height, elastic)} -> list of (key, text), unresolved"""
    P = _P
    st = P.init()
    for i in range(16):
        if i in given:
            w, h, e = given[i]
            P.full_shape(st, i, ("c", w), ("c", h), e)
        else:
            P.shape(st, i, name=("c", 0), chars=ZERO, mbcs=ZERO, width=ZERO, height=ZERO, elastic=("c", 1))
    for f in ("maxshapeheight", "minwidth", "minheight"):
        P.dset(st, f, ZERO)
    if "num_shapespec" in P.B:
        st.mem[(BISON, (P.B["num_shapespec"][0], ()))] = ("c", len(given))
    blocks, rd = block_rules(P)
    what = ", ".join("%s %dx%d" % (NAMES[i], w, h) for i, (w, h, e) in sorted(given.items()))
    res = []

    def bad(k, t):
        if not any(x[0] == k for x in res):
            res.append((k, "completion of the shapes (src/parsecode.c): with " + what + " given, " + t))

    n = 0
    for o, s in P.rule(blocks["SHAPES"], H(P, stubs=dict(perform_se_check=ZERO)), st):
        if o not in ("ok", "accept", "error", "abort"):
            continue
        n += 1
        gen = {}
        for e in s.q or ():
            if e[0] == "outside":
                bad("outside", "%s looks at shape %d, which does not exist (%s)" % (e[1], e[2], e[3]))
            if e[0] == "gen":
                gen[e[1]] = e[2], e[3]
        if o in ("error", "abort"):
            bad("refused", "the design is refused, although the given shapes agree in size")
            continue

        def get(i, f):
            v = P.dget(s, "shape", i * P.ssize + P.S[f][0])
            return v[1] if v[0] == "c" else v

        W = [get(i, "width") for i in range(16)]
        Hh = [get(i, "height") for i in range(16)]
        if any(not isinstance(x, int) for x in W + Hh):
            return res, ["sizes are not followed with " + what]
        there = [i in given or i in gen for i in range(16)]
        for i in given:
            if i in gen:
                bad("replaced", "%s is replaced by blanks" % NAMES[i])
            if (W[i], Hh[i]) != given[i][:2]:
                bad("resized", "the size of %s becomes %dx%d" % (NAMES[i], W[i], Hh[i]))
            el = get(i, "elastic")
            if isinstance(el, int) and el != given[i][2]:
                bad("elastic", "%s becomes %selastic" % (NAMES[i], "" if el else "not "))
        for i, (gw, gh) in gen.items():
            if gw != ("c", W[i]) or gh != ("c", Hh[i]):
                if gw[0] == gh[0] == "c":
                    bad("gensize", "%s is made with a size of %sx%s, but recorded as %dx%d" % (NAMES[i], gw[1], gh[1], W[i], Hh[i]))
            if W[i] <= 0 or Hh[i] <= 0:
                bad("empty", "%s is made with a size of %dx%d" % (NAMES[i], W[i], Hh[i]))
        for i in range(16):
            if not there[i] and (W[i] or Hh[i]):
                bad("sized", "%s gets a size, but no content" % NAMES[i])
        for i in (0, 4, 8, 12):
            if not there[i]:
                bad("corner", "there is no %s corner" % NAMES[i])
            elif i in gen and get(i, "elastic") != 0:
                bad("elcorner", "the %s corner made up is elastic" % NAMES[i])
        for sd, sh in SIDES.items():
            mid = [i for i in sh[1:4] if there[i]]
            if not mid:
                bad("side", "the %s side has no shape besides its corners" % sd)
            for i in mid:
                if i in gen:
                    if any(j in given for j in sh[1:4]):
                        bad("extra", "%s is made up, although the %s side has a shape" % (NAMES[i], sd))
                    if get(i, "elastic") != 1:
                        bad("inelastic", "%s is made up, but is not elastic" % NAMES[i])
                    if len(mid) > 1:
                        bad("extra", "more than one shape is made up on the %s side" % sd)
                    if (W if sd in HOR else Hh)[i] != 1:
                        bad("big", "%s is made up with a size of %dx%d" % (NAMES[i], W[i], Hh[i]))
            dim = Hh if sd in HOR else W
            on = [i for i in sh if there[i]]
            for i in on[1:]:
                if dim[i] != dim[on[0]]:
                    bad("fit", "%s and %s on the %s side have different %s" % (NAMES[on[0]], NAMES[i], sd, "heights" if sd in HOR else "widths"))
        # derived sizes
        mw = max(sum(W[i] for i in SIDES[s_] if there[i]) for s_ in HOR)
        mh = max(sum(Hh[i] for i in SIDES[s_] if there[i]) for s_ in ("left", "right"))
        mx = max(Hh[i] for i in range(16) if there[i])
        for f, v, t in (("minwidth", mw, "minimum width"), ("minheight", mh, "minimum height"), ("maxshapeheight", mx, "height of the highest shape")):
            g = P.dget(s, f)
            if g[0] == "c" and g[1] != v:
                bad(f, "the %s is %d, not %d" % (t, g[1], v))
        for i in range(16):
            nm = get(i, "name")
            if isinstance(nm, int) and nm != i:
                bad("name", "shape %s is called shape %d" % (NAMES[i], nm))
    return res, ([] if n else ["not followed with " + what])


def cases():
    """which shapes are given, and in which sizes: consistent ones"""
    out = []
    mids = {"top": (1, 2, 3), "right": (5, 6, 7), "bottom": (9, 10, 11), "left": (13, 14, 15)}
    size = {"top": 2, "bottom": 3, "left": 4, "right": 5}

    def add(idx, big=1):
        g = {}
        for i in idx:
            ss = [s for s, sh in SIDES.items() if i in sh]
            w = next((size[s] for s in ss if s not in HOR), None)
            h = next((size[s] for s in ss if s in HOR), None)
            w = big if w is None else w
            h = big if h is None else h
            g[i] = (w, h, 1 if i % 4 == 2 else 0)
        if g:
            out.append(g)

    for i in range(16):
        add([i])
        add([i], 3)
    for i in range(16):
        for j in range(i + 1, 16):
            add([i, j])
    for c in product((0, 1), repeat=8):         # corners and middles in all combinations
        idx = [k for k, x in zip((0, 4, 8, 12, 2, 6, 10, 14), c) if x]
        if len(idx) > 2:
            add(idx, 2)
    for s in mids:
        for k in ((0, 1), (1, 2), (0, 2), (0, 1, 2)):
            add([mids[s][x] for x in k])
            add([mids[s][x] for x in k] + [mids[{"top": "bottom", "bottom": "top", "left": "right", "right": "left"}[s]][1]])
    add(range(16))
    return out


def init(tree_P):
    global _P
    _P = tree_P


def check(tree, rep):
    global _P
    _P = P = Parser(tree)
    need_fn(P.mod, "genshape", "isempty", "action_finalize_shapes")
    cs = cases()
    with ProcessPoolExecutor(8) as ex:
        rs = list(ex.map(one, cs, chunksize=16))
    seen = set()
    for r, u in rs:
        for k, t in r:
            if k not in seen:
                seen.add(k)
                rep.violation("shapes:" + k, t)
        for x in u:
            rep.unresolved(x)
    rep.cov.update(cases=len(cs), explanation="the rule of the grammar which ends the SHAPES block was followed by abstract interpretation for each set of given shapes, with constant sizes; the shapes recorded at its end were compared with what the block demands")
    rep.assumptions += ["memory allocation succeeds", "debug logging is off"]
