"""C11: the generated sides of a box consist of the design's shapes, in order, and fit together."""
from sim import St, UNK, ZERO, NOOFF
from bx import fields, need_fn
from c19 import Lst, Straight, S, array
import ustr

DES, BOX = ("h", "design", 0), ("h", "box", 0)
NAMES = ("nw", "nnw", "n", "nne", "ne", "ene", "e", "ese", "se", "sse", "s", "ssw", "sw", "wsw", "w", "wnw")
SIDES = ("top", "right", "bottom", "left")
# along each side in the direction of reading
ORDER = {0: (0, 1, 2, 3, 4), 1: (4, 5, 6, 7, 8), 2: (12, 11, 10, 9, 8), 3: (0, 15, 14, 13, 12)}
# what may be between two corners: E elastic, f fixed, - no shape
KINDS = ("-E-", "E--", "--E", "Ef-", "-Ef", "fE-", "E-f", "f-E", "-fE", "fEf", "Eff", "ffE", "EfE")


class Gen(Lst):
    def load(self, sim, st, I, loc, ctx):
        if loc[0][0] == "al" and not loc[1][1]:
            z = sim.alsize.get(loc[0])
            if z is not None and not 0 <= loc[1][0] < z:
                self.bad.append(("bounds", "an array is read beyond its end"))
        return None

    def store(self, sim, st, I, loc, val, ctx):
        if loc[0][0] == "al" and not loc[1][1]:
            z = sim.alsize.get(loc[0])
            if z is not None and not 0 <= loc[1][0] < z:
                self.bad.append(("bounds", "an array is written beyond its end"))
        return Lst.store(self, sim, st, I, loc, val, ctx)

    def call2(self, sim, st, I, name, args, ctx):
        if name in ("highest", "widest") and args[1][0] == "c":
            l = sim.loc(args[0])
            E, z = self.E, self.esz
            vs = []
            for a in args[2:2 + args[1][1]]:
                if not l or l[1][1] or a[0] != "c":
                    return [(UNK, st)]
                v = st.mem.get((l[0], (l[1][0] + a[1] * z + E["height" if name == "highest" else "width"][0], ())))
                if v is None or v[0] != "c":
                    return [(UNK, st)]
                vs.append(v[1])
            if len(args) < 2 + args[1][1]:
                self.bad.append(("args:" + name, "%s() is given fewer shapes than announced" % name))
            return [(("c", max(vs or [0])), st)]
        if name in ("u32_strcat", "u32_strcpy"):
            l, r = sim.loc(args[0]), sim.loc(args[1])
            a = ustr.get(st, l) if l and name == "u32_strcat" else ()
            b = ustr.get(st, r) if r else None
            if a is not None and b is not None and l and not l[1][1]:
                z = st.facts.get(("size", l[0]))
                if z is not None and l[1][0] + 4 * (len(a) + len(b) + 1) > z:
                    self.bad.append(("overflow", "a line of a side is longer than the buffer allocated for it"))
                for i, v in enumerate(b + (ZERO,)):
                    st.mem[(l[0], (l[1][0] + 4 * (len(a) + i), ()))] = v
                return [(args[0], st)]
        if name in ("strncat", "u32_strncat"):
            return [(UNK, st)]
        return Lst.call2(self, sim, st, I, name, args, ctx)


class Scene:
    def __init__(self, kinds, sizes, maxline, lines, extra=0, size=(0, 0), corners=None):
        """kinds: what is on the four sides; sizes[side]: sizes of its shapes along the side"""
        self.__dict__.update(locals())

    def __str__(self):
        return "sides %s of sizes %s, text of %d columns and %d lines" % (
            ", ".join("%s: %s" % p for p in zip(SIDES, self.kinds)), ", ".join("/".join(map(str, s)) for s in self.sizes), self.maxline, self.lines)


def scenes():
    n = len(KINDS)
    txt = ((0, 1), (1, 1), (7, 5), (12, 9), (3, 2), (16, 4))
    for k in range(2 * n):
        ks = tuple(KINDS[(k * m + a) % n] for m, a in ((1, 0), (5, 3), (3, 7), (8, 1)))
        sz = []
        for i, q in enumerate(ks):
            fix = 1 + (k + i) % 3
            # one of two opposing sides has an elastic shape of size 1: they can be made equal
            e = 1 if i < 2 else 1 + (k + i) % 3
            sz.append(tuple(e if c == "E" else fix for c in q))
        if k >= n:
            sz = sz[2:] + sz[:2]
        yield Scene(ks, sz, *txt[k % len(txt)], extra=k % 4)


    # texts around the minimum size, corners of different sizes
    for d in range(5):
        for flip in (0, 1):
            yield Scene(("-E-",) * 4, ((1,) * 3,) * 4, 14 + d, 9 + d, size=(20, 15), corners=(3, 1) if flip else (1, 3))
    yield Scene(("EfE",) * 4, ((1, 2, 1), (1, 1, 1), (1, 1, 1), (1, 3, 1)), 20, 14)
    yield Scene(("EfE",) * 4, ((1, 1, 1), (1, 2, 1), (2, 1, 2), (2, 1, 2)), 15, 17)


def prepare(mod, c, st):
    """the design of a scene"""
    E, D, B, O, IN = (fields(mod, s) for s in ("sentry_t", "design_t", "bxstr_t", "opt_t", "input_t"))
    esz = mod.structs["struct.sentry_t"]["size"]
    hgt = {0: 1 + c.extra % 2, 2: 1 + c.extra // 2}
    wid = {1: 2, 3: 1 + c.extra % 3}
    if c.corners:
        hgt, wid = {0: c.corners[0], 2: c.corners[1]}, {3: c.corners[0], 1: c.corners[1]}
    shape = {}
    for s in range(4):
        for k, i in enumerate(ORDER[s]):
            if k in (0, 4):
                continue
            q = c.kinds[s][k - 1]
            if q == "-":
                continue
            z = c.sizes[s][k - 1]
            shape[i] = ((z, hgt[s]) if s in (0, 2) else (wid[s], z)) + (q == "E",)
    for i, s, t in ((0, 0, 3), (4, 0, 1), (8, 2, 1), (12, 2, 3)):
        shape[i] = (wid[t], hgt[s], False)
    minw = max(sum(shape[i][0] for i in ORDER[s] if i in shape) for s in (0, 2))
    minh = max(sum(shape[i][1] for i in ORDER[s] if i in shape) for s in (1, 3))
    minw, minh = max(minw, c.size[0]), max(minh, c.size[1])
    for i in range(16):
        at = lambda f: (DES, (D["shape"][0] + i * esz + E[f][0], ()))
        st.mem[at("name")] = ("c", i)
        if i not in shape:
            for f in E:
                if f != "name":
                    st.mem[at(f)] = ZERO
            continue
        w, h, el = shape[i]
        st.mem[at("elastic")] = ("c", int(el))
        st.mem[at("width")], st.mem[at("height")] = ("c", w), ("c", h)
        for f in ("blank_leftward", "blank_rightward"):
            st.mem[at(f)] = ZERO

        def mb(j):
            n = w + (2 if c.extra == 3 and (i + j) % 3 == 0 else 0)          # some have invisible characters
            b, m = ("h", ("mb", i, j), 0), ("h", ("mbm", i, j), 0)
            ustr.put(st, m, [("u", ("char", "%s/%d/%d/%d" % (NAMES[i], j, k, n))) for k in range(n)])
            for f, v in (("memory", ("p", m, NOOFF)), ("num_chars", ("c", n)), ("num_columns", ("c", w)), ("num_chars_visible", ("c", w)), ("num_chars_invisible", ("c", n - w))):
                st.mem[(b, (B[f][0], ()))] = v
            return ("p", b, NOOFF)

        def narrow(j):
            b = S("ascii", i, j)
            for k in range(w):
                v = ("u", ("b", ("ascii", i, j), k, w))
                st.facts[("ne", v)] = frozenset((0,))
                st.mem[(b, (k, ()))] = v
            st.mem[(b, (w, ()))] = ZERO
            return ("p", b, NOOFF)
        st.mem[at("mbcs")] = array(st, ("mbcs", i), h, mb)
        st.mem[at("chars")] = array(st, ("chars", i), h, narrow)
    for f, v in (("minwidth", ("c", minw)), ("minheight", ("c", minh)), ("name", ("u", "name of the design"))):
        st.mem[(DES, (D[f][0], ()))] = v
    for f, v in (("design", ("p", DES, NOOFF)),):
        st.mem[(("g", "opt"), (O[f][0], ()))] = v
    for f, v in (("maxline", ("c", c.maxline)), ("num_lines", ("c", c.lines)), ("indent", ZERO)):
        st.mem[(("g", "input"), (IN[f][0], ()))] = v
    st.mem[(("g", "stderr"), NOOFF)] = ("u", "stderr")
    for s in range(4):
        for f in E:
            st.mem[(BOX, (s * esz + E[f][0], ()))] = ZERO
    return shape, minw, minh


def generate(mod, c, limit=400000):
    h = Gen(mod)
    h.E, h.esz = fields(mod, "sentry_t"), mod.structs["struct.sentry_t"]["size"]
    st = St(q=((), ()))
    shape, minw, minh = prepare(mod, c, st)
    s = Straight(mod, h, cap=400, budget=limit)
    return h, shape, minw, minh, s.run("generate_box", [("p", BOX, NOOFF)], st), s


def check(tree, rep):
    mod = tree.module()
    need_fn(mod, "generate_box")
    E, B = fields(mod, "sentry_t"), fields(mod, "bxstr_t")
    esz = mod.structs["struct.sentry_t"]["size"]
    n = rows = 0
    for c in scenes():
        def V(k, t):
            rep.violation(k, "generate_box (src/generate.c): %s [%s]" % (t, c))
        h, shape, minw, minh, res, s = generate(mod, c)
        if not res:
            if h.bad:
                V(*h.bad[0])
            elif s.overrun:
                rep.unresolved("%s: not followed to the end" % c)
            continue
        for rv, x in res:
            n += 1
            if h.bad:
                V(*h.bad[0])
            if rv != ZERO:
                if rv[0] == "c":
                    V("fails", "reports failure although the shapes can be arranged")
                continue
            get = lambda side, f: x.mem.get((BOX, (side * esz + E[f][0], ())), UNK)
            dim = {}
            for side in range(4):
                w, ht = get(side, "width"), get(side, "height")
                if w[0] != "c" or ht[0] != "c":
                    rep.unresolved("size of the %s side, %s" % (SIDES[side], c))
                    dim = None
                    break
                dim[side] = (w[1], ht[1])
            if dim is None:
                continue
            cw = lambda i, k: shape[i][k] if i in shape else 0
            if dim[0][0] != dim[2][0]:
                V("width:differs", "top and bottom side are %d and %d columns wide" % (dim[0][0], dim[2][0]))
            if dim[1][1] != dim[3][1]:
                V("height:differs", "left and right side are %d and %d lines high" % (dim[3][1], dim[1][1]))
            if c.size[0]:
                # elastic shapes of size 1: nothing is larger than it has to be
                for side in (0, 2):
                    if dim[side][0] > max(c.maxline, minw - cw(0, 0) - cw(4, 0)):
                        V("width:large", "the %s side has %d columns, more than the text and the minimum width need" % (SIDES[side], dim[side][0]))
                for side in (1, 3):
                    if dim[side][1] > max(c.lines + cw(0, 1) + cw(12, 1), minh):
                        V("height:large", "the %s side has %d lines, more than the text and the minimum height need" % (SIDES[side], dim[side][1]))
            for side in (0, 2):
                if dim[side][0] < max(c.maxline, minw - cw(0, 0) - cw(4, 0)):
                    V("width:small", "the %s side has %d columns, the text and the minimum width need more" % (SIDES[side], dim[side][0]))
            for side in (1, 3):
                if dim[side][1] < max(c.lines + cw(0, 1) + cw(12, 1), minh):
                    V("height:small", "the %s side has %d lines, the text and the minimum height need more" % (SIDES[side], dim[side][1]))
            for side in range(4):
                mids = [i for i in ORDER[side][1:4] if i in shape]
                mb = sim_lines(mod, x, get(side, "mbcs"), dim[side][1])
                asc = ascii_lines(h, s, x, get(side, "chars"), dim[side][1])
                if side in (0, 2):
                    if dim[side][1] != max(cw(i, 1) for i in ORDER[side]):
                        V("rect:%d" % side, "the %s side is %d lines high, its shapes are not" % (SIDES[side], dim[side][1]))
                        continue
                    reps = []
                    for r, line in enumerate(mb):
                        rows += 1
                        if line is None:
                            rep.unresolved("line %d of the %s side, %s" % (r + 1, SIDES[side], c))
                            continue
                        reps.append(compare(V, line, mids, r, shape, SIDES[side], dim[side][0]))
                    for r, line in enumerate(asc):
                        if line is None:
                            rep.unresolved("narrow line %d of the %s side, %s" % (r + 1, SIDES[side], c))
                            continue
                        reps.append(compare(V, line, mids, r, shape, SIDES[side], dim[side][0]))
                    if len({tuple(q) for q in reps if q is not None}) > 1:
                        V("rows:%d" % side, "the lines of the %s side are arranged differently" % SIDES[side])
                    for q in reps:
                        if q:
                            counts(V, q, mids, shape, SIDES[side])
                else:
                    a, b = ORDER[side][0], ORDER[side][4]
                    for lines in (mb, asc):
                        rows += len(lines)
                        if None in lines:
                            rep.unresolved("lines of the %s side, %s" % (SIDES[side], c))
                            continue
                        column(V, lines, a, mids, b, shape, SIDES[side])
    # shapes of opposing sides which never add up
    for ks, sz in ((("-E-", "-E-", "-Ef", "-E-"), ((2,) * 3, (1,) * 3, (2, 2, 1), (1,) * 3)), (("-E-", "-E-", "-E-", "-fE"), ((1,) * 3, (2,) * 3, (1,) * 3, (1, 1, 2)))):
        c = Scene(ks, sz, 3, 2)
        h, shape, minw, minh, res, s = generate(mod, c, 150000)
        n += len(res)
        if not res and s.overrun:
            rep.violation("endless", "generate_box (src/generate.c) does not end when shapes of opposing sides cannot have the same size [%s]" % c)
        if any(rv == ZERO for rv, x in res):
            rep.violation("unequal", "generate_box (src/generate.c) reports success although shapes of opposing sides cannot have the same size [%s]" % c)
    rep.need(n > 10, "too few paths")
    rep.cov.update(scenarios=2 * len(KINDS) + 14, paths=n, lines=rows,
                   explanation="Constant propagation through generate_box() for designs with all arrangements of shapes on their sides; characters are opaque. The lines made are compared with the arrangement of the shapes.")
    rep.assumptions += ["sizes of shapes up to 3, texts up to 16 columns and 9 lines; shapes on one side have the same height or width, as the configuration's checks ensure"]


def sim_lines(mod, x, arr, n):
    """the texts of a side: list of (shape, line, number of line's characters) per character"""
    B = fields(mod, "bxstr_t")
    out = []
    for j in range(n):
        v = x.mem.get((arr[1], (arr[2][0] + 8 * j, ())), UNK) if arr[0] == "p" else UNK
        t = None
        if v[0] == "u" and v[1][0] == "cat" and len(v[1][1]) == 1 and v[1][1][0][0] == "chars":
            t = v[1][1][0][1]
        elif v[0] == "p":
            m = x.mem.get((v[1], (v[2][0] + B["memory"][0], ())), UNK)
            t = ustr.get(x, (m[1], m[2])) if m[0] == "p" else None
        elif v == ZERO:
            t = ()
        if t is None or any(a[0] != "u" or a[1][0] != "char" for a in t):
            out.append(None)
            continue
        out.append(group([tuple(a[1][1].split("/")) for a in t]))
    return out


def group(chars):
    """(shape, line) for each complete copy of a line, ('part', shape) for the rest"""
    out, i = [], 0
    while i < len(chars):
        nm, j, k, n = chars[i][0], int(chars[i][1]), int(chars[i][2]), int(chars[i][3])
        if k == 0 and [c[:3] for c in chars[i:i + n]] == [(nm, str(j), str(m)) for m in range(n)]:
            out.append((NAMES.index(nm), j))
            i += n
        else:
            out.append(("part", nm))
            i += 1
    return out


def ascii_lines(h, s, x, arr, n):
    out = []
    for j in range(n):
        v = x.mem.get((arr[1], (arr[2][0] + 8 * j, ())), UNK) if arr[0] == "p" else UNK
        bs = h.bytes(s, x, v) if v not in (UNK, ZERO) else [ZERO] if v == ZERO else None
        if bs is None:
            out.append(None)
            continue
        out.append([t[1][1:] if t[0] == "str" and t[1][0] == "ascii" else ("part", t[0]) for t in h.tokens(bs[:-1])])
    return out


def compare(V, line, mids, r, shape, where, width):
    """numbers of copies of each shape"""
    if any(t[0] == "part" for t in line):
        V("parts:" + where, "a shape is not shown completely on the %s side" % where)
        return None
    if any(t[1] != r for t in line):
        V("line:" + where, "line %d of the %s side shows another line of its shapes" % (r + 1, where))
        return None
    seq = []
    for i, _ in line:
        if not seq or seq[-1][0] != i:
            seq.append([i, 0])
        seq[-1][1] += 1
    if [i for i, _ in seq] != mids:
        V("order:" + where, "the %s side consists of %s instead of %s" % (where, ", ".join(NAMES[i] for i, _ in seq), ", ".join(NAMES[i] for i in mids)))
        return None
    if sum(shape[i][0] * k for i, k in seq) != width:
        V("length:" + where, "the %s side is %d columns long instead of %d" % (where, sum(shape[i][0] * k for i, k in seq), width))
    return [k for _, k in seq]


def counts(V, ns, mids, shape, where):
    for i, k in zip(mids, ns):
        if not shape[i][2] and k != 1:
            V("fixed:" + where, "shape %s is repeated although it is not elastic" % NAMES[i].upper())
    el = [(shape[i], k) for i, k in zip(mids, ns) if shape[i][2]]
    if len(el) == 2 and el[0][0] == el[1][0] and abs(el[0][1] - el[1][1]) > 1:
        V("shared:" + where, "two elastic shapes are not used evenly on the %s side: %d and %d times" % (where, el[0][1], el[1][1]))


def column(V, lines, a, mids, b, shape, where):
    if any(len(l) != 1 or l[0][0] == "part" for l in lines):
        V("parts:" + where, "a line of the %s side is not a line of a shape" % where)
        return
    seq = [l[0] for l in lines]
    want = [(a, j) for j in range(shape[a][1])]
    if seq[:len(want)] != want:
        V("corner:" + where, "the %s side does not begin with %s" % (where, NAMES[a].upper()))
        return
    tail = [(b, j) for j in range(shape[b][1])]
    if seq[len(seq) - len(tail):] != tail or len(seq) < len(want) + len(tail):
        V("corner:" + where, "the %s side does not end with %s" % (where, NAMES[b].upper()))
        return
    seq = seq[len(want):len(seq) - len(tail)]
    got = []
    for i, j in seq:
        if not got or got[-1][0] != i:
            got.append([i, 0])
        if j != got[-1][1] % shape[i][1]:
            V("cycle:" + where, "lines of shape %s are not shown in order" % NAMES[i].upper())
            return
        got[-1][1] += 1
    if [i for i, _ in got] != mids:
        V("order:" + where, "the %s side consists of %s instead of %s" % (where, ", ".join(NAMES[i] for i, _ in got), ", ".join(NAMES[i] for i in mids)))
        return
    counts(V, [max(1, k // shape[i][1]) for i, k in got], mids, shape, where)
    for i, k in got:
        if k % shape[i][1]:
            V("parts:" + where, "shape %s is not shown completely" % NAMES[i].upper())
        elif not shape[i][2] and k != shape[i][1]:
            V("fixed:" + where, "shape %s is repeated although it is not elastic" % NAMES[i].upper())
