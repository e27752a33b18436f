"""Drawing of the box (output_box, and output_input for removal) followed with constant line counts and opaque widths and texts.

Texts are compositions of named pieces: parts of the generated sides, the input lines, runs of blanks of a given (opaque) length.
Lengths are compared as linear forms over opaque atoms (widths, paddings, halves); facts learnt on a path add equalities."""
from fractions import Fraction
from sim import Sim, St, UNK, ZERO, NOOFF, atoms_of
import sim as _sim
from bx import BxHooks, fields, need_fn
from common import Broken

BTOP, BRIG, BBOT, BLEF = 0, 1, 2, 3
BOX, DES, LINES = ("h", "box", 0), ("h", "design", 0), ("h", "lines", 0)
OUT = ("u", "outfile")
EOL = ("u", "eol")
W = ("u", "box width")
M = ("u", "longest line")
IND = ("u", "indent")
TABSTOP = 5


# ---- linear forms ------------------------------------------------------------------------------------------------------------------
def add(a, b, k=1):
    r = dict(a)
    for x, c in b.items():
        r[x] = r.get(x, 0) + k * c
        if r[x] == 0:
            del r[x]
    return r


def div(x, k):
    """floor(form / k) as a form: multiples of k taken out, floor((y + 1) / 2) = y - floor(y / 2)"""
    out, rest = {}, {}
    for a, c in x.items():
        q, r = divmod(c, k)
        if q:
            out[a] = q
        if r:
            rest[a] = r
    if k == 2 and rest.get(1) == 1 and len(rest) > 1:
        y = {a: c for a, c in rest.items() if a != 1}
        return add(add(out, y), {("div", tuple(sorted(y.items(), key=repr)), k): 1}, -1)
    return add(out, {("div", tuple(sorted(rest.items(), key=repr)), k): 1}) if set(rest) - {1} else out


def lin(v):
    """linear form {atom: coefficient}, constant under key 1; None if unknown.  Width changes are ignored."""
    if v == UNK:
        return None
    if v[0] == "form":
        return dict(v[1])
    if v[0] == "c":
        return {1: v[1]} if v[1] else {}
    if v[0] == "e":
        op, a, b = v[1], v[2], v[3]
        if op in ("trunc", "zext", "sext"):
            return lin(a)
        x = lin(a)
        y = lin(b)
        if x is None or y is None:
            return None
        if op == "add":
            return add(x, y)
        if op == "sub":
            return add(x, y, -1)
        if op in ("mul", "shl"):
            if op == "shl":
                if set(y) - {1}:
                    return {v: 1}
                y = {1: 1 << y.get(1, 0)}
            if set(x) - {1}:
                x, y = y, x
            if set(x) - {1}:
                return {v: 1}
            k = x.get(1, 0)
            return {n: c * k for n, c in y.items()} if k else {}
        k = y.get(1) if not set(y) - {1} else None
        if k:
            if op in ("lshr", "ashr"):
                op, k = "udiv", 1 << k
            if op == "and" and k & (k + 1) == 0:
                op, k = "urem", k + 1
            if op in ("udiv", "sdiv", "urem", "srem") and k > 0:
                d = div(x, k)
                return d if op.endswith("div") else add(x, d, -k)
        return {v: 1}
    return {v: 1}


def zeros(st):
    """linear forms which are zero on this path"""
    r = []
    for k, f in st.facts.items():
        if k[0] == "eq" and f[0] == "c":
            x = lin(k[1])
            if x:
                r.append(add(x, {1: f[1]}, -1))
        elif k[0] == "cmp" and k[1] == "eq" and f is True:
            x, y = lin(k[2]), lin(k[3])
            if x is not None and y is not None:
                r.append(add(x, y, -1))
        elif k[0] == "rng" and f[0] is not None and f[0] == f[1]:
            x = lin(k[1])
            if x:
                r.append(add(x, {1: f[0]}, -1))
    return [z for z in r if z]


def is_zero(form, zs):
    """does the form vanish in the span of the path's equalities"""
    rows = []
    for z in zs:
        z = {k: Fraction(c) for k, c in z.items()}
        for p, r in rows:
            if p in z:
                z = add(z, r, -z[p])
        ks = [k for k in z if k != 1]
        if not ks:
            continue
        p = min(ks, key=repr)
        z = {k: c / z[p] for k, c in z.items()}
        rows = [(q, add(r, z, -r[p]) if p in r else r) for q, r in rows] + [(p, z)]
    f = {k: Fraction(c) for k, c in form.items()}
    for p, r in rows:
        if p in f:
            f = add(f, r, -f[p])
    return not f


# ---- simulation ------------------------------------------------------------------------------------------------------------------------
WRITERS = {"fprintf": (0, 1), "bx_fprintf": (0, 1), "fputs": (1, None), "fputc": (1, None), "putc": (1, None), "fwrite": (3, None), "puts": (None, None), "printf": (None, 0), "putchar": (None, None)}


class Draw(BxHooks):
    """q = (pieces written to the output, buffers)"""
    alloc_ok = True

    def __init__(self, mod, empties=(), keep_tabs=False):
        self.mod = mod
        self.keep_tabs = keep_tabs
        self.empties = empties
        self.mem_off = fields(mod, "bxstr_t")["memory"][0]
        self.other = []

    def piece(self, sim, st, v):
        """contents of a character buffer or of a text: tuple of pieces"""
        if v[0] == "p" and v[2] == NOOFF and v[1][0] == "s":
            v = v[1][1]
        if v[0] != "u":
            s = sim.lit(v)
            return (("lit", s),) if s else () if s == "" else (("?", v),)
        k = v[1]
        if k == ("txt", ""):
            return ()
        if k[0] == "nsp":
            return (("sp", k[1]),)
        if k[0] in ("cat", "parts"):
            return k[1]
        if k[0] == "ind":
            return (k,)
        if k[0] == "buf":
            for bk, fills in st.q[1]:
                if bk == k[1]:
                    break
            end = [f for f in fills if f[1] == 0]
            body = [f for f in fills if f[1] != 0]
            if not end or any(f[1] is None for f in fills):
                return (("?", v),)
            if not body:
                return () if end[-1][0] == () else (("?", v),)
            if all(f[1] == 0x20 for f in body) and body[0][0] == ():
                return (("sp", ("form", end[-1][0])),)
            pos = {}
            res = []
            for o, ch, n in body:
                if add(pos, dict(o), -1) or lin(n) is None:
                    return (("?", v),)
                res.append(("sp" if ch == 0x20 else "tab" if ch == 9 else "chr", n))
                pos = add(pos, lin(n))
            if add(pos, dict(end[-1][0]), -1):
                return (("?", v),)
            return tuple(res)
        if k[0] == "ld" and k[1][1] == (self.mem_off, ()) and k[1][0][0] == "s":
            t = k[1][0][1]
            if t[0] == "u" and t[1][0] in ("part", "line", "cut", "cat", "rtrim"):
                return self.text(sim, st, t)
        return (("?", v),)

    def text(self, sim, st, t):
        """pieces of a bxstr_t"""
        if t[0] == "p" and t[2] == NOOFF and t[1][0] == "s":
            t = t[1][1]
        if t[0] == "u":
            k = t[1]
            if k[0] in ("part", "line"):
                return (k,)
            if k[0] == "cut":
                return (("cut", k[1], k[2]),)
            if k[0] == "cat":
                return k[1]
            if k[0] == "rtrim":
                return (("rtrim", k[1]),)
        return (("?", t),)

    def seen(self, st):
        """lines found to be empty on this path"""
        return [k[1][1] for k in st.facts if k[0] == "eq" and k[1][0] == "u" and k[1][1][0] == "empty"]

    def out(self, st, pieces):
        st.q = (st.q[0] + tuple(pieces), st.q[1])

    def call2(self, sim, st, I, name, args, ctx):
        def val(key):
            v = ("u", key)
            st.facts[("ne", v)] = frozenset((0,))
            return [(v, st)]
        if name in ("malloc", "calloc"):
            k = len(st.q[1])
            st.q = (st.q[0], st.q[1] + ((k, ()),))
            return val(("buf", k))
        if name == "u32_set":
            l = sim.loc(args[0])
            if l and l[0][0] == "s" and l[0][1][0] == "u" and l[0][1][1][0] == "buf":
                o = {1: Fraction(l[1][0], 4)} if l[1][0] else {}
                for x, s in l[1][1]:
                    y = lin(x)
                    o = add(o, y if y is not None else {x: 1}, Fraction(s, 4))
                o = tuple(sorted(((a, int(b) if b == int(b) else b) for a, b in o.items()), key=repr))
                ch = args[1][1] if args[1][0] == "c" else None
                b = l[0][1][1][1]
                if args[2] != ZERO:
                    st.q = (st.q[0], tuple((k, f + ((o, ch, args[2]),)) if k == b else (k, f) for k, f in st.q[1]))
            return [(args[0], st)]
        if name == "new_empty_string32":
            return val(("txt", ""))
        if name == "u32_nspaces":
            return val(("nsp", args[0]))
        if name == "tabbify_indent" and self.keep_tabs:
            return val(("ind", args[0], self.piece(sim, st, args[1]), args[2]))
        if name == "empty_side" and args[1][0] == "c":
            return [(("c", int(args[1][1] in self.empties)), st)]
        if name == "empty_line":
            s2 = st.copy()
            s2.facts[("eq", ("u", ("empty", args[0])))] = ("c", 1)
            return [(ZERO, st), (("c", 1), s2)]
        if name == "bxs_concat":
            if args[0][0] != "c":
                return val(("cat", (("?", args[0]),)))
            n = args[0][1]
            if n > len(args) - 1:
                return val(("cat", (("?", ("missing",)),)))
            ps = ()
            for a in args[1:1 + n]:
                ps += self.piece(sim, st, a)
            return val(("cat", ps))
        if name == "bxs_cut_front":
            t = args[0]
            if t[0] == "u" and t[1][0] == "line":
                return val(("cut", t[1][1], args[1]) if args[1] != ZERO else t[1])
            return val(("cat", (("?", t),)))
        if name == "bxs_rtrim":
            return val(("rtrim", self.text(sim, st, args[0])))
        if name == "bxs_to_output":
            return val(("out", self.text(sim, st, args[0])))
        if name == "u32_strconv_to_output":
            return val(("out", self.piece(sim, st, args[0])))
        if name in ("free", "bxs_free"):
            return [(UNK, st)]
        if name in WRITERS:
            self.write(sim, st, name, args)
            return [(("u", ("written",)), st)]
        return None

    def write(self, sim, st, name, args):
        si, fi = WRITERS[name]
        if si is None or si >= len(args):
            self.other.append(name)
            return
        if args[si] != OUT:
            if args[si] != ("u", "stderr"):
                self.other.append(name)
            return
        if fi is None:
            if name == "fputs":
                return self.out(st, self.outs(sim, st, args[0]))
            if name in ("fputc", "putc"):
                return self.out(st, (("lit", chr(args[0][1])),) if args[0][0] == "c" else (("?", args[0]),))
            return self.out(st, (("?", ("fwrite",)),))
        fmt = sim.lit(args[fi])
        if fmt is None:
            return self.out(st, self.outs(sim, st, args[fi]))
        k = fi + 1
        import re
        for tx, cv in re.findall(r"([^%]+)|(%[^a-zA-Z%]*[a-zA-Z%])", fmt):
            if tx:
                self.out(st, (("lit", tx),))
            elif cv == "%s" and k < len(args):
                self.out(st, self.outs(sim, st, args[k]))
                k += 1
            else:
                self.out(st, (("?", cv),))
                k += 1

    def outs(self, sim, st, v):
        if v == EOL:
            return (("eol",),)
        if v[0] == "u" and v[1][0] == "out":
            return (("line",) + (v[1][1],),)
        s = sim.lit(v)
        if s is not None:
            return (("lit", s),) if s else ()
        return (("?", v),)


class DrawSim(Sim):
    """the same interpretation, with room for the longer sums of widths; everything learnt is kept"""

    def gc(self, st, rv=None):
        pass

    def arith(self, op, a, b, bits=64):
        d = _sim.depth
        try:
            _sim.depth = lambda v: 0 if d(v) < 40 else 99
            return Sim.arith(self, op, a, b, bits)
        finally:
            _sim.depth = d


class Scene:
    """constants of one run"""

    def __init__(self, nol=7, bt=1, bb=1, nl=2, pt=0, pb=0, valign="t", halign="l", justify="\0", tabexp="e", indentmode="b", final=1, empties=()):
        self.__dict__.update(locals())

    def lines(self):
        """expected kind of every printed line: (j, 'top'|'bottom'|'blank'|index of the text line)"""
        fill = self.nol - self.bt - self.bb - self.nl - self.pt - self.pb
        v1 = {"t": 0, "b": fill, "c": fill // 2}[self.valign]
        first = self.bt + v1 + self.pt
        res = []
        for j in range(self.bt if BTOP in self.empties else 0, self.nol - (self.bb if BBOT in self.empties else 0)):
            if j < self.bt:
                k = "top"
            elif j >= self.nol - self.bb:
                k = "bottom"
            elif first <= j < first + self.nl:
                k = j - first
            else:
                k = "blank"
            res.append((j, k))
        return res, fill

    def __str__(self):
        return "%d lines of output, box top %d, bottom %d, %d text lines, padding %d/%d, alignment %s%s%s" % (
            self.nol, self.bt, self.bb, self.nl, self.pt, self.pb, self.halign, self.valign, " justified " + self.justify if self.justify != "\0" else "")


def state(mod, sc):
    need_fn(mod, "output_box")
    O, I, D, S, L = fields(mod, "opt_t"), fields(mod, "input_t"), fields(mod, "design_t"), fields(mod, "sentry_t"), fields(mod, "line_t")
    B = fields(mod, "bxstr_t")
    ssz, lsz = mod.structs["struct.sentry_t"]["size"], mod.structs["struct.line_t"]["size"]
    st = St(q=((), ()))
    g = lambda n, f, t, v, o=0: st.mem.__setitem__((("g", n), (t[f][0] + o, ())), v)
    g("opt", "design", O, ("p", DES, NOOFF))
    for f, v in (("valign", sc.valign), ("halign", sc.halign), ("justify", sc.justify), ("tabexp", sc.tabexp)):
        g("opt", f, O, ("c", ord(v)))
    g("opt", "tabstop", O, ("c", TABSTOP))
    g("opt", "outfile", O, OUT)
    g("opt", "eol", O, EOL)
    st.mem[(("g", "stderr"), NOOFF)] = ("u", "stderr")
    g("input", "indent", I, IND)
    g("input", "maxline", I, M)
    g("input", "num_lines", I, ("c", sc.nl))
    g("input", "final_newline", I, ("c", sc.final))
    g("input", "lines", I, ("p", LINES, NOOFF))
    for v in (OUT, EOL):
        st.facts[("ne", v)] = frozenset((0,))
    st.mem[(DES, (D["indentmode"][0], ()))] = ("c", ord(sc.indentmode))
    for s, v in ((BTOP, ("c", sc.pt)), (BBOT, ("c", sc.pb)), (BLEF, ("u", "left padding")), (BRIG, ("u", "right padding"))):
        st.mem[(DES, (D["padding"][0] + 4 * s, ()))] = v
    shape = D["shape"][0]
    NW, SE, SW = 0, 8, 12
    for s, f, v in ((NW, "height", sc.bt), (SW, "height", sc.bb), (SE, "height", sc.bb), (NW, "width", 3)):
        st.mem[(DES, (shape + s * ssz + S[f][0], ()))] = ("c", v)
    for i in range(sc.nl):
        t = ("u", ("line", i))
        st.mem[(LINES, (i * lsz + L["text"][0], ()))] = t
        st.facts[("ne", t)] = frozenset((0,))
        st.mem[(("s", t), (B["num_columns"][0], ()))] = ("u", ("cols", i))
    for s, h in ((BTOP, sc.bt), (BBOT, sc.bb), (BLEF, sc.nol), (BRIG, sc.nol)):
        o = s * ssz
        st.mem[(BOX, (o + S["height"][0], ()))] = ("c", h)
        st.mem[(BOX, (o + S["width"][0], ()))] = W if s in (BTOP, BBOT) else ("u", ("side width", s))
        arr = ("h", "mbcs", s)
        st.mem[(BOX, (o + S["mbcs"][0], ()))] = ("p", arr, NOOFF)
        for j in range(h):
            v = ("u", ("part", s, j))
            st.mem[(arr, (8 * j, ()))] = v
            st.facts[("ne", v)] = frozenset((0,))
    return st


def draw(mod, sc):
    """[(return value, state)], hooks"""
    h = Draw(mod, sc.empties, sc.tabexp == "k")
    s = DrawSim(mod, h, cap=400)
    res = s.run("output_box", [("p", BOX, NOOFF)], state(mod, sc))
    if s.merged or s.overrun:
        res = []            # what was joined says too little about single paths
    return res, h, s


def split_lines(pieces):
    """[(pieces of the line, ends with eol)], None if the output is not composed that way"""
    res = []
    cur = None
    for p in pieces:
        if p == ("eol",):
            if cur is None:
                cur = ()
            res.append((cur, True))
            cur = None
        else:
            cur = (cur or ()) + (p,)
    if cur is not None:
        res.append((cur, False))
    return res


def body(pieces):
    """atoms of a printed line: trimming and conversion removed"""
    out = []
    for p in pieces:
        if p[0] == "line" and len(p) == 2 and isinstance(p[1], tuple):
            out += body(p[1])
        elif p[0] == "rtrim":
            out += body(p[1])
        elif p[0] == "ind":
            out.append(("lineno", p[1]))
            out += body(p[2])
        else:
            out.append(p)
    return out


def unknown(atoms):
    return any(a[0] in ("?", "chr") or a[0] in ("sp", "tab") and lin(a[1]) is None or a[0] == "cut" and lin(a[2]) is None for a in atoms)


def blanks(atoms):
    """(linear form of the columns, rest) of the leading white space"""
    f = {}
    i = 0
    while i < len(atoms) and atoms[i][0] in ("sp", "tab", "lineno"):
        if atoms[i][0] != "lineno":
            f = add(f, lin(atoms[i][1]), TABSTOP if atoms[i][0] == "tab" else 1)
        i += 1
    return f, atoms[i:]


def show(atoms):
    n = {BTOP: "top", BRIG: "right", BBOT: "bottom", BLEF: "left"}
    r = []
    for a in atoms:
        r.append("blanks" if a[0] in ("sp", "tab") else "%s side %d" % (n.get(a[1], a[1]), a[2]) if a[0] == "part" else "text line %s" % a[1] if a[0] in ("line", "cut") else "text" if a[0] == "lit" else "" if a[0] == "lineno" else "?")
    return " + ".join(x for x in r if x)
