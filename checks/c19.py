"""C19: the listings show every design with its own data."""
import re
from sim import Sim, St, UNK, ZERO, NOOFF
from bx import fields, need_fn
from drawbox import Draw, DrawSim, OUT, EOL, WRITERS, split_lines
from c21 import strip
import ustr

DESIGNS = ("h", "designs", 0)
SIDES = ("top", "right", "bottom", "left")
SHAPES = ("nw", "nnw", "n", "nne", "ne", "ene", "e", "ese", "se", "sse", "s", "ssw", "sw", "wsw", "w", "wnw")


def S(*key):
    """base of an opaque character string"""
    return ("h", ("str",) + key, 0)


class Lst(Draw, ustr.UHooks):
    def __init__(self, mod):
        Draw.__init__(self, mod)
        self.sorted = []
        self.bad = []

    # character strings are cells, one per byte
    def bytes(self, sim, st, v, limit=2000):
        s = sim.lit(v)
        if s is not None:
            return [("c", ord(c)) for c in s] + [ZERO]
        l = sim.loc(v)
        if not l or l[1][1]:
            return None
        r = []
        for i in range(limit):
            c = st.mem.get((l[0], (l[1][0] + i, ())))
            if c is None or c == UNK:
                return None
            r.append(c)
            if c == ZERO:
                return r
        return None

    def tokens(self, bs):
        """bytes as literals and names of opaque strings"""
        out, i = [], 0
        while i < len(bs):
            b = bs[i]
            if b[0] == "c":
                if out and out[-1][0] == "lit":
                    out[-1] = ("lit", out[-1][1] + chr(b[1] & 255))
                else:
                    out.append(("lit", chr(b[1] & 255)))
                i += 1
            elif b[0] == "u" and b[1][0] == "b":
                k, n = b[1][1], b[1][3]
                if bs[i:i + n] == [("u", ("b", k, j, n)) for j in range(n)]:
                    out.append(("str", k))
                    i += n
                else:
                    out.append(("part", k))
                    i += 1
            else:
                out.append(("?", b))
                i += 1
        return tuple(out)

    def fill(self, sim, st, dst, bs, name):
        l = sim.loc(dst)
        if not l or l[1][1]:
            return False
        n = st.facts.get(("size", l[0]))
        if n is not None and l[1][0] + len(bs) > n:
            self.bad.append(("overflow", "%s writes beyond the end of the buffer" % name))
        for i, b in enumerate(bs):
            st.mem[(l[0], (l[1][0] + i, ()))] = b
        return True

    def store(self, sim, st, I, loc, val, ctx):
        n = st.facts.get(("size", loc[0]))
        if n is not None and not loc[1][1] and not 0 <= loc[1][0] < n:
            self.bad.append(("overflow", "a buffer is written beyond its end"))
        return None

    def fmt(self, sim, st, fmt, args):
        """formatted output as tokens"""
        out = []
        k = 0
        for tx, fl, width, ln, cv in re.findall(r"([^%]+)|%([-0]?)(\d*)(?:\.\d+)?(l|ll|z|h)?([a-zA-Z%])", fmt):
            if tx:
                out.append(("lit", tx))
                continue
            if cv == "%":
                out.append(("lit", "%"))
                continue
            if k >= len(args):
                out.append(("?", "missing"))
                continue
            a = args[k]
            k += 1
            if cv in "di" or cv == "u":
                t = (("lit", str(a[1])),) if a[0] == "c" else (("num", strip(a)),)
            elif cv == "c":
                t = (("lit", chr(a[1] & 255)),) if a[0] == "c" else (("?", a),)
            elif cv == "s":
                t = self.outs(sim, st, a)
            else:
                t = (("?", cv),)
            if width:
                if t == () or t[0][0] == "lit" and len(t) == 1:
                    s = t[0][1] if t else ""
                    t = (("lit", s.ljust(int(width)) if fl == "-" else s.rjust(int(width))),)
            out += t
        return tuple(out)

    def write(self, sim, st, name, args):
        si, fi = WRITERS[name]
        if fi is None or si is None or si >= len(args) or args[si] != OUT:
            return Draw.write(self, sim, st, name, args)
        f = sim.lit(args[fi])
        if f is None:
            return self.out(st, self.outs(sim, st, args[fi]))
        self.out(st, self.fmt(sim, st, f, args[fi + 1:]))

    def outs(self, sim, st, v):
        if v[0] == "u" and v[1][0] == "out":
            return v[1][1]
        if v == EOL:
            return (("eol",),)
        bs = self.bytes(sim, st, v)
        if bs is not None:
            return self.tokens(bs[:-1])
        return Draw.outs(self, sim, st, v)

    def text(self, sim, st, t):
        if t[0] == "u" and t[1][0] == "bx":
            return (t[1],)
        if t[0] == "p" and t[2] == NOOFF and t[1][0] == "h" and t[1][1][0] == "mb":
            return (t[1][1],)
        return Draw.text(self, sim, st, t)

    def call2(self, sim, st, I, name, args, ctx):
        def block(n, zero=False):
            k = len(st.q[1])
            st.q = (st.q[0], st.q[1] + ((k, ()),))
            b = ("h", ("blk", k), 0)
            st.facts.pop(("size", b), None)
            if n is not None:
                st.facts[("size", b)] = n
                if zero:
                    for o in range(0, n, 4):
                        st.mem[(b, (o, ()))] = ZERO
            return b
        if name in ("malloc", "calloc"):
            n = args[0][1] if args[0][0] == "c" else None
            if name == "calloc":
                n = n * args[1][1] if n is not None and args[1][0] == "c" else None
            return [(("p", block(n, name == "calloc"), NOOFF), st)]
        if name == "realloc":
            old = sim.loc(args[0]) if args[0] != ZERO else None
            b = block(args[1][1] if args[1][0] == "c" else None)
            if old:
                for (ob, o), v in list(st.mem.items()):
                    if ob == old[0] and o != "default":
                        st.mem[(b, o)] = v
            return [(("p", b, NOOFF), st)]
        if name == "strlen":
            bs = self.bytes(sim, st, args[0])
            return [(("c", len(bs) - 1) if bs is not None else UNK, st)]
        if name == "strspn":
            bs, ac = self.bytes(sim, st, args[0]), sim.lit(args[1])
            if bs is not None and ac is not None:
                n = 0
                while bs[n][0] == "c" and bs[n] != ZERO and chr(bs[n][1]) in ac:
                    n += 1
                return [(("c", n), st)]
        if name in ("strcpy", "stpcpy", "strcat"):
            bs = self.bytes(sim, st, args[1])
            dst = args[0]
            if name == "strcat" and bs is not None:
                old = self.bytes(sim, st, dst)
                bs = old[:-1] + bs if old is not None else None
            if bs is not None and self.fill(sim, st, dst, bs, name):
                l = sim.loc(dst)
                return [(dst if name != "stpcpy" else ("p", l[0], (l[1][0] + len(bs) - 1, ())), st)]
        if name in ("memcpy", "llvm.memcpy.p0.p0.i64", "mempcpy") and args[2][0] == "c":
            bs = self.bytes(sim, st, args[1])
            if bs is not None and 0 < args[2][1] <= len(bs) and self.fill(sim, st, args[0], bs[:args[2][1]], name):
                return [(args[0], st)]
        if name in ("sprintf", "snprintf"):
            k = 1 if name == "sprintf" else 2
            f = sim.lit(args[k])
            if f is not None:
                bs = []
                for t in self.fmt(sim, st, f, args[k + 1:]):
                    if t[0] == "lit":
                        bs += [("c", ord(c)) for c in t[1]]
                    elif t[0] == "str":
                        v = self.bytes(sim, st, ("p", S(*t[1]), NOOFF))
                        bs += v[:-1]
                    else:
                        bs = None
                        break
                if bs is not None:
                    n = len(bs)
                    if name == "snprintf":
                        bs = bs[:args[1][1] - 1] if args[1][0] == "c" else bs
                    if self.fill(sim, st, args[0], bs + [ZERO], name):
                        return [(("c", n), st)]
        if name == "strcasecmp" or name == "strcmp":
            t = [self.tokens(b[:-1]) if b is not None else None for b in (self.bytes(sim, st, a) for a in args[:2])]
            if None not in t:
                if t[0] == t[1]:
                    return [(ZERO, st)]
                return [(("u", (name,) + tuple(t)), st)]
        if name == "bxs_strcmp":
            return [(("u", ("bxs_strcmp",) + tuple(sorted(args[:2], key=repr))), st)]
        if name == "qsort":
            l = sim.loc(args[0])
            if l and not l[1][1] and args[1][0] == "c" and args[2][0] == "c":
                n, z = args[1][1], args[2][1]
                self.sorted.append((st.mem.get((l[0], (l[1][0], ()))), n, z, args[3]))
                new = {}
                for (b, o), v in list(st.mem.items()):
                    if b == l[0] and isinstance(o, tuple) and not o[1] and l[1][0] <= o[0] < l[1][0] + n * z:
                        i, r = divmod(o[0] - l[1][0], z)
                        new[(b, (l[1][0] + (n - 1 - i) * z + r, ()))] = v
                        del st.mem[(b, o)]
                st.mem.update(new)
                return [(UNK, st)]
        if name in ("u32_cmp", "u32_set", "u32_strlen", "u32_next"):
            r = self.str_call(sim, st, I, name, args, ctx)
            if r is not None:
                if name == "u32_set" and args[2][0] == "c":
                    l = sim.loc(args[0])
                    z = st.facts.get(("size", l[0])) if l else None
                    if z is not None and not l[1][1] and l[1][0] + 4 * args[2][1] > z:
                        self.bad.append(("overflow", "a buffer is written beyond its end"))
                return r
        if name == "bxs_from_unicode":
            l = sim.loc(args[0])
            t = ustr.get(st, l) if l else None
            v = ("u", ("cat", (("chars", t) if t is not None else ("?", args[0]),)))
            st.facts[("ne", v)] = frozenset((0,))
            return [(v, st)]
        if name == "empty_side" and args[1][0] == "c":
            s2 = st.copy()
            for s, k in ((st, 0), (s2, 1)):
                s.facts[("eq", ("u", ("empty side", args[1][1])))] = ("c", k)
            return [(ZERO, st), (("c", 1), s2)]
        return Draw.call2(self, sim, st, I, name, args, ctx)


class Straight(DrawSim):
    """every loop here runs over a constant number of items: nothing needs to be merged"""
    def single(self, f, b):
        return True


def text(st, *key):
    b = S(*key)
    n = 2 + sum(ord(c) for c in repr(key)) % 5
    for i in range(n):
        v = ("u", ("b", key, i, n))
        st.facts[("ne", v)] = frozenset((0,))
        st.mem[(b, (i, ()))] = v
    st.mem[(b, (n, ()))] = ZERO
    return ("p", b, NOOFF)


def bx(st, *key):
    v = ("u", ("bx",) + key)
    st.facts[("ne", v)] = frozenset((0,))
    return v


def array(st, key, n, make):
    b = ("h", key, 0)
    for i in range(n):
        st.mem[(b, (8 * i, ()))] = make(i)
    st.mem[(b, (8 * n, ()))] = ZERO
    return ("p", b, NOOFF)


def state(mod):
    O, B = fields(mod, "opt_t"), fields(mod, "bxstr_t")
    st = St(q=((), ()))
    for f, v in (("outfile", OUT), ("eol", EOL), ("color", ("c", 0))):
        st.mem[(("g", "opt"), (O[f][0], ()))] = v
    for v in (OUT, EOL):
        st.facts[("ne", v)] = frozenset((0,))
    st.mem[(("g", "stderr"), NOOFF)] = ("u", "stderr")
    st.mem[(("g", "first_config_file"), NOOFF)] = c = bx(st, "config file")
    st.mem[(("s", c), (B["num_columns"][0], ()))] = ("c", 9)
    st.mem[(("g", "designs"), NOOFF)] = ("p", DESIGNS, NOOFF)
    return st


def merge(toks):
    out = []
    for t in toks:
        if t[0] == "lit" and out and out[-1][0] == "lit":
            out[-1] = ("lit", out[-1][1] + t[1])
        elif t != ("lit", ""):
            out.append(t)
    return out


def rows(toks):
    return [merge(l) for l, _ in split_lines(tuple(toks))]


def atoms(row):
    return [t for t in row if t[0] != "lit"]


def words(row):
    return "".join(t[1] for t in row if t[0] == "lit")


def vague(toks):
    return any(t[0] in ("?",) for t in toks)


# ---- one design in detail --------------------------------------------------------------------------------------------------------------------
class Detail:
    def __init__(self, aliases=0, author=1, designer=1, mode="b", rep="", rev="", pad=0, tags=0, shapes=None, undoc=0):
        self.__dict__.update(locals())
        self.shapes = shapes or {0: 1, 2: 1, 4: 1, 6: 1, 8: 1, 10: 1, 12: 1, 14: 1}
        self.elastic = [i for i in self.shapes if i % 2 == 0 and i % 4 != 0 or i in (3,)]

    def __str__(self):
        return "%d aliases, %s author, %s designer, %d rules for replacement and %d for reversion, %d tags%s" % (
            self.aliases, "with" if self.author else "no", "with" if self.designer else "no", len(self.rep), len(self.rev), self.tags, ", sample" if self.undoc else "")


def details():
    for n in (0, 1, 2, 3):
        yield Detail(aliases=n, tags=3 - n)
    for a, d in ((0, 1), (1, 0), (0, 0)):
        yield Detail(author=a, designer=d)
    for m in "btn":
        yield Detail(mode=m)
    for a, b in (("g", ""), ("", "o"), ("go", "og"), ("o", "ggo"), ("ogg", "g")):
        yield Detail(rep=a, rev=b)
    yield Detail(pad=1)
    yield Detail(shapes={0: 2, 1: 2, 3: 2, 4: 2, 7: 1, 8: 1, 9: 1, 12: 1, 13: 1, 15: 0})
    yield Detail(shapes={0: 0, 2: 0, 6: 3, 10: 0, 11: 1, 14: 3})
    yield Detail(undoc=1)


QUOTE, BSL = ("c", 34), ("c", 92)


def detail(mod, rep, c, V):
    """runs the listing of one design and compares"""
    O, D, E, B, R = (fields(mod, s) for s in ("opt_t", "design_t", "sentry_t", "bxstr_t", "reprule_t"))
    esz, rsz = mod.structs["struct.sentry_t"]["size"], mod.structs["struct.reprule_t"]["size"]
    st = state(mod)
    h = Lst(mod)
    s = Straight(mod, h, cap=400, budget=400000)
    put = lambda f, v: st.mem.__setitem__((DESIGNS, (D[f][0], ())), v)
    for f, v in (("design", ("p", DESIGNS, NOOFF)), ("design_choice_by_user", ("c", 1)), ("qundoc", ("c", c.undoc))):
        st.mem[(("g", "opt"), (O[f][0], ()))] = v
    st.mem[(("g", "num_designs"), NOOFF)] = ("c", 1)
    put("name", text(st, "name", 0))
    put("aliases", array(st, "aliases", c.aliases, lambda i: text(st, "alias", i)))
    put("tags", array(st, "tags", c.tags, lambda i: text(st, "tag", i)))
    put("author", bx(st, "author") if c.author else ZERO)
    put("designer", bx(st, "designer") if c.designer else ZERO)
    put("sample", bx(st, "sample"))
    put("defined_in", bx(st, "defined_in"))
    put("indentmode", ("c", ord(c.mode)))
    for nm, num, ms in (("reprules", "num_reprules", c.rep), ("revrules", "num_revrules", c.rev)):
        put(num, ("c", len(ms)))
        put(nm, ("p", ("h", nm, 0), NOOFF) if ms else ZERO)
        for i, m in enumerate(ms):
            for f, v in (("search", bx(st, nm, i, "search")), ("repstr", bx(st, nm, i, "repstr")), ("mode", ("c", ord(m)))):
                st.mem[(("h", nm, 0), (i * rsz + R[f][0], ()))] = v
    for f in ("minwidth", "minheight"):
        put(f, ("u", f))
    pads = []
    for i in range(4):
        v = ("u", ("padding", i)) if c.pad else ("c", (0, 3, 0, 0)[i])
        pads.append(v)
        st.mem[(DESIGNS, (D["padding"][0] + 4 * i, ()))] = v
    want_shapes = []
    for i in range(16):
        at = lambda f: (DESIGNS, (D["shape"][0] + i * esz + E[f][0], ()))
        st.mem[at("name")] = ("c", i)
        st.mem[at("elastic")] = ("c", int(i in c.elastic))
        if i not in c.shapes:
            for f in E:
                if f not in ("name", "elastic"):
                    st.mem[at(f)] = ZERO
            st.mem[at("elastic")] = ("c", 0)
            continue
        n = c.shapes[i] or 2                    # 0: two lines of blanks
        st.mem[at("height")] = ("c", n)
        st.mem[at("width")] = ("c", 3)
        lines, learnt = [], []
        for j in range(n):
            x = ("u", ("char", "s%d.%d" % (i, j)))
            q = ("c", 32) if c.shapes[i] == 0 else x
            chars = [q, ("c", 32), q] if i % 3 or c.shapes[i] == 0 else [QUOTE, x, BSL] if j % 2 == 0 else [x, BSL, BSL]
            lines.append(chars)
            learnt.append(x)
            mb = ("h", ("mb", i, j), 0)
            mem = ("h", ("mbm", i, j), 0)
            ustr.put(st, mem, chars)
            hide = 1 if i == 6 and j == 1 else None
            if hide is not None:
                chars[1] = QUOTE
                ustr.put(st, mem, chars)
            vis = [k for k in range(3) if k != hide]
            for f, v in (("memory", ("p", mem, NOOFF)), ("num_chars", ("c", 3)), ("num_chars_visible", ("c", len(vis))), ("num_chars_invisible", ("c", 3 - len(vis))),
                         ("visible_char", array(st, ("vis", i, j), len(vis), lambda k: ("c", vis[k]))), ("first_char", array(st, ("first", i, j), 3, lambda k: ("c", k)))):
                st.mem[(mb, (B[f][0], ()))] = v
            want_shapes.append((i, j, n, chars, hide)) if c.shapes[i] else None
        for x in learnt:
            st.facts[("ne", x)] = ustr.SPECIAL | {34, 92}
        st.mem[at("mbcs")] = array(st, ("mbcs", i), n, lambda j: ("p", ("h", ("mb", i, j), 0), NOOFF))

        def narrow(j):
            b = S("chars", i, j)
            for k, v in enumerate(lines[j]):
                st.mem[(b, (k, ()))] = v if v[0] == "c" else ("u", ("b", ("x", i, j), k, 9))
                st.facts[("ne", ("u", ("b", ("x", i, j), k, 9)))] = frozenset((0, 32, 9))
            st.mem[(b, (3, ()))] = ZERO
            return ("p", b, NOOFF)
        st.mem[at("chars")] = array(st, ("chars", i), n, narrow)
    res = s.run("list_designs", [], st)
    if not res:
        rep.unresolved("too many paths: %s" % c)
    n = 0
    for rv, x in res:
        n += 1
        if h.bad:
            V(h.bad[0][0], h.bad[0][1], c)
        rs = rows(x.q[0])
        facts = x.facts

        def nz(v):
            if v[0] == "c":
                return v[1] != 0
            if facts.get(("eq", v)) is not None:
                return facts[("eq", v)] != ZERO
            return True if 0 in facts.get(("ne", v), ()) else None

        def section(label):
            """lines of a section: the one with this label and those with blanks in its place"""
            for k, r in enumerate(rs):
                w = r[0][1] if r and r[0][0] == "lit" else ""
                if w.startswith(label):
                    out = [[("lit", w[len(label):])] + r[1:]]
                    for r2 in rs[k + 1:]:
                        if not (r2 and r2[0][0] == "lit" and r2[0][1].startswith("     ")):
                            break
                        out.append(r2)
                    return out
            V("missing", "nothing is shown for '%s'" % label, c)
            return None

        def expect(label, want, word=None, sep=False):
            sec = section(label)
            if sec is None:
                return
            toks = [t for r in sec for t in r]
            if vague(toks):
                rep.unresolved("%s, %s" % (label, c))
                return
            if atoms(toks) != want:
                V(label, "'%s' is followed by %s instead of %s" % (label, show(atoms(toks)), show(want)), c)
            elif not want and not words(toks).strip():
                V(label, "'%s' is followed by nothing" % label, c)
            if word and word not in words(toks):
                V(label + ":word", "'%s' is followed by '%s'" % (label, words(toks).strip()), c)
            if sep:
                m = merge(toks)
                if any(a[0] != "lit" and b[0] != "lit" for a, b in zip(m, m[1:])):
                    V(label + ":sep", "the values of '%s' are not separated" % label, c)
        st_ = lambda *k: ("str", k)
        if not rs or st_("name", 0) not in rs[0]:
            V("title", "the name of the design is not shown", c)
        expect("Alias Names:", [st_("alias", i) for i in range(c.aliases)], sep=True)
        expect("Author:", [("bx", "author")] if c.author else [])
        expect("Original Designer:", [("bx", "designer")] if c.designer else [])
        expect("Configuration File:", [("bx", "defined_in")])
        expect("Indentation Mode:", [], {"b": "box", "t": "text", "n": "none"}[c.mode])
        for label, nm, ms in (("Replacement Rules:", "reprules", c.rep), ("Reversion Rules:", "revrules", c.rev)):
            expect(label, [("bx", nm, i, f) for i in range(len(ms)) for f in ("search", "repstr")])
            sec = section(label) or []
            if len(sec) != max(1, len(ms)):
                V(label + ":lines", "%d rules are shown on %d lines" % (len(ms), len(sec)), c)
            for i, (r, m) in enumerate(zip(sec, ms)):
                w = words(r)
                if str(i + 1) not in w:
                    V(label + ":number", "rule %d is not numbered so" % (i + 1), c)
                if ("glob" in w) != (m == "g") or ("once" in w) != (m == "o"):
                    V(label + ":mode", "a rule which is applied %s is shown as '%s'" % ({"g": "globally", "o": "once"}[m], w.strip()), c)
        expect("Minimum Box Dimensions:", [("num", ("u", "minwidth")), ("num", ("u", "minheight"))])
        sec = section("Default Padding:")
        if sec:
            toks = merge([t for r in sec for t in r])
            got = {}
            for side in range(4):
                for a, b in zip(toks, toks[1:] + [("lit", "")]):
                    if a[0] == "lit":
                        m = re.search(SIDES[side] + r" (\d*)(\D*)$", a[1]) if b[0] == "num" else None
                        if m and not m.group(1):
                            got[side] = b[1]
                        for m in re.finditer(SIDES[side] + r" (\d+)", a[1]):
                            got[side] = ("c", int(m.group(1)))
            nzs = [nz(v) for v in pads]
            if None in nzs:
                # a path on which not everything was asked: the sides not asked for must not be shown
                rep.unresolved("padding, %s" % c) if not any(k is True for k in nzs) else None
            for side in range(4):
                if nzs[side] and got.get(side) != pads[side]:
                    V("padding:%d" % side, "padding on the %s side is shown as %s" % (SIDES[side], show([got[side]]) if side in got else "missing"), c)
                if nzs[side] is False and side in got and got[side] != pads[side]:
                    V("padding:%d" % side, "the padding shown for the %s side is another one" % SIDES[side], c)
            if not any(nzs) and None not in nzs and not words(toks).strip():
                V("padding:none", "no padding is shown as nothing", c)
            for a, b in zip(toks, toks[1:]):
                if a[0] == "num" and b[0] == "lit" and any(b[1].strip().startswith(w) for w in SIDES) and "," not in b[1]:
                    V("padding:sep", "paddings are not separated", c)
        open_ = [facts.get(("eq", ("u", ("empty side", k)))) for k in (0, 2)]
        both = None if ZERO not in open_ and None in open_ else ZERO not in open_
        if both is not None:
            expect("Default Killblank:", [], "no" if both else "yes")
        elif any(("eq", ("u", ("empty side", k))) in facts for k in (1, 3)):
            V("killblank", "whether blank lines are removed by default is decided by the left or right side", c)
        expect("Tags:", [st_("tag", i) for i in range(c.tags)], sep=True)
        sec = section("Elastic Shapes:")
        if sec:
            w = [q for q in re.split(r"[^a-z]+", words(sec[0]).lower()) if q]
            want = [SHAPES[i] for i in range(16) if i in c.elastic]
            if vague(sec[0]) or atoms(sec[0]):
                rep.unresolved("elastic shapes, %s" % c)
            elif w != want:
                V("elastic", "elastic shapes shown are %s instead of %s" % (", ".join(w), ", ".join(want)), c)
        if c.undoc:
            if ("bx", "sample") not in [t for r in rs for t in r]:
                V("sample", "the sample is not shown", c)
            continue
        got = []
        start = [k for k, r in enumerate(rs) if r and r[0][0] == "lit" and r[0][1].startswith("Defined Shapes:")]
        if len(start) != 1 and want_shapes:
            V("shapes", "the shapes are introduced %d times" % len(start), c)
            continue
        for r in rs[start[0]:]:
            if r:
                got.append(r)
        if any(vague(r) for r in got):
            rep.unresolved("shapes, %s" % c)
            continue
        if len(got) != len(want_shapes):
            V("shapes:count", "%d lines of shapes are shown instead of %d" % (len(got), len(want_shapes)), c)
            continue
        for r, (i, j, ht, chars, hide) in zip(got, want_shapes):
            pre = r[0][1].replace("Defined Shapes:", "") if r[0][0] == "lit" else ""
            nm = re.match(r"\s*([a-zA-Z]*)", pre).group(1).lower()
            if nm != (SHAPES[i] if j == 0 else ""):
                V("shapes:name", "line %d of shape %s is shown with the name '%s'" % (j + 1, SHAPES[i], nm), c)
            esc = ()
            for k, ch in enumerate(chars):
                esc += ((BSL, ch) if ch in (QUOTE, BSL) and k != hide else (ch,))
            a = atoms(r)
            if len(a) != 1 or a[0][0] not in ("chars", "mb"):
                rep.unresolved("line %d of shape %s, %s" % (j + 1, SHAPES[i], c))
            elif a[0][0] == "mb" and any(ch in (QUOTE, BSL) for ch in chars) or a[0][0] == "chars" and a[0][1] != esc:
                V("shapes:text", "line %d of shape %s is not shown as it is, with quotes and backslashes escaped" % (j + 1, SHAPES[i]), c)
            elif a[0][0] == "mb" and a[0][1:] != (i, j):
                V("shapes:other", "another line is shown for line %d of shape %s" % (j + 1, SHAPES[i]), c)
            tail = words(r[1:])
            if ("," in tail) != (j < ht - 1):
                V("shapes:comma", "line %d of %d of shape %s %s" % (j + 1, ht, SHAPES[i], "is not followed by a comma" if j < ht - 1 else "is followed by a comma"), c)
    return n


def show(ts):
    def one(t):
        if t[0] == "str":
            return " ".join(str(k) for k in t[1])
        if t[0] == "bx":
            return " ".join(str(k) for k in t[1:])
        if t[0] == "num":
            return one(t[1])
        if t[0] in ("u", "c"):
            return str(t[1]) if not isinstance(t[1], tuple) else " ".join(str(k) for k in t[1])
        return t[0]
    return ", ".join(one(t) for t in ts) or "nothing"


# ---- all designs -----------------------------------------------------------------------------------------------------------------------
def listing(mod, rep, aliases, who, tags, parents, V):
    """aliases[i], who[i] = (author, designer), tags[i] = numbers of the i-th design"""
    D, O, B = fields(mod, "design_t"), fields(mod, "opt_t"), fields(mod, "bxstr_t")
    dsz = mod.structs["struct.design_t"]["size"]
    nd = len(aliases)
    st = state(mod)
    h = Lst(mod)
    s = Straight(mod, h, cap=3000, budget=1500000)
    c = "%d designs with %s aliases and %s tags, %d parent configurations" % (nd, list(aliases), list(tags), parents)
    for f, v in (("design", ("p", DESIGNS, NOOFF)), ("design_choice_by_user", ZERO), ("qundoc", ZERO)):
        st.mem[(("g", "opt"), (O[f][0], ()))] = v
    st.mem[(("g", "num_designs"), NOOFF)] = ("c", nd)
    st.mem[(("g", "num_parent_configs"), NOOFF)] = ("c", parents)
    st.mem[(("g", "parent_configs"), NOOFF)] = array(st, "parents", parents, lambda i: bx(st, "parent", i)) if parents else ZERO
    for d in range(nd):
        put = lambda f, v: st.mem.__setitem__((DESIGNS, (d * dsz + D[f][0], ())), v)
        put("name", text(st, "name", d))
        put("aliases", array(st, ("aliases", d), aliases[d], lambda i: text(st, "alias", d, i)))
        put("tags", array(st, ("tags", d), tags[d], lambda i: text(st, "tag", d, i)))
        put("author", bx(st, "author", d) if who[d][0] else ZERO)
        put("designer", bx(st, "designer", d) if who[d][1] else ZERO)
        put("sample", bx(st, "sample", d))
        put("defined_in", bx(st, "defined_in", d))
    res = s.run("list_designs", [], st)
    if not res:
        rep.unresolved("too many paths: %s" % c)
    n = 0
    cmps = {}
    for first, k, z, f in h.sorted:
        cmps[z] = f
        if z == 8 and k != nd:
            V("sort:count", "%d of %d designs are sorted" % (k, nd), c)
    order = list(range(nd))[::-1] if any(z == 8 for _, _, z, _ in h.sorted) else list(range(nd))
    for rv, x in res:
        n += 1
        if h.bad:
            V(h.bad[0][0], h.bad[0][1], c)
        toks = merge(x.q[0])
        if vague(toks):
            rep.unresolved(c)
            continue
        pos = [k for k, t in enumerate(toks) if t[0] == "str" and t[1][0] == "name"]
        if [toks[k][1][1] for k in pos] != order:
            V("designs", "designs shown are %s, not each of them once in the order sorted" % [toks[k][1][1] + 1 for k in pos], c)
            continue
        head = toks[:pos[0]] if pos else toks
        want = [("bx", "config file")] + [("bx", "parent", i) for i in range(parents)]
        if [t for t in head if t[0] not in ("lit", "eol")] != want:
            V("head", "configuration files shown are %s instead of %s" % (show([t for t in head if t[0] not in ("lit", "eol")]), show(want)), c)
        if not re.match(r"%d\D" % nd, words(head)):
            V("head:count", "the number of designs is not shown", c)
        cls = {}
        tail, bad = None, False
        for k, d in enumerate(order):
            blk = toks[pos[k]:pos[k + 1] if k + 1 < len(order) else len(toks)]
            end = [j for j, t in enumerate(blk) if t[0] == "bx" and t[1] == "sample"]
            if not end:
                V("sample", "the sample of a design is not shown", c)
                bad = True
                continue
            blk, rest = blk[:end[0] + 1], blk[end[0] + 1:]
            rs = rows(blk)
            a = ("bx", "author", d)
            g = ("bx", "designer", d)
            eq = x.facts.get(("eq", ("u", ("bxs_strcmp",) + tuple(sorted((("u", a), ("u", g)), key=repr)))))
            same = eq == ZERO
            if who[d] == (1, 1) and not same:
                wanted = [g, a]
            else:
                wanted = [g] if who[d][1] else [a] if who[d][0] else []
            al = [("str", ("alias", d, i)) for i in range(aliases[d])]
            got = [t for t in blk if t[0] not in ("lit", "eol")]
            if got != [("str", ("name", d))] + al + wanted + [("bx", "sample", d)]:
                V("entry", "for design %d, %s is shown instead of %s" % (d + 1, show(got), show([("str", ("name", d))] + al + wanted + [("bx", "sample", d)])), c)
                bad = True
                continue
            if a in wanted and g in wanted and not any("'author', %d" % d in r and "'designer', %d" % d in r for r in map(repr, x.facts)):
                V("entry:same", "author and designer of a design are shown as two people without having been compared", c)
            if atoms(rs[0]) != [("str", ("name", d))] + al:
                V("entry:lines", "the names of a design are not on a line of their own", c)
            if al and "alias" not in words(rs[0]):
                V("entry:alias", "aliases are not marked", c)
            if any(p[0] == "str" and q[0] == "str" for p, q in zip(blk, blk[1:])):
                V("entry:sep", "names are not separated", c)
            if a in wanted and "coded by" not in words(blk):
                V("entry:author", "the author of a design is not shown as the one who coded it", c)
            if rows(blk)[-1] != [("bx", "sample", d)]:
                V("entry:sample", "the sample does not begin on a line of its own", c)
            for i in range(tags[d]):
                t = ("str", ("tag", d, i))
                for r in cls:
                    f = x.facts.get(("eq", ("u", ("strcasecmp", (r,), (t,))))) or x.facts.get(("eq", ("u", ("strcasecmp", (t,), (r,)))))
                    if f == ZERO:
                        cls[r] += 1
                        break
                else:
                    cls[t] = 1
            tail = rest
        if tail is None or bad:
            continue
        got = {}
        for p, q in zip(tail, tail[1:] + [("lit", "")]):
            if p[0] == "str":
                m = re.match(r"\D*(\d+)", q[1]) if q[0] == "lit" else None
                if p in got:
                    V("tags:twice", "a tag is shown more than once", c)
                got[p] = int(m.group(1)) if m else None
        if got != cls:
            V("tags", "tags shown are %s instead of %s" % (", ".join("%s (%s)" % (show([k]), v) for k, v in sorted(got.items())) or "none", ", ".join("%s (%s)" % (show([k]), v) for k, v in sorted(cls.items())) or "none"), c)
        if any(p[0] == "str" and q[0] != "lit" for p, q in zip(tail, tail[1:])):
            V("tags:sep", "tags are not separated", c)
    return n, cmps


def comparator(mod, f, size, rep, V):
    """the order is that of the names, regardless of letter case"""
    if not (f[0] == "p" and f[1][0] in ("f", "g", "fn") and f[1][1] in mod.defined):
        rep.unresolved("comparison for sorting")
        return 0
    D = fields(mod, "design_t")
    st = state(mod)
    h = Lst(mod)
    s = Straight(mod, h)
    ps = []
    for k in (0, 1):
        b = ("h", ("elem", k), 0)
        if size == 8:
            d = ("h", ("des", k), 0)
            st.mem[(d, (D["name"][0], ()))] = text(st, "name", k)
            st.mem[(b, NOOFF)] = ("p", d, NOOFF)
        else:
            st.mem[(b, NOOFF)] = text(st, "name", k)
        ps.append(("p", b, NOOFF))
    n = 0
    for rv, x in s.run(f[1][1], ps, st):
        n += 1
        k = strip(rv)
        if k[0] == "u" and k[1][0] in ("strcasecmp", "strcmp"):
            if k[1][1][0] != ("str", ("name", 0)):
                V("order:reverse", "%s sorts in reverse order" % f[1][1], "")
            if k[1][0] == "strcmp":
                V("order:case", "%s sorts by letter case" % f[1][1], "")
        elif k[0] == "c":
            lt = [v for q, v in x.facts.items() if "strcasecmp" in repr(q)]
            if not lt:
                V("order:const", "%s does not compare names" % f[1][1], "")
        else:
            rep.unresolved("order of %s" % f[1][1])
    return n


def check(tree, rep):
    mod = tree.module()
    need_fn(mod, "list_designs")

    def V(k, t, c):
        rep.violation(k, "list_designs (src/list.c): %s%s" % (t, " [%s]" % c if c else ""))
    n = ns = 0
    for c in details():
        n += detail(mod, rep, c, V)
        ns += 1
    cmps = {}
    for aliases, who, tags, parents in (((0,), ((1, 1),), (1,), 0), ((1, 2), ((1, 0), (0, 1)), (0, 2), 0), ((0, 1, 3), ((0, 0), (1, 1), (1, 1)), (1, 1, 2), 2),
                                        ((2, 0), ((1, 1), (0, 1)), (3, 1), 1), ((0, 0, 0), ((1, 1),) * 3, (0, 0, 0), 0)):
        k, f = listing(mod, rep, aliases, who, tags, parents, V)
        n += k
        ns += 1
        cmps.update(f)
    for z, f in sorted(cmps.items()):
        n += comparator(mod, f, z, rep, V)
    rep.need(n > 20, "too few paths")
    rep.cov.update(scenarios=ns, paths=n, comparisons=len(cmps),
                   explanation="Abstract paths of list_designs() for one design in all variations of its parts, and for several designs: what is printed is compared, item by item, with the design's own data.")
    rep.assumptions += ["names and texts are opaque, strings are of a few bytes each", "conversion of texts for output is trusted"]
