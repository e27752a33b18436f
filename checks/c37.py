"""C37: the size asked for, the padding, and the text determine the size of the box; the size asked for takes precedence over the padding."""
from modes import mode_run
from mainsim import OK
from bx import fields, enumval
from common import Broken
from c28 import H, STUB, at
from sim import ZERO, NOOFF

TOP, RIG, BOT, LEF = 0, 1, 2, 3


def reduce(pads, first, second, over):
    """padding given up alternately, beginning with `first`, while the box is too large for the size asked for"""
    for i in range(over):
        a, b = (second, first) if i % 2 else (first, second)
        if pads[a]:
            pads[a] -= 1
        elif pads[b]:
            pads[b] -= 1
        else:
            break


class Case:
    def __init__(self, req=(0, 0), minimum=(1, 1), pad=(0, 0, 0, 0), given=(-1, -1, -1, -1), text=(10, 3), shapes=((2, 1), (3, 1), (2, 2), (3, 2)), empty=()):
        """sizes are (width, height); shapes: those of NW, NE, SW, SE"""
        self.__dict__.update(locals())
        self.req, self.minimum, self.text = req, minimum, text

    def __str__(self):
        return "size asked for %s x %s, minimum of the design %d x %d, padding of the design %s, -p %s, text %d x %d, corners %s%s" % (
            self.req[0] or "-", self.req[1] or "-", self.minimum[0], self.minimum[1], list(self.pad), [g if g >= 0 else "-" for g in self.given], self.text[0], self.text[1], self.shapes, ", empty sides: " +
            ", ".join({TOP: "top", RIG: "right", BOT: "bottom", LEF: "left"}[s] for s in self.empty) if self.empty else "")

    def expected(self):
        nw, ne, sw, se = self.shapes
        w, h = max(self.minimum[0], self.req[0]), max(self.minimum[1], self.req[1])
        if self.req[0]:
            w += (se[0] if RIG in self.empty else 0) + (nw[0] if LEF in self.empty else 0)
        if self.req[1]:
            h += (nw[1] if TOP in self.empty else 0) + (se[1] if BOT in self.empty else 0)
        p = [g if g >= 0 else d for g, d in zip(self.given, self.pad)]
        if p[TOP] + p[BOT]:
            need = p[TOP] + p[BOT] + self.text[1] + nw[1] + sw[1]
            if need > h:
                if self.req[1]:
                    reduce(p, TOP, BOT, need - h)
                else:
                    h = need
        if p[LEF] + p[RIG]:
            need = p[LEF] + p[RIG] + self.text[0] + nw[0] + ne[0]
            if need > w:
                if self.req[0]:
                    reduce(p, LEF, RIG, need - w)
                else:
                    w = need
        return w, h, p


def cases():
    # nothing asked for
    yield Case()
    yield Case(minimum=(40, 20))
    for pad in ((1, 0, 0, 0), (0, 2, 0, 0), (0, 0, 3, 0), (0, 0, 0, 4), (1, 2, 3, 4), (1, 0, 2, 0), (0, 3, 0, 2)):
        yield Case(pad=pad)
        yield Case(pad=pad, minimum=(25, 9))
        yield Case(given=[x or -1 for x in pad], pad=(2, 2, 2, 2))
        yield Case(given=[x if x else 0 for x in pad], pad=(5, 6, 7, 8), text=(4, 1))
        yield Case(given=[x or -1 for x in pad], req=(14, 6))
    # a size asked for
    for req in ((30, 0), (0, 12), (30, 12), (5, 2)):
        for empty in ((), (TOP,), (RIG,), (BOT,), (LEF,), (TOP, BOT), (LEF, RIG)):
            yield Case(req=req, empty=empty)
        yield Case(req=req, minimum=(20, 10))
    # too small for the padding
    for pad in ((2, 0, 2, 0), (3, 0, 1, 0), (1, 0, 4, 0), (5, 0, 0, 0), (0, 0, 5, 0)):
        for req in (6, 7, 8, 9, 3):
            yield Case(req=(0, req), pad=pad)
    for pad in ((0, 2, 0, 2), (0, 3, 0, 1), (0, 1, 0, 4), (0, 5, 0, 0), (0, 0, 0, 5)):
        for req in (16, 17, 18, 19, 9):
            yield Case(req=(req, 0), pad=pad)
    yield Case(req=(17, 7), pad=(3, 3, 3, 3))
    yield Case(req=(17, 0), pad=(3, 3, 3, 3))
    yield Case(req=(0, 7), pad=(3, 3, 3, 3))
    yield Case(req=(16, 6), pad=(1, 1, 1, 1), empty=(TOP, LEF))


def sizes(mod, rep):
    D, N, I, F = fields(mod, "design_t"), fields(mod, "sentry_t"), fields(mod, "input_t"), fields(mod, "opt_t")
    nsz = [v["size"] for k, v in mod.structs.items() if k in ("struct.sentry_t", "struct._sentry_t")][0]
    SH = {n: enumval(mod, n) for n in ("NW", "NNW", "N", "NNE", "NE", "ENE", "E", "ESE", "SE", "SSE", "S", "SSW", "SW", "WSW", "W", "WNW")}
    n = 0
    for c in cases():
        nw, ne, sw, se = c.shapes
        setup = {("minwidth", 0): ("c", c.minimum[0]), ("minheight", 0): ("c", c.minimum[1])}
        for i in range(4):
            setup[("padding", 4 * i)] = ("c", c.pad[i])
        for s, (w, h) in (("NW", nw), ("NE", ne), ("SW", sw), ("SE", se)):
            setup[("shape", SH[s] * nsz + N["width"][0])] = ("c", w)
            setup[("shape", SH[s] * nsz + N["height"][0])] = ("c", h)
        for s in ("WNW", "W", "WSW", "ENE", "E", "ESE"):        # shapes of a side are equally wide, those of top and bottom equally high
            setup[("shape", SH[s] * nsz + N["width"][0])] = ("c", nw[0] if s[0] == "W" else ne[0])
        for s in ("NNW", "N", "NNE", "SSW", "S", "SSE"):
            setup[("shape", SH[s] * nsz + N["height"][0])] = ("c", nw[1] if s[0] == "N" else sw[1])

        class G(H):
            def effects(self, sim, st, nm, args, res):
                if nm in ("read_all_input", "analyze_input") and res == OK:
                    for b in (("g", "input"), ("s", ("u", ("stub", "read_all_input")))):
                        st.mem[(b, (I["num_lines"][0], ()))] = ("c", c.text[1])
                        st.mem[(b, (I["maxline"][0], ()))] = ("c", c.text[0])
                H.effects(self, sim, st, nm, args, res)

            def call2(self, sim, st, I_, name, args, ctx):
                if name == "empty_side" and args[-1][0] == "c":
                    return [(("c", int(args[-1][1] in c.empty)), st)]
                return H.call2(self, sim, st, I_, name, args, ctx)
        G.setup = setup
        raw = {("padding", 4 * i): ("c", g) for i, g in enumerate(c.given)}
        raw[("reqwidth", 0)], raw[("reqheight", 0)] = ("c", c.req[0]), ("c", c.req[1])
        try:
            h, s, ends = mode_run(mod, "draw", hooks=G, raw=raw)
        except Broken:
            rep.unresolved("size: %s" % c)
            continue
        w, hh, p = c.expected()
        for st, pic, d, tr in at(ends, "generate_box"):
            vals = [pic[("minwidth", 0)], pic[("minheight", 0)]] + [pic[("padding", 4 * i)] for i in range(4)]
            if any(v[0] != "c" for v in vals):
                rep.unresolved("size: %s" % c)
                continue
            n += 1
            got = [v[1] for v in vals]
            for g, e, t in zip(got, [w, hh] + p, ("minimum width", "minimum height", "top padding", "right padding", "bottom padding", "left padding")):
                if g != e:
                    rep.violation("size:" + t, "main (src/boxes.c): the %s of the box is %d instead of %d when it is drawn [%s]" % (t, g, e, c))
                    break
    return n


# ---- a design made from -c --------------------------------------------------------------------------------------------------------------
def made(mod, rep):
    D, N, I, B = fields(mod, "design_t"), fields(mod, "sentry_t"), fields(mod, "input_t"), fields(mod, "bxstr_t")
    nsz = [v["size"] for k, v in mod.structs.items() if k in ("struct.sentry_t", "struct._sentry_t")][0]
    order = ("NW", "NNW", "N", "NNE", "NE", "ENE", "E", "ESE", "SE", "SSE", "S", "SSW", "SW", "WSW", "W", "WNW")
    SH = {n: enumval(mod, n) for n in order}
    defmode = None
    n = 0
    TEXT = ("h", "cldtext", 0)
    W, CH = 5, 7        # columns and characters of the text given

    class G(H):
        asked = None

        def call2(self, sim, st, I_, name, args, ctx):
            if name == "u32_strconv_from_arg":
                return [(("p", ("h", "cld32", 0), NOOFF), st)]
            if name == "bxs_from_unicode":
                for f, v in (("num_columns", W), ("num_chars", CH), ("num_chars_visible", CH - 1)):
                    st.mem[(TEXT, (B[f][0], ()))] = ("c", v)
                st.mem[(TEXT, (B["ascii"][0], ()))] = ("p", ("h", "cldascii", 0), NOOFF)
                return [(("p", TEXT, NOOFF), st)]
            if name == "genshape":
                l = [sim.loc(a) for a in args[2:4]]
                if None in l or any(a[0] != "c" for a in args[:2]):
                    return None
                k = (l[1][0], l[1][1])
                for a, t in zip(l, ("chars", "mbcs")):
                    r = ("h", t, (a[1][0],))
                    st.mem[a] = ("p", r, NOOFF)
                    st.mem[(r, NOOFF)] = ("u", ("blank", args[0][1], args[1][1], t))
                    st.facts[("ne", ("u", ("blank", args[0][1], args[1][1], t)))] = frozenset((0,))
                return [(ZERO, st)]
            if name == "strdup" and args[0] == ("p", ("h", "cldascii", 0), NOOFF):
                return [(("p", ("h", "cldascii", 0), NOOFF), st)]
            if name in ("bxs_free", "free", "bxs_from_ascii"):
                return [(("u", ("stub", name, tuple(args))), st)]
            return H.call2(self, sim, st, I_, name, args, ctx)

        def effects(self, sim, st, nm, args, res):
            H.effects(self, sim, st, nm, args, res)
            if nm == "generate_box" and res == OK:
                d = dict(st.q[-1][st.q[-1].index("@") + 1])
                ptr = st.q[-1][-1]
                if ptr[0] == "u":
                    ptr = ("p", ("s", ptr), NOOFF)
                if ptr[0] == "p":
                    pic = {}
                    for s in order:
                        for f in ("width", "height", "elastic", "name"):
                            pic[(s, f)] = cell_(st, ptr, D["shape"][0] + SH[s] * nsz + N[f][0])
                        for f in ("mbcs", "chars"):
                            v = cell_(st, ptr, D["shape"][0] + SH[s] * nsz + N[f][0])
                            pic[(s, f)] = st.mem.get((v[1], v[2]), ("?",)) if v[0] == "p" else v
                    for i in range(4):
                        pic[("pad", i)] = cell_(st, ptr, D["padding"][0] + 4 * i)
                    st.q = st.q + (("made", tuple(pic.items())),)

    from bx import cell

    def cell_(st, ptr, off):
        return cell(st, ptr[1], ptr[2][0] + off)
    h, s, ends = mode_run(mod, "draw with -c", hooks=G)
    corners = ("NW", "NE", "SE", "SW")
    for code, st, tr in ends:
        for e in tr:
            if e[0] != "made":
                continue
            pic = dict(e[1])
            n += 1

            def bad(k, t):
                rep.violation("made:" + k, "main (src/boxes.c): -c with a text of %d columns: %s" % (W, t))
            for sh in order:
                w = W if sh in ("NW", "W", "SW") else 1
                given = sh in ("NW", "N", "NE", "E", "SE", "S", "SW", "W")
                if pic[(sh, "mbcs")] == ZERO or not given:
                    if given:
                        bad("missing:" + sh, "the box has no %s" % sh)
                    continue
                for f, want in (("width", w), ("height", 1), ("elastic", int(sh not in corners))):
                    v = pic[(sh, f)]
                    if v[0] == "c" and (bool(v[1]) != bool(want) if f == "elastic" else v[1] != want):
                        bad("%s:%s" % (f, sh), "shape %s is %s" % (sh, "elastic" if f == "elastic" and v[1] else "not elastic" if f == "elastic" else "%d %s instead of %d" % (v[1], "columns wide" if f == "width" else "lines high", want)))
                v = pic[(sh, "mbcs")]
                if sh == "W":
                    if v[0] == "u" and v[1][0] == "blank" or v[0] == "p" and v[1] != TEXT:
                        bad("text", "the left side is not the text which was given")
                    if pic[(sh, "chars")][0] == "u" and pic[(sh, "chars")][1][0] == "blank":
                        bad("plain", "the plain version of the left side is not that of the text which was given")
                elif v[0] == "p" and v[1] == TEXT:
                    bad("other:" + sh, "the text given is also used for %s" % sh)
                elif v[0] == "u" and v[1][0] == "blank" and v[1][1] != w:
                    bad("blank:" + sh, "blanks for %s are made for %d columns instead of %d" % (sh, v[1][1], w))
            for i, want in enumerate((0, 0, 0, 1)):
                v = pic[("pad", i)]
                if v[0] == "c" and v[1] != want:
                    bad("pad:%d" % i, "the %s padding is %d instead of %d" % (("top", "right", "bottom", "left")[i], v[1], want))
    return n


# ---- colors -----------------------------------------------------------------------------------------------------------------------------
def colors(tree, mod, rep):
    n = 0
    OKV = 0
    vals = {}
    for nm in ("force_ansi_color", "color_from_terminal", "force_monochrome"):
        v = tree.macroint(nm)
        if v is None:
            rep.unresolved("value of " + nm)
            return 0
        vals[nm] = v
    for nm, v in sorted(vals.items()):
        for term in (0, 1):
            for works in (0, 1):
                for num in (-1, 2, 8, 256):
                    class G(H):
                        def call2(self, sim, st, I_, name, args, ctx):
                            if name in ("getenv", "secure_getenv") and sim.lit(args[0]) == "TERM":
                                return [(("p", ("h", "term", 0), NOOFF) if term else ZERO, st)]
                            if name == "setupterm":
                                return [(ZERO if works else ("c", -1), st)]
                            if name == "tigetnum":
                                return [(("c", num), st)]
                            return H.call2(self, sim, st, I_, name, args, ctx)

                        def effects(self, sim, st, nm_, args, res):
                            H.effects(self, sim, st, nm_, args, res)
                            if nm_ == "parse_config_files" and res == OK:
                                st.q = st.q + (("colors", st.mem.get((("g", "color_output_enabled"), NOOFF))),)
                    h, s, ends = mode_run(mod, "list (-l)", hooks=G, raw={("color", 0): ("c", v)})
                    want = nm == "force_ansi_color" or nm == "color_from_terminal" and bool(term and works and num >= 8)
                    for code, st, tr in ends:
                        for e in tr:
                            if e[0] == "colors" and e[1] is not None and e[1][0] == "c":
                                n += 1
                                if bool(e[1][1]) != want:
                                    rep.violation("colors:" + nm, "main (src/boxes.c): colors are %s with %s, %s" % ("on" if e[1][1] else "off", {"force_ansi_color": "--color", "force_monochrome": "--no-color", "color_from_terminal": "neither --color nor --no-color"}[nm],
                                                  "a terminal of %d colors" % num if term and works else "an unknown terminal" if term else "no terminal"))
    return n


def check(tree, rep):
    mod = tree.module()
    a = sizes(mod, rep)
    b = c = 0
    try:
        b = made(mod, rep)
        c = colors(tree, mod, rep)
    except Broken:
        rep.unresolved("paths of main() with -c or -l")
    rep.cov.update(sizes=a, made=b, colors=c, explanation="main() is interpreted for %d combinations of sizes, paddings, texts and empty sides, and the size and padding of the design compared with the documented ones when the box is generated; the shapes made from -c; the choice of colors (%d cases)" % (a, c))
    rep.assumptions += ["memory allocation succeeds; debug output off", "parse_config_files returns an array whose first element is the chosen design"]
    if not a:
        rep.unresolved("no box is drawn")
