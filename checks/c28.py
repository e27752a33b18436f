"""C28: what the command line sets overrides the design, side by side and setting by setting; what it does not set is left to the design."""
from modes import mode_run
from mainsim import MainHooks, cell, OK, FAIL
from sim import ZERO
from bx import fields, enumval, isld
from common import Broken

STUB = ("s", ("u", ("stub", "parse_config_files")))


class H(MainHooks):
    setup = {}

    def effects(self, sim, st, n, args, res):
        D = fields(self.mod, "design_t")
        if n == "parse_config_files" and res == OK:
            for (f, i), v in self.setup.items():
                st.mem[(STUB, (D[f][0] + i, ()))] = v
        if n in ("analyze_input", "generate_box", "remove_box") and res == OK:
            d = cell(st, ("g", "opt"), self.F["design"][0])
            b, o = (d[1], d[2][0]) if d[0] == "p" else (("s", d), 0)
            pic = {}
            for f, sz in (("indentmode", 1), ("minwidth", 1), ("minheight", 1), ("padding", 4)):
                for i in range(sz):
                    pic[(f, 4 * i)] = cell(st, b, o + D[f][0] + 4 * i)
            pic[("killblank", 0)] = cell(st, ("g", "opt"), self.F["killblank"][0])
            e = st.q[-1]
            st.q = st.q[:-1] + (e + ("@", tuple(sorted(pic.items(), key=repr)), d),)


def org(mod, f, i=0):
    return ("u", ("ld", (STUB, (fields(mod, "design_t")[f][0] + i, ()))))


def run(mod, mode, more, setup=None, **kw):
    class G(H):
        pass
    G.setup = setup or {}
    return mode_run(mod, mode, hooks=G, more=more, **kw)


def at(ends, phase):
    for code, st, tr in ends:
        for e in tr:
            if e[0].split("(")[0] == phase and "@" in e:
                yield st, dict(e[e.index("@") + 1]), e[-1], tr


def check(tree, rep):
    mod = tree.module()
    obl = 0
    F = fields(mod, "opt_t")
    names = ("top", "right", "bottom", "left")

    def expect(key, what, phase, ends, cellname, want, alt=()):
        nonlocal obl
        k = 0
        for st, pic, d, tr in at(ends, phase):
            v = pic[cellname]
            k += 1
            if v != want and v not in alt and v[0] != "?":
                if v[0] == "c" or want[0] == "c" and isld(v) or isld(v):
                    rep.violation(key, "main (src/boxes.c): %s: the design's %s is %s when %s() starts; documented: %s" % (what, cellname[0] + (" (%s)" % names[cellname[1] // 4] if cellname[0] == "padding" else ""), show(v), phase, show(want)))
                else:
                    rep.unresolved.append("%s: value %r" % (what, v))
        if not k:
            rep.unresolved.append("%s: %s() not reached" % (what, phase))
        else:
            obl += 1

    # indentation mode
    for ch in "btn":
        h, s, e = run(mod, "draw", {"indentmode": ("c", ord(ch))}, {("indentmode", 0): ("c", ord("b" if ch != "b" else "t"))})
        expect("indent:" + ch, "-i given as '%s'" % ch, "analyze_input", e, ("indentmode", 0), ("c", ord(ch)))
    h, s, e0 = run(mod, "draw", {})
    expect("indent:none", "without -i", "generate_box", e0, ("indentmode", 0), org(mod, "indentmode"))
    # padding: each side alone
    base = {("padding", 4 * i): ("c", 1) for i in range(4)}
    for side in range(4):
        o = {"padding": ("c", 7)} if side == 0 else {}
        for val in (7, 0):
            h, s, e = runp(mod, {4 * side: ("c", val)}, base)
            for i in range(4):
                expect("padding:%d:%d:%d" % (side, val, i), "-p given for the %s side only (%d)" % (names[side], val), "generate_box", e, ("padding", 4 * i), ("c", val if i == side else 1))
    for i in range(4):
        expect("padding:none:%d" % i, "without -p", "generate_box", e0, ("padding", 4 * i), org(mod, "padding", 4 * i))
    # size
    for opt, f, other in (("reqwidth", "minwidth", "minheight"), ("reqheight", "minheight", "minwidth")):
        for have, want in ((10, 15), (30, 30)):
            h, s, e = run(mod, "draw", {opt: ("c", 15)}, {(f, 0): ("c", have), (other, 0): ("c", 33)}, cap=60, budget=60000)
            k = 0
            for st, pic, d, tr in at(e, "analyze_input"):
                v = pic[(f, 0)]
                k += 1
                if v[0] == "c" and v[1] != want:
                    rep.violation("size:%s:%d" % (opt, have), "main (src/boxes.c): requested %s 15 with a design minimum of %d gives a minimum of %d; documented: %d" % (opt[3:], have, v[1], want))
                if pic[(other, 0)][0] == "c" and pic[(other, 0)][1] != 33:
                    rep.violation("size:other:" + opt, "main (src/boxes.c): -s for %s alone also changes the design's %s" % (opt[3:], other))
            obl += bool(k)
        h, s, e = run(mod, "draw", {}, {(f, 0): ("c", 30)})
        expect("size:none:" + f, "without -s", "analyze_input", e, (f, 0), ("c", 30))
    # blank lines on removal
    for v in (0, 1):
        h, s, e = run(mod, "remove (-r)", {"killblank": ("c", v)})
        expect("kill:%d" % v, "-k given", "remove_box", e, ("killblank", 0), ("c", v))
    obl += kill_default(mod, rep)
    # the design which is used is the one selected by the configuration parser / -c
    rep.need(obl > 25, "too few obligations")
    rep.cov.update(explanation="Abstract paths of main() per setting with the option given / not given; contents of the design's fields when the working phases start.", obligations=obl)
    rep.assumptions += ["debug logging is off", "parse_config_files returns an array whose first element is the chosen design (select_design)"]


def show(v):
    if v[0] == "c":
        return "%d%s" % (v[1], " ('%c')" % v[1] if 97 <= v[1] <= 122 else "")
    return "unchanged" if isld(v) else repr(v)


def runp(mod, given, base):
    from modes import MODES, CFG
    class G(H):
        pass
    G.setup = base
    return mode_run(mod, "draw", hooks=G, raw={("padding", k): v for k, v in given.items()})


def kill_default(mod, rep):
    """without -k: blank lines are kept iff both the top and the bottom of the box are open (sides: BTOP 0, BRIG 1, BBOT 2, BLEF 3)"""
    n = 0
    for t, b, lr in ((0, 0, 0), (0, 0, 1), (0, 1, 1), (1, 0, 1), (1, 1, 0), (1, 1, 1)):
        class K(H):
            def call2(self, sim, st, I, name, args, ctx):
                if name == "empty_side":
                    return [(("c", {("c", 0): t, ("c", 2): b}.get(args[-1], lr)), st)]
                return H.call2(self, sim, st, I, name, args, ctx)
        h, s, e = mode_run(mod, "remove (-r)", hooks=K)
        exp = 0 if t and b else 1
        n += 1
        for st, pic, d, tr in at(e, "remove_box"):
            v = pic[("killblank", 0)]
            if v[0] != "c":
                rep.unresolved.append("killblank default: value %r" % (v,))
            elif v[1] == -1:
                rep.violation("kill:default:undecided", "main (src/boxes.c): -k is left undecided when remove_box() starts")
            elif (v[1] != 0) != (exp != 0):
                rep.violation("kill:default:%s%s" % (t, b), "main (src/boxes.c): without -k, blank lines are %s when the top is %s and the bottom is %s; documented: %s" % (
                    "removed" if v[1] else "kept", "open" if t else "closed", "open" if b else "closed", "removed" if exp else "kept"))
    return n
