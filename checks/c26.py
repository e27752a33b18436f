"""C26: mending removes the box and draws it again from the same, once read input, printing only the redrawn box."""
from modes import mode_run, MODES
from mainsim import MainHooks, cell, code_of, OK
from sim import ZERO, NOOFF, Sim, St, UNK
from bx import fields, BxHooks, isld


def STATE(D):
    return [("minwidth", D["minwidth"][0]), ("minheight", D["minheight"][0])] + [("padding", D["padding"][0] + 4 * i) for i in range(4)] + [("indentmode", D["indentmode"][0])]


class H(MainHooks):
    """records state of interest at the phases"""

    def effects(self, sim, st, n, args, res):
        b = n
        F = self.F
        D = fields(self.mod, "design_t")
        info = None
        if b in ("analyze_input", "remove_box", "generate_box", "apply_substitutions", "output_input"):
            r = cell(st, ("g", "opt"), F["r"][0])
            d = cell(st, ("g", "opt"), F["design"][0])
            sizes = []
            for k, o in STATE(D):
                if d[0] == "p":
                    sizes.append(cell(st, d[1], d[2][0] + o))
                else:
                    sizes.append(cell(st, ("s", d), o))
            info = (r, tuple(sizes), args[0] if b in ("analyze_input", "apply_substitutions") and args else None)
        if b == "read_all_input":
            info = ("read",)
        if b == "output_input":
            info = (args[0],) + (info or ())
        if info is not None:
            st.q = st.q[:-1] + (st.q[-1] + ("@",) + (info,),)


class HP(H):
    """a design with padding on all sides"""

    def effects(self, sim, st, n, args, res):
        if n == "parse_config_files" and res == OK:
            b = ("s", ("u", ("stub", n)))
            D = fields(self.mod, "design_t")
            for i in range(4):
                st.mem[(b, (D["padding"][0] + 4 * i, ()))] = ("c", 1)
        H.effects(self, sim, st, n, args, res)


def check(tree, rep):
    mod = tree.module()
    h, s, ends = mode_run(mod, "mend (-m)", hooks=H)
    n = full = 0
    viol = lambda k, t: rep.violation(k, "main (src/boxes.c), mending (-m): " + t)
    for code, st, tr in ends:
        n += 1
        ev = [(e[0].split("(")[0], e[-1] if "@" in e else None) for e in tr]
        names = [a for a, _ in ev]
        if names.count("read_all_input") > 1:
            viol("reread", "the input is read a second time for the redraw phase")
        if "generate_box" not in names:
            continue
        full += 1
        i_rem = names.index("remove_box") if "remove_box" in names else None
        i_gen = names.index("generate_box")
        if i_rem is None or i_rem > i_gen:
            viol("order", "a box is drawn without having been removed first")
            continue
        outs = [(i, x) for i, (a, x) in enumerate(ev) if a == "output_input"]
        for i, x in outs:
            if x and x[0] == ZERO:
                viol("print", "the result of the removal phase is printed by output_input(0), before the redrawn box")
        if not [1 for i, x in outs if i_rem < i < i_gen]:
            viol("trim", "output_input() is not called between removal and redraw (trailing blanks of the removed box stay)")
        for i, (a, x) in enumerate(ev):
            if x is None or a not in ("analyze_input", "remove_box", "generate_box"):
                continue
            r = x[0] if a != "output_input" else x[1]
            early = i <= i_rem
            if r[0] == "c" and (r[1] != 0) != early:
                viol("r:%s:%d" % (a, early), "%s() of the %s phase runs with the remove flag %s" % (a, "removal" if early else "redraw", "set" if r[1] else "cleared"))
        an = [i for i, a in enumerate(names) if a == "analyze_input"]
        if not [i for i in an if i_rem < i < i_gen]:
            viol("reanalyze", "the text is not analysed again before it is redrawn")
        for i in an:
            if i_rem < i < i_gen:
                a0 = ev[i][1][2]
                if a0[0] == "p" and a0[1] != ("g", "input"):
                    viol("input", "the redraw phase does not work on the result of the removal phase")
    # the design's minimum size in the redraw phase must be what it was before removal: adjustments of the first phase are undone
    seen = check_sizes(mod, rep, viol)
    # a design which is detected in the first phase is redrawn with its own settings
    det = check_detected(mod, rep, viol)
    # output_input(1) prints nothing
    writes = check_trim(mod, rep)
    rep.need(full or s.overrun, "no path of the mend mode draws a box")
    rep.cov.update(explanation="All abstract paths of main() with the record -m produces; order, arguments and remove-flag of the phases, restoration of the design's minimum size, and absence of any write to the output stream in output_input() called with a nonzero argument.",
                   paths=n, redraw_paths=full, size_observations=seen, detected_design_states=det, trim_paths=writes)
    rep.assumptions += ["debug logging is off"]


def check_sizes(mod, rep, viol):
    """minwidth/minheight at analyze_input of phase 2 equal those at analyze_input of phase 1 (before adjust_size)"""
    ends = []
    pad = {("padding", 4 * i): ("c", 1) for i in range(4)}
    for more, raw in (({"reqwidth": ("c", 15)}, {}), ({"reqheight": ("c", 15)}, {}), ({}, {}), ({}, pad), ({"reqwidth": ("c", 15)}, pad), ({"reqheight": ("c", 15)}, pad), ({"indentmode": ("c", 98)}, {})):
        h, s, e = mode_run(mod, "mend (-m)", hooks=HP, more=more, raw=raw, cap=60, budget=50000)
        ends += e
    n = 0
    D = fields(mod, "design_t")
    for code, st, tr in ends:
        an = [e[-1] for e in tr if e[0] == "analyze_input" and "@" in e]
        if len(an) >= 2:
            n += 1
            for k, (nm, _) in enumerate(STATE(D)):
                a, b = an[0][1][k], an[1][1][k]
                if a != b and a[0] != "?" and b[0] != "?":
                    viol("size:" + nm, "%s of the design differs between the two phases: size adjustments of the removal phase leak into the redraw" % nm)
    return n


VAL = {"minwidth": (8, 31), "minheight": (3, 17), "padding": (1, 2), "indentmode": (98, 116)}


def check_detected(mod, rep, viol):
    """removal changes the current design: what is redrawn must have the settings that design has when it is drawn right away"""
    D = fields(mod, "design_t")
    S = fields(mod, "sentry_t")
    ssize = mod.structs["struct.sentry_t"]["size"]

    dsize = mod.structs["struct.design_t"]["size"]

    def put(st, b, k, at=0):
        for nm, o in STATE(D):
            st.mem[(b, (at + o, ()))] = ("c", VAL[nm][k])
        for i in range(16):
            for f in ("width", "height"):
                st.mem[(b, (at + D["shape"][0] + i * ssize + S[f][0], ()))] = ("c", 3 + k)

    class HD(H):
        first = 0

        def effects(self, sim, st, n, args, res):
            if n == "parse_config_files" and res == OK:
                put(st, ("s", ("u", ("stub", n))), self.first)
            if n == "remove_box" and res == OK:
                x = ("s", ("u", ("stub", "parse_config_files")))    # the third of the designs found
                put(st, x, 1, 2 * dsize)
                st.mem[(("g", "opt"), (self.F["design"][0], ()))] = ("p", x, (2 * dsize, ()))
            H.effects(self, sim, st, n, args, res)

    class HX(HD):
        first = 1
    n = 0
    opts = (({}, {}), ({"reqwidth": ("c", 15)}, {}), ({"reqheight": ("c", 40)}, {}), ({"reqwidth": ("c", 50)}, {}), ({"indentmode": ("c", 110)}, {}), ({}, {("padding", 0): ("c", 3)}))
    for more, raw in opts:
        h, s, e = mode_run(mod, "draw", hooks=HX, more=more, raw=raw, cap=200, budget=150000)
        want = {x[-1][1] for c, st, tr in e for x in tr if x[0] == "analyze_input" and "@" in x}
        if s.overrun or not want or any(v[0] != "c" for w in want for v in w):
            rep.unresolved("settings of a detected design %r" % (more,))
            continue
        h, s, e = mode_run(mod, "mend (-m)", hooks=HD, more=more, raw=raw, cap=200, budget=150000)
        for c, st, tr in e:
            gone = False
            for x in tr:
                gone = gone or x[0] == "remove_box"
                if x[0] == "analyze_input" and "@" in x and gone:
                    n += 1
                    got = x[-1][1]
                    if got in want or any(v[0] != "c" for v in got):
                        continue
                    k = [STATE(D)[i][0] for i in range(len(got)) if all(got[i] != w[i] for w in want)] or ["combination"]
                    viol("detected:" + k[0], "without -d, the detected design is redrawn with another %s than it has when it is drawn right away (%s)" % (k[0], ", ".join(more) or ", ".join(k2[0] for k2 in raw) or "no option"))
    return n


def check_trim(mod, rep):
    class T(BxHooks):
        noinline = ("tabbify_indent",)
        keep = ()

        def __init__(self):
            self.w = []

        def call2(self, sim, st, I, name, args, ctx):
            if name in ("fprintf", "fputs", "fputc", "putc", "fwrite", "vfprintf", "bx_fprintf", "printf", "puts", "putchar"):
                r = repr(args[:1]) if name not in ("fputs", "fputc", "putc", "fwrite") else repr(args[-1:])
                if "stderr" not in r:
                    self.w.append(I)
                return [(UNK, st)]
            if name in mod.defined and name.startswith(("bxs_", "u32_")):
                return [(("u", ("r", name, ctx, I.id)), st)]
            return None
    n = 0
    for v in (1, 2):
        h = T()
        s = Sim(mod, h, cap=60, budget=40000)
        s.run("output_input", [("c", v)], St())
        n += s.steps
        if h.w:
            rep.violation("trimprints", "output_input(%d) (src/remove.c) can write to the output at line %s: the removal phase of -m prints" % (v, h.w[0].line))
    h = T()
    s = Sim(mod, h, cap=60, budget=40000)
    s.run("output_input", [ZERO], St())
    if not h.w and not s.overrun:
        rep.violation("noprint", "output_input(0) (src/remove.c) never writes anything: removed boxes are not printed")
    return n
