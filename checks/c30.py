"""C30: file operands: [infile [outfile]], "-" for the standard streams, at most two, nothing is opened or truncated in vain."""
from sim import Sim, St, UNK, ZERO, NOOFF
from bx import BxHooks, fields, need_fn, cell


def S(t):
    return ("p", ("h", ("str", t), 0), NOOFF)


class H(BxHooks):
    noinline = ("activate_debug_logging", "discover_config_file", "parse_query", "trimdup", "print_debug_info")

    def __init__(self, mod, ops):
        self.mod, self.ops = mod, ops
        self.size = mod.structs["struct.opt_t"]["size"]
        self.obj = None

    def text(self, sim, v):
        if v[0] == "p" and v[1][0] == "h" and isinstance(v[1][1], tuple) and v[1][1][0] == "str" and v[2] == NOOFF:
            return v[1][1][1]
        return sim.lit(v)

    def ev(self, st, *e):
        st.q = (st.q or ()) + (e,)

    def load(self, sim, st, I, loc, ctx):
        b, o = loc
        if b == ("g", "optind") and not o[1]:
            return ("c", 1)
        if b == ("argv",) or b == ("h", "argv", 0):
            if o[1]:
                return None
            i, r = divmod(o[0], 8)
            if r == 0 and 0 <= i <= len(self.ops) + 1:
                return S("boxes") if i == 0 else S(self.ops[i - 1]) if i <= len(self.ops) else ZERO
            if r == 0:
                self.ev(st, "overrun", i)
                return UNK
        if b[0] == "h" and isinstance(b[1], tuple) and b[1][0] == "str" and not o[1]:
            t = b[1][1] + "\0"
            if 0 <= o[0] < len(t):
                return ("c", ord(t[o[0]]))
        return None

    def call2(self, sim, st, I, n, args, ctx):
        if n.startswith("getopt"):
            return [(("c", -1), st)]
        if n in ("calloc", "malloc"):
            m = 1
            for a in args[: 2 if n == "calloc" else 1]:
                m = m * a[1] if a[0] == "c" and m is not None else None
            if m == self.size:
                self.obj = ("alloc", n, ctx, I.id)
            return None
        if n in ("strcmp", "strcasecmp", "strncmp"):
            a, b = self.text(sim, args[0]), self.text(sim, args[1])
            if a is not None and b is not None:
                if n == "strncmp" and args[2][0] == "c":
                    a, b = a[: args[2][1]], b[: args[2][1]]
                if n == "strcasecmp":
                    a, b = a.lower(), b.lower()
                return [(("c", (a > b) - (a < b)), st)]
        if n == "strlen" and self.text(sim, args[0]) is not None:
            return [(("c", len(self.text(sim, args[0]))), st)]
        if n in ("fopen", "bx_fopen", "freopen"):
            t, m = self.text(sim, args[0]), self.text(sim, args[1])
            s2 = st.copy()
            self.ev(s2, "open", t, m, 0)
            self.ev(st, "open", t, m, 1)
            return [(ZERO, s2), (("p", ("h", ("FILE", t, m), 0), NOOFF), st)]
        if n in ("fclose",):
            a = args[0]
            if a[0] == "p" and a[1][0] == "h" and a[1][1][0] == "FILE":
                self.ev(st, "close", a[1][1][1])
            return [(ZERO, st)]
        if n in ("bx_fprintf", "fprintf", "perror", "fputs", "usage_short", "vfprintf"):
            if ("msg",) not in (st.q or ()):
                self.ev(st, "msg")
            return [(UNK, st)]
        return None


def run(mod, ops):
    h = H(mod, ops)
    s = Sim(mod, h, cap=200, budget=60000)
    rets = s.run("process_commandline", [("c", 1 + len(ops)), ("p", ("h", "argv", 0), NOOFF)], St())
    return h, s, rets


def name(v):
    r = repr(v)
    for n in ("stdin", "stdout", "stderr"):
        if "'g', '%s'" % n in r:
            return n
    if v[0] == "p" and v[1][0] == "h" and isinstance(v[1][1], tuple) and v[1][1][0] == "FILE":
        return "file(%s)" % v[1][1][1]
    return "NULL" if v == ZERO else "?"


def check(tree, rep):
    mod = tree.module()
    need_fn(mod, "process_commandline")
    F = fields(mod, "opt_t")
    IN, OUT, DASH = "in.txt", "out.txt", "-"
    scen = [[], [DASH], [IN], [DASH, DASH], [IN, DASH], [DASH, OUT], [IN, OUT], ["-x", OUT], [IN, "-o"], [IN, OUT, "third"], [DASH, DASH, DASH], [IN, OUT, "x", "y"], [IN, IN]]
    n = 0
    for ops in scen:
        what = "operands %s" % (" ".join(ops) or "(none)")
        h, s, rets = run(mod, ops)
        good = 0
        for rv, st in rets:
            n += 1
            tr = st.q or ()
            opens = [e for e in tr if e[0] == "open"]
            fails = [e for e in opens if not e[3]]
            if any(e[0] == "overrun" for e in tr):
                rep.violation("argv:" + what, "process_commandline (src/cmdline.c): %s: reads past the terminating NULL of argv" % what)
                continue
            if any(e[1] is None or e[2] is None for e in opens):
                rep.unresolved.append(what + ": file name not determined")
                continue
            for e in opens:
                if e[1] == DASH:
                    rep.violation("dash:" + what, "process_commandline (src/cmdline.c): %s: opens a file called '-' instead of the standard stream" % what)
            if len(ops) > 2:
                if rv != ZERO:
                    rep.violation("third:" + what, "process_commandline (src/cmdline.c): %s: a third file operand is accepted" % what)
                if opens:
                    rep.violation("third-open:" + what, "process_commandline (src/cmdline.c): %s: opens %s before refusing the third operand" % (what, opens[0][1]))
                if rv == ZERO and ("msg",) not in tr:
                    rep.violation("third-silent", "process_commandline (src/cmdline.c): %s: refused without a message" % what)
                continue
            wantin = "stdin" if not ops or ops[0] == DASH else "file(%s)" % ops[0]
            wantout = "stdout" if len(ops) < 2 or ops[1] == DASH else "file(%s)" % ops[1]
            if fails:
                if rv != ZERO:
                    rep.violation("openfail:" + what, "process_commandline (src/cmdline.c): %s: carries on although %s could not be opened" % (what, fails[0][1]))
                elif ("msg",) not in tr:
                    rep.violation("openfail-silent:" + what, "process_commandline (src/cmdline.c): %s: fails without a message when %s cannot be opened" % (what, fails[0][1]))
                after = opens[opens.index(fails[0]) + 1:]
                if after:
                    rep.violation("openfail-next:" + what, "process_commandline (src/cmdline.c): %s: opens %s although %s could not be opened" % (what, after[0][1], fails[0][1]))
                before = opens[: opens.index(fails[0])]
                if before and before[0][2].startswith("w"):
                    rep.violation("truncate:" + what, "process_commandline (src/cmdline.c): %s: the output file is truncated before the input file is known to be readable" % what)
                continue
            if rv == ZERO:
                rep.violation("refused:" + what, "process_commandline (src/cmdline.c): %s: refused although everything could be opened" % what)
                continue
            good += 1
            b = ("s", ("u", h.obj)) if h.obj else None
            gi, go = (name(cell(st, b, F[k][0])) for k in ("infile", "outfile"))
            if b is None or "?" in (gi, go):
                rep.unresolved.append("%s: streams %s/%s" % (what, gi, go))
                continue
            if gi != wantin:
                rep.violation("in:" + what, "process_commandline (src/cmdline.c): %s: the input is %s; documented: %s" % (what, gi, wantin))
            if go != wantout:
                rep.violation("out:" + what, "process_commandline (src/cmdline.c): %s: the output is %s; documented: %s" % (what, go, wantout))
            for e in opens:
                role = "in" if "file(%s)" % e[1] == gi and e[2].startswith("r") else "out" if "file(%s)" % e[1] == go and e[2].startswith("w") else None
                if role is None or "+" in e[2]:
                    rep.violation("mode:" + what, "process_commandline (src/cmdline.c): %s: %s is opened with mode \"%s\"" % (what, e[1], e[2]))
        if not good and len(ops) <= 2 and not s.overrun:
            rep.violation("never:" + what, "process_commandline (src/cmdline.c): %s is never accepted" % what)
    rep.cov.update(explanation="All abstract paths of process_commandline() after the options, for every shape of the operand list and every outcome of opening the files: streams chosen, files opened (with mode and order), result, message.",
                   operand_lists=len(scen), paths=n)
    rep.assumptions += ["options have been processed (C10)"]
