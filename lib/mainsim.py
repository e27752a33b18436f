"""Event traces of main(): phases of the program (functions declared in its headers) are stubbed with every outcome, everything else
is interpreted.  A trace is the sequence of phase calls with outcome, plus output/flush events, ended by an exit code."""
from sim import Sim, St, UNK, ZERO, NOOFF, DFLT
from bx import BxHooks, fields, need_fn, cell
from common import Broken

# phase -> kind of result
PTR, INT, PURE_, VOID = "ptr", "int", "pure", "void"
PHASES = {"process_commandline": PTR, "discover_config_file": PTR, "parse_config_files": PTR, "list_designs": INT, "query_by_tag": INT, "read_all_input": PTR,
          "analyze_input": INT, "generate_box": INT, "output_box": INT, "remove_box": INT, "apply_substitutions": INT, "output_input": VOID,
          "usage_long": VOID, "check_encoding": PURE_, "empty_side": PURE_, "genshape": INT, "locale_charset": PURE_,
          "u32_strconv_from_arg": PURE_, "bxs_from_unicode": PTR, "bxs_from_ascii": PURE_, "bxs_free": VOID, "bxs_new_empty_string": PURE_, "print_input_lines": VOID}
REQUIRED = ("process_commandline", "discover_config_file", "parse_config_files", "list_designs", "query_by_tag", "read_all_input", "analyze_input", "generate_box", "output_box",
            "remove_box", "output_input", "usage_long")
FAIL, OK = "fail", "ok"


class MainHooks(BxHooks):
    alloc_ok = True

    def __init__(self, mod, opts, fails):
        self.mod = mod
        self.opts = opts          # {(field, idx): value} of the option record
        self.fails = fails        # phases which may fail
        self.ends = []            # (exit code value, state)
        self.optobj = ("s", ("u", ("stub", "opts")))
        self.rt = {f: mod.defined[f].ret if f in mod.defined else None for f in PHASES}

    def ev(self, st, *e):
        st.q = (st.q or ()) + (e,)

    def call2(self, sim, st, I, name, args, ctx):
        n = name
        if n in PHASES:
            k = PHASES[n]
            if k == PURE_:
                return [(("u", ("stub", n, tuple(args))), st)]
            out = []
            if k in (PTR, INT) and (n in self.fails):
                s2 = st.copy()
                self.ev(s2, n, FAIL)
                self.effects(sim, s2, n, args, FAIL)
                if k == INT:
                    v = ("u", ("failcode", n))
                    s2.facts[("ne", v)] = frozenset((0,))
                    out.append((v, s2))
                else:
                    out.append((ZERO, s2))
            s1 = st.copy()
            self.ev(s1, n, OK) if k != VOID or n in ("output_input", "usage_long") else None
            v = ZERO if k == INT else ("u", ("stub", n))
            if k == PTR:
                v = ("p", ("s", ("u", ("stub", "opts" if n == "process_commandline" else n))), NOOFF)
                s1.facts[("ne", v[1][1])] = frozenset((0,))
            self.effects(sim, s1, n, args, OK)
            out.append((v, s1))
            return out
        if n in ("printf", "puts", "putchar", "vprintf"):
            self.ev(st, "write", "stdout")
            return [(("u", ("n",)), st)]
        if n in ("fflush", "ferror", "fclose") and args:
            if n == "fclose":
                n = "fflush"
            e = self.stream(st, args[0])
            out = []
            for res in ((FAIL, OK) if "output" in self.fails and e in ("outfile", "stdout") else (OK,)):
                s2 = st.copy()
                self.ev(s2, n, e, res)
                v = ZERO
                if res == FAIL:
                    v = ("u", ("failcode", n))
                    s2.facts[("ne", v)] = frozenset((0,))
                out.append((v, s2))
            return out
        if n in ("setupterm", "tigetnum", "getenv", "setlocale"):
            return [(("u", ("env", n)), st)]
        if n in ("perror", "bx_fprintf", "fprintf"):
            if n == "perror" or self.stream(st, args[0]) == "stderr":
                self.ev(st, "diag")
            return [(UNK, st)]
        return None

    def stream(self, st, v):
        r = repr(v)
        if "'g', 'stderr'" in r:
            return "stderr"
        if "'g', 'stdout'" in r:
            return "stdout"
        o = self.F["outfile"][0]
        if v == ("u", ("ld", (self.optobj, (o, ())))) or v == ("u", ("ld", (("g", "opt"), (o, ())))):
            return "outfile"
        return "?"

    def effects(self, sim, st, n, args, res):
        pass

    def exit(self, sim, st, ins, code, ctx):
        self.ends.append((code, st))


def run_main(mod, opts, fails=(), cap=400, budget=300000, hooks=MainHooks, **kw):
    """all traces of main for one option record.  opts: {(field, index): value}"""
    need_fn(mod, "main", *REQUIRED)
    h = hooks(mod, opts, set(fails), **kw)
    h.F = fields(mod, "opt_t")
    s = Sim(mod, h, cap=cap, budget=budget)
    st = St()
    for (n, i), v in opts.items():
        o = h.F[n][0] + i
        st.mem[(h.optobj, (o, ()))] = v
        if v[0] == "u" and v[1][0] == "set":
            st.facts[("ne", v)] = frozenset((0,))
    rets = s.run("main", [("c", 2), ("u", ("arg", "argv"))], st)
    ends = h.ends + [(rv, x) for rv, x in rets]
    if not ends:
        raise Broken("main has no analysed path")
    return h, s, [(code, x, x.q or ()) for code, x in ends]


def setval(n):
    return ("u", ("set", n))


def base_opts(mod, **over):
    """an option record with neutral values"""
    F = fields(mod, "opt_t")
    o = {}
    for n in ("help", "version_requested", "l", "r", "mend", "cld", "query", "reqheight", "reqwidth", "indentmode", "f", "killblank", "debug"):
        if n in F:
            o[(n, 0)] = ZERO
    if "padding" in F:
        for i in range(4):
            o[("padding", 4 * i)] = ("c", -1)
    o[("killblank", 0)] = ("c", -1)
    for k, v in over.items():
        o[(k, 0)] = v
    return o


def code_of(st, c):
    """'zero', 'nonzero' or None"""
    if c[0] == "c":
        return "zero" if c[1] & 0xff == 0 else "nonzero"
    if 0 in st.facts.get(("ne", c), ()):
        return "nonzero"
    e = st.facts.get(("eq", c))
    if e:
        return "zero" if e == ZERO else "nonzero"
    return None
