"""Invocation modes and the phases each consists of."""
from mainsim import run_main, base_opts, setval, code_of, FAIL, OK
from sim import ZERO

ONE = ("c", 1)
CFG = ["discover_config_file", "parse_config_files"]
READ = ["read_all_input", "analyze_input"]
DRAW = ["generate_box", "output_box"]
REM = ["remove_box", "apply_substitutions(1)", "output_input(0)"]
REMQ = ["remove_box", "apply_substitutions(1)", "output_input(1)"]
Q = setval("query")
MODES = {
    # name: (option fields, list of acceptable phase sequences of a failure-free run)
    "help (-h)": ({"help": ONE}, [["usage_long"]]),
    "help with list": ({"help": ONE, "l": ONE}, [["usage_long"]]),
    "help with remove": ({"help": ONE, "r": ONE}, [["usage_long"]]),
    "version (-v)": ({"version_requested": ONE}, [["write(stdout)"]]),
    "version with list": ({"version_requested": ONE, "l": ONE}, [["write(stdout)"]]),
    "list (-l)": ({"l": ONE}, [CFG + ["list_designs"]]),
    "list with remove": ({"l": ONE, "r": ONE}, [CFG + ["list_designs"]]),
    "query (-q)": ({"query": Q}, [CFG + ["query_by_tag"]]),
    "query with mend": ({"query": Q, "mend": ("c", 2)}, [CFG + ["query_by_tag"]]),
    "query with remove": ({"query": Q, "r": ONE}, [CFG + ["query_by_tag"]]),
    "list with mend": ({"l": ONE, "mend": ("c", 2), "r": ONE}, [CFG + ["list_designs"]]),
    "list with query": ({"l": ONE, "query": Q}, [CFG + ["list_designs"]]),
    "draw": ({}, [CFG + READ, CFG + READ + DRAW]),
    "draw with -c": ({"cld": setval("cld")}, [READ, READ + DRAW]),
    "remove with -c": ({"cld": setval("cld"), "r": ONE}, [READ, READ + REM]),
    "remove (-r)": ({"r": ONE}, [CFG + READ, CFG + READ + REM]),
    "mend (-m)": ({"mend": ("c", 2), "r": ONE}, [CFG + READ, CFG + READ + REMQ + ["analyze_input"] + DRAW, CFG + READ + REMQ + ["analyze_input"]]),
}
CORE = ("discover_config_file", "parse_config_files", "list_designs", "query_by_tag", "read_all_input", "analyze_input", "generate_box", "output_box", "remove_box",
        "apply_substitutions", "output_input", "usage_long", "write")


def mode_run(mod, name, fails=(), hooks=None, more=None, raw=None, **kw):
    o = base_opts(mod, **dict(MODES[name][0], **(more or {})))
    o.update(raw or {})
    if MODES[name][0].get("mend"):
        o[("mend", 0)] = ("c", MEND(mod))
    from mainsim import MainHooks
    H = hooks or MainHooks

    class M(H):
        def load(self, sim, st, I, loc, ctx):
            if loc[0] == ("s", Q) and loc[1] == (0, ()):
                st.facts[("ne", ("u", ("set", "q0")))] = frozenset((0,))
                return ("u", ("set", "q0"))
            return H.load(self, sim, st, I, loc, ctx)

        def effects(self, sim, st, n, args, res):
            if n in ("apply_substitutions", "output_input"):
                a = args[-1]
                st.q = st.q[:-1] + ((st.q[-1][0] + "(%s)" % (a[1] if a[0] == "c" else "?"),) + st.q[-1][1:],)
            H.effects(self, sim, st, n, args, res)
    return run_main(mod, o, fails, hooks=M, **kw)


_mend = {}


def MEND(mod):
    """value the -m option stores (extracted by the command line analysis)"""
    if id(mod) not in _mend:
        v = 2
        try:
            from cmdl import Run
            r = Run(mod, ord("m"))
            vs = {r.field(s, "mend") for s in r.next}
            if len(vs) == 1 and list(vs)[0][0] == "c":
                v = list(vs)[0][1]
        except Exception:
            pass
        _mend[id(mod)] = v
    return _mend[id(mod)]


def phases(trace):
    """core phase names of a trace without outcomes; nonzero trim argument canonicalised"""
    r = []
    for e in trace:
        n = e[0]
        b = n.split("(")[0]
        if b in CORE:
            if n == "write":
                if not (r and r[-1] == "write(%s)" % e[1]):
                    r.append("write(%s)" % e[1])
            else:
                if b == "output_input" and n not in ("output_input(0)", "output_input(?)"):
                    n = "output_input(1)"
                r.append(n)
    return r


def failed(trace):
    return [e for e in trace if FAIL in e[1:]]
