"""Per-option transfer functions of the command line parser."""
from sim import Sim, St, UNK, ZERO, NOOFF, DFLT
from words import WordHooks, Word, bytes_seen
from bx import fields, need_fn, cell
from common import Broken

OPTARG = ("u", ("ld", (("g", "optarg"), NOOFF)))
RET_NULL, RET_OPT, NEXT = "null", "opt", "next"


class OptHooks(WordHooks):
    maxbyte = 5
    noinline = ("activate_debug_logging", "discover_config_file", "parse_query", "trimdup")

    def __init__(self, mod, value):
        self.mod = mod
        self.value = value
        self.next = []       # states in which parsing goes on with the next option
        self.first = 0
        self.objs = set()
        self.size = mod.structs["struct.opt_t"]["size"]
        self.reads_optarg = False
        self.prints = []

    def call3(self, sim, st, I, name, args, ctx):
        if name in ("getopt_long", "getopt", "getopt_long_only"):
            if not st.q:
                self.first += 1
                st = st.copy()
                st.q = 1
                return [(("c", self.value), st)]
            self.next.append(st)
            return []
        if name in ("calloc", "malloc"):
            n = 1
            for a in args[: 2 if name == "calloc" else 1]:
                n = n * a[1] if a[0] == "c" and n is not None else None
            if n == self.size:
                self.objs.add(("alloc", name, ctx, I.id))
        if name == "strtok":
            return [(("u", ("ext", "strtok", ctx, I.id)), st), (ZERO, st.copy())] if False else None
        return None

    def load(self, sim, st, I, loc, ctx):
        if loc[0] == ("g", "optarg") and st.q:
            self.reads_optarg = True
        return None

    def edge(self, sim, st, I, cond, taken, ctx):
        return not bytes_seen(st, OPTARG, self.maxbyte)


class Run:
    def __init__(self, mod, value, cap=3000, budget=250000, maxbyte=3):
        need_fn(mod, "process_commandline")
        self.mod = mod
        h = OptHooks(mod, value)
        h.maxbyte = maxbyte
        s = Sim(mod, h, cap=cap, budget=budget)
        argv = [("c", 3), ("u", ("arg", "argv"))]
        st = St()
        st.facts[("ne", argv[1])] = frozenset((0,))
        # the "-?" special case is not what is asked about here
        st.facts[("eq", ("u", ("pure", "strcmp", (("u", ("ld", (("s", argv[1]), (8, ())))), ("lit", "-?")))))] = ("c", 1)
        rets = s.run("process_commandline", argv, st)
        self.h, self.sim = h, s
        if not h.first:
            raise Broken("no call of getopt_long found below process_commandline")
        F = fields(mod, "opt_t")
        self.F = F
        self.rejected = [x for rv, x in rets if rv == ZERO]
        self.returned = [(rv, x) for rv, x in rets if rv != ZERO]
        self.next = h.next
        self.lossy = s.merged > 0 or s.overrun

    def obj(self, st):
        for k in self.h.objs:
            b = ("s", ("u", k))
            if any(x[0] == b for x in st.mem):
                return b
        return None

    def field(self, st, name, idx=0):
        b = self.obj(st)
        if b is None:
            return UNK
        off, size = self.F[name]
        return cell(st, b, off + idx)

    def changed(self, st, init):
        """fields (with element offset) differing from the initial option record"""
        b, bi = self.obj(st), self.obj(init)
        res = {}
        names = sorted((o, n, s) for n, (o, s) in self.F.items())
        offs = {k[1][0] for k in st.mem if k[0] == b and k[1] != DFLT and not k[1][1]} | {k[1][0] for k in init.mem if k[0] == bi and k[1] != DFLT and not k[1][1]}
        for o in offs:
            v, w = cell(st, b, o), cell(init, bi, o)
            if v != w:
                n = [(n, o - fo) for fo, n, fs in names if fo <= o < fo + fs]
                res[n[0] if n else ("?", o)] = v
        return res


def initial(mod):
    """option record before any option is processed (getopt reports the end at once)"""
    class H(OptHooks):
        def call3(self, sim, st, I, name, args, ctx):
            if name == "getopt_long" or name == "getopt":
                self.first += 1
                self.next.append(st)
                return []
            return OptHooks.call3(self, sim, st, I, name, args, ctx)
    h = H(mod, -1)
    s = Sim(mod, h, cap=200, budget=100000)
    st = St()
    argv = [("c", 3), ("u", ("arg", "argv"))]
    s.run("process_commandline", argv, st)
    if not h.next:
        raise Broken("process_commandline never calls getopt_long")
    r = Run.__new__(Run)
    r.mod, r.h, r.F = mod, h, fields(mod, "opt_t")
    return r, h.next[0]
