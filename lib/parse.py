"""Running the parser's rule actions on abstract parser states."""
from sim import Sim, St, UNK, ZERO, NOOFF, DFLT
from bx import BxHooks, fields, cell, need_fn
from grammar import Grammar, BISON, VS
from common import Broken

STR = {"strcasecmp", "strcmp", "strncmp", "strncasecmp"}


class ParserHooks(BxHooks):
    """stubs: {function: value or callable(sim, st, I, args) -> [(value, state)]}; events of the functions in `watch` go to st.q"""
    alloc_ok = True

    def __init__(self, mod, stubs=None, watch=(), strings=None):
        self.mod = mod
        self.stubs = stubs or {}
        self.watch = set(watch)
        self.strings = strings     # callable(name, a, b) -> int or None
        self.D = fields(mod, "design_t")
        self.dsize = mod.structs["struct.design_t"]["size"]

    def inline(self, sim, name):
        return not name.startswith("yy")

    def ev(self, st, *e):
        st.q = (st.q or ()) + (e,)

    def call2(self, sim, st, I, n, args, ctx):
        if n == "yyerror":
            st = st.copy()
            self.ev(st, "yyerror")
            return [(UNK, st)]
        if n in self.stubs:
            v = self.stubs[n]
            st = st.copy()
            if n in self.watch:
                self.ev(st, n)
            if callable(v):
                return v(sim, st, I, args)
            return [(v, st)]
        if n in STR and self.strings is not None:
            a, b = sim.lit(args[0]), sim.lit(args[1])
            r = self.strings(n, a if a is not None else args[0], b if b is not None else args[1])
            if r is not None:
                return [(("c", r), st)]
        if n == "realloc":
            return self.grow(sim, st, I, args, ctx)
        if n.startswith("yyget") or n in ("bxs_to_output",):
            return [(("u", ("r", n, ctx, I.id)), st)]
        return None

    def grow(self, sim, st, I, args, ctx):
        """the old content moves; what lies behind it is garbage"""
        st = st.copy()
        v = ("u", ("alloc", "realloc", ctx, I.id))
        i = 0
        while any(k[0] == ("s", v) for k in st.mem):
            i += 1
            v = ("u", ("alloc", "realloc", ctx, I.id, i))
        st.facts[("ne", v)] = frozenset((0,))
        l = sim.loc(args[0]) if args[0] != ZERO else None
        if l and not l[1][1]:
            lim = self.limit(sim, st, l[0])
            for (b, o), x in list(st.mem.items()):
                if b == l[0] and o != DFLT and (lim is None or o[1] or o[0] < lim):
                    st.mem[(("s", v), o)] = x
            d = st.mem.get((l[0], DFLT), ("copyof", l[0], 0))
            if d[0] == "copyof" or d == UNK or lim is None:
                st.mem[(("s", v), DFLT)] = d
            else:
                for o in range(0, lim, 4):
                    st.mem.setdefault((("s", v), (o, ())), d)
        return [(v, st)]

    def limit(self, sim, st, base):
        """size of the old object where it matters: the array of designs"""
        p = cell(st, BISON, fields(self.mod, "pass_to_bison")["designs"][0])
        l = sim.loc(p) if p != ZERO else None
        if l and l[0] == base:
            return self.dsize
        return None


class Parser:
    def __init__(self, tree):
        self.tree = tree
        self.mod = tree.module()
        self.g = Grammar(tree)
        self.B = fields(self.mod, "pass_to_bison")
        self.D = fields(self.mod, "design_t")
        self.S = fields(self.mod, "sentry_t")
        self.ssize = self.mod.structs["struct.sentry_t"]["size"]
        self.dsize = self.mod.structs["struct.design_t"]["size"]
        self.steps = 0
        self._init = None

    def start(self):
        """parser state handed to yyparse: all counters zero, no designs"""
        st = St()
        st.mem[(BISON, DFLT)] = ZERO
        c = ("u", ("set", "config_file"))
        st.facts[("ne", c)] = frozenset((0,))
        st.mem[(BISON, (self.B["config_file"][0], ()))] = c
        return st

    def rule(self, n, hooks, st, **kw):
        res, s = self.g.run(n, hooks, st, **kw)
        if s is not None:
            self.steps += s.steps
            self.overrun = s.overrun
        return res

    def init(self, hooks=None):
        """state after the parser has been initialised for the first design"""
        if hooks is None and self._init is not None:
            return self._init.copy()
        n = [k for k in self.g.find(lhs="$@1") if k in self.g.cases]
        if not n:
            n = [k for k, (l, r) in self.g.rules.items() if not r and k in self.g.cases and l in [x for x in self.g.rules.get(3, ("", []))[1]]]
        if not n:
            raise Broken("initial action of the grammar not found")
        h = hooks or ParserHooks(self.mod)
        r = [st for o, st in self.rule(n[0], h, self.start()) if o == "ok"]
        if len(r) != 1:
            raise Broken("initial action of the grammar has %d successful paths" % len(r))
        r[0].env = {}
        if hooks is None:
            self._init = r[0].copy()
        return r[0]

    def design(self, st):
        """location (base, offset) of the design being parsed"""
        p = cell(st, BISON, self.B["designs"][0])
        i = cell(st, BISON, self.B["design_idx"][0])
        if p[0] == "p" and not p[2][1]:
            b, o = p[1], p[2][0]
        elif p[0] == "u":
            b, o = ("s", p), 0
        else:
            return None
        if i[0] != "c":
            return None
        return b, o + i[1] * self.dsize

    def dget(self, st, field, add=0):
        l = self.design(st)
        return cell(st, l[0], l[1] + self.D[field][0] + add)

    def dset(self, st, field, v, add=0):
        l = self.design(st)
        st.mem[(l[0], (l[1] + self.D[field][0] + add, ()))] = v

    def shape(self, st, i, **kw):
        """gives shape i of the current design the field values"""
        for k, v in kw.items():
            self.dset(st, "shape", v, i * self.ssize + self.S[k][0])

    def nonnull(self, st, name):
        v = ("u", ("set", name))
        st.facts[("ne", v)] = frozenset((0,))
        return v

    def full_shape(self, st, i, width, height, elastic=0):
        self.shape(st, i, name=("c", i), chars=self.nonnull(st, ("chars", i)), mbcs=self.nonnull(st, ("mbcs", i)), width=width, height=height, elastic=("c", elastic))
