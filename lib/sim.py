"""Path-sensitive abstract interpretation of the IR (disjunctive constant / nullness propagation, ESP style).

Nothing of /repo is executed and no path formula is handed to a solver: the state is a finite map from SSA values and
abstract memory cells to abstract values (constant / pointer to abstract object / opaque value), plus facts learnt from
branches (not-equal sets, signed intervals, truth of comparisons).  States are merged at block entries once more than
`cap` distinct ones were seen there, so every analysis terminates.

Abstract values (hashable tuples):
  ('c', n)                     integer constant, null pointer is ('c', 0)
  ('p', base, off)             address: base = ('g',name) | ('al',ctx,id) | ('h',ctx,id) | ('s',value) | ('fn',name)
                               off  = (const, ((value,scale),...))
  ('u', key)                   opaque value, identified by key
  ('cmp', pred, a, b)          i1 comparison of opaque values
  ('not', v)                   negated i1
  ('e', op, a, b)              arithmetic on opaque values
  ('?',)                       unknown, without identity
"""
import time
from ir import Module, EXT_WRITES

PER_SIM, PER_CHECK, MEMORY = 60, 500, 5 << 30       # seconds of processor time, bytes; what is not explored within them is not judged
START = [time.process_time()]


def spent(t0):
    t = time.process_time()
    with open("/proc/self/statm") as f:
        return t - t0 > PER_SIM or t - START[0] > PER_CHECK or int(f.read().split()[1]) * 4096 > MEMORY

UNK = ("?",)
ZERO = ("c", 0)
NOOFF = (0, ())
DFLT = ("dflt", ())

NEG = {"eq": "ne", "ne": "eq", "slt": "sge", "sge": "slt", "sgt": "sle", "sle": "sgt", "ult": "uge", "uge": "ult", "ugt": "ule", "ule": "ugt"}
SWAP = {"eq": "eq", "ne": "ne", "slt": "sgt", "sgt": "slt", "sge": "sle", "sle": "sge", "ult": "ugt", "ugt": "ult", "uge": "ule", "ule": "uge"}

PURE = {"strcmp", "strcasecmp", "strncmp", "strncasecmp", "strlen", "u32_strlen", "u32_cmp", "u32_strcmp", "u32_strncmp", "strspn",
        "uc_is_alnum", "uc_is_blank", "uc_is_c_whitespace", "uc_is_cntrl", "uc_is_property_bidi_whitespace", "uc_is_property_white_space",
        "uc_width", "u32_strwidth", "strerror", "atoi", "u32_strstr", "strstr", "strchr", "strrchr", "u32_strrchr", "u32_strchr", "memcmp", "tolower", "toupper",
        "isatty", "fileno", "abs", "__errno_location", "__ctype_b_loc", "__ctype_tolower_loc", "isdigit", "isspace", "isalpha", "strpbrk", "strcspn"}
NORETURN = {"exit", "abort", "_exit", "__assert_fail"}
# external functions that dereference these pointer arguments (undefined behaviour when NULL)
EXT_DEREF = {"strlen": [0], "strcmp": [0, 1], "strcasecmp": [0, 1], "strncmp": [0, 1], "strncasecmp": [0, 1], "strcpy": [0, 1], "strcat": [0, 1],
             "strdup": [0], "strchr": [0], "strrchr": [0], "strspn": [0, 1], "u32_strlen": [0], "u32_strdup": [0], "u32_strcmp": [0, 1],
             "u32_strncmp": [0, 1], "u32_strstr": [0, 1], "u32_cpy": [0, 1], "u32_strcat": [0, 1], "u32_strwidth": [0], "u32_next": [1],
             "u32_strconv_from_encoding": [0], "u32_strconv_to_encoding": [0], "fclose": [0], "fgets": [0, 2], "ferror": [0], "fputc": [1], "fputs": [0, 1],
             "fprintf": [0, 1], "vfprintf": [0, 1], "getc": [0], "fflush": [], "closedir": [0], "sprintf": [0, 1], "vsprintf": [0, 1], "atoi": [0],
             "__isoc23_strtol": [0], "strtol": [0], "u32_set": [0], "u32_move": [0, 1], "u32_strrchr": [0], "opendir": [0], "fopen": [0, 1],
             "stat": [0, 1], "strstr": [0, 1], "memcpy": [0, 1], "memmove": [0, 1], "memset": [0], "u32_strncat": [0, 1], "strncpy": [0, 1]}
ALLOC = {"malloc", "calloc", "strdup", "realloc", "u32_strdup", "u32_cpy_alloc", "reallocarray", "strndup"}


class St:
    """one abstract state"""
    __slots__ = ("env", "mem", "facts", "q", "_h")

    def __init__(self, env=None, mem=None, facts=None, q=None):
        self.env = env if env is not None else {}
        self.mem = mem if mem is not None else {}
        self.facts = facts if facts is not None else {}
        self.q = q
        self._h = None

    def copy(self):
        return St(dict(self.env), dict(self.mem), dict(self.facts), self.q)

    def key(self):
        return (frozenset(self.env.items()), frozenset(self.mem.items()), frozenset(self.facts.items()), self.q)


class Hooks:
    """override what is needed"""

    def inline(self, sim, name):
        return True

    def call(self, sim, st, ins, name, args, ctx):
        """return None (default handling) or a list of (retval, state)"""
        return None

    def store(self, sim, st, ins, loc, val, ctx):
        pass

    def load(self, sim, st, ins, loc, ctx):
        """return a value to use or None"""
        return None

    def nullderef(self, sim, st, ins, what, ctx):
        pass

    def enter(self, sim, st, fn, args, ctx):
        pass

    def leave(self, sim, st, fn, retval, ctx):
        pass

    def exit(self, sim, st, ins, code, ctx):
        pass

    def edge(self, sim, st, ins, cond, taken, ctx):
        """called after a conditional branch was decided; return False to prune"""
        return True


class Sim:
    def __init__(self, mod, hooks, cap=24, maxdepth=24, budget=400000):
        self.mod = mod
        self.h = hooks
        self.cap = cap
        self.maxdepth = maxdepth
        self.budget = budget
        self.steps = self.rounds = 0
        self.t0 = time.process_time()
        self.overrun = False
        self.stop = set()      # (function, block id): exploration ends there, states are collected in .stopped
        self.stopped = []
        self._single = {}
        self.visited_ins = set()
        self.visited_fns = set()
        self.merged = 0
        self.havocs = {}
        self.alsize = {}
        self.stack = []

    # ---- values ----
    def off_add(self, off, c=0, term=None):
        k, ts = off
        k += c
        if term:
            v, s = term
            d = dict(ts)
            d[v] = d.get(v, 0) + s
            if d[v] == 0:
                del d[v]
            ts = tuple(sorted(d.items(), key=repr))
        return (k, ts)

    def val(self, st, ctx, ref):
        t = ref[0]
        if t == "i":
            return st.env.get((ctx, ref[1]), UNK)
        if t == "a":
            return st.env.get((ctx, "a%d" % ref[1]), UNK)
        if t == "c":
            return ("c", ref[1])
        if t == "null":
            return ZERO
        if t == "g":
            return ("p", ("g", ref[1]), NOOFF)
        if t == "fn":
            return ("p", ("fn", ref[1]), NOOFF)
        if t == "gep":
            b = self.val(st, ctx, ref[1])
            if b[0] == "p" and ref[3] >= 0:
                return ("p", b[1], self.off_add(b[2], ref[3]))
            return UNK
        if t == "undef":
            return ("u", ("undef",))
        return UNK

    def loc(self, v):
        """abstract cell for a pointer value, or None"""
        if v[0] == "p":
            return (v[1], v[2])
        if v[0] in ("u", "e"):
            return (("s", v), NOOFF)
        return None

    def fname(self, fn):
        return fn

    def lit(self, v):
        """string literal a pointer value designates"""
        if v[0] == "p" and v[1][0] == "g" and not v[2][1]:
            g = self.mod.globals.get(v[1][1])
            if g and g.get("const"):
                return self.mod.cstr(("gep", ("g", v[1][1]), (), v[2][0]))
        return None

    # ---- facts ----
    def interval(self, st, v):
        if v[0] == "c":
            return v[1], v[1]
        f = st.facts.get(("rng", v))
        return f if f else (None, None)

    def nonzero(self, st, v):
        if v[0] == "c":
            return v[1] != 0
        if v[0] == "p":
            if v[1][0] in ("g", "al", "h", "fn"):
                return True
            return True if v[1][0] == "s" and self.nonzero(st, v[1][1]) else None
        if 0 in st.facts.get(("ne", v), ()):
            return True
        lo, hi = self.interval(st, v)
        if (lo is not None and lo > 0) or (hi is not None and hi < 0):
            return True
        return None

    def truth(self, st, v):
        """True / False / None for an i1 (or integer) value"""
        if v[0] == "c":
            return v[1] != 0
        if v[0] == "not":
            t = self.truth(st, v[1])
            return None if t is None else not t
        if v[0] == "cmp":
            return self.cmp(st, v[1], v[2], v[3])
        if v[0] == "p":
            return self.nonzero(st, v)
        if v == UNK:
            return None
        return self.nonzero(st, v)

    def cmp(self, st, pred, a, b):
        if a == b and a != UNK:
            return pred in ("eq", "sge", "sle", "uge", "ule")
        if a[0] == "c" and b[0] == "c":
            x, y = a[1], b[1]
            if pred[0] == "u":
                x &= (1 << 64) - 1
                y &= (1 << 64) - 1
            return {"eq": x == y, "ne": x != y, "lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y}[pred if pred in ("eq", "ne") else pred[1:]]
        if a[0] == "c":
            return self.cmp(st, SWAP[pred], b, a)
        if a == UNK or b == UNK:
            return None
        if a[0] == "p" and b[0] == "p":
            if a[1] == b[1] and not a[2][1] and not b[2][1]:
                return self.cmp(st, "s" + pred[1:] if pred[0] == "u" else pred, ("c", a[2][0]), ("c", b[2][0]))
            if pred in ("eq", "ne") and a[1] != b[1] and a[1][0] in ("g", "al", "h") and b[1][0] in ("g", "al", "h"):
                return pred == "ne"
        f = st.facts.get(("cmp", pred, a, b))
        if f is not None:
            return f
        if b[0] == "c":
            c = b[1]
            if pred in ("eq", "ne"):
                if c == 0:
                    nz = self.nonzero(st, a)
                    if nz is not None:
                        return (pred == "ne") == nz
                if c in st.facts.get(("ne", a), ()):
                    return pred == "ne"
            if a[0] == "p" and pred in ("ugt", "ule") and c == 0:
                nz = self.nonzero(st, a)
                if nz is not None:
                    return (pred == "ugt") == nz
            lo, hi = self.interval(st, a)
            if pred in ("ugt", "ule", "ult", "uge") and c == 0:
                if pred == "ult":
                    return False
                if pred == "uge":
                    return True
                nz = self.nonzero(st, a)
                if nz:
                    return pred == "ugt"
            if pred == "ult" and c == 1 or pred == "uge" and c == 1:
                nz = self.nonzero(st, a)
                if nz:
                    return pred == "uge"
            sp = pred
            if pred[0] == "u" and lo is not None and lo >= 0 and c >= 0:
                sp = "s" + pred[1:]
            if sp in ("eq", "ne"):
                if (lo is not None and c < lo) or (hi is not None and c > hi):
                    return sp == "ne"
            if sp == "slt":
                if hi is not None and hi < c: return True
                if lo is not None and lo >= c: return False
            if sp == "sle":
                if hi is not None and hi <= c: return True
                if lo is not None and lo > c: return False
            if sp == "sgt":
                if lo is not None and lo > c: return True
                if hi is not None and hi <= c: return False
            if sp == "sge":
                if lo is not None and lo >= c: return True
                if hi is not None and hi < c: return False
        # contradictory / implied relations between two opaque values
        for p2, res in IMPL.get(pred, ()):
            f = st.facts.get(("cmp", p2, a, b))
            if f:
                return res
        return None

    def assume(self, st, v, truth):
        """refine st (in place); returns False if infeasible"""
        t = self.truth(st, v)
        if t is not None:
            return t == truth
        if v[0] == "not":
            return self.assume(st, v[1], not truth)
        if v[0] == "cmp":
            pred, a, b = v[1], v[2], v[3]
            if not truth:
                pred = NEG[pred]
            if a == UNK or b == UNK:
                return True
            return self.learn(st, pred, a, b)
        if v == UNK:
            return True
        return self.learn(st, "ne" if truth else "eq", v, ZERO)

    def learn(self, st, pred, a, b):
        if a[0] == "c":
            a, b, pred = b, a, SWAP[pred]
        if b[0] == "c":
            c = b[1]
            if pred == "ult" and c == 1 or pred == "ule" and c == 0:
                pred, c = "eq", 0
            elif pred == "uge" and c == 1 or pred == "ugt" and c == 0:
                pred, c = "ne", 0
            if pred == "eq":
                self.subst(st, a, ("c", c))
                return True
            if pred == "ne":
                s = set(st.facts.get(("ne", a), ())) | {c}
                st.facts[("ne", a)] = frozenset(s)
                return True
            lo, hi = self.interval(st, a)
            p = pred
            if p[0] == "u":
                if p in ("ult", "ule") and c > 0:
                    p = "s" + p[1:]
                    lo = 0 if lo is None else max(lo, 0)
                elif lo is not None and lo >= 0 and c >= 0:
                    p = "s" + p[1:]
                else:
                    st.facts[("cmp", pred, a, b)] = True
                    st.facts[("cmp", NEG[pred], a, b)] = False
                    if pred in ("ugt", "uge") and c > 0:
                        st.facts[("ne", a)] = frozenset(set(st.facts.get(("ne", a), ())) | {0})
                    return True
            if p == "slt": hi = c - 1 if hi is None else min(hi, c - 1)
            if p == "sle": hi = c if hi is None else min(hi, c)
            if p == "sgt": lo = c + 1 if lo is None else max(lo, c + 1)
            if p == "sge": lo = c if lo is None else max(lo, c)
            if lo is not None and hi is not None:
                if lo > hi:
                    return False
                if lo == hi:
                    self.subst(st, a, ("c", lo))
                    return True
            st.facts[("rng", a)] = (lo, hi)
            return True
        if pred == "eq":
            # remember equality only; substitution of two opaque values is not needed
            pass
        st.facts[("cmp", pred, a, b)] = True
        st.facts[("cmp", NEG[pred], a, b)] = False
        st.facts[("cmp", SWAP[pred], b, a)] = True
        st.facts[("cmp", NEG[SWAP[pred]], b, a)] = False
        return True

    def subst(self, st, old, new):
        """replace an opaque value everywhere"""
        st.facts[("eq", old)] = new
        for d in (st.env, st.mem):
            for k, v in list(d.items()):
                if v == old:
                    d[k] = new
                elif v[0] in ("cmp", "not", "e") and contains(v, old):
                    d[k] = self.rebuild(st, v, old, new)
        for k in list(st.facts):
            if k[0] in ("ne", "rng") and k[1] == old:
                del st.facts[k]

    def rebuild(self, st, v, old, new):
        if v == old:
            return new
        if v[0] == "cmp":
            a, b = self.rebuild(st, v[2], old, new), self.rebuild(st, v[3], old, new)
            t = self.cmp(st, v[1], a, b)
            return ("c", int(t)) if t is not None else ("cmp", v[1], a, b)
        if v[0] == "not":
            x = self.rebuild(st, v[1], old, new)
            return ("c", 0 if x[1] else 1) if x[0] == "c" else ("not", x)
        if v[0] == "e":
            return self.arith(v[1], self.rebuild(st, v[2], old, new), self.rebuild(st, v[3], old, new))
        return v

    def fresh(self, st, key):
        """a new opaque value; an older value with the same key loses its identity"""
        u = ("u", key)
        used = False
        for d in (st.env, st.mem):
            for k, v in d.items():
                if v == u or contains(v, u):
                    used = True
                    break
        if used or any(mentions(k, u) for k in st.facts):
            old = ("u", ("old", key))
            st.env = {k: repl(v, u, old) for k, v in st.env.items()}
            st.mem = {(repl_loc(k, u, old)): repl(v, u, old) for k, v in st.mem.items()}
            nf = {}
            for k, v in st.facts.items():
                if mentions(k, old):
                    continue
                nf[repl(k, u, old) if mentions(k, u) else k] = v
            st.facts = nf
        return u

    # ---- arithmetic ----
    def arith(self, op, a, b, bits=64):
        if a[0] == "c" and b[0] == "c":
            x, y = a[1], b[1]
            try:
                m = (1 << bits) - 1
                if op == "add": r = x + y
                elif op == "sub": r = x - y
                elif op == "mul": r = x * y
                elif op == "and": r = x & y
                elif op == "or": r = x | y
                elif op == "xor": r = x ^ y
                elif op == "shl": r = x << y
                elif op == "lshr": r = (x & m) >> y
                elif op == "ashr": r = x >> y
                elif op == "udiv": r = (x & m) // (y & m)
                elif op == "urem": r = (x & m) % (y & m)
                elif op == "sdiv": r = int(x / y)
                elif op == "srem": r = x - y * int(x / y)
                else: return UNK
            except ZeroDivisionError:
                return UNK
            r &= m
            if bits > 1 and r >> (bits - 1):
                r -= 1 << bits
            return ("c", r)
        if a == UNK or b == UNK:
            return UNK
        if op == "xor" and b == ("c", -1) or op == "xor" and b == ("c", 1):
            if a[0] in ("cmp", "not"):
                return a[1] if a[0] == "not" else ("not", a)
            if bits == 1:
                return ("not", a)
        if op in ("add", "sub") and b == ZERO:
            return a
        if op == "sub" and a == b:
            return ZERO
        if op == "sub" and a[0] == "p" and b[0] == "p" and a[1] == b[1] and a[2][1] == b[2][1] and bits >= 32:
            return ("c", a[2][0] - b[2][0])
        if op == "sub" and b[0] == "c":
            op, b = "add", ("c", -b[1])
        if op == "add" and a[0] == "c":
            a, b = b, a
        if op == "add" and b[0] == "c" and a[0] == "e" and a[1] == "add" and a[3][0] == "c":
            k = a[3][1] + b[1]
            return a[2] if k == 0 else ("e", "add", a[2], ("c", k))
        if op == "mul" and b == ("c", 1):
            return a
        if op in ("and", "mul") and (a == ZERO or b == ZERO):
            return ZERO
        if op in ("or",) and (a == ZERO or b == ZERO):
            return b if a == ZERO else a
        if depth(a) + depth(b) > 10:
            return UNK
        return ("e", op, a, b)

    # ---- run ----
    def run(self, fname, args=None, st=None, ctx=()):
        """analyse fname from its entry. returns list of (retval, state)"""
        st = st or St()
        f = self.mod.functions[fname]
        args = args if args is not None else [("u", ("arg", fname, i)) for i in range(f.nargs)]
        return self.exec_fn(f, args, st, ctx)

    def exec_fn(self, f, args, st, ctx):
        st = st.copy()
        for i, a in enumerate(args[:f.nargs]):
            st.env[(ctx, "a%d" % i)] = a
        self.visited_fns.add(f.name)
        self.h.enter(self, st, f, args, ctx)
        self.stack.append(f.name)
        exits = self.exec_from(f, f.entry, 0, None, st, ctx)
        self.stack.pop()
        out = {}
        for rv, s in exits:
            self.h.leave(self, s, f, rv, ctx)
            s.env = {k: v for k, v in s.env.items() if k[0] != ctx}
            s.mem = {k: v for k, v in s.mem.items() if not (k[0][0] == "al" and k[0][1] == ctx)}
            self.gc(s, rv)
            out[(rv, s.key())] = (rv, s)
        res = list(out.values())
        if len(res) > self.cap:
            res = self.merge_exits(res)
        return res

    def gc(self, st, rv=None):
        """drop facts about values which are no longer referenced"""
        if not st.facts:
            return
        live = set()
        for v in set(st.env.values()):
            live |= atoms_of(v)
        for v in set(st.mem.values()):
            live |= atoms_of(v)
        if rv:
            live |= atoms_of(rv)
        for (b, o) in st.mem:
            if b[0] == "s":
                live |= atoms_of(b[1])
            for t in o[1]:
                live |= atoms_of(t[0])
        nf = {}
        for k, v in st.facts.items():
            if k[0] == "eq":
                if self.keep_eq(k[1]):
                    nf[k] = v
                continue
            at = atoms_of(k[1:])
            if at <= live or any(self.keep_eq(a) for a in at):
                nf[k] = v
        st.facts = nf

    def keep_eq(self, v):
        return v[0] == "u" and isinstance(v[1], tuple) and v[1][0] in getattr(self.h, "keep", ())

    def merge_exits(self, res):
        groups = {}
        for rv, s in res:
            k = (rv if rv[0] == "c" else (rv[0] if rv[0] != "u" else "u"), s.q)
            groups.setdefault(k, []).append((rv, s))
        out = []
        for k, l in groups.items():
            rv, s = l[0]
            for rv2, s2 in l[1:]:
                if rv2 != rv:
                    rv = self.joinval(s, rv, s2, rv2, ("jr",))
                s = self.join(s, s2)
            out.append((rv, s))
        self.merged += 1
        return out

    def joinval(self, s1, a, s2, b, tag):
        if a == b:
            return a
        return UNK

    def join(self, a, b):
        r = St(q=a.q)
        for k, v in a.env.items():
            if k in b.env:
                r.env[k] = v if b.env[k] == v else UNK
        for k, v in a.mem.items():
            if k in b.mem:
                r.mem[k] = v if b.mem[k] == v else UNK
            elif v == UNK:
                r.mem[k] = UNK
            # absent in b means "initial value unknown": forget
        for k in list(a.mem) + list(b.mem):
            if (k in a.mem) != (k in b.mem):
                r.mem[k] = UNK
        for k, v in a.facts.items():
            w = b.facts.get(k)
            if w == v:
                r.facts[k] = v
            elif w is not None and k[0] == "ne":
                x = v & w
                if x:
                    r.facts[k] = x
            elif w is not None and k[0] == "rng":
                lo = None if v[0] is None or w[0] is None else min(v[0], w[0])
                hi = None if v[1] is None or w[1] is None else max(v[1], w[1])
                # widen: keep only bounds that agree
                lo = v[0] if v[0] == w[0] else (0 if lo is not None and lo >= 0 else None)
                hi = v[1] if v[1] == w[1] else None
                if lo is not None or hi is not None:
                    r.facts[k] = (lo, hi)
        return r

    def exec_from(self, f, blk, idx, pred, st, ctx):
        """explore f from instruction idx of blk; returns exits of f"""
        exits = []
        seen = {}   # block id -> {q: set(keys)}
        joined = {}
        work = [(blk, idx, pred, st)]
        while work:
            self.rounds += 1
            if self.rounds % 256 == 0 and spent(self.t0):
                self.budget = 0
            if self.steps > self.budget:
                self.overrun = True
                return exits
            b, i0, pr, s = work.pop()
            if i0 == 0 and (f.name, b.id) in self.stop:
                self.stopped.append((b.id, pr, s))
                continue
            if i0 == 0:
                # phi evaluation
                s = s.copy()
                newv = {}
                for I in b.ins:
                    if I.op != "phi":
                        break
                    for pb, v in I.ops:
                        if pr is not None and pb == pr:
                            newv[I.id] = self.val(s, ctx, v)
                            break
                for k, v in newv.items():
                    s.env[(ctx, k)] = v
                live = f.live_in[b.id]
                s.env = {k: v for k, v in s.env.items() if k[0] != ctx or not isinstance(k[1], int) or k[1] in live or k[1] in newv}
                if self.single(f, b):
                    self.step_block(f, b, i0, s, ctx, work, exits)
                    continue
                self.gc(s)
                k = s.key()
                vb = seen.setdefault((b.id, s.q), set())
                if k in vb:
                    continue
                if len(vb) >= self.cap:
                    j = joined.get((b.id, s.q))
                    n = self.join(j, s) if j else s
                    if j is not None and n.key() == j.key():
                        continue
                    joined[(b.id, s.q)] = n
                    self.merged += 1
                    s = n.copy()
                    k = s.key()
                    if k in vb:
                        continue
                vb.add(k)
            self.step_block(f, b, i0, s, ctx, work, exits)
        return exits

    def single(self, f, b):
        """only one edge leads to b: nothing to be merged there"""
        c = self._single.get(f.name)
        if c is None:
            n = {}
            for x in f.blocks:
                I = x.ins[-1]
                if I.op == "br":
                    for t in I.d["succ"]:
                        n[t] = n.get(t, 0) + 1
                elif I.op == "switch":
                    for _, t in I.d["cases"]:
                        n[t] = n.get(t, 0) + 1
                    n[I.d["default"]] = n.get(I.d["default"], 0) + 1
            c = self._single[f.name] = {t for t, k in n.items() if k == 1 and t != f.entry.id}
        return b.id in c

    def step_block(self, f, b, i0, s, ctx, work, exits):
        states = [s]
        for I in b.ins[i0:]:
            if I.op == "phi":
                continue
            self.visited_ins.add((f.name, I.id))
            nxt = []
            for s in states:
                self.steps += 1
                if I.op == "call":
                    nxt.extend(self.do_call(f, I, s, ctx))
                elif I.op == "ret":
                    rv = self.val(s, ctx, I.ops[0]) if I.ops else ("void",)
                    exits.append((rv, s))
                elif I.op == "br":
                    succ = I.d["succ"]
                    if len(succ) == 1:
                        work.append((f.bmap[succ[0]], 0, b.id, s))
                    else:
                        c = self.val(s, ctx, I.ops[0])
                        t = self.truth(s, c)
                        for want, tgt in ((True, succ[0]), (False, succ[1])):
                            if t is not None and t != want:
                                continue
                            s2 = s.copy()
                            if self.assume(s2, c, want):
                                if self.h.edge(self, s2, I, c, want, ctx) is False:
                                    continue
                                work.append((f.bmap[tgt], 0, b.id, s2))
                elif I.op == "switch":
                    c = self.val(s, ctx, I.ops[0])
                    done = False
                    excl = []
                    for cv, tgt in I.d["cases"]:
                        t = self.cmp(s, "eq", c, ("c", cv))
                        if t is False:
                            continue
                        s2 = s.copy()
                        if c[0] != "c" and c != UNK:
                            if not self.learn(s2, "eq", c, ("c", cv)):
                                continue
                        if self.h.edge(self, s2, I, c, ("case", cv), ctx) is not False:
                            work.append((f.bmap[tgt], 0, b.id, s2))
                        if t is True:
                            done = True
                            break
                        excl.append(cv)
                    if not done:
                        s2 = s.copy()
                        ok = True
                        if c[0] != "c" and c != UNK:
                            for cv in excl:
                                ok = ok and self.learn(s2, "ne", c, ("c", cv))
                        if ok and self.h.edge(self, s2, I, c, ("default",), ctx) is not False:
                            work.append((f.bmap[I.d["default"]], 0, b.id, s2))
                elif I.op == "unreachable":
                    pass
                else:
                    r = self.do_ins(f, I, s, ctx)
                    if r is not None:
                        s.env[(ctx, I.id)] = r
                    nxt.append(s)
            # dedupe
            if len(nxt) > 1:
                d = {}
                for s in nxt:
                    d[s.key()] = s
                nxt = list(d.values())
                if len(nxt) > self.cap * 4:
                    g = {}
                    for s in nxt:
                        g[s.q] = self.join(g[s.q], s) if s.q in g else s
                    nxt = list(g.values())
                    self.merged += 1
            states = nxt
            if not states:
                return

    def bits(self, t):
        return int(t[1:]) if t.startswith("i") and t[1:].isdigit() else 64

    def do_ins(self, f, I, s, ctx):
        op = I.op
        if op == "alloca":
            base = ("al", ctx, I.id)
            if "asz" in I.d:
                self.alsize[base] = I.d["asz"]
            for k in [k for k in s.mem if k[0] == base]:
                del s.mem[k]
            return ("p", base, NOOFF)
        if op == "load":
            p = self.val(s, ctx, I.ops[0])
            return self.do_load(s, I, p, ctx)
        if op == "store":
            v = self.val(s, ctx, I.ops[0])
            p = self.val(s, ctx, I.ops[1])
            self.do_store(s, I, p, v, ctx)
            return None
        if op == "getelementptr":
            p = self.val(s, ctx, I.ops[0])
            if p == UNK:
                return UNK
            if p[0] == "c":
                return ("c", p[1]) if p[1] == 0 else UNK
            base, off = (p[1], p[2]) if p[0] == "p" else (("s", p), NOOFF)
            if "off" in I.d:
                off = self.off_add(off, I.d["off"])
            else:
                c = 0
                for stp in I.path:
                    if stp[0] == "f":
                        st = self.mod.structs[stp[1]]
                        off = self.off_add(off, st["fields"][stp[2]]["off"])
                    else:
                        x = self.val(s, ctx, stp[1])
                        if x[0] == "c":
                            off = self.off_add(off, x[1] * stp[2])
                        else:
                            if x == UNK:
                                x = ("u", ("ix", ctx, I.id))
                            off = self.off_add(off, 0, (x, stp[2]))
            if off == NOOFF and base[0] == "s":
                return base[1]
            return ("p", base, off)
        if op == "icmp":
            a, b = self.val(s, ctx, I.ops[0]), self.val(s, ctx, I.ops[1])
            t = self.cmp(s, I.d["pred"], a, b)
            if t is not None:
                return ("c", int(t))
            if a == UNK or b == UNK:
                return self.fresh(s, ("ic", ctx, I.id))
            if a[0] == "c":
                a, b, p = b, a, SWAP[I.d["pred"]]
            else:
                p = I.d["pred"]
            # (zext i1 x) != 0
            if b == ZERO and a[0] in ("cmp", "not") and p in ("ne", "eq"):
                return a if p == "ne" else (a[1] if a[0] == "not" else ("not", a))
            return ("cmp", p, a, b)
        if op in ("zext", "sext", "trunc", "bitcast", "ptrtoint", "inttoptr", "freeze"):
            a = self.val(s, ctx, I.ops[0])
            if a[0] == "c":
                n = a[1]
                fb, tb = self.bits(I.d.get("st", "i64")), self.bits(I.t)
                if op == "zext":
                    n &= (1 << fb) - 1
                elif op == "trunc":
                    n &= (1 << tb) - 1
                    if tb > 1 and n >> (tb - 1):
                        n -= 1 << tb
                elif op == "sext" and fb == 1 and n:
                    n = -1
                return ("c", n)
            if op == "trunc" and a[0] not in ("cmp", "not") and a != UNK:
                # width change may alter the value: keep it only if its range is known to fit
                lo, hi = self.interval(s, a)
                tb = self.bits(I.t)
                if lo is not None and hi is not None and -(1 << (tb - 1)) <= lo and hi < (1 << (tb - 1)):
                    return a
                if a[0] == "u" and a[1] and a[1][0] in getattr(self.h, "wide_ok", ()):
                    return a
                return ("e", "trunc", a, ("c", tb))
            return a
        if op == "select":
            c = self.val(s, ctx, I.ops[0])
            t = self.truth(s, c)
            if t is True:
                return self.val(s, ctx, I.ops[1])
            if t is False:
                return self.val(s, ctx, I.ops[2])
            a, b = self.val(s, ctx, I.ops[1]), self.val(s, ctx, I.ops[2])
            return a if a == b else UNK
        if op in ("add", "sub", "mul", "and", "or", "xor", "shl", "lshr", "ashr", "udiv", "urem", "sdiv", "srem"):
            return self.arith(op, self.val(s, ctx, I.ops[0]), self.val(s, ctx, I.ops[1]), self.bits(I.t))
        return UNK

    def do_load(self, s, I, p, ctx):
        if p[0] == "c":
            self.h.nullderef(self, s, I, "load", ctx)
            return UNK
        l = self.loc(p)
        if l is None:
            return self.fresh(s, ("ld?", ctx, I.id))
        h = self.h.load(self, s, I, l, ctx)
        if h is not None:
            return h
        if l in s.mem:
            v = s.mem[l]
            if v == UNK:
                v = self.fresh(s, ("lu", ctx, I.id))
                s.mem[l] = v
            return v
        base, off = l
        if base[0] == "g" and not off[1]:
            g = self.mod.globals.get(base[1])
            if g and "init" in g and self.mod.effconst(base[1]):
                v = self.const_at(g["init"], off[0], self.sizeof(I))
                if v is not None:
                    return v
        d = s.mem.get((base, DFLT))
        if d == ZERO and (not off[1] or not any(k[0] == base and k[1] != DFLT for k in s.mem)):
            return ZERO
        if d is not None and d[0] == "copyof":
            l0, l = l, (d[1], self.off_add(off, d[2]))
            v = None
            if d[1][0] == "g" and not off[1] and self.mod.effconst(d[1][1]) and "init" in self.mod.globals[d[1][1]]:
                v = self.const_at(self.mod.globals[d[1][1]]["init"], l[1][0], self.sizeof(I))
            v = v or ("u", ("ld", l))
            v = s.facts.get(("eq", v), v)
            s.mem[l0] = v
            return v
        if d is not None:
            v = self.fresh(s, ("lu", ctx, I.id))
            s.mem[l] = v
            return v
        v = ("u", ("ld", l))
        v = s.facts.get(("eq", v), v)
        s.mem[l] = v
        return v

    def sizeof(self, I):
        return I.d.get("sz", 8)

    def const_at(self, init, off, sz):
        """value of sz bytes at offset off of a constant initialiser, or None"""
        t = init[0]
        if t in ("str", "bytes"):
            if sz != 1:
                return None
            n = init_size(self.mod, init)
            by = init[1].encode("utf-8", "surrogateescape") if t == "str" else bytes(init[1])
            if 0 <= off < len(by):
                b = by[off]
                return ("c", b - 256 if b > 127 else b)
            return ZERO if 0 <= off < n else None
        if t == "zero":
            return ZERO
        if t == "c":
            return ("c", init[1]) if off == 0 and sz * 8 == max(8, init[2]) else None
        if t == "null":
            return ZERO if off == 0 else None
        if t in ("g", "gep", "fn"):
            return self.val(None, None, init) if off == 0 else None
        if t == "arr":
            pos = 0
            for e in init[1]:
                n = init_size(self.mod, e)
                if n is None:
                    return None
                if pos <= off < pos + n:
                    return self.const_at(e, off - pos, sz)
                pos += n
            return None
        if t == "struct":
            st = self.mod.structs.get(init[1])
            if not st:
                return None
            for f, e in zip(st["fields"], init[2]):
                if f["off"] <= off < f["off"] + f["size"]:
                    return self.const_at(e, off - f["off"], sz)
        return None

    def do_store(self, s, I, p, v, ctx):
        if p[0] == "c":
            self.h.nullderef(self, s, I, "store", ctx)
            return
        l = self.loc(p)
        if l is None:
            self.h.store(self, s, I, None, v, ctx)
            return
        self.h.store(self, s, I, l, v, ctx)
        base, off = l
        for k in [k for k in s.mem if k[0] == base and k[1] != off and (k[1][1] != off[1])]:
            s.mem[k] = UNK
        if off[1] and (base, DFLT) in s.mem:
            s.mem[(base, DFLT)] = UNK
        s.mem[l] = v

    def havoc(self, s, names, heap, ctx, tag, args=()):
        """forget memory that may have been written"""
        bases = set()
        for a in args:
            if a[0] == "p":
                bases.add(a[1])
            elif a[0] == "u":
                bases.add(("s", a))
        for k in list(s.mem):
            b = k[0]
            if b[0] == "g":
                if b[1] in names:
                    s.mem[k] = UNK
            elif heap and b[0] in ("h", "s"):
                s.mem[k] = UNK
            elif heap and b[0] == "al" and (b in bases):
                s.mem[k] = UNK

    def calleename(self, s, I, ctx):
        if I.callee:
            return I.callee
        v = self.val(s, ctx, I.calleeref())
        if v[0] == "p" and v[1][0] == "fn":
            return v[1][1]
        if v[0] == "u" and v[1][0] == "ld" and v[1][1][0][0] == "g":
            return "*" + v[1][1][0][1]
        return "*?"

    def do_call(self, f, I, s, ctx):
        name = self.calleename(s, I, ctx)
        args = [self.val(s, ctx, o) for o in I.ops]
        if name.startswith("llvm."):
            if name.startswith("llvm.mem"):
                name = name.split(".")[1]
            elif name.startswith("llvm.stack"):
                return [s]
        if name in ("*bx_fprintf",):
            name = "bx_fprintf"
        r = self.h.call(self, s, I, name, args, ctx)
        if r is not None:
            out = []
            for rv, s2 in r:
                if I.t != "void":
                    s2.env[(ctx, I.id)] = rv
                out.append(s2)
            return out
        if name in NORETURN:
            self.h.exit(self, s, I, args[0] if args else UNK, ctx)
            return []
        g = self.mod.functions.get(name)
        if g is not None and not g.decl:
            if self.h.inline(self, name) and len(self.stack) < self.maxdepth and self.stack.count(name) < 1:
                cctx = ctx + ((f.name, I.id),)
                out = []
                for rv, s2 in self.exec_fn(g, args, s, cctx):
                    # values of the frame itself that leak out keep their keys
                    if I.t != "void":
                        s2.env[(ctx, I.id)] = rv
                    out.append(s2)
                return out
            m = self.mod.mods.get(name, frozenset())
            self.havocs[name] = self.havocs.get(name, 0) + 1
            self.havoc(s, {x[1] for x in m if isinstance(x, tuple)}, "heap" in m, ctx, I.id, args)
            if I.t != "void":
                s.env[(ctx, I.id)] = self.fresh(s, ("call", name, ctx, I.id))
            return [s]
        return self.ext_call(f, I, s, name, args, ctx)

    def ext_call(self, f, I, s, name, args, ctx):
        for k in EXT_DEREF.get(name, ()):
            if k < len(args) and args[k] == ZERO:
                self.h.nullderef(self, s, I, "argument %d of %s" % (k + 1, name), ctx)
        if name == "free":
            return [s]
        if name in EXT_WRITES:
            for k in EXT_WRITES[name]:
                if k < len(args):
                    a = args[k]
                    l = self.loc(a)
                    if l:
                        if name == "memset" and args[1] == ZERO and l[1] == NOOFF and self.whole(s, l[0], args[2]):
                            for m in [m for m in s.mem if m[0] == l[0]]:
                                del s.mem[m]
                            s.mem[(l[0], DFLT)] = ZERO
                            continue
                        if name == "memset" and args[1] == ZERO and args[2][0] == "c" and 0 < args[2][1] <= 4096 and not l[1][1]:
                            lo, n = l[1][0], args[2][1]
                            for m in [m for m in s.mem if m[0] == l[0] and m[1] != DFLT]:
                                if m[1][1]:
                                    s.mem[m] = UNK
                                elif lo <= m[1][0] < lo + n:
                                    del s.mem[m]
                            if s.mem.get((l[0], DFLT)) != ZERO:
                                for k in range(lo, lo + n, 4):
                                    s.mem[(l[0], (k, ()))] = ZERO
                            continue
                        if name in ("memcpy", "memmove") and self.copy_obj(s, l[0], l[1], args[1], args[2]):
                            continue
                        for m in [m for m in s.mem if m[0] == l[0]]:
                            s.mem[m] = UNK
                        s.mem[(l[0], DFLT)] = UNK
        elif name not in PURE and name not in QUIET:
            # out-parameters: any alloca/heap object passed may be written
            for a in args:
                if a[0] == "p" and a[1][0] in ("al",):
                    for m in [m for m in s.mem if m[0] == a[1]]:
                        s.mem[m] = UNK
        if I.t == "void":
            return [s]
        if name in ("strcmp", "strcasecmp") and len(args) == 2:
            a, b = self.lit(args[0]), self.lit(args[1])
            if a is not None and b is not None:
                if name == "strcasecmp":
                    a, b = a.lower(), b.lower()
                s.env[(ctx, I.id)] = ("c", 0 if a == b else 1)
                return [s]
        if name == "strlen":
            a = self.lit(args[0])
            if a is not None:
                s.env[(ctx, I.id)] = ("c", len(a.encode()))
                return [s]
        if name in PURE:
            key = ("pure", name, tuple(self.canon(a) for a in args))
            if any(a == UNK for a in args):
                s.env[(ctx, I.id)] = self.fresh(s, key + (ctx, I.id))
            else:
                s.env[(ctx, I.id)] = s.facts.get(("eq", ("u", key)), ("u", key))
            return [s]
        if name in ALLOC:
            key = ("alloc", name, ctx, I.id)
            v = self.fresh(s, key)
            s.env[(ctx, I.id)] = v
            for m in [m for m in s.mem if m[0] == ("s", v)]:
                del s.mem[m]
            if name == "calloc":
                s.mem[(("s", v), DFLT)] = ZERO
            if getattr(self.h, "alloc_ok", True):
                s.facts[("ne", v)] = frozenset((0,))
            return [s]
        s.env[(ctx, I.id)] = self.fresh(s, ("ext", name, tuple(self.canon(a) for a in args) if name == "getenv" else (), ctx, I.id))
        return [s]

    def whole(self, s, base, n):
        """does a memset of n bytes cover the whole object? (only asked for offset 0)"""
        if n[0] != "c":
            return base[0] in ("s", "h")
        if base[0] == "g":
            return n[1] >= self.mod.globals[base[1]]["size"]
        if base[0] == "al":
            return True
        return True

    def copy_obj(self, s, dst, doff, src, n):
        """memcpy of a known extent: copy the tracked cells"""
        l = self.loc(src)
        if l is None or l[1][1] or doff[1] or n[0] != "c":
            return False
        sb, so, do, n = l[0], l[1][0], doff[0], n[1]
        for m in [m for m in s.mem if m[0] == dst and m[1] != DFLT]:
            if m[1][1]:
                s.mem[m] = UNK
            elif do <= m[1][0] < do + n:
                del s.mem[m]
        cells = [(o[0], v) for (b, o), v in s.mem.items() if b == sb and o != DFLT and not o[1] and so <= o[0] < so + n]
        for o, v in cells:
            s.mem[(dst, (o - so + do, ()))] = v
        whole = do == 0 and not any(m[0] == dst and m[1] != DFLT and not m[1][1] and m[1][0] >= n for m in s.mem)
        d = s.mem.get((sb, DFLT))
        if d is None:
            d = ("copyof", sb, so - do)
        elif d[0] == "copyof":
            d = ("copyof", d[1], d[2] + so - do)
        g = self.mod.globals.get(sb[1]) if sb[0] == "g" else None
        if g and g.get("const") and "init" in g and g["init"][0] == "zero":
            d = ZERO
        if whole and (dst, DFLT) not in s.mem or whole and (dst[0] == "g" and n >= self.mod.globals[dst[1]]["size"]) or whole and dst[0] == "al" and n >= self.alsize.get(dst, 1 << 60):
            s.mem[(dst, DFLT)] = d
        else:
            # part of an object: materialise pointer-sized cells of a constant source, forget the rest
            if g and "init" in g and self.mod.effconst(sb[1]) and n <= 4096:
                step = 8 if n % 8 == 0 else 4
                for o in range(0, n, step):
                    v = self.const_at(g["init"], so + o, step)
                    if v is not None:
                        s.mem[(dst, (do + o, ()))] = v
            elif d[0] == "copyof" and d[1] == dst and d[2] == 0 and (dst, DFLT) not in s.mem:
                pass     # what was copied away comes back: initial content again
            elif n <= 256 and d[0] == "copyof":
                have = {o - so for o, _ in cells}
                for o in range(0, n, 4):
                    if o not in have:
                        s.mem[(dst, (do + o, ()))] = ("u", ("ld", (d[1], (do + o + d[2], ()))))
            elif not cells:
                s.mem[(dst, DFLT)] = UNK
        return True

    def canon(self, a):
        l = self.lit(a)
        return ("lit", l) if l is not None else a


def init_size(mod, i):
    t = i[0]
    if t == "c":
        return max(1, i[2] // 8)
    if t in ("null", "g", "gep", "fn"):
        return 8
    if t == "zero":
        return i[2]
    if t in ("str", "bytes"):
        return i[-1] if isinstance(i[-1], int) else len(i[1])
    if t == "arr":
        return sum(init_size(mod, e) or 0 for e in i[1])
    if t == "struct":
        st = mod.structs.get(i[1])
        return st["size"] if st else None
    return None


QUIET = {"fprintf", "bx_fprintf", "vfprintf", "perror", "printf", "fputc", "fputs", "fflush", "fclose", "getenv", "exit", "fopen", "opendir", "closedir", "ferror",
         "setlocale", "locale_charset", "puts", "putchar"} | ALLOC
IMPL = {
    "ult": (("ugt", False), ("eq", False), ("uge", False)), "ugt": (("ult", False), ("eq", False), ("ule", False)),
    "ule": (("ult", True), ("eq", True), ("ugt", False)), "uge": (("ugt", True), ("eq", True), ("ult", False)),
    "slt": (("sgt", False), ("eq", False), ("sge", False)), "sgt": (("slt", False), ("eq", False), ("sle", False)),
    "sle": (("slt", True), ("eq", True), ("sgt", False)), "sge": (("sgt", True), ("eq", True), ("slt", False)),
    "eq": (("ult", False), ("ugt", False), ("slt", False), ("sgt", False), ("ne", False)), "ne": (("ult", True), ("ugt", True), ("slt", True), ("sgt", True), ("eq", False)),
}


_DEEP = {}
_ATOMS = {}
_E = frozenset()


def deep(v):
    """all opaque values occurring anywhere in v (including inside keys)"""
    r = _DEEP.get(v)
    if r is None:
        t = v[0] if v else None
        if t in ("c", "?", "dflt", "g", "fn", "al", "h") or t is None:
            r = _E
        else:
            acc = set()
            if t == "u":
                acc.add(v)
            for x in v:
                if isinstance(x, tuple):
                    acc |= deep(x)
            r = frozenset(acc) if acc else _E
        _DEEP[v] = r
    return r


def contains(v, u):
    return v == u or u in deep(v)


def mentions(k, u):
    return contains(k, u)


def repl(v, u, n):
    if v == u:
        return n
    if u not in deep(v):
        return v
    if isinstance(v, tuple):
        return tuple(repl(x, u, n) if isinstance(x, tuple) else x for x in v)
    return v


def repl_loc(k, u, n):
    return repl(k, u, n)


def depth(v):
    if v[0] in ("e",):
        return 1 + max(depth(v[2]), depth(v[3]))
    if v[0] == "cmp":
        return 1 + max(depth(v[2]), depth(v[3]))
    if v[0] == "not":
        return 1 + depth(v[1])
    return 1


def atoms_of(v):
    """opaque values occurring in v (not inside keys of other opaque values)"""
    r = _ATOMS.get(v)
    if r is None:
        t = v[0] if v else None
        if t == "u":
            r = frozenset((v,))
        elif t in ("c", "?"):
            r = _E
        else:
            acc = set()
            for x in v:
                if isinstance(x, tuple):
                    acc |= atoms_of(x)
            r = frozenset(acc) if acc else _E
        _ATOMS[v] = r
    return r


def atoms(v, out):
    if isinstance(v, tuple) and v:
        out |= atoms_of(v)
