"""The scanner: its automaton (tables of the generated scanner) and the actions of its rules (cases of the switch in the IR of yylex)."""
import re
from sim import Sim, St, UNK, ZERO, NOOFF
from bx import BxHooks, fields
from common import Broken

YYG = ("h", "yyg", 0)
LVAL = ("h", "lval", 0)
EXTRA = ("h", "yyextra", 0)
TEXT = ("u", ("set", "yytext"))
CTX = ()


def ints(mod, name):
    """table of numbers, however the compiler chose to write it down"""
    k = mod.gname(name)
    if k is None:
        return None
    i = mod.globals[k].get("init")
    if i is None:
        return None
    if i[0] == "str":
        return [ord(c) for c in i[1]] + [0] * 4
    if i[0] == "bytes":
        return list(i[1])
    return mod.pyval(i)


class Dfa:
    """determinised matcher: step(state, byte), wins(state) -> rules in order of preference"""

    def __init__(self, tree):
        mod = tree.module()
        t = {}
        for n in ("accept", "ec", "base", "def", "nxt", "chk"):
            t[n] = ints(mod, "yy_" + n)
            if t[n] is None:
                raise Broken("scanner table yy_%s not found" % n)
        self.t = t
        self.meta = ints(mod, "yy_meta")
        self.acclist = ints(mod, "yy_acclist")
        src = open(tree.dir + "/lex.yy.c", encoding="utf-8", errors="replace").read()
        m = re.search(r"yy_current_state >= (\d+)", src)
        j = re.search(r"while \( yy_base\[yy_current_state\] != (\d+)", src)
        j2 = re.search(r"while \( yy_current_state != (\d+)", src)
        if not m or not (j or j2):
            raise Broken("matcher of the generated scanner not recognised")
        z = re.search(r"yy_cp \? yy_ec\[YY_SC_TO_UI\(\*yy_cp\)\] : (\d+)\)", src)
        self.nul = int(z.group(1)) if z else t["ec"][0] & 0xff
        self.limit = int(m.group(1))
        self.jam = int(j2.group(1)) if j2 else None
        self.jambase = int(j.group(1)) if j else None
        if re.search(r"#define YY_TRAILING_MASK|yy_looking_for_trail_begin", src) and any(a & 0x6000 for a in self.acclist or ()):
            raise Broken("variable trailing context in the scanner")
        jam = re.findall(r"case (\d+):\s*\n(?:#line[^\n]*\n|\s*YY_RULE_SETUP\s*\n)*\s*YY_FATAL_ERROR\( \"flex scanner jammed\" \)", src)
        echo = re.findall(r"case (\d+):\s*\n(?:#line[^\n]*\n|\s*YY_RULE_SETUP\s*\n)*\s*ECHO;", src)
        self.dflt = {int(x) for x in jam + echo}
        self.memo = {}
        self.trail = self.trailing(src)

    @staticmethod
    def trailing(src):
        """rules whose match ends with a line break which is given back"""
        r = set()
        parts = re.split(r"\ncase (\d+):", src)
        for i in range(1, len(parts) - 1, 2):
            if re.search(r"yy_c_buf_p = yy_cp -= 1;", parts[i + 1]):
                r.add(int(parts[i]))
        return r

    def start(self, mode, bol):
        return 1 + 2 * mode + (1 if bol else 0)

    def step(self, s, c):
        if s is None:
            return None
        k = (s, c)
        if k in self.memo:
            return self.memo[k]
        t = self.t
        e = t["ec"][c] & 0xff if c else self.nul
        n = s
        g = 0
        while t["chk"][t["base"][n] + e] != n:
            n = t["def"][n]
            if n >= self.limit:
                e = self.meta[e] & 0xff
            g += 1
            if g > 1000:
                raise Broken("scanner tables are inconsistent")
        n = t["nxt"][t["base"][n] + e]
        # a state which can only fail
        r = None if n == self.jam or (self.jambase is not None and t["base"][n] == self.jambase and not self.acc(n)) else n
        self.memo[k] = r
        return r

    def acc(self, s):
        t = self.t["accept"]
        if self.acclist is None:
            return [t[s]] if t[s] else []
        return list(self.acclist[t[s]:t[s + 1]]) if s + 1 < len(t) and t[s] else []

    def wins(self, s):
        return self.acc(s) if s is not None else []


class LexHooks(BxHooks):
    alloc_ok = True

    def __init__(self, mod, stubs=None):
        self.mod = mod
        self.stubs = stubs or {}

    def inline(self, sim, name):
        f = self.mod.defined.get(name)
        return f is not None and not name.startswith("yy") and name not in ("bxs_from_unicode", "u32_strconv_from_arg", "bxs_trim", "bxs_rtrim", "bxs_strcat", "btrim", "bxs_free", "bxs_to_output", "u32_strconv_to_output")

    def ev(self, st, *e):
        st.q = (st.q or ()) + (e,)

    def call2(self, sim, st, I, n, args, ctx):
        if n in self.stubs:
            st = st.copy()
            v = self.stubs[n]
            return v(sim, st, I, args) if callable(v) else [(v, st)]
        if n in ("yyerror", "perror", "fprintf"):
            st = st.copy()
            self.ev(st, "diag")
            return [(UNK, st)]
        if n == "strdup":
            st = st.copy()
            v = ("u", ("alloc", "strdup", args[0]))
            st.facts[("ne", v)] = frozenset((0,))
            st.q = (st.q or ()) + (("dup", v, args[0]),)
            return [(v, st)]
        if n in ("strchr", "strrchr", "memchr"):
            t = sim.lit(args[0])
            if t is not None and args[1][0] == "c":
                return [(args[0] if chr(args[1][1] & 0xff) in t else ZERO, st)]
            return None
        if n == "bxs_free":
            return [(UNK, st)]
        if n in ("u32_strconv_from_arg", "bxs_from_unicode", "bxs_trim", "bxs_rtrim", "bxs_from_ascii", "bxs_strcat", "bxs_to_output", "u32_strconv_to_output"):
            st = st.copy()
            v = ("u", ("conv", n, args[0]))
            st.facts[("ne", v)] = frozenset((0,))
            return [(v, st)]
        if n == "btrim":
            # the text between becomes shorter or empty
            out = []
            l = sim.loc(args[1])
            for k, v in (("empty", ZERO), ("text", ("u", ("set", "trimmed")))):
                s2 = st.copy()
                if l:
                    s2.mem[l] = v
                    if v != ZERO:
                        s2.facts[("ne", v)] = frozenset((0,))
                self.ev(s2, "btrim", k, args[0])
                out.append((UNK, s2))
            return out
        return None


class Lexer:
    def __init__(self, tree, grammar):
        self.mod = tree.module()
        self.g = grammar
        self.dfa = Dfa(tree)
        self.F = fields(self.mod, "yyguts_t")
        self.f = f = self.mod.functions.get("yylex")
        if f is None or f.decl:
            raise Broken("yylex not found")
        best = None
        for b in f.blocks:
            for I in b.ins:
                if I.op == "switch" and (best is None or len(I.d["cases"]) > len(best.d["cases"])):
                    best = I
        self.cases = dict(best.d["cases"])
        self.default = best.d["default"]
        self.succ = {b.id: self.g.succs(b) for b in f.blocks}
        self.ret = {b.id for b in f.blocks if b.ins[-1].op == "ret"}
        self.own = {}
        self.tok = {v: k for k, v in grammar.tokens.items()}
        # the block where matching starts again after an action without return
        self.paths = 0
        self.ins = {I.id: (I, b.id) for b in f.blocks for I in b.ins if I.id is not None}

    def yytextfield(self, I):
        p = self.mod.last_field(self.f, ("i", I.id))
        return p is not None and "yytext_r" in str(p)

    def dominated(self, t):
        if t not in self.own:
            seen = set()
            w = [self.f.entry.id]
            while w:
                b = w.pop()
                if b in seen or b == t:
                    continue
                seen.add(b)
                w += self.succ[b]
            self.own[t] = {b.id for b in self.f.blocks} - seen
        return self.own[t]

    def state(self):
        st = St()
        def put(f, v):
            st.mem[(YYG, (self.F[f][0], ()))] = v
        put("yylval_r", ("p", LVAL, NOOFF))
        put("yyextra_r", ("p", EXTRA, NOOFF))
        st.facts[("ne", TEXT)] = frozenset((0,))
        put("yytext_r", TEXT)
        st.mem[(YYG, (self.F["yy_start"][0], ()))] = ("u", ("set", "start"))
        return st

    def action(self, n, hooks=None, st=None):
        """[(kind, value, new mode or None, state)] of rule n; kind: return / next / other"""
        if n not in self.cases:
            return [("next", None, None, st or self.state())]
        t = self.cases[n]
        own = self.dominated(t)
        s = Sim(self.mod, hooks or LexHooks(self.mod), cap=24, budget=60000)
        s.stop = {("yylex", b.id) for b in self.f.blocks if b.id not in own}
        st = (st or self.state()).copy()
        st.env[(CTX, "a0")] = ("p", LVAL, NOOFF)
        st.env[(CTX, "a1")] = ("p", YYG, NOOFF)
        for I in self.f.entry.ins:
            if I.op == "alloca":
                st.env[(CTX, I.id)] = s.do_ins(self.f, I, st, CTX)
        # a rule with trailing context computes the text again from a pointer set before
        for b in self.f.blocks:
            for I in b.ins:
                if b.id in own and I.op == "store" and I.ops[0][0] == "i" and I.ops[1][0] == "i":
                    d = self.ins.get(I.ops[1][1])
                    if d is not None and d[0].op == "getelementptr" and self.ins.get(I.ops[0][1], (None, None))[1] not in own and self.yytextfield(d[0]):
                        st.env[(CTX, I.ops[0][1])] = TEXT
        st.mem[(YYG, (self.F["yy_more_len"][0], ()))] = ZERO
        s.stack.append("yylex")
        ends = s.exec_from(self.f, self.f.bmap[t], 0, None, st, CTX)
        s.stack.pop()
        self.overrun = s.overrun
        out = []
        for v, x in ends:
            out.append(("return", v, self.mode(x), x))
        back = self.backblock()
        for b, pr, x in s.stopped:
            if b in self.ret:
                phi = [I for I in self.f.bmap[b].ins if I.op == "phi"]
                v = [o for p, o in phi[0].ops if p == pr] if phi else [self.f.bmap[b].ins[-1].ops[0]]
                out.append(("return", s.val(x, CTX, v[0]) if v else UNK, self.mode(x), x))
                continue
            out.append(("next" if b in back else "reject", None, self.mode(x), x))
        self.paths += len(out)
        self.sim = s
        return out

    def backblock(self):
        """blocks where an action without return or REJECT goes on: the target of an action which is just a break"""
        if not hasattr(self, "_back"):
            cnt = {}
            for n, t in self.cases.items():
                own = self.dominated(t)
                out = {x for b in own for x in self.succ[b] if x not in own}
                if len(out) == 1 and len(own) <= 4 and not out & self.ret:
                    x = next(iter(out))
                    cnt[x] = cnt.get(x, 0) + 1
            self._back = {max(cnt, key=cnt.get)} if cnt else set()
        return self._back

    def mode(self, st):
        v = st.mem.get((YYG, (self.F["yy_start"][0], ())))
        if v is None or v[0] != "c":
            return None
        return (v[1] - 1) // 2


# ---- reference expressions over bytes ----------------------------------------------------------------------------------------
class Nfa:
    """a prioritised list of (expression, label); determinised on the fly"""

    def __init__(self, items):
        self.eps, self.tr, self.end = [], [], {}
        self.starts = []
        for k, (e, lab) in enumerate(items):
            a, b = self.build(e)
            self.starts.append(a)
            self.end[b] = (k, lab)
        self.s0 = self.close(frozenset(self.starts))
        self.memo = {}

    def new(self):
        self.eps.append([])
        self.tr.append([])
        return len(self.eps) - 1

    def build(self, e):
        k = e[0]
        a, b = self.new(), self.new()
        if k == "set":
            self.tr[a].append((e[1], b))
        elif k == "cat":
            cur = a
            for x in e[1]:
                i, j = self.build(x)
                self.eps[cur].append(i)
                cur = j
            self.eps[cur].append(b)
        elif k == "alt":
            for x in e[1]:
                i, j = self.build(x)
                self.eps[a].append(i)
                self.eps[j].append(b)
        elif k == "star":
            i, j = self.build(e[1])
            self.eps[a] += [i, b]
            self.eps[j] += [i, b]
        return a, b

    def close(self, s):
        s = set(s)
        w = list(s)
        while w:
            for x in self.eps[w.pop()]:
                if x not in s:
                    s.add(x)
                    w.append(x)
        return frozenset(s)

    def step(self, s, c):
        k = (s, c)
        if k not in self.memo:
            self.memo[k] = self.close({t for x in s for cs, t in self.tr[x] if c in cs})
        return self.memo[k]

    def label(self, s):
        m = [self.end[x] for x in s if x in self.end]
        return min(m)[1] if m else None


def chars(t):
    return ("set", frozenset(t if isinstance(t, bytes) else t.encode("latin1")))


def rng(a, b):
    return ("set", frozenset(range(a, b + 1)))


def word(t):
    """in any letter case"""
    return ("cat", [chars(c.lower() + c.upper()) if c.isalpha() else chars(c) for c in t])


def cat(*x):
    return ("cat", list(x))


def alt(*x):
    return ("alt", list(x))


def star(x):
    return ("star", x)


def plus(x):
    return ("cat", [x, ("star", x)])


def without(t):
    b = t.encode("latin1")
    return ("set", frozenset(c for c in range(256) if c not in b))


CONT = rng(0x80, 0xBF)
UTF8 = alt(cat(rng(0xC2, 0xDF), CONT), cat(rng(0xE0, 0xE0), rng(0xA0, 0xBF), CONT), cat(("set", frozenset(list(range(0xE1, 0xED)) + [0xEE, 0xEF])), CONT, CONT), cat(rng(0xED, 0xED), rng(0x80, 0x9F), CONT),
           cat(rng(0xF0, 0xF0), rng(0x90, 0xBF), CONT, CONT), cat(rng(0xF1, 0xF3), CONT, CONT, CONT), cat(rng(0xF4, 0xF4), rng(0x80, 0x8F), CONT, CONT))
AZ = rng(65, 90)
az = rng(97, 122)
DIGIT = rng(48, 57)
LETTER = alt(AZ, az)
ANY = without("\n")
BOM = cat(rng(0xEF, 0xEF), rng(0xBB, 0xBB), rng(0xBF, 0xBF))
