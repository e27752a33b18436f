"""Semantic actions of the grammar: bison's own description of parser.y gives the rules, the action code is the corresponding case
of the switch in the generated parser's IR."""
import os, subprocess
import xml.etree.ElementTree as ET
from sim import Sim, St, UNK, ZERO, NOOFF
from common import Broken

BISON = ("h", "bison", 0)     # the pass_to_bison object
VS = ("h", "vs", 0)           # top of the value stack


class Grammar:
    def __init__(self, tree):
        self.mod = tree.module()
        x = os.path.join(tree.dir, "parser.xml")
        p = subprocess.run(["bison", "--xml=" + x, "-o", os.path.join(tree.dir, "parser2.c"), os.path.join(tree.dir, "parser.y"), "-Wno-all"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            raise Broken("bison failed: " + p.stdout[-500:])
        g = ET.parse(x).getroot().find("grammar")
        self.rules = {}
        for r in g.find("rules"):
            self.rules[int(r.get("number")) + 1] = (r.find("lhs").text, [s.text for s in r.find("rhs").findall("symbol")])
        self.tokens = {t.get("name"): int(t.get("token-number")) for t in g.find("terminals")}
        f = self.f = self.mod.functions.get("yyparse")
        if f is None or f.decl:
            raise Broken("yyparse not found")
        best = None
        for b in f.blocks:
            for I in b.ins:
                if I.op == "switch" and (best is None or len(I.d["cases"]) > len(best.d["cases"])):
                    best = I
        if best is None or not all(c in self.rules for c, _ in best.d["cases"]):
            raise Broken("action switch of the parser not found")
        self.cases = dict((c, t) for c, t in best.d["cases"])
        self.default = best.d["default"]
        self.succ = {b.id: self.succs(b) for b in f.blocks}
        self.own = {n: self.dominated(t) for n, t in self.cases.items()}
        self.kind = {}
        self.retmap = self.ret_values()
        self.vsp, self.vsize = self.value_stack()

    @staticmethod
    def succs(b):
        I = b.ins[-1]
        if I.op == "br":
            return list(I.d["succ"])
        if I.op == "switch":
            return [t for _, t in I.d["cases"]] + [I.d["default"]]
        return []

    def dominated(self, t):
        seen = set()
        w = [self.f.entry.id]
        while w:
            b = w.pop()
            if b in seen or b == t:
                continue
            seen.add(b)
            w += self.succ[b]
        return {b.id for b in self.f.blocks} - seen

    def ret_values(self):
        """block -> constant result of yyparse if control leaves through it"""
        ins = {I.id: (I, b) for b in self.f.blocks for I in b.ins if I.id is not None}
        res = {}

        def chase(v, seen):
            if v[0] == "i" and v[1] in ins and v[1] not in seen:
                I, b = ins[v[1]]
                if I.op == "phi":
                    for pb, x in I.ops:
                        if x[0] == "c":
                            res[pb] = x[1]
                        else:
                            chase(x, seen | {v[1]})
        for b in self.f.blocks:
            if b.ins[-1].op == "ret" and b.ins[-1].ops:
                chase(b.ins[-1].ops[0], frozenset())
        return res

    def classify(self, blk, pred):
        if blk == self.default or [blk] == self.succ[self.default]:
            return "ok"
        if pred in self.retmap and blk not in self.retmap:
            return {0: "accept", 1: "abort"}.get(self.retmap[pred], "error")
        b = blk
        for _ in range(4):
            if b in self.retmap:
                return {0: "accept", 1: "abort"}.get(self.retmap[b], "error")
            s = self.succ[b]
            if len(s) != 1:
                break
            b = s[0]
        return "error"

    def value_stack(self):
        n = {}
        ins = {I.id: I for b in self.f.blocks for I in b.ins if I.id is not None}
        for k, bl in self.own.items():
            for b in bl:
                for I in self.f.bmap[b].ins:
                    if I.op == "getelementptr" and I.ops[0][0] == "i":
                        d = ins.get(I.ops[0][1])
                        if d is not None and d.op == "phi":
                            n[d.id] = n.get(d.id, 0) + 1
        if not n:
            raise Broken("value stack of the parser not found")
        u = [s for k, s in self.mod.structs.items() if "YYSTYPE" in k]
        size = u[0]["size"] if u else self.mod.structs["struct.sentry_t"]["size"]
        return max(n, key=n.get), size

    def find(self, lhs=None, has=(), first=None):
        """numbers of the rules with the given left side / containing the given symbols"""
        return [n for n, (l, r) in self.rules.items() if (lhs is None or l == lhs) and all(h in r for h in has) and (first is None or (r and r[0] == first))]

    def slot(self, n, k):
        """address of $k in the action of rule n (for a mid-rule action: of the k-th symbol before it)"""
        l, r = self.rules[n]
        ln = len(r)
        if not r and l.startswith(("$@", "@")):
            for m, (l2, r2) in self.rules.items():
                if l in r2:
                    ln = r2.index(l)
        return (VS, ((k - ln) * self.vsize, ()))

    def token(self, n, k):
        return ("u", ("ld", self.slot(n, k)))

    def run(self, n, hooks, st=None, cap=60, budget=100000):
        """[(outcome, state)] of the action of rule n; outcome ok / error / abort / accept"""
        st = st or St()
        if n not in self.cases:
            return [("ok", st)], None
        s = Sim(self.mod, hooks, cap=cap, budget=budget)
        s.stop = {("yyparse", b.id) for b in self.f.blocks if b.id not in self.own[n]}
        st = st.copy()
        ctx = ()
        st.env[(ctx, "a0")] = ("p", BISON, NOOFF)
        st.env[(ctx, self.vsp)] = ("p", VS, NOOFF)
        for I in self.f.entry.ins:
            if I.op == "alloca" and (ctx, I.id) not in st.env:
                st.env[(ctx, I.id)] = s.do_ins(self.f, I, st, ctx)
        s.stack.append("yyparse")
        if not self.own[n]:
            raise Broken("action of rule %d shares its code with others" % n)
        exits = s.exec_from(self.f, self.f.bmap[self.cases[n]], 0, None, st, ctx)
        s.stack.pop()
        res = [(self.classify(b, pr), x) for b, pr, x in s.stopped]
        # what the action leaves in the local variables of the parser (scalar $$ among them)
        self.phis = [[s.val(x, ctx, o) for I in self.f.bmap[b].ins if I.op == "phi" for p, o in I.ops if p == pr] for b, pr, x in s.stopped]
        return res, s
