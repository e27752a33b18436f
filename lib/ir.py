"""IR model: loads the JSON written by tool/irdump and offers CFG, dominators, call graph, access paths, mod sets."""
import json, os, re, sys
from collections import defaultdict

sys.setrecursionlimit(20000)


def T(x):
    """JSON ref -> hashable tuple"""
    if isinstance(x, list):
        return tuple(T(y) for y in x)
    return x


class Ins:
    __slots__ = ("id", "op", "t", "ops", "d", "fn", "blk", "idx", "line", "file", "callee", "path")

    def __init__(self, d, fn, blk, idx):
        self.d = d
        self.id = d["id"]
        self.op = d["op"]
        self.t = d["t"]
        self.ops = T(d.get("ops", []))
        self.fn = fn
        self.blk = blk
        self.idx = idx
        self.line = d.get("ln", 0)
        self.file = d.get("file", "")
        self.callee = None
        if self.op == "call":
            c = T(d["callee"])
            self.callee = c[1] if c[0] == "fn" else None
        self.path = T(d["path"]) if "path" in d else None

    def calleeref(self):
        return T(self.d["callee"])

    def where(self):
        f = os.path.basename(self.file) if self.file else (self.fn.file or "?")
        return "%s:%d (%s)" % (f, self.line, self.fn.name)

    def __repr__(self):
        return "<%s %%%d %s %s>" % (self.fn.name, self.id, self.op, self.ops)


class Block:
    __slots__ = ("id", "ins", "succ", "pred", "fn")

    def __init__(self, bid, fn):
        self.id = bid
        self.fn = fn
        self.ins = []
        self.succ = []
        self.pred = []

    @property
    def term(self):
        return self.ins[-1]


class Function:
    def __init__(self, name, d, mod):
        self.name = name
        self.d = d
        self.mod = mod
        self.decl = d["decl"]
        self.local = d["local"]
        self.ret = d["ret"]
        self.args = d["args"]
        self.nargs = len(d["args"])
        self.vararg = d["vararg"]
        self.file = os.path.basename(d.get("file", "")) or None
        self.line = d.get("line", 0)
        self.dtypes = d.get("dtypes", [])
        self.vars = d.get("vars", {})
        self.blocks = []
        self.ins = {}
        self._live = None
        self._dom = None
        self._uses = None
        if self.decl:
            return
        for b in d["blocks"]:
            blk = Block(b["id"], self)
            for i, x in enumerate(b["ins"]):
                I = Ins(x, self, blk, i)
                blk.ins.append(I)
                self.ins[I.id] = I
            self.blocks.append(blk)
        self.bmap = {b.id: b for b in self.blocks}
        for b in self.blocks:
            t = b.term
            if t.op == "br":
                s = t.d["succ"]
            elif t.op == "switch":
                s = [c[1] for c in t.d["cases"]] + [t.d["default"]]
            else:
                s = []
            for k in dict.fromkeys(s):
                b.succ.append(self.bmap[k])
                self.bmap[k].pred.append(b)
        self.entry = self.blocks[0] if self.blocks else None

    def all_ins(self):
        for b in self.blocks:
            for i in b.ins:
                yield i

    def calls(self, name=None):
        for i in self.all_ins():
            if i.op == "call" and (name is None or i.callee == name):
                yield i

    def var(self, ref):
        """source variable name of a value, if any"""
        k = None
        if ref[0] == "i":
            k = "i%d" % ref[1]
        elif ref[0] == "a":
            k = "a%d" % ref[1]
        v = self.vars.get(k)
        return v[0] if v else None

    def vartype(self, ref):
        k = "%s%d" % (ref[0], ref[1]) if ref[0] in "ia" and len(ref) > 1 else None
        v = self.vars.get(k)
        return v[1] if v else None

    @property
    def uses(self):
        if self._uses is None:
            u = defaultdict(list)
            for i in self.all_ins():
                for o in i.ops:
                    if i.op == "phi":
                        if o[1][0] in ("i", "a"):
                            u[o[1][:2]].append(i)
                    elif o and o[0] in ("i", "a"):
                        u[o[:2]].append(i)
                if i.op == "call" and i.callee is None:
                    c = i.calleeref()
                    if c[0] in ("i", "a"):
                        u[c[:2]].append(i)
            self._uses = u
        return self._uses

    @property
    def live_in(self):
        """block id -> set of ids of instruction values live at entry (phis of the block excluded)"""
        if self._live is not None:
            return self._live
        use = {}
        de = {}
        phiuse = defaultdict(set)  # pred block -> values
        for b in self.blocks:
            u, d = set(), set()
            for i in b.ins:
                if i.op == "phi":
                    for (pb, v) in i.ops:
                        if v[0] == "i":
                            phiuse[pb].add(v[1])
                    d.add(i.id)
                    continue
                for o in _flat(i.ops):
                    if o not in d:
                        u.add(o)
                if i.op == "call" and i.callee is None:
                    c = i.calleeref()
                    if c[0] == "i" and c[1] not in d:
                        u.add(c[1])
                d.add(i.id)
            use[b.id], de[b.id] = u, d
        live = {b.id: set() for b in self.blocks}
        ch = True
        while ch:
            ch = False
            for b in reversed(self.blocks):
                out = set(phiuse[b.id])
                for s in b.succ:
                    out |= live[s.id]
                n = use[b.id] | (out - de[b.id])
                if n != live[b.id]:
                    live[b.id] = n
                    ch = True
        self._live = live
        return live

    def reach_from(self, blk):
        seen, st = set(), [blk]
        while st:
            b = st.pop()
            if b.id in seen:
                continue
            seen.add(b.id)
            st.extend(b.succ)
        return seen

    @property
    def dom(self):
        """block id -> set of dominators' ids"""
        if self._dom is None:
            allb = [b.id for b in self.blocks]
            dom = {b: set(allb) for b in allb}
            dom[self.entry.id] = {self.entry.id}
            ch = True
            while ch:
                ch = False
                for b in self.blocks:
                    if b is self.entry:
                        continue
                    ps = [dom[p.id] for p in b.pred]
                    n = (set.intersection(*ps) if ps else set()) | {b.id}
                    if n != dom[b.id]:
                        dom[b.id] = n
                        ch = True
            self._dom = dom
        return self._dom

    def loops(self):
        """natural loops: list of (header block, set of block ids, latch ids)"""
        res = {}
        for b in self.blocks:
            for s in b.succ:
                if s.id in self.dom[b.id]:
                    body = {s.id}
                    st = [b]
                    while st:
                        x = st.pop()
                        if x.id in body:
                            continue
                        body.add(x.id)
                        st.extend(x.pred)
                    h = res.setdefault(s.id, (s, set(), set()))
                    h[1].update(body)
                    h[2].add(b.id)
        return list(res.values())


def _flat(ops):
    for o in ops:
        if not isinstance(o, tuple) or not o:
            continue
        if o[0] == "i":
            yield o[1]


class Module:
    def __init__(self, path):
        d = json.load(open(path))
        self.structs = d["structs"]
        self.globals = d["globals"]
        for g in self.globals.values():
            if "init" in g:
                g["init"] = T(g["init"])
        self.enums = {k: [(a, b) for a, b in v] for k, v in d["enums"].items()}
        self.functions = {n: Function(n, f, self) for n, f in d["functions"].items()}
        self.defined = {n: f for n, f in self.functions.items() if not f.decl}
        self._cg = None
        self._eff = None
        self._inner = {}
        self._mods = None

    # ---------- constants -------------
    def cstr(self, ref):
        """string literal a constant pointer refers to, or None"""
        if not ref:
            return None
        off = 0
        if ref[0] == "gep":
            off = ref[3]
            ref = ref[1]
        if ref[0] == "g":
            g = self.globals.get(ref[1])
            if not g or "init" not in g or not g.get("const"):
                return None
            i = g["init"]
            if i[0] == "str":
                return i[1][off:] if "\0" not in i[1] else i[1][off:].split("\0")[0]
            if i[0] == "bytes":
                bs = bytes(i[1])[off:]
                return bs.split(b"\0")[0].decode("utf-8", "replace")
            if i[0] == "zero":
                return ""
        return None

    def gname(self, name):
        """global by source name"""
        if name in self.globals:
            return name
        for k, g in self.globals.items():
            if g.get("name") == name:
                return k
        return None

    def table(self, name):
        """initialiser of a global array as list of python values (ints, strings, None for NULL, ('g',n), ('fn',n))"""
        k = self.gname(name)
        if k is None:
            return None
        i = self.globals[k].get("init")
        return self.pyval(i)

    def pyval(self, i):
        if i is None:
            return None
        if i[0] in ("arr", "struct"):
            return [self.pyval(x) for x in (i[1] if i[0] == "arr" else i[2])]
        if i[0] == "c":
            return i[1]
        if i[0] == "null":
            return None
        if i[0] in ("g", "gep"):
            s = self.cstr(i)
            return s if s is not None else i
        if i[0] == "zero":
            m = re.match(r"\[(\d+) x", i[1])
            return [0] * int(m.group(1)) if m else 0
        if i[0] == "str":
            return i[1]
        return i

    def effconst(self, name):
        """global that nothing in the program writes (declared const, or a table whose address never leaves loads)"""
        g = self.globals.get(name)
        if not g:
            return False
        if g.get("const"):
            return True
        if self._eff is None:
            bad = set()
            self._ro_seen = {}

            def inner(init):
                """mutable globals referred to by an initialiser"""
                r = set()
                if init[0] in ("g",):
                    if not self.globals.get(init[1], {}).get("const"):
                        r.add(init[1])
                elif init[0] == "gep":
                    r |= inner(init[1])
                elif init[0] == "arr":
                    for e in init[1]:
                        r |= inner(e)
                elif init[0] == "struct":
                    for e in init[2]:
                        r |= inner(e)
                return r
            for n, g2 in self.globals.items():
                if "init" in g2:
                    self._inner[n] = inner(g2["init"])
            for f in self.defined.values():
                for i in f.all_ins():
                    for k, o in enumerate(i.ops):
                        if i.op == "phi":
                            o = o[1]
                        if not (isinstance(o, tuple) and o):
                            continue
                        r = o
                        while r[0] == "gep":
                            r = r[1]
                        if r[0] == "g" and not self._readuse(f, i, k, r[1], 0):
                            bad.add(r[1])
                            bad |= self._inner.get(r[1], set()) if i.op != "call" or not i.callee or i.callee not in self.functions or not self.functions[i.callee].decl else set()
            self._eff = bad
        return name not in self._eff and "init" in g and g["init"][0] in ("arr", "struct")

    def _readuse(self, f, u, k, g, depth):
        """does operand k of u, which points into global g, leave g (and the tables g points to) unwritten?"""
        if depth > 12:
            return False
        if u.op == "load":
            if u.t == "ptr" and self._inner.get(g):
                return self._onlyread(f, ("i", u.id), g, depth + 1)
            return True
        if u.op == "icmp":
            return True
        if u.op in ("getelementptr", "phi", "select"):
            if u.op == "getelementptr" and k:
                return True
            return self._onlyread(f, ("i", u.id), g, depth + 1)
        if u.op == "call" and u.callee:
            if (u.callee.startswith("llvm.memcpy") or u.callee == "memcpy") and k == 1:
                return True
            if u.callee.startswith("llvm.dbg"):
                return True
            c = self.defined.get(u.callee)
            if c is not None and k < c.nargs:
                return self._onlyread(c, ("a", k), g, depth + 1)
        return False

    def _onlyread(self, f, v, g, depth=0):
        key = (f.name, v, g)
        if key in self._ro_seen:
            return self._ro_seen[key]
        self._ro_seen[key] = True     # cycles are harmless
        r = True
        for u in f.uses.get(v, ()):
            for k, o in enumerate(u.ops):
                x = o[1] if u.op == "phi" else o
                if x == v and not self._readuse(f, u, k, g, depth):
                    r = False
        self._ro_seen[key] = r
        return r

    # ---------- call graph -------------
    @property
    def cg(self):
        if self._cg is None:
            cg = {}
            for f in self.defined.values():
                s = set()
                for i in f.all_ins():
                    if i.op == "call" and i.callee:
                        s.add(i.callee)
                    for o in i.ops:
                        if isinstance(o, tuple) and o and o[0] == "fn":
                            s.add(o[1])
                cg[f.name] = s
            self._cg = cg
        return self._cg

    def reachable(self, root):
        seen, st = set(), [root]
        while st:
            n = st.pop()
            if n in seen:
                continue
            seen.add(n)
            st.extend(self.cg.get(n, ()))
        return seen

    def callers(self, name):
        for f in self.defined.values():
            for i in f.calls(name):
                yield i

    def may_reach(self, targets):
        """set of function names from which a function of targets may be called (targets included)"""
        targets = set(targets)
        res = set(targets)
        ch = True
        while ch:
            ch = False
            for n, s in self.cg.items():
                if n not in res and s & res:
                    res.add(n)
                    ch = True
        return res

    # ---------- access paths -------------
    def base(self, fn, ref, depth=0):
        """follow GEPs/casts; returns (root ref, [steps])"""
        steps = []
        while True:
            if ref[0] == "gep":
                steps = list(ref[2]) + steps
                ref = ref[1]
                continue
            if ref[0] == "i":
                I = fn.ins[ref[1]]
                if I.op == "getelementptr":
                    steps = list(I.path) + steps
                    ref = I.ops[0]
                    continue
                if I.op in ("bitcast", "addrspacecast"):
                    ref = I.ops[0]
                    continue
            return ref, steps

    def apath(self, fn, ref, depth=0):
        """readable access path of an address: e.g. 'opt.infile', '*(ctx).foo[]' """
        root, steps = self.base(fn, ref)
        if root[0] == "g":
            s = self.globals[root[1]].get("name") or root[1]
        elif root[0] == "a":
            s = fn.args[root[1]].get("name", "arg%d" % root[1])
        elif root[0] == "i":
            I = fn.ins[root[1]]
            v = fn.var(root)
            if v:
                s = v
            elif I.op == "load" and depth < 6:
                s = "*" + self.apath(fn, I.ops[0], depth + 1)
            elif I.op == "call":
                s = (I.callee or "?") + "()"
            else:
                s = "%%%d" % root[1]
        else:
            s = str(root)
        for st in steps:
            s += ("." + st[3]) if st[0] == "f" else "[]"
        return s

    def last_field(self, fn, ref):
        """(structname, fieldname) of the innermost struct member an address designates, else None"""
        root, steps = self.base(fn, ref)
        for st in reversed(steps):
            if st[0] == "f":
                return (st[1].split(".", 1)[-1], st[3])
        return None

    # ---------- mod sets -------------
    @property
    def mods(self):
        """function -> frozenset of ('g', name) written and 'heap' if it writes through pointers it did not create; transitive"""
        if self._mods is None:
            direct = {}
            for f in self.defined.values():
                s = set()
                for i in f.all_ins():
                    if i.op == "store":
                        s |= self._modof(f, i.ops[1])
                    elif i.op == "call" and i.callee and i.callee in EXT_WRITES:
                        for k in EXT_WRITES[i.callee]:
                            if k < len(i.ops):
                                s |= self._modof(f, i.ops[k])
                    elif i.op == "call" and i.callee and i.callee.startswith("llvm.mem"):
                        s |= self._modof(f, i.ops[0])
                direct[f.name] = s
            res = {n: set(s) for n, s in direct.items()}
            ch = True
            while ch:
                ch = False
                for n in res:
                    for c in self.cg[n]:
                        if c in res and not res[c] <= res[n]:
                            res[n] |= res[c]
                            ch = True
            self._mods = {n: frozenset(s) for n, s in res.items()}
        return self._mods

    def _modof(self, f, ref, depth=0):
        root, steps = self.base(f, ref)
        if root[0] == "g":
            return {("g", root[1])}
        if root[0] == "i":
            I = f.ins[root[1]]
            if I.op == "alloca":
                return set()
            if I.op == "call" and I.callee in ("malloc", "calloc", "strdup", "realloc"):
                return set()
            if I.op == "phi" and depth < 4:
                r = set()
                for (_, v) in I.ops:
                    if v != ref:
                        r |= self._modof(f, v, depth + 1)
                return r
            if I.op == "select" and depth < 4:
                return self._modof(f, I.ops[1], depth + 1) | self._modof(f, I.ops[2], depth + 1)
        if root[0] in ("null", "undef"):
            return set()
        return {"heap"}


EXT_WRITES = {"memcpy": [0], "memmove": [0], "memset": [0], "strcpy": [0], "strcat": [0], "strncpy": [0], "strncat": [0], "sprintf": [0],
              "snprintf": [0], "vsprintf": [0], "vsnprintf": [0], "u32_cpy": [0], "u32_strcpy": [0], "u32_set": [0], "u32_move": [0],
              "u32_strcat": [0], "u32_strncpy": [0], "qsort": [0], "fgets": [0], "fread": [0], "regerror": [2],
              "pcre2_get_error_message_32": [1], "pcre2_substitute_32": [9], "u32_cpy_alloc": [], "stat": [1], "u32_conv_from_encoding": [],
              "u32_strncat": [0]}
