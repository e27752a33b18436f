"""C01: what comes from outside and turns out unusable is noticed: results of functions that can fail because of their input are checked before they are used."""
import re

# library functions which follow these (pointer) arguments
DEREF = {"strlen": (0,), "strcmp": (0, 1), "strncmp": (0, 1), "strcasecmp": (0, 1), "strncasecmp": (0, 1), "strchr": (0,), "strrchr": (0,), "strstr": (0, 1), "strcpy": (0, 1), "strncpy": (0, 1), "strcat": (0, 1),
         "strncat": (0, 1), "strdup": (0,), "strndup": (0,), "memcpy": (0, 1), "memmove": (0, 1), "strtol": (0,), "atoi": (0,), "fclose": (0,), "fgets": (0, 2), "fread": (0, 3), "fwrite": (0, 3), "fputs": (0, 1),
         "fputc": (1,), "putc": (1,), "getc": (0,), "fgetc": (0,), "feof": (0,), "ferror": (0,), "fflush": (), "fprintf": (0,), "vfprintf": (0,), "setvbuf": (0,), "ungetc": (1,), "rewind": (0,), "fseek": (0,), "getline": (2,),
         "u32_strlen": (0,), "u32_strcmp": (0, 1), "u32_strncmp": (0, 1), "u32_strdup": (0,), "u32_strcpy": (0, 1), "u32_strncpy": (0, 1), "u32_strcat": (0, 1), "u32_strchr": (0,), "u32_strrchr": (0,), "u32_strstr": (0, 1),
         "u32_cpy": (0, 1), "u32_move": (0, 1), "u32_strmblen": (0,), "u32_next": (1,), "u32_prev": (1,), "u32_width": (0,), "u32_strwidth": (0,), "pcre2_substitute_32": (0, 1), "pcre2_match_32": (0, 1), "opendir": (0,), "stat": (0,), "access": (0,)}
# library functions which fail, for reasons that lie outside the program
LIBFAIL = {"fopen": "the file cannot be opened", "fdopen": "the file cannot be opened", "getenv": "the variable is not set", "opendir": "the directory cannot be read", "realpath": "there is no such path", "setlocale": "there is no such locale",
           "pcre2_compile_32": "the pattern is not valid", "getpwuid": "there is no such user", "getcwd": "there is no current directory", "u32_conv_from_encoding": "the text cannot be converted", "u32_strconv_from_encoding": "the text cannot be converted",
           "u32_strconv_to_encoding": "the text cannot be converted", "u32_conv_to_encoding": "the text cannot be converted"}


class Null:
    def __init__(self, m, rep):
        self.m, self.rep = m, rep
        self.sums = {}
        self.broken = set()
        self.seen_sites = 0

    # ---------------------------------------------------------------- text that was not validated
    def raw(self, f, ref, fall, seen=None):
        """is the text behind a value taken from outside and not known to consist of permitted characters?"""
        seen = set() if seen is None else seen
        k = (f.name, ref)
        if k in seen:
            return False
        seen.add(k)
        if ref[0] == "a":
            return any(self.raw(c.fn, c.ops[ref[1]], fall, seen) for c in self.m.callers(f.name))
        if ref[0] != "i":
            return False
        I = f.ins[ref[1]]
        if I.op == "phi":
            return any(self.raw(f, o, fall, seen) for _, o in I.ops)
        if I.op == "select":
            return self.raw(f, I.ops[1], fall, seen) or self.raw(f, I.ops[2], fall, seen)
        if I.op in ("getelementptr", "bitcast"):
            return self.raw(f, I.ops[0], fall, seen)
        if I.op == "load" and I.ops[0][0] == "i" and f.ins[I.ops[0][1]].op == "alloca":
            for j in f.all_ins():
                if j.op == "store" and j.ops[1] == I.ops[0] and self.raw(f, j.ops[0], fall, seen):
                    return True
                if j.op == "call" and I.ops[0] in j.ops and any(o != I.ops[0] and o[0] == "i" and self.raw(f, o, fall, seen) for o in j.ops):
                    return True
        if I.op == "call":
            c = I.callee
            if c in ("u32_regex_replace", "regex_replace"):
                return True
            if c in ("u32_conv_from_encoding", "u32_strconv_from_encoding"):
                return not self.literal(f, I.ops[0], set())
            if c and c.startswith("u32_strconv_from"):
                return not self.literal(f, I.ops[0], set())
            if c in ("u32_strdup", "u32_strncpy"):
                return self.raw(f, I.ops[-1 if c == "u32_strdup" else 1], fall, seen)
        return False

    def literal(self, f, ref, seen, strict=False):
        """text of the program itself; what a parameter of an external function or a buffer holds counts as text from outside"""
        k = (f.name, ref)
        if k in seen:
            return True
        seen.add(k)
        if ref[0] in ("null", "zero") or self.m.cstr(ref) is not None:
            return True
        if ref[0] == "a":
            cs = list(self.m.callers(f.name))
            return bool(cs) and all(self.literal(c.fn, c.ops[ref[1]], seen, strict) for c in cs)
        if ref[0] == "i":
            I = f.ins[ref[1]]
            if I.op == "phi":
                return all(self.literal(f, o, seen, strict) for _, o in I.ops)
            if I.op == "select":
                return self.literal(f, I.ops[1], seen, strict) and self.literal(f, I.ops[2], seen, strict)
            if I.op == "load":
                return not strict and self.cleantext(f, I.ops[0])
        return False

    def cleantext(self, f, addr):
        """loaded text: only global tables of literals, and fields of the plain version of validated texts and shapes"""
        fld = self.m.last_field(f, addr)
        return bool(fld) and str(fld[0] if isinstance(fld, tuple) else fld).split(".")[0] in ("bxstr_t", "sentry_t")

    # ---------------------------------------------------------------- following a null pointer
    def key(self, f, addr, depth=0):
        if addr[0] in ("g", "gep", "a"):
            return addr
        if addr[0] == "i" and depth < 8:
            I = f.ins[addr[1]]
            if I.op == "getelementptr":
                return ("+", self.key(f, I.ops[0], depth + 1)) + tuple(o if o[0] == "c" else self.key(f, o, depth + 1) for o in I.ops[1:])
            if I.op == "load":
                return ("*", self.key(f, I.ops[0], depth + 1))
        return addr

    def walk(self, f, start, nulls, top):
        """explores f from (block, index) with the given values null. Returns dict with derefs, escapes, null returns, constant returns, other returns"""
        res = {"deref": [], "escape": [], "retnull": False, "rets": set(), "other": False, "end": 0}
        todo = [(start[0], start[1], None, frozenset(nulls), frozenset(), frozenset(), False)]
        seen = set()
        n = 0
        while todo:
            blk, idx, prev, nul, cells, consts, chk = todo.pop()
            sk = (blk.id, idx, prev if idx == 0 else None, nul, cells, consts, chk)
            if sk in seen:
                continue
            seen.add(sk)
            n += 1
            if n > 6000:
                self.rep.unresolved("%s: too many paths" % f.name)
                res["other"] = True
                res["over"] = True
                return res
            nul, cells = set(nul), dict(cells)
            cd = dict(consts)

            def val(o):
                if o in nul or o[0] == "null":
                    return "null"
                if o[0] == "c":
                    return o[1]
                return cd.get(o)

            stop = False
            phis = {}
            for I in blk.ins[idx:]:
                me = ("i", I.id)
                if I.op == "phi":
                    v = None
                    for b, o in I.ops:
                        if b == prev:
                            v = o
                    phis[me] = None if v is None else ("tracked" if v in nul else "null" if v[0] == "null" else val(v))
                    continue
                for k, v in phis.items():
                    nul.discard(k)
                    cd.pop(k, None)
                    if v == "tracked":
                        nul.add(k)
                    elif v == "null":
                        cd[k] = "null"
                    elif v is not None:
                        cd[k] = v
                phis = {}
                nul.discard(me)
                cd.pop(me, None)
                if I.op == "getelementptr":
                    if I.ops[0] in nul:
                        nul.add(me)
                elif I.op in ("bitcast", "freeze", "ptrtoint", "inttoptr", "zext", "sext", "trunc"):
                    if I.ops[0] in nul:
                        nul.add(me)
                    elif I.op in ("zext", "sext") and isinstance(val(I.ops[0]), int):
                        cd[me] = val(I.ops[0])
                elif I.op == "select":
                    c = val(I.ops[0])
                    o = I.ops[1] if c == 1 else I.ops[2] if c == 0 else None
                    if o is not None:
                        if o in nul:
                            nul.add(me)
                        elif val(o) is not None:
                            cd[me] = val(o)
                elif I.op == "load":
                    if I.ops[0] in nul:
                        res["deref"].append(I)
                        stop = True
                        break
                    k = self.key(f, I.ops[0])
                    if k in cells:
                        nul.add(me)
                elif I.op == "store":
                    if I.ops[1] in nul:
                        res["deref"].append(I)
                        stop = True
                        break
                    k = self.key(f, I.ops[1])
                    if I.ops[0] in nul:
                        cells[k] = I.id
                    else:
                        cells.pop(k, None)
                elif I.op == "icmp":
                    a, b = val(I.ops[0]), val(I.ops[1])
                    tr = (I.ops[0] in nul) or (I.ops[1] in nul)
                    p = I.d.get("pred")
                    if a is not None and b is not None:
                        if tr and "null" in (a, b):
                            chk = True
                        a, b = (0 if a == "null" else a), (0 if b == "null" else b)
                        if isinstance(a, int) and isinstance(b, int):
                            r = {"eq": a == b, "ne": a != b, "slt": a < b, "sgt": a > b, "sle": a <= b, "sge": a >= b, "ult": 0 <= a < b, "ugt": a > b >= 0}.get(p)
                            if r is not None:
                                cd[me] = int(r)
                elif I.op == "xor":
                    a, b = val(I.ops[0]), val(I.ops[1])
                    if isinstance(a, int) and isinstance(b, int):
                        cd[me] = a ^ b
                elif I.op == "call":
                    c = I.callee
                    if c in ("exit", "abort", "_exit", "__assert_fail"):
                        stop = True
                        res["end"] += 1
                        break
                    hit = [i for i, o in enumerate(I.ops) if o in nul]
                    if c is None or c.startswith("llvm."):
                        if c and c.startswith(("llvm.memcpy", "llvm.memmove")) and any(i < 2 for i in hit):
                            res["deref"].append(I)
                            stop = True
                            break
                        continue
                    if c in DEREF and any(i in DEREF[c] for i in hit):
                        res["deref"].append(I)
                        stop = True
                        break
                    g = self.m.defined.get(c)
                    if g is not None:
                        for i in hit:
                            if i >= g.nargs:
                                continue
                            s = self.summary(c, i)
                            if s["must"]:
                                res["deref"].append(I)
                                stop = True
                                break
                            if s["const"] is not None:
                                if s["const"] == "null":
                                    nul.add(me)
                                else:
                                    cd[me] = s["const"]
                                    if s["test"]:
                                        chk = True
                        if stop:
                            break
                        if not self.harmless(c):
                            # the cells may be looked at, or replaced, there
                            for k in [k for k in cells if self.outlives(f, k)]:
                                if self.tests(c, True) & self.cellfield(f, cells[k]):
                                    del cells[k]
                elif I.op == "ret":
                    if I.ops:
                        o = I.ops[0]
                        if o in nul:
                            res["retnull"] = True
                            res["rets"].add("null")
                        elif o[0] == "null" or cd.get(o) == "null":
                            if True:
                                res["retnull"] = True
                            res["rets"].add("null")
                        elif isinstance(val(o), int):
                            res["rets"].add(val(o))
                        else:
                            res["other"] = True
                    else:
                        res["other"] = True
                    res["end"] += 1
                    res["test"] = res.get("test", True) and chk
                    if top and not chk and not ("null" in res["rets"] and I.ops and (I.ops[0] in nul)):
                        res.setdefault("untested", I)
                    if top and not chk:
                        err = I.ops and (I.ops[0][0] == "c" and I.ops[0][1] != 0 or isinstance(cd.get(I.ops[0]), int) and cd[I.ops[0]] != 0)
                        for k, sid in cells.items():
                            if self.outlives(f, k) and not any(self.tests(j.fn.name, False) & self.cellfield(f, sid) for j in self.m.callers(f.name)):
                                res["escape"].append((I, sid))
                    stop = True
                    break
            for k, v in phis.items():
                if v == "tracked":
                    nul.add(k)
                elif v is not None:
                    cd[k] = v
            if stop:
                continue
            t = blk.term
            nxt = blk.succ
            if t.op == "br" and len(t.d["succ"]) == 2:
                c = val(t.ops[0])
                if isinstance(c, int):
                    nxt = [f.bmap[t.d["succ"][0 if c else 1]]]
            elif t.op == "switch":
                c = val(t.ops[0])
                if isinstance(c, int):
                    d = {x[0]: x[1] for x in t.d["cases"]}
                    nxt = [f.bmap[d.get(c, t.d["default"])]]
            elif t.op == "unreachable":
                continue
            if not nul and not cells and not cd:
                if top:
                    continue
            live = f.live_in(nxt[0].id) if False else None
            for s in nxt:
                todo.append((s, 0, blk.id, frozenset(nul), frozenset(cells.items()), frozenset(cd.items()), chk))
        return res

    def cellfield(self, f, sid):
        fld = self.m.last_field(f, f.ins[sid].ops[1])
        return {fld} if fld else set()

    def tests(self, name, deep):
        """fields which a function (deep: or one it calls) compares with null"""
        if not hasattr(self, "_tests"):
            self._tests = {}
            for f in self.m.defined.values():
                t = set()
                for i in f.all_ins():
                    if i.op == "icmp" and ("null",) in i.ops:
                        for o in i.ops:
                            if o[0] == "i" and f.ins[o[1]].op == "load":
                                x = self.m.last_field(f, f.ins[o[1]].ops[0])
                                if x:
                                    t.add(x)
                self._tests[f.name] = t
        if not deep:
            return self._tests.get(name, set())
        r = set()
        for n in self.m.reachable(name):
            r |= self._tests.get(n, set())
        return r

    def nullable(self, f):
        """is there a null among the values it returns"""
        seen, todo = set(), [i.ops[0] for i in f.all_ins() if i.op == "ret" and i.ops]
        while todo:
            o = todo.pop()
            if o[0] == "null":
                return True
            if o in seen or o[0] != "i":
                continue
            seen.add(o)
            I = f.ins[o[1]]
            todo += [x for _, x in I.ops] if I.op == "phi" else list(I.ops[1:]) if I.op == "select" else []
        return False

    def outlives(self, f, k):
        while isinstance(k, tuple) and k and k[0] in ("+", "*"):
            if k[0] == "*":
                return True
            k = k[1]
        return k[0] in ("g", "gep", "a") or (k[0] == "i" and f.ins[k[1]].op != "alloca")

    def harmless(self, c):
        """functions that only print, release or compare"""
        return c in ("bxs_free", "log_debug", "log_debug_cont", "yyerror", "is_debug_logging", "bxs_to_output", "u32_strconv_to_output", "u32_strconv_to_arg", "u32_strlen", "report_state")

    def summary(self, name, k):
        if (name, k) in self.sums:
            return self.sums[(name, k)]
        self.sums[(name, k)] = {"must": False, "const": None, "test": False}
        f = self.m.defined[name]
        if f.args[k]["type"] != "ptr":
            return self.sums[(name, k)]
        r = self.walk(f, (f.entry, 0), {("a", k)}, False)
        if r.get("over"):
            return self.sums[(name, k)]
        s = {"must": bool(r["deref"]) and not r["end"], "const": None, "test": False}
        if not r["other"] and len(r["rets"]) == 1 and r["end"]:
            s["const"] = next(iter(r["rets"]))
            s["test"] = r.get("test", False)
        self.sums[(name, k)] = s
        return s


def check(tree, rep):
    m = tree.module()
    N = Null(m, rep)
    fall = {k: v for k, v in LIBFAIL.items()}
    for k in list(fall):
        if k in m.defined:
            del fall[k]
    CONS = [c for c in ("bxs_from_unicode", "bxs_from_ascii") if c in m.defined]
    rep.need(CONS, "no constructor of texts found")
    why = dict(fall)
    sites = {}
    done = {}
    ch = True
    rounds = 0
    while ch and rounds < 12:
        ch = False
        rounds += 1
        for f in m.defined.values():
            for i in f.calls():
                c = i.callee
                if c is None or (f.name, i.id) in done:
                    continue
                if c in CONS:
                    if f.name in CONS or not N.raw(f, i.ops[0], fall) and not (c == "bxs_from_ascii" and not N.literal(f, i.ops[0], set()) and f.name not in CONS and False):
                        continue
                    reason = "the text contains illegal characters"
                elif c == "pcre2_substitute_32":
                    if f.ret == "ptr" and f.name not in why and any(j.op == "icmp" and ("i", i.id) in j.ops or j.op == "phi" and any(o == ("i", i.id) for _, o in j.ops) for j in f.all_ins()) and N.nullable(f):
                        why[f.name] = "the replacement is not valid"
                        ch = True
                    continue
                elif c in why and c not in CONS:
                    reason = why[c]
                    if c in LIBFAIL and "_conv" in c or c in LIBFAIL and "strconv" in c:
                        h = [o for o in i.ops if o[0] == "c" and len(o) > 2 and o[2] == 32]
                        if not h or any(o[1] != 0 for o in h):
                            continue            # characters that cannot be converted are replaced
                    if ("pattern" in reason or "converted" in reason) and i.ops and N.literal(f, i.ops[0], set(), "pattern" in reason):
                        continue
                else:
                    continue
                r = N.walk(f, (i.blk, i.idx + 1), {("i", i.id)}, True)
                done[(f.name, i.id)] = r
                sites[(f.name, i.id)] = (i, reason)
                num = [x.id for x in f.calls(c)].index(i.id) + 1
                for d in r["deref"]:
                    rep.violation("use-%s-%s-%d" % (f.name, c, num), "%s: %s returns no result when %s; used unchecked at %s" % (i.where(), c, reason, d.where()))
                for d, sid in r["escape"]:
                    rep.violation("kept-%s-%s-%d" % (f.name, c, num), "%s: %s returns no result when %s; it is kept unchecked" % (i.where(), c, reason))
                if c in CONS and "untested" in r and not r["deref"] and not r["escape"]:
                    rep.violation("unnoticed-%s-%s-%d" % (f.name, c, num), "%s: %s returns no result when %s; this is not noticed" % (i.where(), c, reason))
                if f.ret == "ptr" and r["retnull"] and f.name not in why and f.name not in CONS:
                    why[f.name] = reason
                    ch = True
                    # calls of it elsewhere are judged in the next round
    rep.need(len(sites) > 10, "only %d calls found" % len(sites))
    rep.cov.update({"calls_judged": len(sites), "functions_that_fail": sorted(set(why) - set(LIBFAIL)), "library_functions": sorted({i.callee for i, _ in sites.values() if i.callee in LIBFAIL}),
                    "summaries": len(N.sums), "explanation": "for each call of a function that fails for reasons outside the program, the paths from the call were followed with its result being null; "
                    "a dereference before a test of it, or its being kept for others without a test, is a violation; functions that return the null are judged at their calls in turn"})
