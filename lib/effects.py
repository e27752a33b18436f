"""Effect summaries: which memory visible to the caller a function may write, what it prints where, whether it ends the program.
Bases of pointers: ('g', name), ('arg', k), ('alloca', id), ('fresh', call id), ('?',)."""
from collections import defaultdict

ALIAS = {"strchr": 0, "strrchr": 0, "strstr": 0, "memchr": 0, "strcpy": 0, "strcat": 0, "memcpy": 0, "memmove": 0, "strncpy": 0, "strncat": 0, "memset": 0, "u32_strchr": 0, "u32_strstr": 0,
         "u32_cpy": 0, "u32_strcpy": 0, "u32_strcat": 0, "u32_set": 0, "u32_move": 0, "u32_strncpy": 0, "realloc": 0, "fgets": 0, "strpbrk": 0, "strtok": 0}
WRITES0 = {"strcpy", "strcat", "memcpy", "memmove", "strncpy", "strncat", "memset", "u32_cpy", "u32_strcpy", "u32_strcat", "u32_set", "u32_move", "u32_strncpy", "sprintf", "snprintf", "vsnprintf", "vsprintf", "fgets", "qsort",
           "u32_vsnprintf", "u32_snprintf", "strtok"}
PURE = {"strlen", "strcmp", "strcasecmp", "strncmp", "strncasecmp", "strchr", "strrchr", "strstr", "memchr", "memcmp", "malloc", "calloc", "strdup", "u32_strlen", "u32_cmp", "u32_strcmp", "u32_strchr", "u32_strstr", "isspace",
        "isdigit", "isalpha", "tolower", "toupper", "__ctype_b_loc", "__ctype_tolower_loc", "abs", "getenv", "u32_strdup", "u32_strconv_to_encoding", "u32_conv_to_encoding", "uc_width", "u32_width", "u32_strwidth", "tigetnum", "__errno_location",
        "u32_next", "uc_is_property_white_space", "locale_charset", "strerror", "ferror", "feof", "strncpy", "strpbrk", "strspn", "strcspn", "u32_cpy_alloc", "u32_to_u8", "iconveh_close"}
PRINT = {"fprintf": 0, "vfprintf": 0, "fputs": 1, "fputc": 1, "putc": 1, "fwrite": 3, "bx_fprintf": 0, "fflush": 0}
STDOUT = {"printf", "puts", "putchar", "vprintf"}
NORETURN = {"exit", "abort", "_exit", "__assert_fail"}


def name_of(I):
    """callee, also through the function pointer bx_fprintf"""
    if I.callee:
        return I.callee
    c = I.calleeref()
    if c[0] == "i":
        d = I.fn.ins.get(c[1])
        if d is not None and d.op == "load" and d.ops[0][0] == "g" and "fprintf" in d.ops[0][1]:
            return "bx_fprintf"
    return None


class Effects:
    def __init__(self, mod):
        self.mod = mod
        self.sum = {}
        self.busy = set()
        self.rets = {}

    # ---- bases ---------------------------------------------------------------------------------------------------------------
    def base(self, f, r, seen=None):
        seen = set() if seen is None else seen
        if not r or r[0] in ("c", "null", "undef", "poison", "fn", "zero"):
            return set()
        if r[0] == "gep":
            return self.base(f, r[1], seen)
        if r[0] == "g":
            return {("g", r[1])}
        if r[0] == "a":
            return {("arg", r[1])}
        if r[0] != "i":
            return {("?",)}
        if r[1] in seen:
            return set()
        seen.add(r[1])
        I = f.ins.get(r[1])
        if I is None:
            return {("?",)}
        if I.op == "alloca":
            return {("alloca", I.id)}
        if I.op in ("getelementptr", "bitcast", "addrspacecast", "inttoptr", "freeze"):
            return self.base(f, I.ops[0], seen)
        if I.op == "phi":
            return set().union(*[self.base(f, o[1], seen) for o in I.ops])
        if I.op == "select":
            return self.base(f, I.ops[1], seen) | self.base(f, I.ops[2], seen)
        if I.op == "load":
            out = set()
            for b in self.base(f, I.ops[0], seen):
                if b[0] == "alloca":
                    for u in f.uses.get(("i", b[1]), ()):
                        if u.op == "store" and u.ops[1][:2] == ("i", b[1]):
                            out |= self.base(f, u.ops[0], seen)
                        elif u.op not in ("load", "store"):
                            out.add(("?",)) if u.op != "call" or not (u.callee or "").startswith("llvm.") else None
                elif b[0] == "g" and b[1] in ("stderr", "stdout", "stdin"):
                    out.add(("stream", b[1]))
                else:
                    out.add(b)
            return out
        if I.op == "call":
            n = name_of(I)
            if n in ALIAS:
                return self.base(f, I.ops[ALIAS[n]], seen) | ({("fresh", I.id)} if n == "realloc" else set())
            if n in self.mod.defined:
                out = {("fresh", I.id)}
                for b in self.ret(n):
                    if b[0] == "arg" and b[1] < len(I.ops):
                        out |= self.base(f, I.ops[b[1]], seen)
                    elif b[0] == "g":
                        out.add(b)
                return out
            return {("fresh", I.id)}
        return {("?",)}

    def ret(self, n):
        if n not in self.rets:
            self.rets[n] = set()
            f = self.mod.defined[n]
            if f.ret == "ptr":
                s = set()
                for I in f.all_ins():
                    if I.op == "ret" and I.ops:
                        s |= self.base(f, I.ops[0])
                self.rets[n] = s
        return self.rets[n]

    # ---- effects of one instruction -----------------------------------------------------------------------------------------------
    def ins(self, f, I):
        """list of (kind, what): ('write', base) ('free', base) ('print', base of stream or 'stdout') ('end', callee) ('unknown', callee)"""
        if I.op == "store":
            return [("write", b) for b in self.base(f, I.ops[1])]
        if I.op != "call":
            return []
        n = name_of(I)
        if n is None:
            return [("unknown", "function pointer")]
        if n.startswith("llvm."):
            if n.startswith(("llvm.memcpy", "llvm.memset", "llvm.memmove")):
                return [("write", b) for b in self.base(f, I.ops[0])]
            return []
        if n in NORETURN:
            return [("end", n)]
        if n in STDOUT:
            return [("print", ("stream", "stdout"))]
        if n == "perror":
            return [("print", ("stream", "stderr"))]
        if n in PRINT:
            return [("print", b) for b in self.base(f, I.ops[PRINT[n]])]
        if n in ("free", "fclose"):
            return [("free", b) for b in self.base(f, I.ops[0])]
        if n == "realloc":
            return [("free", b) for b in self.base(f, I.ops[0])]
        if n in WRITES0:
            return [("write", b) for b in self.base(f, I.ops[0])]
        if n in PURE:
            return []
        if n in self.mod.defined:
            out = []
            for k, w in self.of(n):
                if k in ("write", "free", "print") and w[0] == "arg":
                    if w[1] < len(I.ops):
                        out += [(k, b) for b in self.base(f, I.ops[w[1]])]
                else:
                    out.append((k, w))
            return out
        return [("unknown", n)]

    def of(self, n):
        """effects of a function its caller can see"""
        if n in self.sum:
            return self.sum[n]
        if n in self.busy:
            return set()
        self.busy.add(n)
        f = self.mod.defined[n]
        out = set()
        for I in f.all_ins():
            for k, w in self.ins(f, I):
                if w and w[0] in ("alloca", "fresh") and k != "end":
                    continue
                out.add((k, w))
        self.busy.discard(n)
        if not self.busy:
            self.sum[n] = out
        else:
            self.sum[n] = out
        return out
