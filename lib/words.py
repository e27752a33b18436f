"""Path conditions as decision tables over one symbolic string.

The interpreter explores a function with one opaque string argument; every branch leaves a fact about bytes of that string
or about library predicates applied to it.  `consistent` decides, for a documented word, which of the extracted paths are
the word's; the values stored on those paths are then compared with the documented meaning."""
from sim import ZERO, UNK, NOOFF
from bx import BxHooks
import re

STRTOL = {"strtol", "__isoc23_strtol", "strtoul", "__isoc23_strtoul", "strtoll", "__isoc23_strtoll"}
ERRNO = ("s", ("u", ("pure", "__errno_location", ())))


class WordHooks(BxHooks):
    """keeps the facts about the word; models strtol's three results"""
    keep = ("ld", "pure", "ext", "wl")
    alloc_ok = True
    maxnum = 2

    def call2(self, sim, st, I, name, args, ctx):
        if name in STRTOL or name in ("atoi", "atol"):
            st = st.copy()
            a = args[0]
            if endps(a) >= self.maxnum:
                return []
            if name in STRTOL and len(args) > 1 and args[1] != ZERO:
                l = sim.loc(args[1])
                if l:
                    st.mem[l] = ("u", ("wl", "endp", a))
            prev = st.mem.get((ERRNO, NOOFF), UNK)
            st.mem[(ERRNO, NOOFF)] = ("u", ("wl", "errno", a, prev))
            v = ("u", ("wl", "num", a))
            v = st.facts.get(("eq", v), v)
            return [(v, st)]
        return self.call3(sim, st, I, name, args, ctx)

    def call3(self, sim, st, I, name, args, ctx):
        return None


def endps(v):
    """how many numbers were parsed before this position"""
    if not isinstance(v, tuple):
        return 0
    return (1 if v[:2] == ("wl", "endp") else 0) + max([endps(x) for x in v if isinstance(x, tuple)] or [0])


NUM = re.compile(rb"\s*([+-]?\d+)")


class Word:
    """evaluates abstract values under: the string at pointer value `ptr` is `text`"""

    def __init__(self, ptr, text):
        self.ptr = ptr
        self.w = text.encode() if isinstance(text, str) else text

    def idx(self, v):
        """index into the word of a pointer value; None unknown; -1 NULL"""
        if v == self.ptr:
            return 0
        if v == ZERO:
            return -1
        if v[0] == "p" and v[1][0] == "s":
            b = self.idx(v[1][1])
            if b is None or b < 0:
                return None
            k = v[2][0]
            for t, s in v[2][1]:
                x = self.ev(t)
                if x is None:
                    return None
                k += x * s
            return b + k
        if v[0] == "u" and v[1][0] == "wl" and v[1][1] == "endp":
            b = self.idx(v[1][2])
            if b is None or b < 0:
                return None
            m = NUM.match(self.w[b:])
            return b + (m.end() if m else 0)
        if v[0] == "u" and v[1][0] == "pure" and v[1][1] in ("strchr", "strrchr"):
            b = self.idx(v[1][2][0])
            c = self.ev(v[1][2][1])
            if b is None or b < 0 or c is None:
                return None
            s = self.w[b:] + b"\0"
            k = s.find(bytes([c & 255])) if v[1][1] == "strchr" else s.rfind(bytes([c & 255]))
            return -1 if k < 0 else b + k
        return None

    def byte(self, i):
        return self.w[i] if 0 <= i < len(self.w) else (0 if i == len(self.w) else None)

    def string(self, v):
        if v[0] == "lit":
            return v[1].encode()
        i = self.idx(v)
        return None if i is None or i < 0 or i > len(self.w) else self.w[i:]

    def ev(self, v):
        t = v[0]
        if t == "c":
            return v[1]
        if t == "e":
            a = self.ev(v[2])
            if v[1] == "trunc":
                if a is None:
                    return None
                n = v[3][1]
                a &= (1 << n) - 1
                return a - (1 << n) if a >> (n - 1) else a
            b = self.ev(v[3])
            if a is None or b is None:
                return None
            try:
                return {"add": lambda: a + b, "sub": lambda: a - b, "mul": lambda: a * b, "and": lambda: a & b, "or": lambda: a | b}[v[1]]()
            except KeyError:
                return None
        if t == "cmp":
            a, b = self.ev(v[2]), self.ev(v[3])
            if a is None or b is None:
                return None
            return int(rel(v[1], a, b))
        if t == "not":
            a = self.ev(v[1])
            return None if a is None else int(not a)
        if t == "p":
            i = self.idx(v)
            return None if i is None else (0 if i < 0 else 4096 + i)
        if t != "u":
            return None
        i = self.idx(v)
        if i is not None:
            return 0 if i < 0 else 4096 + i
        k = v[1]
        if k[0] == "ld":
            b, o = k[1]
            if b[0] == "s":
                x = ("p", b, o)
                i = self.idx(x)
                if i is not None and i >= 0:
                    c = self.byte(i)
                    return None if c is None else (c - 256 if c > 127 else c)
            return None
        if k[0] == "wl":
            b = self.idx(k[2])
            if b is None or b < 0 or b > len(self.w):
                return None
            m = NUM.match(self.w[b:])
            n = int(m.group(1)) if m else 0
            if k[1] == "num":
                return max(-(1 << 63), min((1 << 63) - 1, n))
            if k[1] == "errno":
                return 34 if abs(n) >= 1 << 63 else self.ev(k[3])
            return None
        if k[0] == "pure":
            n, a = k[1], k[2]
            if n in ("strcmp", "strcasecmp", "strncmp", "strncasecmp"):
                x, y = self.string(a[0]), self.string(a[1])
                if x is None or y is None:
                    return None
                if "ncase" in n or n == "strncmp":
                    m = self.ev(a[2])
                    if m is None:
                        return None
                    x, y = x[:m], y[:m]
                if "case" in n:
                    x, y = x.lower(), y.lower()
                return 0 if x == y else (1 if x > y else -1)
            if n == "strlen":
                x = self.string(a[0])
                return None if x is None else len(x)
            if n in ("strspn", "strcspn"):
                x, y = self.string(a[0]), self.string(a[1])
                if x is None or y is None:
                    return None
                k2 = 0
                while k2 < len(x) and (x[k2] in y) == (n == "strspn"):
                    k2 += 1
                return k2
            if n in ("strchr", "strrchr") and a[0][0] == "lit":
                c = self.ev(a[1])
                if c is None:
                    return None
                return 9999 if bytes([c & 255]) in a[0][1].encode() + b"\0" else 0
            if n == "strstr":
                x, y = self.string(a[0]), self.string(a[1])
                return None if x is None or y is None else (9999 if y in x else 0)
            if n in ("tolower", "toupper"):
                c = self.ev(a[0])
                if c is None:
                    return None
                return ord(chr(c & 127).lower() if n == "tolower" else chr(c & 127).upper())
            if n in ("isdigit",):
                c = self.ev(a[0])
                return None if c is None else int(48 <= c <= 57)
        return None

    def consistent(self, st):
        """False: the path cannot be the word's; True: every fact about the word holds; None: some fact undecided"""
        und = False
        for k, f in st.facts.items():
            if not self.mentions(k[1] if k[0] != "cmp" else k[2:]):
                continue
            if k[0] == "eq":
                x = self.ev(k[1])
                if x is None or f[0] != "c":
                    und = True
                elif x != f[1]:
                    return False
            elif k[0] == "ne":
                x = self.ev(k[1])
                if x is None:
                    und = True
                elif x in f:
                    return False
            elif k[0] == "rng":
                x = self.ev(k[1])
                if x is None:
                    und = True
                elif (f[0] is not None and x < f[0]) or (f[1] is not None and x > f[1]):
                    return False
            elif k[0] == "cmp":
                a, b = self.ev(k[2]), self.ev(k[3])
                if a is None or b is None:
                    und = True
                elif rel(k[1], a, b) != f:
                    return False
        return None if und else True

    def mentions(self, v):
        return v == self.ptr or isinstance(v, tuple) and any(self.mentions(x) for x in v if isinstance(x, tuple))


def rel(p, a, b):
    if p[0] == "u":
        a &= (1 << 64) - 1
        b &= (1 << 64) - 1
    return {"eq": a == b, "ne": a != b, "lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}[p if p in ("eq", "ne") else p[1:]]


def bytes_seen(st, ptr, limit):
    """does the path look at byte `limit` or later of the word?"""
    w = Word(ptr, "")
    for k in st.facts:
        if k[0] in ("eq", "ne", "rng") and k[1][0] == "u" and k[1][1][0] == "ld":
            b, o = k[1][1][1]
            if b == ("s", ptr) and not o[1] and o[0] >= limit:
                return True
    return False
