"""Strings of 32-bit characters in the abstract interpretation: the shape of a string (which of its characters are tabs, blanks, line breaks, escape characters) is fixed, the other characters are opaque."""
from sim import UNK, ZERO, NOOFF, St
from bx import BxHooks

TAB, LF, CR, SP, ESC = 9, 10, 13, 32, 27
SPECIAL = frozenset(range(0, 33)) | {0x5b, 0x28}


def ch(x):
    """'\\t', ' ', ... are constants, everything else an opaque visible character of that name"""
    if x in "\t\n\r \x1b\x0c\x0b":
        return ("c", ord(x))
    return ("u", ("char", x))


def learn(st, v):
    if v[0] == "u" and v[1][0] == "char":
        st.facts[("ne", v)] = SPECIAL
        st.facts[("rng", v)] = (33, 126 if len(v[1][1]) == 1 and v[1][1] < "\x7f" else 0x10ffff)


def put(st, base, text):
    for i, c in enumerate(text):
        v = ch(c) if isinstance(c, str) else c
        learn(st, v)
        st.mem[(base, (4 * i, ()))] = v
    st.mem[(base, (4 * len(text), ()))] = ZERO


def get(st, loc, limit=400):
    """characters up to the terminator or None"""
    base, (o, t) = loc
    if t:
        return None
    r = []
    for i in range(limit):
        v = st.mem.get((base, (o + 4 * i, ())))
        if v is None or v == UNK:
            return None
        if v == ZERO:
            return tuple(r)
        r.append(v)
    return None


class UHooks(BxHooks):
    """library functions on such strings"""
    alloc_ok = True
    problem = None

    def str_call(self, sim, st, I, name, args, ctx):
        if name == "u32_strlen":
            l = sim.loc(args[0])
            s = get(st, l) if l else None
            return [(("c", len(s)) if s is not None else UNK, st)]
        if name == "u32_next":
            l = sim.loc(args[1])
            p = sim.loc(args[0])
            if not l or l[1][1]:
                return None
            v = st.mem.get(l)
            if v is None:
                return None
            if v == ZERO:
                if p:
                    st.mem[p] = ZERO
                return [(ZERO, st)]
            if p:
                st.mem[p] = v
            return [(("p", l[0], (l[1][0] + 4, ())), st)]
        if name == "u32_cmp" and args[2] == ("c", 1):
            v = [self.at(sim, st, a) for a in args[:2]]
            if None not in v:
                r = sim.cmp(st, "eq", v[0], v[1])
                if r is not None:
                    return [(("c", 0 if r else 1), st)]
            return None
        if name == "u32_set" and args[2][0] == "c" and 0 <= args[2][1] < 200:
            l = sim.loc(args[0])
            if l and not l[1][1]:
                if l[1][0] < 0 and l[0][0] in ("h", "al") or l[1][0] < 0 and l[0][0] == "s":
                    self.problem = "writes in front of a string"
                for i in range(args[2][1]):
                    st.mem[(l[0], (l[1][0] + 4 * i, ()))] = args[1]
                return [(args[0], st)]
        if name in ("u32_strdup",):
            l = sim.loc(args[0])
            s = get(st, l) if l else None
            if s is not None:
                v = ("u", ("str", s))
                st.facts[("ne", v)] = frozenset((0,))
                return [(v, st)]
        if name in ("uc_is_c_whitespace", "uc_is_property_white_space", "uc_is_property_bidi_whitespace", "uc_is_blank", "uc_is_cntrl"):
            v = args[0]
            if v[0] == "c":
                if name == "uc_is_cntrl":
                    return [(("c", int(v[1] < 32 or v[1] == 127)), st)]
                if name == "uc_is_blank":
                    return [(("c", int(v[1] in (9, 32))), st)]
                return [(("c", int(v[1] in (9, 10, 11, 12, 13, 32))), st)]
            if v[0] == "u" and v[1][0] == "char":
                return [(ZERO, st)]
        return None

    def at(self, sim, st, a):
        l = sim.loc(a)
        if not l or l[1][1]:
            return None
        v = st.mem.get(l)
        if v is None and l[0][0] == "g":
            init = sim.mod.globals.get(l[0][1], {})
            v = sim.const_at(init.get("init"), l[1][0], 4) if init.get("init") is not None else None
        return v

    def load(self, sim, st, I, loc, ctx):
        if loc[0][0] in ("h",) and not loc[1][1] and loc[1][0] < 0 and loc[0][1] == "raw":
            self.problem = "reads in front of the line"
        return None
