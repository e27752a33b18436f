"""C31: the words of the configuration language (padding areas, keywords, indentation modes) have their documented meaning, in any letter case and abbreviation."""
from parse import Parser, ParserHooks, cell, fields, ZERO, UNK, NOOFF, BISON
from words import Word, WordHooks
from bx import enumval, need_fn
from common import Broken

AREAS = {"all": (0, 1, 2, 3), "horizontal": (1, 3), "vertical": (0, 2), "top": (0,), "right": (1,), "bottom": (2,), "left": (3,)}
INDENT = {"text": "t", "box": "b", "none": "n"}


class H(WordHooks):
    def __init__(self, mod, stubs=None):
        WordHooks.__init__(self) if hasattr(WordHooks, "__init__") else None
        self.mod = mod
        self.stubs = stubs or {}

    def inline(self, sim, name):
        return not name.startswith("yy")

    def call3(self, sim, st, I, n, args, ctx):
        if n == "yyerror":
            st = st.copy()
            st.q = (st.q or ()) + (("yyerror",),)
            return [(UNK, st)]
        if n in self.stubs:
            v = self.stubs[n]
            return v(sim, st.copy(), I, args) if callable(v) else [(v, st)]
        if n.startswith("yyget") or n == "bxs_to_output":
            return [(("u", ("r", n, ctx, I.id)), st)]
        return None


def cases(w):
    return {w, w.upper(), w.capitalize(), w[:-1] + w[-1].upper()}


def paths(P, r, st, word, stubs=None):
    """paths of the action for which the facts about the word are certain / not excluded"""
    sure, maybe = [], []
    for o, x in P.rule(r, H(P.mod, stubs), st):
        k = word.consistent(x)
        if k is True:
            sure.append((o, x))
        elif k is None:
            maybe.append((o, x))
    return sure, maybe


def check(tree, rep):
    P = Parser(tree)
    need_fn(P.mod, "action_padding_entry", "action_record_keyword")
    n = padding(P, rep)
    k = keywords(P, rep)
    i = indents(P, rep)
    rep.need(n > 50 and (k or i), "documented words of the configuration could not be decided")
    rep.cov.update(explanation="The actions of the padding and keyword rules are interpreted with an opaque word; the guard of every path is evaluated at each documented word in several letter cases (areas: every abbreviation) and at undocumented neighbours, "
                               "and the stores on the matching path are compared with the documented meaning.", padding_words=n, keyword_words=k, indent_words=i)
    rep.assumptions += ["memory allocation succeeds", "debug logging is off"]


def padding(P, rep):
    g, mod = P.g, P.mod
    rr = [r for r in g.find(lhs="wlist_entry") if r in g.cases]
    if len(rr) != 1:
        rep.unresolved("rule of a padding entry")
        return 0
    r = rr[0]
    ptr = g.token(r, 1)
    words = {}
    for a, s in AREAS.items():
        for l in range(1, len(a) + 1):
            for w in cases(a[:l]):
                words[w] = s
    bad = ["x", "topp", "allx", "tops", "side", "horizontally", "verticals", "rightx", "leftt", "bottoms", "lr", "tp", "bt", "q", "hv"]
    n = 0
    for val in (5, 0, -1):
        st = P.init()
        b, o = g.slot(r, 2)
        st.mem[(b, o)] = ("c", val)
        for i in range(4):
            P.dset(st, "padding", ("c", 77), 4 * i)
        st.facts[("ne", ptr)] = frozenset((0,))
        runs = P.rule(r, H(mod), st)
        for w, want in list(words.items()) + [(w, None) for w in bad]:
            if val != 5 and len(w) > 2 and w not in AREAS:
                continue
            W = Word(ptr, w)
            sure = [(o, x) for o, x in runs if W.consistent(x) is True]
            maybe = [(o, x) for o, x in runs if W.consistent(x) is None]
            if not sure:
                rep.unresolved("padding area '%s': %d undecided paths" % (w, len(maybe)))
                continue
            n += 1
            for o, x in sure:
                got = tuple(P.dget(x, "padding", 4 * i) for i in range(4))
                exp = tuple(("c", val) if want is not None and i in want and val >= 0 else ("c", 77) for i in range(4))
                if any(a != b and a[0] == "c" for a, b in zip(got, exp)):
                    rep.violation("pad:%s" % w.lower()[:1], "padding { %s %d } gives padding top/right/bottom/left %s instead of %s (77 = unchanged)" % (w, val, [a[1] for a in got], [b[1] for b in exp]))
                if (want is None or val < 0) and not x.q:
                    rep.violation("padmute:%s" % w, "padding { %s %d } is ignored without a message" % (w, val))
                if want is not None and val >= 0 and x.q:
                    rep.violation("padmsg:%s" % w, "padding { %s %d } gives an error message" % (w, val))
                if want is not None and val >= 0 and o != "ok":
                    rep.violation("padrc:%s" % w, "padding { %s %d } is refused" % (w, val))
    return n


def entry_rules(P):
    """rules KEYWORD STRING and the like: [(rule, index of the keyword, index of the value)]"""
    g = P.g
    return [r for r in g.find(lhs="entry") if r in g.cases and list(g.rules[r][1]) == ["KEYWORD", "STRING"]]


def value(st, P, v):
    """a string record of which only the ASCII form matters"""
    B = fields(P.mod, "bxstr_t")
    st.facts[("ne", v)] = frozenset((0,))
    a = ("u", ("set", "ascii"))
    st.facts[("ne", a)] = frozenset((0,))
    st.mem[(("s", v), (B["ascii"][0], ()))] = a
    return a


def keywords(P, rep):
    g, mod = P.g, P.mod
    rr = entry_rules(P)
    if len(rr) != 1:
        rep.unresolved("rule KEYWORD STRING")
        return 0
    r = rr[0]
    ptr, val = g.token(r, 1), g.token(r, 2)
    st = P.init()
    st.facts[("ne", ptr)] = frozenset((0,))
    value(st, P, val)
    dup = ("u", ("set", "copy"))
    for k in ("author", "designer"):
        P.dset(st, k, ("c", 77))
    P.dset(st, "indentmode", ("c", 77))

    def strdup(sim, x, I, args):
        x.facts[("ne", dup)] = frozenset((0,))
        x.q = (x.q or ()) + (("copy", args[0]),)
        return [(dup, x)]

    def tags(sim, x, I, args):
        x.q = (x.q or ()) + (("tags", args[-1]),)
        return [(ZERO, x)]
    n = 0
    runs = P.rule(r, H(mod, {"bxs_strdup": strdup, "tag_record": tags, "bxs_valid_in_kv_string": ("c", 1)}), st)
    for w, fld in [(c, k) for k in ("author", "designer", "indent") for c in cases(k)]:
        W = Word(ptr, w)
        sure = [(o, x) for o, x in runs if W.consistent(x) is True]
        if not sure:
            if fld != "indent":
                rep.unresolved("keyword '%s'" % w)
            continue
        n += 1
        for o, x in sure:
            if fld in ("author", "designer"):
                if o != "ok":
                    rep.violation("kw:" + fld, "keyword '%s' is refused" % w)
                    continue
                for k in ("author", "designer"):
                    v = P.dget(x, k)
                    if k == fld and v != dup and v[0] == "c":
                        rep.violation("kw:" + fld, "keyword '%s' does not set the %s of the design" % (w, fld))
                    if k != fld and v != ("c", 77):
                        rep.violation("kwside:" + fld, "keyword '%s' sets the %s of the design" % (w, k))
                c = [e[1] for e in x.q or () if e[0] == "copy"]
                if c and c[0] != val:
                    rep.violation("kwval:" + fld, "keyword '%s' does not store the value given" % w)
            else:
                if any(e[0] in ("copy", "tags") for e in x.q or ()):
                    rep.violation("kw:indent", "keyword '%s' is taken for another one" % w)
    nts = {y for l, rhs in g.rules.values() if "YTAGS" in rhs for y in rhs}
    for _ in g.rules:
        nts |= {y for l, rhs in g.rules.values() if l in nts for y in rhs}
    for r in [r for r in g.find(has=("STRING",)) if r in g.cases and len(g.rules[r][1]) == 1 and g.rules[r][0] in nts]:
        t = g.token(r, 1)
        st = P.init()
        st.facts[("ne", t)] = frozenset((0,))
        for o, x in P.rule(r, H(mod, {"tag_record": tags}), st):
            n += 1
            d = [e[1] for e in x.q or () if e[0] == "tags"]
            if o == "ok" and d != [t]:
                rep.violation("kw:tags", "an element of the list of tags is %s" % ("not recorded" if not d else "recorded wrongly"))
    for w in ("authors", "design", "tag", "indentation"):
        W = Word(ptr, w)
        for o, x in runs:
            if W.consistent(x) is True and o == "ok":
                rep.violation("kwbad:" + w, "undocumented keyword '%s' is accepted" % w)
    return n


def indents(P, rep):
    g, mod = P.g, P.mod
    rr = entry_rules(P)
    if len(rr) != 1:
        return 0
    r = rr[0]
    ptr, val = g.token(r, 1), g.token(r, 2)
    st = P.init()
    st.facts[("ne", ptr)] = frozenset((0,))
    a = value(st, P, val)
    P.dset(st, "indentmode", ("c", 77))
    runs = P.rule(r, H(mod, {"bxs_strdup": UNK, "tag_record": ZERO, "bxs_valid_in_kv_string": ("c", 1)}), st)
    K = Word(ptr, "indent")
    runs = [(o, x) for o, x in runs if K.consistent(x) is True]
    n = 0
    for w, want in [(c, m) for k, m in INDENT.items() for c in cases(k)] + [(w, None) for w in ("", "t", "tex", "texts", "boxes", "no", "yes", "nonee")]:
        W = Word(a, w)
        sure = [(o, x) for o, x in runs if W.consistent(x) is True]
        if not sure:
            rep.unresolved('indent "%s"' % w)
            continue
        n += 1
        for o, x in sure:
            v = P.dget(x, "indentmode")
            if v[0] != "c":
                c = W.ev(v)
                v = ("c", c) if c is not None else v
            if want is None:
                if o != "error":
                    rep.violation("indbad:" + w, 'indent "%s" is not refused' % w)
                elif not x.q:
                    rep.violation("indmute:" + w, 'indent "%s" is refused without a message' % w)
            elif o != "ok":
                rep.violation("ind:" + want, 'indent "%s" is refused' % w)
            elif v[0] == "c" and v[1] != ord(want):
                rep.violation("ind:" + want, 'indent "%s" sets the indentation mode to %r instead of %r' % (w, chr(v[1] & 0xff), want))
            elif v[0] != "c":
                rep.unresolved('indent "%s": stored value' % w)
    return n
