"""C25: tag queries select the designs they are documented to select; tags are compared regardless of letter case."""
from itertools import product
from sim import Sim, St, UNK, ZERO, NOOFF
from bx import BxHooks, fields, cell, need_fn
from parse import ParserHooks
from common import Broken

PRINTERS = ("fprintf", "bx_fprintf", "fputs", "fputc", "putc", "printf", "puts", "fwrite")
ALL = "(all)"


class Q(BxHooks):
    """query elements and tags are opaque strings; comparisons branch over both outcomes and are remembered"""
    alloc_ok = True
    keep = ()

    def __init__(self, mod, ndes):
        self.mod = mod
        self.ndes = ndes

    def inline(self, sim, name):
        return name not in ("sort_designs_by_name",)

    def strof(self, sim, v):
        """('q', i, skipped characters) | ('t', design, k) | ('lit', text)"""
        t = sim.lit(v)
        if t is not None:
            return ("lit", t)
        off = 0
        if v[0] == "p" and v[1][0] == "s" and not v[2][1]:
            off, v = v[2][0], v[1][1]
        if v[0] == "u" and isinstance(v[1], tuple) and v[1][0] == "set" and isinstance(v[1][1], tuple):
            return v[1][1] + (off,)
        return None

    def call2(self, sim, st, I, n, args, ctx):
        if n in ("strcasecmp", "strcmp", "strncasecmp", "strncmp"):
            a, b = self.strof(sim, args[0]), self.strof(sim, args[1])
            if a is None or b is None:
                return None
            if a[0] == "lit" and b[0] != "lit":
                a, b = b, a
            if b[0] == "lit":
                if a[0] == "q":
                    same = st.mem.get((("x", "kind"), (a[1], ()))) == "all" and a[2] == 0 and b[1].lower() == ALL
                    return [(ZERO if same else ("c", 1), st)]
                if a[0] == "t":
                    return [(("c", 1), st)]
                return None
            if a[0] == "q" and b[0] == "q":
                return None
            if a[0] == "t":
                a, b = b, a
            if a[0] != "q" or b[0] != "t":
                return None
            kind = st.mem.get((("x", "kind"), (a[1], ())))
            if a[2] != (1 if kind in "+-" else 0) or b[-1] != 0:
                return [(("c", 1), st)]       # a tag with a prefix or a truncated tag: never equal
            key = ("same", a[1], b[1], b[2])
            for e in st.q or ():
                if e[:4] == key:
                    return [(ZERO if e[4] and n == "strcasecmp" else ("c", 1), st)]
            out = []
            for v in (True, False):
                s2 = st.copy()
                s2.q = (s2.q or ()) + (key + (v, n),)
                out.append((ZERO if v else ("c", 1), s2))
            return out
        if n == "sort_designs_by_name":
            st = st.copy()
            l = ("h", "list", 0)
            for i in range(self.ndes):
                st.mem[(l, (8 * i, ()))] = ("p", ("h", "design", i), NOOFF)
            return [(("p", l, NOOFF), st)]
        if n in PRINTERS:
            st = st.copy()
            st.q = (st.q or ()) + (("print", tuple(sim.lit(a) if sim.lit(a) is not None else a for a in args)),)
            return [(UNK, st)]
        return None


def setup(mod, query, tags, aliases):
    st = St()
    F, D = fields(mod, "opt_t"), fields(mod, "design_t")
    OPT = ("g", "opt")

    def opaque(name):
        v = ("u", ("set", name))
        st.facts[("ne", v)] = frozenset((0,))
        return v

    qa = ("h", "query", 0)
    for i, k in enumerate(query):
        v = opaque(("q", i))
        st.mem[(("x", "kind"), (i, ()))] = k
        first = {"+": 43, "-": 45, "all": 40, "p": 65}[k]
        st.mem[(("s", v), NOOFF)] = ("c", first)
        st.mem[(qa, (8 * i, ()))] = v
    st.mem[(qa, (8 * len(query), ()))] = ZERO
    st.mem[(OPT, (F["query"][0], ()))] = ("p", qa, NOOFF)
    st.mem[(OPT, (F["outfile"][0], ()))] = opaque("outfile")
    st.mem[(OPT, (F["eol"][0], ()))] = opaque("eol")
    st.mem[(("g", "num_designs"), NOOFF)] = ("c", len(tags))
    for d in range(len(tags)):
        b = ("h", "design", d)
        st.mem[(b, (D["name"][0], ()))] = opaque(("name", d))
        for what, cnt in (("tags", tags[d]), ("aliases", aliases[d])):
            a = ("h", what, d)
            for k in range(cnt):
                st.mem[(a, (8 * k, ()))] = opaque((what[0], d, k))
            st.mem[(a, (8 * cnt, ()))] = ZERO
            st.mem[(b, (D[what][0], ()))] = ("p", a, NOOFF)
    return st


def expected(query, ntags, d, known):
    """set of possible results over all completions of what was not asked; a mix of plain and required tags leaves the plain ones open"""
    asked = [(i, k) for i in range(len(query)) if query[i] != "all" for k in range(ntags)]
    free = [a for a in asked if a not in known]
    res = set()
    for comb in product((False, True), repeat=len(free)):
        eq = dict(known)
        eq.update(zip(free, comb))
        has = {i: any(eq[(i, k)] for k in range(ntags)) for i in range(len(query)) if query[i] != "all"}
        if any(query[i] == "+" and not has[i] or query[i] == "-" and has[i] for i in has):
            res.add(False)
        elif "all" in query or any(query[i] == "p" and has[i] for i in has):
            res.add(True)
        elif "+" in query:
            res.add(True)
        else:
            res.add(False)
    return res


def check(tree, rep):
    mod = tree.module()
    need_fn(mod, "query_by_tag", "parse_query", "sort_designs_by_name")
    queries = [q for l in (1, 2, 3) for q in product(("p", "+", "-", "all"), repeat=l) if q.count("all") <= 1 and any(k != "-" for k in q)]
    npaths = nob = 0
    F = fields(mod, "opt_t")
    for q in queries:
        for tags, aliases in (((0,), (0,)), ((1,), (1,)), ((2,), (0,)), ((1, 1), (0, 2))):
            if len(q) == 3 and (tags != (1,)):
                continue
            h = Q(mod, len(tags))
            s = Sim(mod, h, cap=3000, budget=120000)
            st0 = setup(mod, q, tags, aliases)
            ends = s.run("query_by_tag", [], st0)
            if s.overrun:
                rep.unresolved("query %s" % (q,))
            for v, st in ends:
                npaths += 1
                known = {}
                for e in st.q or ():
                    if e[0] == "same":
                        known.setdefault(e[2], {})[(e[1], e[3])] = e[4]
                        if e[5] != "strcasecmp":
                            rep.violation("case", "query_by_tag() (src/query.c): tags are compared with %s(), which depends on letter case" % e[5])
                prints = [e[1] for e in st.q or () if e[0] == "print"]
                seen = []
                for p in prints:
                    txt = repr(p)
                    for d in range(len(tags)):
                        if repr(("u", ("set", ("name", d)))) in txt:
                            seen.append(("name", d))
                        for k in range(aliases[d]):
                            if repr(("u", ("set", ("a", d, k)))) in txt:
                                seen.append(("alias", d, k))
                                if not any(isinstance(x, str) and "(alias)" in x for x in p) and not any(isinstance(x, str) and "(alias)" in x for pp in prints for x in pp):
                                    rep.violation("aliasmark", "query_by_tag() (src/query.c): alias names are printed without the marker (alias)")
                want = []
                for d in range(len(tags)):
                    nob += 1
                    exp = expected(q, tags[d], d, known.get(d, {}))
                    got = ("name", d) in seen
                    if exp != {got}:
                        txt = ",".join({"p": "tag", "+": "+tag", "-": "-tag", "all": ALL}[k] + (str(i + 1) if k != "all" else "") for i, k in enumerate(q))
                        have = sorted("tag%d" % (i + 1) for (i, k), x in known.get(d, {}).items() if x)
                        rep.violation("select:%s" % ",".join(q), "query_by_tag() (src/query.c): query %s %s a design with %s" % (txt, "selects" if got else "does not select", " and ".join(have) if have else "none of these tags"))
                    if got:
                        want += [("name", d)] + [("alias", d, k) for k in range(aliases[d])]
                if [x for x in seen] != want and all(("name", d) in seen or not any(x[1] == d for x in seen) for d in range(len(tags))):
                    rep.violation("format", "query_by_tag() (src/query.c): names are not printed once each, in order, with the aliases after their design: %s instead of %s" % (seen, want))
                elif any(x[0] == "alias" and ("name", x[1]) not in seen for x in seen):
                    rep.violation("aliasonly", "query_by_tag() (src/query.c) prints aliases of a design which does not match")
                for p in prints:
                    if p and isinstance(p[0], tuple) and p[0] != ("u", ("set", "outfile")) and p[-1] != ("u", ("set", "outfile")):
                        rep.violation("stream", "query_by_tag() (src/query.c) prints to another stream than the output file")
                if v is not None and v[0] == "c" and v[1] != 0:
                    rep.violation("rc", "query_by_tag() (src/query.c) fails although nothing went wrong")
    k = parsing(mod, rep)
    rep.cov.update(explanation="query_by_tag() on opaque queries (every sequence of up to 3 plain, +, - and (all) elements) and opaque tags, with both outcomes of every comparison; the designs printed must follow from the documented meaning for every completion of "
                               "the comparisons not made. parse_query() on opaque elements with every outcome of the questions empty / valid / duplicate / prefix.", queries=len(queries), paths=npaths, obligations=nob, parse_paths=k)
    rep.assumptions += ["memory allocation succeeds", "debug logging is off", "with required tags in the query, plain tags neither add nor remove designs (left open by the manual)"]


class PQ(BxHooks):
    alloc_ok = True
    keep = ()
    N = 2

    def __init__(self, mod):
        self.mod = mod

    def inline(self, sim, name):
        return name not in ("tag_is_valid", "trimdup")

    def ev(self, st, *e):
        st.q = (st.q or ()) + (e,)

    def elem(self, v):
        off = 0
        if v[0] == "p" and v[1][0] == "s" and not v[2][1]:
            off, v = v[2][0], v[1][1]
        if v[0] == "u" and isinstance(v[1], tuple) and v[1][0] == "set" and isinstance(v[1][1], tuple) and v[1][1][0] == "el":
            return v[1][1][1], off
        return None

    def fact(self, st, *k):
        for e in st.q or ():
            if e[:len(k)] == k:
                return e[len(k)]
        return None

    def call2(self, sim, st, I, n, args, ctx):
        if n in ("strtok", "strtok_r", "strsep"):
            i = len([e for e in st.q or () if e[0] == "tok"])
            out = []
            if i < self.N:
                s2 = st.copy()
                self.ev(s2, "tok", i)
                v = ("u", ("set", ("raw", i)))
                s2.facts[("ne", v)] = frozenset((0,))
                out.append((v, s2))
            s3 = st.copy()
            out.append((ZERO, s3))
            return out
        if n == "trimdup":
            i = len([e for e in st.q or () if e[0] == "tok"]) - 1
            out = []
            for k, first in (("empty", 0), ("p", 65), ("+", 43), ("-", 45), ("all", 40)):
                s2 = st.copy()
                self.ev(s2, "kind", i, k)
                v = ("u", ("set", ("el", i)))
                s2.facts[("ne", v)] = frozenset((0,))
                s2.mem[(("s", v), NOOFF)] = ("c", first)
                if k != "empty":
                    s2.mem[(("s", v), (1, ()))] = ("c", 0 if k == "p" else 66)
                out.append((v, s2))
            return out
        if n == "strlen":
            e = self.elem(args[0])
            if e:
                k = self.fact(st, "kind", e[0])
                return [(ZERO if k == "empty" else ("c", (5 if k == "all" else 1 if k == "p" else 2) - e[1]), st)]
            return None
        if n == "tag_is_valid":
            e = self.elem(args[0])
            if e is None:
                return None
            if self.fact(st, "kind", e[0]) == "all" or e[1] != (1 if self.fact(st, "kind", e[0]) in "+-" else 0):
                return [(ZERO, st)]
            k = self.fact(st, "valid", e[0])
            if k is not None:
                return [(("c", k), st)]
            out = []
            for v in (1, 0):
                s2 = st.copy()
                self.ev(s2, "valid", e[0], v)
                out.append((("c", v), s2))
            return out
        if n in ("strcmp", "strcasecmp"):
            a, b = self.elem(args[0]), self.elem(args[1])
            t = sim.lit(args[1]) if b is None else sim.lit(args[0]) if a is None else None
            e = a or b
            if e and t is not None:
                same = t == ALL and self.fact(st, "kind", e[0]) == "all" and e[1] == 0
                return [(ZERO if same else ("c", 1), st)]
            if a and b:
                ka, kb = self.fact(st, "kind", a[0]), self.fact(st, "kind", b[0])
                if a[1] != (1 if ka in "+-" else 0) or b[1] != (1 if kb in "+-" else 0):
                    return [(("c", 1), st)]
                if ka == kb == "all":
                    return [(ZERO, st)]
                if "all" in (ka, kb):
                    return [(("c", 1), st)]
                key = ("dup",) + tuple(sorted((a[0], b[0])))
                k = self.fact(st, *key)
                if k is None:
                    out = []
                    for v in (1, 0):
                        s2 = st.copy()
                        self.ev(s2, *key, v)
                        self.ev(s2, "by", n)
                        out.append((ZERO if v else ("c", 1), s2))
                    return out
                return [(ZERO if k else ("c", 1), st)]
            return None
        if n in ("fprintf", "bx_fprintf", "perror"):
            st = st.copy()
            self.ev(st, "diag")
            return [(UNK, st)]
        if n == "realloc":
            return ParserHooks.grow(self, sim, st, I, args, ctx)
        return None

    def limit(self, sim, st, base):
        return None


def parsing(mod, rep):
    h = PQ(mod)
    s = Sim(mod, h, cap=3000, budget=300000)
    arg = ("u", ("set", "argument"))
    st = St()
    st.facts[("ne", arg)] = frozenset((0,))
    ends = s.run("parse_query", [arg], st)
    if s.overrun:
        rep.unresolved("parse_query: path budget")
    n = 0
    V = lambda k, t: rep.violation("parse:" + k, "parse_query() (src/query.c): " + t)
    for v, x in ends:
        n += 1
        q = x.q or ()
        toks = [e[1] for e in q if e[0] == "tok"]
        kinds = {e[1]: e[2] for e in q if e[0] == "kind"}
        valid = {e[1]: e[2] for e in q if e[0] == "valid"}
        dups = {(e[1], e[2]): e[3] for e in q if e[0] == "dup"}
        if any(e[0] == "by" and e[1] != "strcasecmp" for e in q):
            V("case", "duplicates are looked for with a comparison which depends on letter case")
        real = [i for i in toks if kinds.get(i) not in ("empty", None)]
        bad = any(valid.get(i) == 0 for i in real)
        dup = any(dups.values()) or sum(1 for i in real if kinds[i] == "all") > 1
        text = ",".join("" if kinds.get(i) in ("empty", None) else {"p": "tag", "+": "+tag", "-": "-tag", "all": ALL}[kinds[i]] for i in toks)
        null = v == ZERO or s.nonzero(x, v) is False
        if bad or dup or not real:
            why = "an invalid tag" if bad else "a duplicate" if dup else "no element"
            if not null:
                V("accept:" + why, "a query with %s (%s) is accepted" % (why, text))
            elif not any(e[0] == "diag" for e in q):
                V("mute:" + why, "a query with %s (%s) is refused without a message" % (why, text))
            continue
        unchecked = [i for i in real if kinds[i] != "all" and i not in valid]
        undup = [(a, b) for a in real for b in real if a < b and "all" not in (kinds[a], kinds[b]) and (a, b) not in dups]
        if null:
            V("refuse:" + text, "the valid query '%s' is refused" % text)
            continue
        if unchecked:
            V("unchecked", "the query '%s' is accepted without the tag having been checked" % text)
        if undup:
            V("undup", "the query '%s' is accepted without having been checked for duplicates" % text)
        b = (v[1], v[2][0]) if v[0] == "p" else (("s", v), 0)
        els = []
        for i in range(4):
            c = cell(x, b[0], b[1] + 8 * i)
            if c == ZERO:
                break
            els.append(c)
        else:
            V("end", "the query is not terminated")
            continue
        names = []
        for c in els:
            e = h.elem(c)
            names.append(e if e else s.lit(c))
        want = [(i, 0) for i in real] + ([ALL] if all(kinds[i] == "-" for i in real) else [])
        if names != want and all(e is not None for e in names):
            V("list:" + text, "the query '%s' becomes %s" % (text, [("element %d" % (e[0] + 1) if isinstance(e, tuple) else e) for e in names]))
    return n
