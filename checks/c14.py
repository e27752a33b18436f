"""C14: parent configurations: each is read once, cycles end, a child's design takes precedence over a parent's of the same name."""
from sim import Sim, St, UNK, ZERO, NOOFF, DFLT
from bx import BxHooks, fields, cell, need_fn
from parse import Parser, ParserHooks, BISON
from common import Broken
from itertools import product

MAXFILES = 4


class H(BxHooks):
    """files: per parsed file (opens, parses, number of parents, number of designs)"""
    alloc_ok = True
    keep = ()

    def __init__(self, mod, files):
        self.mod = mod
        self.files = files
        self.B = fields(mod, "pass_to_bison")
        self.D = fields(mod, "design_t")
        self.dsize = mod.structs["struct.design_t"]["size"]

    def inline(self, sim, name):
        return not name.startswith("yy")

    def ev(self, st, *e):
        st.q = (st.q or ()) + (e,)

    def idx(self, st, what):
        return len([e for e in st.q or () if e[0] == what])

    def call2(self, sim, st, I, n, args, ctx):
        if n in ("bx_fopens", "fopen", "bx_fopen"):
            st = st.copy()
            i = self.idx(st, "open")
            ok = i >= len(self.files) or self.files[i][0]
            self.ev(st, "open", args[0], ok)
            v = ("u", ("file", i))
            st.facts[("ne", v)] = frozenset((0,))
            return [(v if ok else ZERO, st)]
        if n == "yyparse":
            st = st.copy()
            i = self.idx(st, "open") - 1
            f = self.files[i] if 0 <= i < len(self.files) else (True, True, 0, 0)
            self.ev(st, "parse", i)
            l = sim.loc(args[0])
            if l is None:
                return [(UNK, st)]

            def put(k, v):
                st.mem[(l[0], (l[1][0] + self.B[k][0], ()))] = v
            d = ("h", "designs of file", i)
            for k in range(f[3]):
                nm = ("u", ("name", i, k))
                st.facts[("ne", nm)] = frozenset((0,))
                st.mem[(d, (k * self.dsize + self.D["name"][0], ()))] = nm
            put("designs", ("p", d, NOOFF) if f[3] else ZERO)
            put("num_designs", ("c", f[3]))
            p = ("h", "parents of file", i)
            for k in range(f[2]):
                nm = ("u", ("parent", i, k))
                st.facts[("ne", nm)] = frozenset((0,))
                st.mem[(p, (8 * k, ()))] = nm
            put("parent_configs", ("p", p, NOOFF) if f[2] else ZERO)
            put("num_parent_configs", ("c", f[2]))
            return [(ZERO if f[1] else ("c", 1), st)]
        if n == "array_contains_bxs":
            out = []
            for v in (0, 1):
                s2 = st.copy()
                self.ev(s2, "contains", args[2], v)
                if self.idx(s2, "contains") > 2 * MAXFILES:
                    continue
                out.append((("c", v), s2))
            return out
        if n in ("strcasecmp", "strcmp", "strncasecmp", "strncmp") and any(a[0] == "u" and a[1][0] == "name" for a in args[:2] if isinstance(a[1], tuple)):
            out = []
            pair = tuple(sorted((args[0], args[1]), key=repr))
            for e in st.q or ():
                if e[0] == "same" and e[1] == pair:
                    return [(ZERO if e[2] and n == "strcasecmp" else ("c", 1), st)]
            for v in (False, True):
                s2 = st.copy()
                self.ev(s2, "same", pair, v)
                out.append((ZERO if v and n == "strcasecmp" else ("c", 1), s2))
            return out
        if n in ("fprintf", "perror", "bx_fprintf", "yyerror"):
            st = st.copy()
            self.ev(st, "diag")
            return [(UNK, st)]
        if n.startswith("yy") or n in ("inflate_inbuf", "bxs_to_output", "bxs_free"):
            return [(UNK, st)]
        if n == "realloc":
            return ParserHooks.grow(self, sim, st, I, args, ctx)
        return None

    def limit(self, sim, st, base):
        return None


def run(mod, files):
    h = H(mod, files)
    s = Sim(mod, h, cap=400, budget=150000)
    st = St()
    st.mem[(("g", "parent_configs"), NOOFF)] = ZERO
    st.mem[(("g", "num_parent_configs"), NOOFF)] = ZERO
    for g in mod.globals:
        init = mod.globals[g].get("init")
        if init and init[0] in ("null", "zero", "c") and mod.globals[g].get("size", 99) <= 8 and not mod.globals[g].get("const") and g not in ("opt",):
            st.mem.setdefault((("g", g), NOOFF), ("c", init[1]) if init[0] == "c" else ZERO)
    rn = ("h", "r_num_designs", 0)
    first = ("u", ("set", "first config"))
    st.facts[("ne", first)] = frozenset((0,))
    r = s.run("parse_config_files", [first, ("p", rn, NOOFF)], st)
    return s, first, rn, [(v, x) for v, x in r]


def check(tree, rep):
    mod = tree.module()
    need_fn(mod, "parse_config_files", "yyparse", "array_contains_bxs")
    n = paths = 0
    fin = (True, True, 0, 1)
    scen = []
    for f0 in ((True, True, 1, 1), (True, True, 2, 1), (True, True, 0, 1), (True, True, 1, 0), (True, True, 0, 0), (True, False, 0, 0), (False, True, 0, 0)):
        for f1 in ((True, True, 1, 1), (True, True, 1, 2), (True, False, 1, 1), (False, True, 0, 0)):
            if f0[2] == 0 and f1 != (True, True, 1, 1):
                continue
            scen.append((f0, f1, (True, True, 0, 1), fin))
    names = {}
    for sc in scen:
        s, first, rn, ends = run(mod, sc)
        if s.overrun:
            rep.unresolved("scenario %r" % (sc,))
        for v, x in ends:
            q = x.q or ()
            paths += 1
            opened = [e for e in q if e[0] == "open"]
            fresh = [e for e in q if e[0] == "contains" and e[2] == 0]
            if len(opened) > len(sc):
                continue
            if opened and opened[0][1] != first:
                rep.violation("first", "parse_config_files() (src/parsing.c) does not begin with the configuration file it is given")
            # each new parent is read, no other file
            n += 1
            want = sorted(repr(e[1]) for e in fresh)
            got = sorted(repr(e[1]) for e in opened[1:])
            if want != got:
                dup = [g for g in got if got.count(g) > want.count(g)]
                if dup:
                    rep.violation("twice", "parse_config_files() (src/parsing.c) reads a parent file which is already on the list (%d files opened, %d new parents): parents referring to each other are read for ever or twice" % (len(opened), len(fresh)))
                else:
                    rep.violation("lost", "parse_config_files() (src/parsing.c) does not read every parent file: %d parents, %d opened" % (len(fresh), len(opened) - 1))
            # each parent of a parsed file is considered
            asked = {e[1] for e in q if e[0] == "contains"} | {e[1] for e in opened}
            for e in q:
                if e[0] == "parse" and sc[e[1]][1]:
                    for k in range(sc[e[1]][2]):
                        n += 1
                        if ("u", ("parent", e[1], k)) not in asked and (cell(x, rn, 0)[0] == "c"):
                            rep.violation("ignored", "parse_config_files() (src/parsing.c) ignores a parent (number %d of %d) of a configuration file" % (k + 1, sc[e[1]][2]))
            # designs: those of the file itself, then those of the parents which are not there yet
            ds = []
            for e in q:
                if e[0] == "parse" and sc[e[1]][1]:
                    for k in range(sc[e[1]][3]):
                        nm = ("u", ("name", e[1], k))
                        ds.append(nm)
            same = {e[1] for e in q if e[0] == "same" and e[2]}
            diff = {e[1] for e in q if e[0] == "same" and not e[2]}
            kept = []
            und = False
            firstfile = None
            for nm in ds:
                if firstfile is None:
                    firstfile = nm[1][1]
                if nm[1][1] != firstfile:
                    ps = [tuple(sorted((nm, k), key=repr)) for k in kept]
                    if any(p in same for p in ps):
                        continue
                    if any(p not in diff for p in ps):
                        und = True
                kept.append(nm)
            cnt = cell(x, rn, 0)
            if cnt[0] == "c":
                n += 1
                if und and cnt[1] != 0:
                    rep.violation("unchecked", "parse_config_files() (src/parsing.c): a design of a parent is added without having been compared with the designs already there")
                elif not und and cnt[1] != len(kept):
                    rep.violation("count", "parse_config_files() (src/parsing.c): %d designs in the end instead of %d (files %s; a design of a parent is added unless the name, regardless of letter case, is already there)"
                                  % (cnt[1], len(kept), [f for f in sc][: len(opened)]))
            isnull = v == ZERO or s.nonzero(x, v) is False
            n += 1
            if isnull and kept and not und:
                rep.violation("null", "parse_config_files() (src/parsing.c) reports no designs although there are some")
            if isnull and not any(e[0] == "diag" for e in q):
                rep.violation("mute", "parse_config_files() (src/parsing.c) returns no designs without a message")
            if not kept and s.nonzero(x, v) is True:
                rep.violation("none", "parse_config_files() (src/parsing.c) returns a list although there is no design")
            if not isnull and v[0] in ("p", "u") and kept and not und:
                b = (v[1], v[2][0]) if v[0] == "p" else (("s", v), 0)
                for k, nm in enumerate(kept):
                    c = cell(x, b[0], b[1] + k * mod.structs["struct.design_t"]["size"] + fields(mod, "design_t")["name"][0])
                    n += 1
                    if c[0] == "u" and isinstance(c[1], tuple) and c[1][0] == "name" and c != nm:
                        rep.violation("which", "parse_config_files() (src/parsing.c): the design of a parent takes the place of the child's")
    rep.need(paths, "no path through parse_config_files")
    k = references(tree, rep)
    rep.cov.update(explanation="parse_config_files() with yyparse() stubbed by scenarios (files which cannot be opened or parsed, 0..2 parents, 0..2 designs each) and every outcome of the 'already listed' and 'same name' questions; "
                               "files opened and designs returned are compared with the documented meaning. The action of a parent reference on every outcome of its questions.",
                   scenarios=len(scen), paths=paths, obligations=n, reference_paths=k)
    rep.assumptions += ["memory allocation succeeds", "debug logging is off"]


def references(tree, rep):
    """a parent reference is recorded if and only if it names a readable file which is not yet listed"""
    P = Parser(tree)
    mod, g = P.mod, P.g
    r = [k for k in g.find(lhs="parent_def") if k in g.cases]
    if len(r) != 1:
        rep.unresolved("grammar rule of the parent reference")
        return 0
    n = 0
    F = fields(mod, "bxstr_t")

    for empty, glob, valid, exists, known in product((0, 1), (0, 1), (0, 1), (0, 1), (0, 1)):
        def fopen(sim, st, I, args):
            v = ("u", ("set", "file"))
            st.facts[("ne", v)] = frozenset((0,))
            return [(v if exists else ZERO, st)]

        def disc(sim, st, I, args):
            v = ("u", ("set", "global config"))
            st.facts[("ne", v)] = frozenset((0,))
            P.disc = args
            return [(v if exists else ZERO, st)]

        def isglob(f, a, b):
            return (0 if "case" in f else 1) if glob and ":global:" in (str(a).lower(), str(b).lower()) else 1
        h = ParserHooks(mod, stubs={"bxs_is_empty": ("c", empty), "bxs_valid_in_filename": ("c", valid), "bx_fopens": fopen, "discover_config_file": disc,
                                    "array_contains_bxs": ("c", known), "fclose": ZERO, "bxs_free": UNK}, strings=isglob)
        st = P.init()
        st.mem[(BISON, (P.B["num_parent_configs"][0], ()))] = ("c", 1)
        old = ("h", "list", 0)
        st.mem[(old, NOOFF)] = P.nonnull(st, "first parent")
        st.mem[(BISON, (P.B["parent_configs"][0], ()))] = ("p", old, NOOFF)
        good = not empty and exists and (glob or valid)
        for o, x in P.rule(r[0], h, st):
            n += 1
            c = cell(x, BISON, P.B["num_parent_configs"][0])
            d = "%s%s%s%s%s" % ("empty reference" if empty else ":global:" if glob else "file name", "" if valid or glob or empty else " with invalid characters", "" if empty or exists else ", not readable" if not glob else ", none found",
                                ", already listed" if known else "", "")
            if good and not known:
                if o == "error":
                    rep.violation("ref:" + d, "parent reference (%s) is refused" % d)
                elif c[0] == "c" and c[1] != 2:
                    rep.violation("ref:" + d, "parent reference (%s) is not recorded" % d)
                else:
                    l = cell(x, BISON, P.B["parent_configs"][0])
                    b = (l[1], l[2][0]) if l[0] == "p" else (("s", l), 0)
                    e0, e1 = cell(x, b[0], b[1]), cell(x, b[0], b[1] + 8)
                    want = ("u", ("set", "global config")) if glob else g.token(r[0], 2)
                    if e0 != ("u", ("set", "first parent")) and e0 != UNK:
                        rep.violation("lost:" + d, "recording a parent reference loses an earlier one")
                    if e1 != want and e1 != UNK:
                        rep.violation("which:" + d, "parent reference (%s): not the file referred to is recorded" % d)
            elif good and known:
                if c[0] == "c" and c[1] != 1:
                    rep.violation("ref:" + d, "parent reference (%s) is recorded twice" % d)
                if o == "error":
                    rep.violation("ref:" + d, "parent reference (%s) is refused" % d)
            else:
                if o != "error" and o != "abort":
                    rep.violation("ref:" + d, "parent reference (%s) is not refused" % d)
                elif c[0] == "c" and c[1] != 1:
                    rep.violation("refrec:" + d, "parent reference (%s) is recorded although it is refused" % d)
                elif not x.q:
                    rep.violation("refmute:" + d, "parent reference (%s) is refused without a message" % d)
    return n
