"""C17: replacement and reversion rules are recorded and applied as documented."""
from sim import Sim, St, UNK, ZERO, NOOFF
from bx import BxHooks, fields, cell, need_fn
from parse import Parser, ParserHooks
from words import ERRNO

RULES = ("h", "rules", 0)
LINES = ("h", "lines", 0)


# ---- recording ----------------------------------------------------------------------------------------------------------------
def recording(tree, rep, V):
    P = Parser(tree)
    g, mod = P.g, P.mod
    R = fields(mod, "reprule_t")
    rsize = mod.structs["struct.reprule_t"]["size"]
    n = 0

    def strdup(sim, x, I, args):
        v = ("u", ("copyof", args[0]))
        x.facts[("ne", v)] = frozenset((0,))
        return [(v, x)]
    for tok, lst, cnt, other, ocnt in (("YREPLACE", "reprules", "num_reprules", "revrules", "num_revrules"), ("YREVERSE", "revrules", "num_revrules", "reprules", "num_reprules")):
        rr = [r for r in g.find(first=tok) if r in g.cases]
        if len(rr) != 1 or list(g.rules[rr[0]][1])[2::2] != ["STRING", "STRING"]:
            rep.unresolved("rule for %s" % tok)
            continue
        r = rr[0]
        word = tok[1:]
        for have in (0, 1, 3):
            st = P.init()
            P.dset(st, cnt, ("c", have))
            P.dset(st, ocnt, ("c", 5))
            oth = P.nonnull(st, "otherlist")
            P.dset(st, other, oth)
            old = ("h", "oldrules", 0)
            P.dset(st, lst, ("p", old, NOOFF) if have else ZERO)
            for i in range(have):
                st.mem[(old, (i * rsize + R["search"][0], ()))] = P.nonnull(st, ("old", i))
            for k in (3, 5):
                st.facts[("ne", g.token(r, k))] = frozenset((0,))
            h = ParserHooks(mod, {"bxs_strdup": strdup})
            h.limit = lambda sim, x, base: have * rsize if base == old else None
            for o, x in P.rule(r, h, st):
                n += 1
                if o != "ok":
                    V("record:%s:refused" % word, "a %s entry is refused although nothing is wrong with it" % word)
                    continue
                c = P.dget(x, cnt)
                l = P.dget(x, lst)
                if c != ("c", have + 1):
                    V("record:%s:count" % word, "a %s entry after %d others leaves %s rules in the list" % (word, have, c[1] if c[0] == "c" else "?"))
                    continue
                if P.dget(x, other) != oth or P.dget(x, ocnt) != ("c", 5):
                    V("record:%s:other" % word, "a %s entry changes the list of the other kind of rules" % word)
                b = (l[1], l[2][0]) if l[0] == "p" else (("s", l), 0) if l[0] == "u" else None
                if b is None:
                    continue
                get = lambda f, i: cell(x, b[0], b[1] + i * rsize + R[f][0])
                for f, k in (("search", 3), ("repstr", 5)):
                    v = get(f, have)
                    want = g.token(r, k)
                    if v != ("u", ("copyof", want)) and v != want:
                        other_k = g.token(r, 8 - k)
                        if v == ("u", ("copyof", other_k)) or v == other_k or v[0] == "c" or v == UNK and False:
                            V("record:%s:%s" % (word, f), "a %s entry does not record its %s" % (word, "search expression" if f == "search" else "replacement"))
                        else:
                            rep.unresolved("%s: %s" % (word, f))
                m = get("mode", have)
                if m != g.token(r, 2):
                    if m[0] == "c":
                        V("record:%s:mode" % word, "a %s entry ignores ONCE or GLOBAL" % word)
                    else:
                        rep.unresolved("%s: flag" % word)
                for i in range(have):
                    if get("search", i)[0] == "c" or get("search", i) in (("u", ("copyof", g.token(r, 3))),):
                        V("record:%s:lost" % word, "a %s entry overwrites an earlier one" % word)
    # flag: given or default
    for r in g.find():
        l, rhs = g.rules[r]
        if r not in g.cases or "YRXPFLAG" in rhs and len(rhs) > 1 or not ("YRXPFLAG" in rhs or not rhs and (l, ["YRXPFLAG"]) in [(a, list(b)) for a, b in g.rules.values()]):
            continue
        res = P.rule(r, ParserHooks(mod, {}), P.init())
        for (o, x), ph in zip(res, g.phis):
            n += 1
            c = [v[1] for v in ph if v[0] == "c" and v[1] in (ord("g"), ord("o"))]
            if rhs:
                if c:
                    V("record:flag", "the flag given with a rule is replaced by '%s'" % chr(c[0]))
                elif g.token(r, 1) not in ph:
                    rep.unresolved("flag of a rule")
            elif c == [ord("o")]:
                V("record:default", "a rule without ONCE or GLOBAL is not a global one")
            elif not c:
                rep.unresolved("default of the flag")
    return n


# ---- application ----------------------------------------------------------------------------------------------------------------
class A(BxHooks):
    alloc_ok = True

    def __init__(self, mod, fail=None):
        self.mod = mod
        self.fail = fail
        self.R = fields(mod, "reprule_t")
        self.L = fields(mod, "line_t")

    def inline(self, sim, name):
        f = self.mod.defined.get(name)
        return f is not None and name not in ("u32_compile_pattern", "u32_regex_replace", "bxs_from_unicode", "bxs_free", "analyze_line_ascii", "bxs_to_output", "u32_strconv_to_output")

    def ev(self, st, *e):
        st.q = (st.q or ()) + (e,)

    def call2(self, sim, st, I, n, args, ctx):
        if n in ("u32_compile_pattern", "u32_regex_replace", "bxs_from_unicode"):
            out = []
            s2 = st.copy()
            k = len([e for e in s2.q or () if e[0] == n])
            v = ("u", ("res", n, args[0] if n != "u32_regex_replace" else k))
            s2.facts[("ne", v)] = frozenset((0,))
            self.ev(s2, n, tuple(args), v)
            out.append((v, s2))
            s3 = st.copy()
            self.ev(s3, n, tuple(args), ZERO)
            self.ev(s3, "failed", n)
            out.append((ZERO, s3))
            return out
        if n == "analyze_line_ascii":
            l = sim.loc(args[1])
            if l:
                self.ev(st, "analyzed", cell(st, l[0], l[1][0] + self.L["text"][0]))
            return [(UNK, st)]
        if n in ("bxs_free", "fprintf", "bx_fprintf", "perror"):
            return [(UNK, st)]
        return None


def application(mod, rep, V):
    need_fn(mod, "apply_substitutions", "u32_compile_pattern", "u32_regex_replace", "bxs_from_unicode")
    R, L, I, D, F, B = [fields(mod, x) for x in ("reprule_t", "line_t", "input_t", "design_t", "opt_t", "bxstr_t")]
    rsize, lsize = mod.structs["struct.reprule_t"]["size"], mod.structs["struct.line_t"]["size"]
    n = 0
    for mode, lst, cnt in ((0, "reprules", "num_reprules"), (1, "revrules", "num_revrules")):
        for nr, nl in ((0, 1), (1, 1), (2, 2), (1, 2), (2, 1), (2, 0)):
            st = St()
            op = lambda name: (st.facts.__setitem__(("ne", ("u", ("set", name))), frozenset((0,))), ("u", ("set", name)))[1]
            des = ("h", "design", 0)
            inp = ("h", "input", 0)
            st.mem[(("g", "opt"), (F["design"][0], ()))] = ("p", des, NOOFF)
            for l2, c2 in (("reprules", "num_reprules"), ("revrules", "num_revrules")):
                a = ("h", l2, 0)
                st.mem[(des, (D[l2][0], ()))] = ("p", a, NOOFF)
                st.mem[(des, (D[c2][0], ()))] = ("c", nr if l2 == lst else 3)
                for j in range(3):
                    st.mem[(a, (j * rsize + R["search"][0], ()))] = op(("search", l2, j))
                    st.mem[(a, (j * rsize + R["repstr"][0], ()))] = op(("repl", l2, j))
                    st.mem[(a, (j * rsize + R["mode"][0], ()))] = ("c", ord("go"[j % 2]))
            st.mem[(des, (D["indentmode"][0], ()))] = ("c", ord("b"))
            st.mem[(inp, (I["lines"][0], ()))] = ("p", LINES, NOOFF)
            st.mem[(inp, (I["num_lines"][0], ()))] = ("c", nl)
            for k in range(nl):
                st.mem[(LINES, (k * lsize + L["text"][0], ()))] = op(("text", k))
            h = A(mod)
            s = Sim(mod, h, cap=4000, budget=150000)
            where = "apply_substitutions() (src/input.c), %s: " % ("replacement" if mode == 0 else "reversion")
            ld = lambda v, f: ("u", ("ld", (("s", v), (B[f][0], ()))))
            for v, x in s.run("apply_substitutions", [("p", inp, NOOFF), ("c", mode)], st):
                n += 1
                q = x.q or ()
                fl = [e[1] for e in q if e[0] == "failed"]
                rc0 = v == ZERO
                rcn = v[0] == "c" and v[1] != 0 or s.nonzero(x, v) is True
                if fl:
                    if rc0:
                        V("fail:%s" % fl[0], where + "success is returned although %s() failed" % fl[0])
                    continue
                if not rc0:
                    if rcn and x.mem.get((ERRNO, NOOFF)) == ZERO:
                        V("rc:%d" % mode, where + "failure is returned although nothing failed")
                    continue
                comp = {e[2]: e[1][0] for e in q if e[0] == "u32_compile_pattern"}
                rep_ev = [e for e in q if e[0] == "u32_regex_replace"]
                conv = {e[2]: e[1][0] for e in q if e[0] == "bxs_from_unicode"}
                text = {k: ("u", ("set", ("text", k))) for k in range(nl)}
                order = {k: 0 for k in range(nl)}
                for e in rep_ev:
                    prog, repl, src, ln, glob = e[1][:5]
                    k = [i for i in text if ld(text[i], "memory") == src]
                    if not k:
                        V("source:%d" % mode, where + "a rule is applied to something other than the current text of a line")
                        break
                    k = k[0]
                    j = order[k]
                    what = "rule %d of %d on line %d" % (j + 1, nr, k + 1)
                    pat = comp.get(prog)
                    if j >= nr or pat != ld(("u", ("set", ("search", lst, j))), "memory"):
                        V("order:%d" % mode, where + "%s: another rule's search expression is used (rules are to be applied each once, in order, each on the result of the one before)" % what)
                        break
                    if repl != ld(("u", ("set", ("repl", lst, j))), "memory"):
                        V("repl:%d" % mode, where + "%s: another rule's replacement is used" % what)
                        break
                    if glob[0] == "c" and (glob[1] != 0) != (j % 2 == 0):
                        V("flag:%d" % mode, where + "%s: GLOBAL and ONCE are %s" % (what, "confused"))
                        break
                    if ln[0] == "c" or ln[0] == "u" and ln != ld(text[k], "num_chars") and ln[1][0] == "ld" and ln[1][1][0] != ("s", text[k]):
                        V("len:%d" % mode, where + "%s: length of another text" % what)
                        break
                    order[k] += 1
                    nx = [t for t, c in conv.items() if c == e[2]]
                    if not nx:
                        V("result:%d" % mode, where + "%s: the result of the substitution is dropped" % what)
                        break
                    text[k] = nx[0]
                else:
                    for k in range(nl):
                        if order[k] != nr:
                            V("skipped:%d" % mode, where + "only %d of %d rules are applied to line %d of %d" % (order[k], nr, k + 1, nl))
                        now = cell(x, LINES, k * lsize + L["text"][0])
                        if now != text[k] and (now[0] == "c" or now[0] == "u" and now[1][0] in ("set", "res")):
                            V("store:%d" % mode, where + "the result of the rules is not stored as text of the line")
                    if nr and mode == 0:
                        known = {e[1] for e in q if e[0] == "analyzed"}
                        for k in range(nl):
                            if order[k] == nr and text[k] not in known and UNK not in known and not any(repr(ld(text[k], "num_columns")) in repr(f) for f in x.facts):
                                V("width", where + "the width of the text is not updated although the text changed")
            if s.overrun:
                rep.unresolved("apply_substitutions: path budget (%d rules, %d lines)" % (nr, nl))
    return n


# ---- phases -----------------------------------------------------------------------------------------------------------------------
class AI(BxHooks):
    alloc_ok = True

    def __init__(self, mod):
        self.mod = mod

    def inline(self, sim, name):
        return name == "analyze_input" or name in self.mod.defined and name not in HEADERS

    def call2(self, sim, st, I, n, args, ctx):
        if n == "apply_substitutions":
            st = st.copy()
            st.q = (st.q or ()) + ((args[1],),)
            return [(ZERO, st)]
        if n in HEADERS:
            return [(UNK if n != "bxs_trim" else ("u", ("r", n, ctx, I.id)), st)]
        return None


HEADERS = ("analyze_line_ascii", "print_input_lines", "bxs_free", "bxs_trim", "bxs_rtrim", "bxs_append_spaces", "advance32", "bxs_cut_front", "bxs_from_unicode", "u32_strconv_from_arg", "expand_tabs_into", "btrim32", "isempty", "bxs_is_visible_char")


def phases(mod, rep, V):
    need_fn(mod, "analyze_input", "apply_substitutions")
    F, I, L, D = [fields(mod, x) for x in ("opt_t", "input_t", "line_t", "design_t")]
    n = 0
    for r in (0, 1):
        st = St()
        inp = ("h", "input", 0)
        des = ("h", "design", 0)
        st.mem[(("g", "opt"), (F["r"][0], ()))] = ("c", r)
        st.mem[(("g", "opt"), (F["design"][0], ()))] = ("p", des, NOOFF)
        st.mem[(inp, (I["num_lines"][0], ()))] = ("c", 1)
        t = ("u", ("set", "text"))
        st.facts[("ne", t)] = frozenset((0,))
        st.mem[(LINES, (L["text"][0], ()))] = t
        st.mem[(inp, (I["lines"][0], ()))] = ("p", LINES, NOOFF)
        s = Sim(mod, AI(mod), cap=40, budget=60000)
        for v, x in s.run("analyze_input", [("p", inp, NOOFF)], st):
            if v != ZERO:
                continue
            n += 1
            got = [a[0][1] if a[0][0] == "c" else None for a in x.q or ()]
            if None in got:
                rep.unresolved("kind of rules applied by analyze_input")
            elif got != ([0] if r == 0 else []):
                V("phase:%d" % r, "analyze_input() (src/input.c) %s" % ("applies %s when a box is removed" % ("replacement rules" if 0 in got else "reversion rules") if r else
                                                                          "does not apply the replacement rules exactly once when a box is drawn"))
        if s.overrun:
            rep.unresolved("analyze_input: path budget")
    return n


class S(BxHooks):
    alloc_ok = True

    def __init__(self, mod):
        self.mod = mod

    def inline(self, sim, name):
        return name == "u32_regex_replace"

    def call2(self, sim, st, I, n, args, ctx):
        if n.startswith("pcre2_substitute"):
            st = st.copy()
            st.q = (st.q or ()) + (("sub", tuple(args)),)
            out = []
            for rc in (("c", 1), ("c", -48 & 0xffffffff), ("c", -35 & 0xffffffff)):
                s2 = st.copy()
                out.append((rc, s2))
            return out
        return None


def substitution(mod, rep, V):
    n = 0
    A_ = {k: ("u", ("set", k)) for k in ("search", "replace", "input", "len")}
    for glob in (0, 1):
        st = St()
        for k in ("search", "replace", "input"):
            st.facts[("ne", A_[k])] = frozenset((0,))
        s = Sim(mod, S(mod), cap=8, budget=20000)
        for v, x in s.run("u32_regex_replace", [A_["search"], A_["replace"], A_["input"], A_["len"], ("c", glob)], st):
            subs = [e[1] for e in x.q or ()]
            if not subs:
                if v != ZERO:
                    V("subst:none", "u32_regex_replace() (src/regulex.c) can return without substituting")
                continue
            for a in subs:
                n += 1
                w = "u32_regex_replace() (src/regulex.c): "
                if a[0] != A_["search"] or a[1] != A_["input"] or a[7] != A_["replace"]:
                    V("subst:args", w + "search expression, text and replacement are not handed over as such")
                if a[3] != ZERO and a[3][0] == "c":
                    V("subst:start", w + "substitution does not start at the beginning of the line")
                if a[4][0] == "c":
                    if bool(a[4][1] & 0x100) != bool(glob):
                        V("subst:global", w + "%s" % ("only the first occurrence is replaced by a GLOBAL rule" if glob else "all occurrences are replaced by a ONCE rule"))
                    if not a[4][1] & 0x200:
                        V("subst:extended", w + "extended replacement syntax is off")
                else:
                    rep.unresolved("options of the substitution")
                for i in (2, 8):
                    if a[i][0] == "c" and a[i][1] != (1 << 64) - 1 and a[i][1] != -1:
                        V("subst:len", w + "the text is not used up to its end")
    return n


class Grow(BxHooks):
    """results of a given length; too small a buffer is refused, and the length needed told"""
    alloc_ok = True

    def __init__(self, mod, need):
        self.mod, self.need, self.opts, self.ended, self.calls = mod, need, [], False, 0

    def inline(self, sim, name):
        return name == "u32_regex_replace"

    def call2(self, sim, st, I, n, args, ctx):
        if n in ("malloc", "calloc", "realloc"):
            return [(("p", ("h", "out", 0), NOOFF), st)]
        if n.startswith("pcre2_substitute"):
            l = sim.loc(args[10])
            v = st.mem.get(l) if l else None
            if not v or v[0] != "c":
                self.ended = True
                return []
            self.calls += 1
            if args[4][0] == "c":
                self.opts.append(args[4][1])
            if v[1] >= self.need:
                st.mem[l] = ("c", self.need - 1)
                st.q = "done"
                return [(("c", 1), st)]
            if (st.q, v[1]) == (v[1], v[1]):
                st.q = "again"
                self.stuck = True
                return []
            st.q = v[1]
            st.mem[l] = ("c", self.need)
            return [(("c", -48), st)]
        return None


def growing(mod, rep, V):
    n = 0
    w = "u32_regex_replace() (src/regulex.c): "
    A_ = {k: ("u", ("set", k)) for k in ("search", "replace", "input")}
    for ln in (0, 1, 7, 8, 50, 3000):
        for need in (1, 16, 17, 33, 101, 6001, 20000):
            for glob in (0, 1):
                st = St()
                for k in A_:
                    st.facts[("ne", A_[k])] = frozenset((0,))
                h = Grow(mod, need)
                h.stuck = False
                s = Sim(mod, h, cap=60, budget=20000)
                where = " [line of %d characters, result of %d]" % (ln, need - 1)
                for v, x in s.run("u32_regex_replace", [A_["search"], A_["replace"], A_["input"], ("c", ln), ("c", glob)], st):
                    n += 1
                    if x.q != "done" and not h.ended and v[0] in "pc" and not s.overrun:
                        V("grow:lost", w + "the result is %s when it is longer than expected%s" % ("given up" if v == ZERO else "incomplete", where))
                    elif x.q == "done" and v == ZERO:
                        V("grow:none", w + "a successful substitution is taken for a failed one" + where)
                if h.stuck:
                    V("grow:stuck", w + "the same substitution is tried again and again with a buffer which is too small" + where)
                for o in h.opts:
                    if bool(o & 0x100) != bool(glob):
                        V("subst:global", w + "%s" % ("only the first occurrence is replaced by a GLOBAL rule" if glob else "all occurrences are replaced by a ONCE rule") + where)
    return n


class Comp(BxHooks):
    alloc_ok = True

    def __init__(self):
        self.opts = []

    def call2(self, sim, st, I, n, args, ctx):
        if n.startswith("pcre2_compile_"):
            self.opts.append(args[2])
            return [(("p", ("h", "re", 0), NOOFF), st)]
        return None


CHANGING = {0x8: "regardless of letter case", 0x80: "without blanks", 0x40000: "lazily", 0x2000000: "literally", 0x80000000: "at the beginning of lines only", 0x20000000: "at the end of lines only"}


def compiling(mod, rep, V):
    n = 0
    if "u32_compile_pattern" not in mod.defined:
        return 0
    h = Comp()
    for v, x in Sim(mod, h, cap=60, budget=20000).run("u32_compile_pattern", [("u", ("set", "pattern"))], St()):
        n += 1
    for o in h.opts:
        if o[0] == "c":
            for b, t in CHANGING.items():
                if o[1] & b:
                    V("compile", "u32_compile_pattern() (src/regulex.c): search expressions are matched %s" % t)
    return n


def runs(mod, rep, V):
    """kinds of rules applied by main() itself, in order with the removal and drawing phases"""
    from modes import mode_run, phases as ph, failed, CFG
    n = 0
    want = {"draw": (("generate_box",),), "remove (-r)": (("remove_box", "apply_substitutions(1)", "output_input"),), "mend (-m)": (("remove_box", "apply_substitutions(1)", "output_input", "generate_box"), ("remove_box", "apply_substitutions(1)", "output_input")),
            "remove with -c": (("remove_box", "apply_substitutions(1)", "output_input"),)}
    for m, w in want.items():
        h, s, ends = mode_run(mod, m)
        for code, st, tr in ends:
            if failed(tr) or ("diag",) in tr:
                continue
            n += 1
            seq = tuple(x.split("(")[0] if x.startswith("output_input") else x for x in ph(tr) if x.split("(")[0] in ("remove_box", "apply_substitutions", "generate_box", "output_input"))
            if "apply_substitutions(?)" in seq:
                rep.unresolved("%s: kind of rules" % m)
            elif seq and seq not in w:
                V("run:%s:%s" % (m, ">".join(seq)), "main (src/boxes.c), %s: the sequence of removal, rules and drawing is %s; documented: %s" % (m, " > ".join(seq), " or ".join(" > ".join(x) for x in w)))
    return n


def check(tree, rep):
    mod = tree.module()
    V = lambda k, t: rep.violation(k, t)
    a = recording(tree, rep, V)
    b = application(mod, rep, V)
    c = phases(mod, rep, V)
    d = substitution(mod, rep, V)
    e = runs(mod, rep, V)
    g = growing(mod, rep, V)
    k = compiling(mod, rep, V)
    rep.cov.update(explanation="Grammar actions of REPLACE and REVERSE on lists of 0, 1 and 3 earlier rules; apply_substitutions() on up to 2 rules and 2 lines with opaque texts and every outcome of compilation, substitution and conversion; "
                               "analyze_input() for drawing and removal; the call of pcre2_substitute() for ONCE and GLOBAL, and for results of several lengths; the options of pcre2_compile().", record_paths=a, application_paths=b, phase_paths=c, substitution_calls=d, run_paths=e, buffer_paths=g, compilations=k)
    rep.assumptions += ["memory allocation succeeds", "debug logging is off", "pcre2_substitute() does what its documentation says"]
