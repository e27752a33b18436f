"""C32: the design which is used is the one asked for."""
from itertools import product
from sim import Sim, St, UNK, ZERO, NOOFF, DFLT
from bx import BxHooks, fields, cell, need_fn
from parse import Parser, ParserHooks, BISON
from mainsim import MainHooks, OK
from modes import mode_run, MODES, MEND
from c13 import sample_stubs, block_rules, legal

ONE = ("c", 1)
OPT = ("g", "opt")
CHOICE = ("u", ("set", "name asked for"))
QUERY = ("u", ("set", "query"))


def options(P, st, choice=0, r=0, l=0, query=0):
    F = fields(P.mod, "opt_t")
    st.mem[(OPT, DFLT)] = ZERO
    for k, v in (("design_choice_by_user", choice), ("r", 1 if r else 0), ("l", l), ("mend", MEND(P.mod) if r == 2 else 0)):
        st.mem[(OPT, (F[k][0], ()))] = ("c", v)
    st.facts[("ne", CHOICE)] = st.facts[("ne", QUERY)] = frozenset((0,))
    st.mem[(OPT, (F["design"][0], ()))] = CHOICE if choice else ZERO
    st.mem[(OPT, (F["query"][0], ()))] = QUERY if query else ZERO
    return st


def second(P, st, idx, aliases):
    """makes the current design number idx, with aliases; earlier ones have opaque names"""
    l = P.design(st)
    arr = ("h", "designs", 0)
    for (b, o), v in list(st.mem.items()):
        if b == l[0]:
            st.mem[(arr, o if o == DFLT else (o[0] - l[1] + idx * P.dsize, o[1]))] = v
    st.mem[(arr, DFLT)] = ZERO
    st.mem[(BISON, (P.B["designs"][0], ()))] = ("p", arr, NOOFF)
    st.mem[(BISON, (P.B["design_idx"][0], ()))] = ("c", idx)
    for i in range(idx):
        st.mem[(arr, (i * P.dsize + P.D["name"][0], ()))] = P.nonnull(st, ("old name", i))
        al = ("h", "old aliases", i)
        st.mem[(al, (0, ()))] = ZERO
        st.mem[(arr, (i * P.dsize + P.D["aliases"][0], ()))] = ("p", al, NOOFF)
    al = ("h", "aliases", 0)
    for i in range(aliases):
        st.mem[(al, (8 * i, ()))] = P.nonnull(st, ("alias", i))
    st.mem[(al, (8 * aliases, ()))] = ZERO
    st.mem[(arr, (idx * P.dsize + P.D["aliases"][0], ()))] = ("p", al, NOOFF)


class Cmp(ParserHooks):
    """comparisons of the name asked for with the design's names: both outcomes, same pair same outcome"""
    names = {}

    def call2(self, sim, st, I, n, args, ctx):
        if n in ("strcasecmp", "strcmp", "strncasecmp", "strncmp") and CHOICE in args[:2]:
            o = args[1] if args[0] == CHOICE else args[0]
            w = self.names.get(o)
            if w is None and o[0] == "u" and o[1][0] == "copyof":
                w = self.names.get(o[1][1])
            if w is None:
                return [(UNK, st)]
            exact = n == "strcasecmp"
            out = []
            for e in st.q or ():
                if e[0] == "cmp" and e[1] == w and e[3] == exact:
                    return [(ZERO if e[2] else ONE, st)]
            for v in (True, False):
                s2 = st.copy()
                self.ev(s2, "cmp", w, v, exact)
                out.append((ZERO if v else ONE, s2))
            return out
        if n == "strdup":
            v = ("u", ("copyof", args[0]))
            st = st.copy()
            st.facts[("ne", v)] = frozenset((0,))
            return [(v, st)]
        return ParserHooks.call2(self, sim, st, I, n, args, ctx)


# ---- beginning of a design ---------------------------------------------------------------------------------------------------------
def start(P, rep, V):
    g = P.g
    rd = [k for k in g.find(lhs="design") if g.rules[k][1][:1] == ["YBOX"]]
    mid = [k for r in rd for x in g.rules[r][1] for k in g.find(lhs=x) if k in g.cases and not g.rules[k][1]]
    if len(mid) != 1:
        rep.unresolved("rule for the beginning of a design")
        return 0
    mid = mid[0]
    tok = g.token(mid, 2)
    n = 0
    where = "action_start_parsing_design() (src/parsecode.c): "
    for choice, r, l, q, idx, al in product((0, 1), (0, 1, 2), (0, 1), (0, 1), (0, 1, 2), (0, 1, 2)):
        if not choice and al == 2:
            continue
        st = P.init()
        second(P, st, idx, al)
        options(P, st, choice, r, l, q)
        st.facts[("ne", tok)] = frozenset((0,))
        h = Cmp(P.mod)
        h.names = dict([(tok, "name"), (("u", ("copyof", tok)), "name")] + [(("u", ("set", ("alias", i))), "alias %d" % i) for i in range(al)])
        for o, x in P.rule(mid, h, st):
            if o not in ("ok", "error"):
                if o == "abort":
                    V("abort", where + "parsing is aborted although nothing is wrong")
                continue
            n += 1
            cmps = [e for e in x.q or () if e[0] == "cmp"]
            hit = [e for e in cmps if e[2] and e[3]]
            asked = {e[1] for e in cmps if e[3]}
            mode = " ".join(s for s, v in (("-d", choice), (("-m" if r == 2 else "-r"), r), ("-l", l), ("-q", q)) if v) or "(no option)"
            if not choice:
                want = r or l or q or idx == 0
                if (o == "ok") != bool(want):
                    V("start:%s:%d" % (mode, idx), where + "with %s, design number %d of a configuration is %s" % (mode, idx + 1, "skipped" if want else "not skipped although an earlier one is used"))
            elif o == "ok":
                if not hit:
                    V("start:wrong", where + "with -d, a design is used although neither its name nor an alias (compared regardless of letter case) is the one asked for")
            else:
                if hit:
                    V("start:skipped", where + "with -d, a design is skipped although its %s is the one asked for" % hit[0][1].split()[0])
                elif asked != {"name"} | {"alias %d" % i for i in range(al)}:
                    if not any(e[1] not in asked for e in cmps if not e[3]) or True:
                        miss = sorted({"name"} | {"alias %d" % i for i in range(al)} - asked)
                        miss = [m for m in miss if m not in asked]
                        V("start:unasked", where + "with -d, a design is skipped without its %s (%d aliases) having been compared, regardless of letter case, with the name asked for" % (miss[0], al))
            if o == "ok":
                nm = P.dget(x, "name")
                if nm[0] == "c" or nm[0] == "u" and nm[1][0] == "set":
                    V("name", where + "the design does not get the name given at BOX")
                for f in ("speeding", "skipping"):
                    v = cell(x, BISON, P.B[f][0])
                    if v[0] == "c" and v[1]:
                        V("speeding", where + "a design which is needed is left marked as being skipped")
    return n


# ---- end of a design -----------------------------------------------------------------------------------------------------------------
def end(P, rep, V):
    n = 0
    where = "action_add_design() (src/parsecode.c): "
    blocks, rd = block_rules(P)
    g = P.g
    h = ParserHooks(P.mod, stubs=sample_stubs(P))
    st = P.init()
    legal(P, st)
    if "num_shapespec" in P.B:
        st.mem[(BISON, (P.B["num_shapespec"][0], ()))] = ("c", 4)
    for b in ("SAMPLE", "SHAPES", "ELASTIC"):
        r = [x for o, x in P.rule(blocks[b], h, st) if o == "ok"]
        if not r:
            rep.unresolved("no legal design")
            return 0
        st = r[0]
        st.q = None
    base = st
    arr = ("h", "designs", 0)

    def strings(fn, a, b):
        ids = {g.token(rd, 2), g.token(rd, g.rules[rd][1].index("ASCII_ID") + 1)}
        if {a, b} == ids:
            return 0
        if any(isinstance(v, tuple) and v[0] == "u" and v[1][0] == "set" and v[1][1][0] in ("old name", "alias") for v in (a, b)):
            return 1
        return None
    for choice, r, l, q, idx in product((0, 1), (0, 1, 2), (0, 1), (0, 1), (0, 1)):
        full = not choice and (r or l or q)
        if idx and not full:
            continue
        st = base.copy()
        second(P, st, idx, 0)
        options(P, st, choice, r, l, q)
        mode = " ".join(s for s, v in (("-d", choice), (("-m" if r == 2 else "-r"), r), ("-l", l), ("-q", q)) if v) or "(no option)"
        me = P.nonnull(st, "own name")
        P.dset(st, "name", me)
        mh = P.dget(st, "minheight")
        for o, x in P.rule(rd, ParserHooks(P.mod, stubs=sample_stubs(P), strings=strings), st):
            n += 1
            if o == "accept":
                if full:
                    V("stop:%s" % mode, where + "with %s, reading the configuration stops after the first design" % mode)
                cnt = cell(x, BISON, P.B["num_designs"][0])
                if cnt[0] == "c" and cnt[1] != idx + 1:
                    V("count", where + "%d designs are handed over where there are %d" % (cnt[1], idx + 1))
            elif o == "ok":
                i = cell(x, BISON, P.B["design_idx"][0])
                if not full and i == ("c", idx):
                    V("overwrite", where + "the next design will overwrite the one just read")
                if full and i[0] == "c" and i != ("c", idx + 1):
                    V("index", where + "the next design is not put behind the one just read")
                d = cell(x, BISON, P.B["designs"][0])
                b = (d[1], d[2][0]) if d[0] == "p" else (("s", d), 0)
                kept = cell(x, b[0], b[1] + idx * P.dsize + P.D["name"][0])
                if kept != me and (kept[0] == "c" or kept[0] == "u" and kept[1][0] in ("set", "copyof")):
                    V("lost", where + "the design just read is lost")
                new = cell(x, b[0], b[1] + (idx + 1) * P.dsize + P.D["name"][0])
                if new == me:
                    V("init", where + "the next design starts out with the name of the one before it")
            else:
                V("refused:%s" % o, where + "with %s, a complete design with a new name is refused" % mode)
    # ---- end of the file
    fin = [k for k in g.cases if "config_file" in g.rules[k][1] and g.rules[k][1] and g.rules[k][1][0].startswith(("$@", "@"))]
    if len(fin) != 1:
        rep.unresolved("rule for the end of the configuration")
        return n
    for idx, choice, parents in product((0, 1, 2), (0, 1), (0, 1)):
        st = P.init()
        second(P, st, idx, 0)
        options(P, st, choice, 0, 1)
        st.mem[(BISON, (P.B["num_parent_configs"][0], ()))] = ("c", parents)

        def say(sim, s, I, args):
            s.q = (s.q or ()) + (("diag",),)
            return [(UNK, s)]
        for o, x in P.rule(fin[0], ParserHooks(P.mod, {"fprintf": say, "bx_fprintf": say, "perror": say}), st):
            n += 1
            cnt = cell(x, BISON, P.B["num_designs"][0])
            w = "end of a configuration (src/parser.y): "
            if cnt[0] == "c" and cnt[1] != idx:
                V("file:count", w + "%d designs are handed over where %d have been completed" % (cnt[1], idx))
            if idx and o in ("abort", "error"):
                V("file:fail", w + "a configuration with %d complete designs fails" % idx)
            if not idx and o in ("ok", "accept") and not choice and not parents:
                V("file:empty", w + "a configuration without any design and without parents is accepted")
            if not idx and o == "abort":
                if ("diag",) not in (x.q or ()):
                    V("file:mute", w + "a configuration without any design is refused without a message")
                if parents:
                    V("file:parents", w + "a configuration which only refers to parents is refused")
            if idx:
                d = cell(x, BISON, P.B["designs"][0])
                b = (d[1], d[2][0]) if d[0] == "p" else (("s", d), 0) if d[0] == "u" else None
                if b:
                    for i in range(idx):
                        v = cell(x, b[0], b[1] + i * P.dsize + P.D["name"][0])
                        if v != ("u", ("set", ("old name", i))) and (v[0] == "c" or v[0] == "u" and v[1][0] == "set"):
                            V("file:lost", w + "design number %d of %d is lost" % (i + 1, idx))
                elif d == ZERO:
                    V("file:lost", w + "the designs are lost")
    return n


# ---- main ---------------------------------------------------------------------------------------------------------------------------
USE = ("generate_box", "output_box", "remove_box", "list_designs", "query_by_tag", "analyze_input")


class M(MainHooks):
    """which design is the current one when a phase is entered"""
    count = 7

    def effects(self, sim, st, n, args, res):
        if n == "parse_config_files" and res == OK:
            l = sim.loc(args[1]) if len(args) > 1 else None
            if l:
                st.mem[(l[0], l[1])] = ("c", self.count)
        if n in USE:
            st.q = st.q[:-1] + (st.q[-1] + (cell(st, OPT, self.F["design"][0]), cell(st, ("g", "num_designs"), 0), cell(st, ("g", "designs"), 0)),)


def use(mod, rep, V):
    n = 0
    want = ("p", ("s", ("u", ("stub", "parse_config_files"))), NOOFF)
    for name in ("list (-l)", "query (-q)", "draw", "remove (-r)", "mend (-m)"):
        h, s, ends = mode_run(mod, name, hooks=M)
        for code, st, tr in ends:
            for e in tr:
                if e[0].split("(")[0] not in USE or len(e) < 5:
                    continue
                n += 1
                d, cnt, arr = e[2:5]
                if d != want and (d == ZERO or d[0] == "p" or d[0] == "u" and d[1][0] in ("set", "ld")):
                    V("main:design", "main (src/boxes.c): in mode '%s', %s() works on something other than the first of the designs found" % (name, e[0]))
                if cnt[0] == "c" and cnt[1] != M.count and name in ("list (-l)", "query (-q)", "remove (-r)", "mend (-m)"):
                    V("main:count", "main (src/boxes.c): in mode '%s', %s() gets to see %d of %d designs" % (name, e[0], cnt[1], M.count))
                if arr != want and (arr == ZERO or arr[0] == "p"):
                    V("main:list", "main (src/boxes.c): in mode '%s', %s() does not get the designs found" % (name, e[0]))
        if s.overrun:
            rep.unresolved("main, mode %s: path budget" % name)
    return n


def check(tree, rep):
    P = Parser(tree)
    mod = P.mod
    need_fn(mod, "action_start_parsing_design", "action_add_design", "parse_config_files", "main")
    V = rep.violation
    a, b, c = start(P, rep, V), end(P, rep, V), use(mod, rep, V)
    rep.need(a and b and c, "no instance (%d, %d, %d)" % (a, b, c))
    rep.cov.update(explanation="Actions of the grammar rules at BOX, at END and at the end of the file are interpreted for all combinations of -d, -r, -l, -q with up to 2 completed designs and up to 2 aliases, every outcome of each name "
                               "comparison; then all paths of main() up to each use of the design.",
                   decisions_at_box=a, decisions_at_end=b, uses_in_main=c, interpreter_steps=P.steps)
    rep.assumptions += ["memory allocation succeeds", "debug logging is off", "loading of parents is covered by C14"]
