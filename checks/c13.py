"""C13: a design is accepted only when complete and consistent; complete, consistent designs are accepted."""
from itertools import product
from parse import Parser, ParserHooks, cell, fields, ZERO, UNK, NOOFF, DFLT, BISON, St
from sim import Sim
from bx import enumval, need_fn
from common import Broken

NAMES = ("NW", "NNW", "N", "NNE", "NE", "ENE", "E", "ESE", "SE", "SSE", "S", "SSW", "SW", "WSW", "W", "WNW")
SIDES = {"top": (0, 1, 2, 3, 4), "right": (4, 5, 6, 7, 8), "bottom": (8, 9, 10, 11, 12), "left": (12, 13, 14, 15, 0)}
RC = {"RC_SUCCESS": "ok", "RC_ERROR": "error", "RC_ABORT": "abort", "RC_ACCEPT": "accept"}


def legal(P, st, names=None, w=1, h=1):
    """all shapes present, same size, one elastic shape in the middle of each side"""
    for i in range(16):
        P.full_shape(st, i, ("c", w), ("c", h), 1 if i in (2, 6, 10, 14) else 0)


def sample_stubs(P):
    def text(sim, st, I, args):
        st.facts[("ne", ("u", ("text", I.id)))] = frozenset((0,))
        return [(("u", ("text", I.id)), st)]
    return {"regex_replace": text, "compile_pattern": text, "bxs_from_unicode": text, "bxs_is_empty": ZERO, "bxs_valid_in_sample": ("c", 1), "u32_strlen": UNK,
            "perform_se_check": ZERO, "discover_config_file": UNK, "bxs_valid_in_shape": ("c", 1)}


def check(tree, rep):
    P = Parser(tree)
    g = P.g
    mod = P.mod
    need_fn(mod, "perform_se_check", "action_add_design", "action_finalize_shapes", "action_sample_block", "on_side")
    n_rc = rc_mapping(P, rep)
    n_st = mandatory(P, rep)
    n_ad = names(P, rep)
    n_sz = sizes(P, rep)
    n_el = elastics(P, rep)
    n_al = aliases(P, rep)
    n_en = entries(P, rep)
    rep.cov.update(explanation="Grammar rules come from bison's own description of parser.y, their actions from the cases of the generated parser's switch. Return code propagation of every rule action; "
                               "typestate of the mandatory blocks over all block sequences up to length 4; decision tables of BOX/END name and duplicate checks; size and elasticity rules for every pair of shapes of a side / every "
                               "combination of elastic flags of a side, for all sizes (sizes opaque).",
                   rules=len(g.rules), rc_obligations=n_rc, block_sequences=n_st, name_cases=n_ad, size_pairs=n_sz, elastic_cases=n_el, shape_entry_cases=n_en, alias_cases=n_al, interpreter_steps=P.steps)
    rep.assumptions += ["memory allocation succeeds", "debug logging is off"]


def rc_mapping(P, rep):
    """the parser reacts on the return code of each action as documented"""
    g, mod = P.g, P.mod
    codes = {k: P.tree.macroint(k) for k in RC}
    if None in codes.values():
        codes = {"RC_SUCCESS": 0, "RC_ERROR": 1, "RC_ABORT": 2, "RC_ACCEPT": 3}
    acts = [f for f in mod.defined if f.startswith("action_") and mod.functions[f].ret == "i32"]
    n = 0
    seen = set()
    for r in sorted(g.cases):
        for rc, val in codes.items():
            h = ParserHooks(mod, stubs=dict({a: ("c", val) for a in acts}, perform_se_check=ZERO, tag_record=ZERO), watch=acts)
            for o, st in P.rule(r, h, P.start()):
                a = [e[0] for e in st.q or () if e[0] in acts]
                if not a:
                    continue
                seen.add(a[-1])
                n += 1
                if o != RC[rc]:
                    rep.violation("rc:%s:%s" % (a[-1], rc), "grammar rule '%s: %s': when %s() returns %s the parser does '%s' instead of '%s'" % (g.rules[r][0], " ".join(g.rules[r][1]) or "(mid-rule)", a[-1], rc, o, RC[rc]))
    rep.need(n, "no rule action calls an action function")
    return n


def block_rules(P):
    g = P.g
    res = {}
    for nm, tok in (("SAMPLE", "YSAMPLE"), ("SHAPES", "YSHAPES"), ("ELASTIC", "YELASTIC")):
        r = [k for k in g.find(first=tok) if k in g.cases]
        if len(r) != 1:
            raise Broken("grammar rule of the %s block not found" % nm)
        res[nm] = r[0]
    r = [k for k in g.find(lhs="design") if g.rules[k][1][:1] == ["YBOX"] and k in g.cases]
    if len(r) != 1:
        raise Broken("grammar rule of a design not found")
    return res, r[0]


def counters(P, st):
    return tuple((k, cell(st, BISON, o)) for k, (o, s) in sorted(P.B.items()) if s == 4)


def add_hooks(P, same=True, exists=False):
    return ParserHooks(P.mod, stubs=dict(sample_stubs(P)), strings=lambda n, a, b: 0 if same else 1)


def mandatory(P, rep):
    blocks, rd = block_rules(P)
    st0 = P.init()
    P.dset(st0, "name", P.nonnull(st0, "name"))
    legal(P, st0)
    n = [k for k, (o, s) in P.B.items() if k == "num_shapespec"]
    if n:
        st0.mem[(BISON, (P.B["num_shapespec"][0], ()))] = ("c", 4)
    level = [((), st0, False)]
    count = 0
    accepted = 0
    h = ParserHooks(P.mod, stubs=sample_stubs(P), watch=("perform_se_check",))
    for depth in range(5):
        nxt = {}
        for seq, st, checked in level:
            count += 1
            res = P.rule(rd, add_hooks(P), st)
            outs = {o for o, _ in res}
            full = set(seq) == {"SAMPLE", "SHAPES", "ELASTIC"}
            if outs & {"ok", "accept"}:
                accepted += 1
                if not full:
                    rep.violation("incomplete:%s" % "+".join(sorted(set(("SAMPLE", "SHAPES", "ELASTIC")) - set(seq))), "a design consisting of %s is accepted although SAMPLE, SHAPES and ELASTIC are mandatory" % (", ".join(seq) or "nothing"))
                elif not checked:
                    rep.violation("unchecked", "a design consisting of %s is accepted without its elastic shapes having been checked" % ", ".join(seq))
            elif full and len(seq) == 3 and outs:
                rep.violation("refused", "a complete design (%s) is refused" % ", ".join(seq))
            if depth == 4:
                continue
            for b, r in blocks.items():
                for o, s2 in P.rule(r, h, st):
                    if o != "ok":
                        if b not in seq and not (s2.q or ()) and o == "error":
                            rep.violation("silent:%s" % b, "block %s after %s is refused without a message" % (b, ", ".join(seq) or "nothing"))
                        elif b not in seq and o == "error":
                            rep.violation("blockrefused:%s:%s" % (b, "+".join(seq)), "a valid %s block after %s is refused" % (b, ", ".join(seq) or "nothing"))
                        continue
                    s2 = s2.copy()
                    did = any(e[0] == "perform_se_check" for e in s2.q or ())
                    sq = seq + (b,)
                    ck = did if {"SHAPES", "ELASTIC"} <= set(sq) else False
                    if b == "SAMPLE":
                        ck = checked
                    s2.q = None
                    s2.env = {}
                    key = (counters(P, s2), P.dget(s2, "sample") != ZERO, frozenset(sq), ck)
                    if key not in nxt or len(sq) < len(nxt[key][0]):
                        nxt[key] = (sq, s2, ck)
        level = list(nxt.values())
    rep.need(accepted or rep.viol, "no block sequence leads to an accepted design")
    return count


def entries(P, rep):
    """a shape is elastic if and only if ELASTIC lists it, wherever that block stands; its lines are those of its SHAPES entry; a second entry is refused"""
    g = P.g
    E = [r for r in g.find(lhs="elist_entry") if r in g.cases]
    S = [r for r in g.find(lhs="slist_entry") if r in g.cases]
    if len(E) != 1 or len(S) != 1:
        rep.unresolved("grammar rules of shape and elastic entries")
        return 0
    E, S = E[0], S[0]
    n = 0
    for i in range(16):
        def step(st, r):
            h = ParserHooks(P.mod, stubs={"isdeepempty": ZERO, "isempty": lambda sim, st, I, args: empty(sim, st, args)})
            st = st.copy()
            st.q = None
            if r == S:
                b, (k, x) = g.slot(S, 2)
                for f, (o, sz) in P.S.items():
                    st.mem[(b, (k + o, x))] = P.nonnull(st, ("new", f)) if f in ("chars", "mbcs") else ("c", 2) if f in ("width", "height") else ZERO
            b, o = g.slot(r, 1)
            st.mem[(b, o)] = ("c", i)
            return P.rule(r, h, st)

        def empty(sim, st, args):
            l = sim.loc(args[0])
            if l is None:
                return [(UNK, st)]
            c = cell(st, l[0], l[1][0] + P.S["chars"][0])
            z = sim.nonzero(st, c)
            return [(UNK if z is None else ZERO if z else ("c", 1), st)]
        for seq in ((S,), (E, S), (S, E), (S, S), (E, S, S)):
            sts = [("ok", P.init())]
            for r in seq:
                sts = [y for o, x in sts if o == "ok" for y in step(x, r)] + [(o, x) for o, x in sts if o != "ok"]
            txt = " then ".join("ELASTIC entry" if r == E else "SHAPES entry" for r in seq)
            for o, x in sts:
                n += 1
                if seq.count(S) > 1:
                    if o == "ok":
                        rep.violation("dupshape", "a second SHAPES entry for shape %s is not refused" % NAMES[i])
                    continue
                if o != "ok":
                    rep.violation("entry:%s" % txt, "%s for shape %s: refused" % (txt, NAMES[i]))
                    continue
                l = P.design(x)
                base = l[1] + P.D["shape"][0] + i * P.ssize
                el = cell(x, l[0], base + P.S["elastic"][0])
                if el[0] == "c" and bool(el[1]) != (E in seq):
                    rep.violation("elastic:%s" % txt, "%s for shape %s: the shape is %selastic in the end" % (txt, NAMES[i], "" if el[1] else "not "))
                for f in ("chars", "mbcs", "width", "height"):
                    v = cell(x, l[0], base + P.S[f][0])
                    want = ("c", 2) if f in ("width", "height") else ("u", ("set", ("new", f)))
                    if v != want and v != UNK and v[0] in ("c", "u", "p"):
                        rep.violation("shape:%s:%s" % (f, txt), "%s for shape %s: its %s is not what the SHAPES entry says" % (txt, NAMES[i], f))
    return n


def names(P, rep):
    """names at BOX and END agree, the name is new"""
    blocks, rd = block_rules(P)
    h = ParserHooks(P.mod, stubs=sample_stubs(P))
    st = P.init()
    legal(P, st)
    if "num_shapespec" in P.B:
        st.mem[(BISON, (P.B["num_shapespec"][0], ()))] = ("c", 4)
    for b in ("SAMPLE", "SHAPES", "ELASTIC"):
        r = [x for o, x in P.rule(blocks[b], h, st) if o == "ok"]
        if not r:
            return 0
        st = r[0]
        st.q = None
    n = 0
    g = P.g
    t_box = g.token(rd, 2)
    t_end = g.token(rd, g.rules[rd][1].index("ASCII_ID") + 1)
    old = P.nonnull(st, "old name")
    alias = P.nonnull(st, "old alias")
    base = st

    def run(end_same, old_same, alias_same):
        s = base.copy()
        # the current design becomes the second one
        l = P.design(s)
        arr = ("h", "designs", 0)
        for (b, o), v in list(s.mem.items()):
            if b == l[0]:
                s.mem[(arr, o if o == DFLT else (o[0] - l[1] + P.dsize, o[1]))] = v
        s.mem[(arr, DFLT)] = ZERO
        s.mem[(BISON, (P.B["designs"][0], ()))] = ("p", arr, NOOFF)
        s.mem[(BISON, (P.B["design_idx"][0], ()))] = ("c", 1)
        s.mem[(arr, (P.D["name"][0], ()))] = old
        al = ("h", "aliases", 0)
        s.mem[(al, (0, ()))] = alias
        s.mem[(al, (8, ()))] = ZERO
        s.mem[(arr, (P.D["aliases"][0], ()))] = ("p", al, NOOFF)

        def strings(fn, a, b):
            pair = {a, b}
            if pair == {t_box, t_end}:
                r = end_same
            elif old in pair:
                r = old_same
            elif alias in pair:
                r = alias_same
            else:
                return None
            # equal: but for letter case; different: one may be a prefix of the other
            return 0 if fn == "strncasecmp" or r and fn == "strcasecmp" else 1
        return [(o, x) for o, x in P.rule(rd, ParserHooks(P.mod, stubs=sample_stubs(P), strings=strings), s)]
    for e, o1, a in product((True, False), repeat=3):
        outs = run(e, o1, a)
        # a non-matching pair with matching old name cannot be told apart from opaque tokens, which is fine
        good = e and not o1 and not a
        for o, x in outs:
            n += 1
            if o in ("ok", "accept") and not good:
                why = "its name differs at BOX and END" if not e else "its name is already in use" + (" as an alias" if a and not o1 else "")
                rep.violation("name:%d%d%d" % (e, o1, a), "action_add_design() (src/parsecode.c): a design is accepted although %s" % why)
            if o == "error" and good:
                rep.violation("goodname", "action_add_design() (src/parsecode.c): a design whose names at BOX and END agree but for letter case and are new is refused")
            if o == "error" and not x.q:
                rep.violation("mute", "action_add_design() (src/parsecode.c): a design is refused without a message")
    return n


def finalize(P, setup):
    st = P.init()
    legal(P, st, w=1, h=1)
    if "num_shapespec" in P.B:
        st.mem[(BISON, (P.B["num_shapespec"][0], ()))] = ("c", 4)
    setup(st)
    blocks, rd = block_rules(P)
    return P.rule(blocks["SHAPES"], ParserHooks(P.mod, stubs=dict(perform_se_check=ZERO)), st)


def sizes(P, rep):
    """shapes of a side have equal height (horizontal sides) / width (vertical sides), whatever the sizes are"""
    n = 0
    for side, sh in SIDES.items():
        horiz = side in ("top", "bottom")
        dim = "height" if horiz else "width"
        for i in range(5):
            for j in range(i + 1, 5):
                a, b = sh[i], sh[j]

                def setup(st):
                    # a and b have different, otherwise unknown sizes; shapes between them are as large as a
                    va, vb = ("u", ("set", "a")), ("u", ("set", "b"))
                    for v in (va, vb):
                        st.facts[("ne", v)] = frozenset((0,))
                    for x, y in ((va, vb), (vb, va)):
                        st.facts[("cmp", "eq", x, y)] = False
                        st.facts[("cmp", "ne", x, y)] = True
                    for k in range(5):
                        P.shape(st, sh[k], **{dim: vb if k == j else va})
                    # the neighbouring sides share the corner shapes but compare the other dimension
                n += 1
                for o, st in finalize(P, setup):
                    if o in ("ok", "accept"):
                        rep.violation("size:%s:%s:%s" % (side, NAMES[a], NAMES[b]), "check of the shapes (src/parsecode.c): a design whose %s and %s shapes differ in %s is accepted" % (NAMES[a], NAMES[b], dim))
    # equal sizes per side are accepted, different sizes on different sides as well
    def good(st):
        for side, sh in SIDES.items():
            dim = "height" if side in ("top", "bottom") else "width"
            for k in sh:
                P.shape(st, k, **{dim: ("c", {"top": 2, "bottom": 3, "left": 4, "right": 5}[side])})
    for o, st in finalize(P, good):
        n += 1
        if o == "error":
            rep.violation("size:good", "check of the shapes (src/parsecode.c): a design whose shapes agree in size on each side is refused")
    # a shape which is absent does not count
    for k in (1, 3, 5, 7, 9, 11, 13, 15):
        def absent(st):
            P.shape(st, k, chars=ZERO, mbcs=ZERO, width=ZERO, height=ZERO)
        for o, st in finalize(P, absent):
            n += 1
            if o == "error":
                rep.violation("size:absent:%s" % NAMES[k], "check of the shapes (src/parsecode.c): a design without a %s shape is refused" % NAMES[k])
    return n


def elastics(P, rep):
    """perform_se_check(): every combination of elastic flags on a side, absent shapes, corners"""
    n = 0
    mod = P.mod

    def run(setup):
        st = P.init()
        legal(P, st)
        setup(st)
        s = Sim(mod, ParserHooks(mod), cap=60, budget=60000)
        r = s.run("perform_se_check", [("p", BISON, NOOFF)], st)
        P.steps += s.steps
        res = set()
        for v, x in r:
            nz = s.nonzero(x, v) if v[0] != "c" else v[1] != 0
            res.add((nz, bool(x.q)))
        return res

    for side, sh in SIDES.items():
        for flags in product((0, 1), repeat=3):
            for gone in product((0, 1), repeat=3):
                if any(f and x for f, x in zip(flags, gone)) or sum(gone) > 1:
                    continue

                def setup(st):
                    for k, f, x in zip(sh[1:4], flags, gone):
                        P.shape(st, k, elastic=("c", f))
                        if x:
                            P.shape(st, k, chars=ZERO, mbcs=ZERO, width=ZERO, height=ZERO)
                present = [f for f, x in zip(flags, gone) if not x]
                ok = sum(flags) in (1, 2) and not any(p and q for p, q in zip(present, present[1:]))
                n += 1
                for refused, msg in run(setup):
                    d = "elastic shapes on the %s side: %s%s" % (side, ", ".join(NAMES[k] for k, f in zip(sh[1:4], flags) if f) or "none",
                                                             "; %s absent" % ", ".join(NAMES[k] for k, x in zip(sh[1:4], gone) if x) if any(gone) else "")
                    if refused is False and not ok:
                        rep.violation("elastic:%s:%s:%s" % (side, flags, gone), "perform_se_check() (src/parsecode.c) accepts a design with " + d)
                    if refused is True and ok:
                        rep.violation("elastic:%s:%s:%s" % (side, flags, gone), "perform_se_check() (src/parsecode.c) refuses a design with " + d)
                    if refused is True and not msg:
                        rep.violation("elasticmute:%s" % side, "perform_se_check() (src/parsecode.c) refuses a design without a message: " + d)
    for k in (0, 4, 8, 12):
        n += 1
        for refused, msg in run(lambda st: P.shape(st, k, elastic=("c", 1))):
            if refused is False:
                rep.violation("corner:%s" % NAMES[k], "perform_se_check() (src/parsecode.c) accepts an elastic %s corner" % NAMES[k])
    for side, sh in SIDES.items():
        for k in sh[1:4]:
            def gone(st):
                for j in sh[1:4]:
                    P.shape(st, j, elastic=("c", 1 if j == k else 0))
                P.shape(st, k, chars=ZERO, mbcs=ZERO, width=ZERO, height=ZERO)
            n += 1
            for refused, msg in run(gone):
                if refused is False:
                    rep.violation("absent:%s" % NAMES[k], "perform_se_check() (src/parsecode.c) accepts the absent shape %s as elastic" % NAMES[k])
    return n


def aliases(P, rep):
    """an alias which is the name or alias of another design of the file is refused"""
    g = P.g
    r = [k for k in g.find(lhs="alias") if k in g.cases]
    if len(r) != 1:
        return 0
    n = 0
    for which in ("name", "alias", "none"):
        st = P.init()
        l = P.design(st)
        arr = ("h", "designs", 0)
        for (b, o), v in list(st.mem.items()):
            if b == l[0]:
                st.mem[(arr, o if o == DFLT else (o[0] - l[1] + P.dsize, o[1]))] = v
        st.mem[(arr, DFLT)] = ZERO
        st.mem[(BISON, (P.B["designs"][0], ()))] = ("p", arr, NOOFF)
        st.mem[(BISON, (P.B["design_idx"][0], ()))] = ("c", 1)
        old, al = P.nonnull(st, "old name"), P.nonnull(st, "old alias")
        st.mem[(arr, (P.D["name"][0], ()))] = old
        ab = ("h", "aliases", 0)
        st.mem[(ab, (0, ()))] = al
        st.mem[(ab, (8, ()))] = ZERO
        st.mem[(arr, (P.D["aliases"][0], ()))] = ("p", ab, NOOFF)

        def strings(fn, a, b):
            if old in (a, b):
                return 0 if which == "name" and fn == "strcasecmp" else 1
            if al in (a, b):
                return 0 if which == "alias" and fn == "strcasecmp" else 1
            return None
        for o, x in P.rule(r[0], ParserHooks(P.mod, strings=strings), st):
            n += 1
            if o == "ok" and which != "none":
                rep.violation("alias:" + which, "action_add_alias() (src/parsecode.c) accepts an alias which is already the %s of another design (compared regardless of letter case)" % which)
            if o == "error" and which == "none":
                rep.violation("alias:new", "action_add_alias() (src/parsecode.c) refuses a new alias")
    return n
