"""C12: designs do not influence each other: after every design, accepted or refused, the parser starts the next one from the initial state."""
from parse import Parser, ParserHooks, cell, fields, ZERO, UNK, NOOFF, DFLT, BISON
from c13 import block_rules, sample_stubs, legal
from common import Broken

SKIP = ("design_idx", "skipping", "speeding")


def units(P):
    """[(field, offset)] of the scalar cells of a design record"""
    res = []
    for k, (o, s) in sorted(P.D.items(), key=lambda x: x[1]):
        if k == "shape":
            for i in range(16):
                for f, (fo, fs) in P.S.items():
                    res.append(("shape[%d].%s" % (i, f), o + i * P.ssize + fo))
        elif k == "padding":
            for i in range(4):
                res.append(("padding[%d]" % i, o + 4 * i))
        else:
            res.append((k, o))
    return res


def dirty(P, st, flags, idx=0):
    """every part of the current design and every counter has been touched"""
    l = P.design(st)
    for name, o in units(P):
        if name in ("aliases", "tags"):
            b = ("h", "dirty " + name, 0)
            st.mem[(b, (0, ()))] = P.nonnull(st, ("dirty", name, 0))
            st.mem[(b, (8, ()))] = ZERO
            st.mem[(l[0], (l[1] + o, ()))] = ("p", b, NOOFF)
        else:
            st.mem[(l[0], (l[1] + o, ()))] = P.nonnull(st, ("dirty", name))
    for k, (o, s) in P.B.items():
        if s == 4 and k not in SKIP:
            st.mem[(BISON, (o, ()))] = ("c", 7)
    for k, v in flags.items():
        st.mem[(BISON, (P.B[k][0], ()))] = ("c", v)
    return st


def kind(P, st, v):
    """how the content of a cell compares: constants, fresh empty lists"""
    if v[0] == "u" and isinstance(v[1], tuple) and v[1][0] == "alloc":
        c = cell(st, ("s", v), 0)
        return ("list", c)
    if v[0] == "p" and v[1][0] in ("s", "h"):
        return ("list", cell(st, v[1], v[2][0]))
    return v


def compare(P, rep, st, init, key, what):
    n = 0
    for name, o in units(P):
        li, l = P.design(init), P.design(st)
        a = kind(P, init, cell(init, li[0], li[1] + o))
        b = kind(P, st, cell(st, l[0], l[1] + o))
        n += 1
        if a != b:
            if b == UNK:
                rep.unresolved("%s: %s" % (key, name))
                continue
            rep.violation("%s:%s" % (key, name), "%s, '%s' of the next design does not start from its initial value" % (what, name))
    for k, (o, s) in P.B.items():
        if s == 4 and k not in SKIP:
            n += 1
            a, b = cell(init, BISON, o), cell(st, BISON, o)
            if a != b and b != UNK:
                rep.violation("%s:%s" % (key, k), "%s, the parser's '%s' does not start from its initial value" % (what, k))
    return n


def check(tree, rep):
    P = Parser(tree)
    g, mod = P.g, P.mod
    blocks, rd = block_rules(P)
    er = [k for k, (l, r) in g.rules.items() if r == ["error"] and k in g.cases]
    if not er:
        raise Broken("the grammar has no error rule with an action")
    init = P.init()
    n = paths = 0
    # refused design
    for skipping, speeding in ((0, 0), (1, 0), (0, 1)):
        for r in er:
            st = dirty(P, P.init(), {"skipping": skipping, "speeding": speeding})
            if speeding or skipping:
                # nothing but name and aliases has been read, or everything has been reset before
                l0, l = P.design(init), P.design(st)
                for name, o in units(P):
                    if name not in ("aliases", "name"):
                        st.mem[(l[0], (l[1] + o, ()))] = cell(init, l0[0], l0[1] + o)
                for k, (o, s) in P.B.items():
                    if s == 4 and k not in SKIP:
                        st.mem[(BISON, (o, ()))] = cell(init, BISON, o)
            for o, x in P.rule(r, ParserHooks(mod), st):
                paths += 1
                if o != "ok":
                    rep.violation("err:%s" % o, "the parser does not continue with the next design after an error ('%s')" % o)
                    continue
                if not skipping and not speeding:
                    n += compare(P, rep, x, init, "refused", "after a design was refused")
                    if not x.q:
                        rep.violation("mute", "a refused design is skipped without a message")
                else:
                    n += 1
                    if kind(P, x, P.dget(x, "aliases"))[-1] != ZERO:
                        rep.violation("aliases:%d%d" % (skipping, speeding), "aliases of a skipped design are left to the next one")
    # accepted design, another one follows
    st = accepted(P, blocks)
    if st is not None:
        st.facts[("ne", ("u", ("ld", (("g", "opt"), (fields(mod, "opt_t")["l"][0], ())))))] = frozenset((0,))
        st.mem[(("g", "opt"), (fields(mod, "opt_t")["l"][0], ()))] = ("c", 1)
        st.mem[(("g", "opt"), (fields(mod, "opt_t")["design_choice_by_user"][0], ()))] = ZERO
        oks = 0
        for o, x in P.rule(rd, ParserHooks(mod, stubs=sample_stubs(P), strings=lambda f, a, b: 0), st):
            paths += 1
            if o == "ok":
                oks += 1
                n += compare(P, rep, x, init, "accepted", "after a design was added")
                i = cell(x, BISON, P.B["design_idx"][0])
                if i != ("c", 1):
                    rep.violation("idx", "after a design was added, the next one does not get a record of its own")
        if not oks:
            rep.unresolved("no path on which parsing continues after an accepted design")
    # beginning of a design: flags of the previous one are reset
    r17 = [k for k, (l, r) in g.rules.items() if not r and k in g.cases and l in g.rules[rd][1]]
    for r in r17:
        for skipping, speeding in ((1, 0), (0, 1), (1, 1)):
            st = P.init()
            for k, v in (("skipping", skipping), ("speeding", speeding)):
                st.mem[(BISON, (P.B[k][0], ()))] = ("c", v)
            for o, x in P.rule(r, ParserHooks(mod), st):
                paths += 1
                if o == "ok":
                    for k in ("skipping", "speeding"):
                        n += 1
                        if cell(x, BISON, P.B[k][0]) != ZERO:
                            rep.violation("flag:" + k, "the flag '%s' set by a previous design is still set while the next design is read: its errors are not handled" % k)
    rep.need(n and paths, "no path analysed")
    rep.cov.update(explanation="The grammar's error action, the action that adds a design and the one that starts a design are interpreted on a parser state in which every cell of the design record and every counter is dirty (opaque, nonzero); "
                               "the resulting record is compared cell by cell with the one the parser's initialisation produces.",
                   cells_compared=n, paths=paths, design_cells=len(units(P)), interpreter_steps=P.steps)
    rep.assumptions += ["memory allocation succeeds", "debug logging is off"]


def accepted(P, blocks):
    st = P.init()
    P.dset(st, "name", P.nonnull(st, "name"))
    legal(P, st)
    if "num_shapespec" in P.B:
        st.mem[(BISON, (P.B["num_shapespec"][0], ()))] = ("c", 4)
    for b in ("SAMPLE", "SHAPES", "ELASTIC"):
        r = [x for o, x in P.rule(blocks[b], ParserHooks(P.mod, stubs=sample_stubs(P)), st) if o == "ok"]
        if not r:
            return None
        st = r[0]
        st.q = None
        st.env = {}
    return st
