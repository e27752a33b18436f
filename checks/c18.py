"""C18: the drawn box consists of all lines of its sides with every input line inside, once and in order."""
from drawbox import *


def scenes():
    for va in "tcb":
        yield Scene(valign=va, final=int(va != "c"))
    yield Scene(nol=9, bt=2, bb=1, nl=2, pt=1, pb=2)
    yield Scene(nol=9, bt=2, bb=2, nl=3, pt=1, pb=1, final=0)
    yield Scene(nol=4, bt=1, bb=1, nl=2, indentmode="t")
    for em in ((BTOP,), (BBOT,), (BLEF,), (BTOP, BBOT, BLEF), (BRIG,)):
        yield Scene(nol=8, bt=2, bb=1, nl=2, pt=1, empties=em, final=int(BBOT not in em))
    for te in "uk":
        yield Scene(nol=5, bt=1, bb=1, nl=2, tabexp=te)
        yield Scene(nol=5, bt=1, bb=1, nl=2, tabexp=te, indentmode="n")
    for j in "lcr":
        yield Scene(nol=4, bt=1, bb=1, nl=1, justify=j)
        yield Scene(nol=3, bt=1, bb=1, nl=1, justify=j, indentmode="t", halign="c")


def check(tree, rep):
    mod = tree.module()
    nlines = npaths = nsc = lost = 0

    def V(k, t, sc):
        rep.violation(k, "output_box (src/generate.c): %s [%s]" % (t, sc))
    for sc in scenes():
        nsc += 1
        res, h, s = draw(mod, sc)
        if not res:
            lost += 1
            rep.unresolved("output_box, too many paths: %s" % sc)
        want, _ = sc.lines()
        for rv, st in res:
            npaths += 1
            if rv != ZERO:
                if rv[0] == "c":
                    V("fails", "reports failure although nothing went wrong", sc)
                continue
            zs = zeros(st)
            got = split_lines(st.q[0])
            if any(p[0] == "?" for l, _ in got for p in l):
                rep.unresolved("output of %s" % sc)
                continue
            if len(got) != len(want):
                V("count", "%d lines are printed instead of %d%s" % (len(got), len(want), " (side of the design empty)" if sc.empties else ""), sc)
                continue
            for n, ((line, eol), (j, k)) in enumerate(zip(got, want)):
                nlines += 1
                last = n == len(want) - 1
                if eol != (not last or bool(sc.final)):
                    V("eol:%s" % ("last" if last else "inner"), "line %d of %d is printed %s line break, the input %s with one" % (n + 1, len(want), "with" if eol else "without", "ends" if sc.final else "does not end"), sc)
                a = body(line)
                if unknown(a):
                    rep.unresolved("line %d of %s" % (n + 1, sc))
                    continue
                what = k if isinstance(k, str) else "text line %d" % k
                lead, rest = blanks(a)
                # text of the line
                tx = [x[1] for x in a if x[0] in ("line", "cut")]
                if tx != ([] if isinstance(k, str) else [k]):
                    V("text", "line %d shows %s instead of %s" % (n + 1, show(a), what), sc)
                    continue
                parts = [x for x in a if x[0] == "part"]
                exp = ([] if BLEF in sc.empties else [("part", BLEF, j)]) + ([("part", BTOP, j)] if k == "top" else [("part", BBOT, j - (sc.nol - sc.bb))] if k == "bottom" else []) + [("part", BRIG, j)]
                if parts != exp:
                    V("sides:%s" % (k if isinstance(k, str) else "text"), "line %d (%s) is %s instead of %s" % (n + 1, what, show(parts), show(exp)), sc)
                    continue
                if any(x[0] == "lit" for x in a):
                    V("extra", "line %d contains additional text" % (n + 1), sc)
                pos = [i for i, x in enumerate(a) if x[0] in ("part", "line", "cut")]
                if not isinstance(k, str):
                    order = [x[:2] for x in a if x[0] in ("part", "line", "cut")]
                    i = [x[0] in ("line", "cut") for x in order].index(True)
                    if i != (0 if BLEF in sc.empties else 1):
                        V("order", "line %d shows the text outside of the box: %s" % (n + 1, show(a)), sc)
                        continue
                # indentation
                if BLEF not in sc.empties and not is_zero(add(lead, lin(IND) if sc.indentmode == "b" else {}, -1), zs):
                    V("indent:%s" % sc.indentmode, "line %d of the box is %s" % (n + 1, "not indented like the input" if sc.indentmode == "b" else "indented although only the text is to be"), sc)
                if sc.tabexp == "k":
                    nos = [x[1] for x in a if x[0] == "lineno"]
                    w = range(sc.nl) if isinstance(k, str) else [k]
                    if len(nos) == 1 and nos[0][0] == "c" and nos[0][1] not in w:
                        V("tabs", "indentation of line %d takes its tabs from input line %d%s" % (n + 1, nos[0][1], "" if nos[0][1] < sc.nl else ", which does not exist"), sc)
                # nothing between the sides but blanks; width
                mid = a[pos[0] + (BLEF not in sc.empties):pos[-1]] if BLEF not in sc.empties else a[:pos[-1]]
                w = {}
                for x in mid:
                    if x[0] in ("sp", "tab"):
                        w = add(w, lin(x[1]))
                    elif x[0] == "line":
                        w = add(w, {("u", ("cols", x[1])): 1})
                    elif x[0] == "cut":
                        w = add(add(w, {("u", ("cols", x[1])): 1}), lin(x[2]), -1)
                    elif x[0] == "part":
                        w = add(w, lin(W))
                if BLEF in sc.empties and sc.indentmode == "b":
                    w = add(w, lin(IND), -1)
                if not is_zero(add(w, lin(W), -1), zs):
                    V("width:%s" % (k if isinstance(k, str) else "text"), "the columns between left and right side of line %d (%s) do not add up to the width of the box" % (n + 1, what), sc)
    rep.cov.update(functions=1, scenarios=nsc, paths=npaths, lines=nlines,
                   explanation="output_box is interpreted for %d arrangements of line counts, padding, alignment, empty sides and indentation, with opaque texts, widths, paddings and line lengths; "
                               "%d printed lines on %d paths: composition, order, indentation, line break and (as a linear form) width" % (nsc, nlines, npaths))
    rep.assumptions += ["number of lines of box, sides, text and vertical padding: constants up to 9; widths, texts, horizontal padding, indentation: arbitrary",
                        "u32_nspaces(n) is n blanks, bxs_cut_front(t, n) removes n columns of leading blanks, bxs_concat joins its arguments", "memory allocation succeeds, debug output off"]
    rep.need(nlines > 100 or lost, "drawing not found")
