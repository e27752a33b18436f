"""C34: text is positioned in the box and justified as the alignment options say."""
from drawbox import *
from fractions import Fraction

PADL, PADR = ("u", "left padding"), ("u", "right padding")


def scenes():
    for va in "\0tcb":
        for nol in (6, 7):
            yield Scene(nol=nol, valign=va, nl=1 if nol == 6 else 2, pt=1 if nol == 6 else 0)
    yield Scene(nol=9, bt=2, bb=1, nl=1, pt=1, pb=2, valign="c")
    yield Scene(nol=9, bt=2, bb=1, nl=1, pt=1, pb=2, valign="b")
    yield Scene(nol=9, bt=2, bb=1, nl=1, pt=1, pb=2, valign="t")
    for ha in "\0lcr":
        yield Scene(nol=3, nl=1, halign=ha)
        for j in "lcr":
            for im in "btn":
                yield Scene(nol=3, nl=1, halign=ha, justify=j, indentmode=im)


def half(f):
    return div(f, 2)


def check(tree, rep):
    mod = tree.module()
    B = fields(mod, "bxstr_t")
    I = fields(mod, "input_t")
    nt = nv = nj = nempty = lost = 0
    lang = {"l": "left", "c": "centered", "r": "right", "t": "top", "b": "bottom", "\0": "default"}
    ini = {("u", ("ld", (("s", ("u", ("line", 0))), (B["indent"][0], ())))): 1}
    cols = {("u", ("cols", 0)): 1}
    new = add(cols, ini, -1)

    def V(k, t, sc):
        rep.violation(k, "output_box (src/generate.c): " + t, scenario=str(sc).replace("\0", "-"))
    for sc in scenes():
        res, h, s = draw(mod, sc)
        if not res:
            lost += 1
            rep.unresolved("output_box, too many paths: %s" % sc)
        want, fill = sc.lines() if sc.valign != "\0" else Scene(**dict({k: v for k, v in sc.__dict__.items() if k != "self"}, valign="t")).lines()
        for rv, st in res:
            if rv != ZERO:
                continue
            zs = zeros(st)
            got = split_lines(st.q[0])
            ls = [body(l) for l, _ in got]
            if any(unknown(a) for a in ls) or len(ls) != len(want):
                rep.unresolved("%s" % sc)
                continue
            # vertical position: number of lines above the first text line
            pos = [i for i, a in enumerate(ls) if any(x[0] in ("line", "cut") for x in a)]
            first = [i for i, (j, k) in enumerate(want) if k == 0][0]
            ok = {first}
            if sc.valign == "c" and fill % 2:
                ok.add(first + 1)
            nv += 1
            if not pos:
                V("vertical:none", "the text is not printed", sc)
                continue
            if pos[0] not in ok:
                V("vertical:%s" % lang[sc.valign], "%d lines of blanks above the text instead of %d with vertical alignment '%s', %d spare lines and a top padding of %d" %
                  (pos[0] - sc.bt, first - sc.bt, lang[sc.valign], fill, sc.pt), sc)
                continue
            hfill1 = is_zero(add(add(lin(W), lin(M), -1), {1: 1}, -1), zs)
            for i, a in enumerate(ls):
                t = [n for n, x in enumerate(a) if x[0] in ("line", "cut")]
                if len(t) != 1 or a[t[0]][1] != 0:
                    continue
                t = t[0]
                l = max([n for n in range(t) if a[n][0] == "part"], default=-1)
                r = min([n for n in range(t, len(a)) if a[n][0] == "part"], default=len(a))
                pre, post = {}, {}
                for x in a[l + 1:t]:
                    pre = add(pre, lin(x[1])) if x[0] == "sp" else pre
                for x in a[t + 1:r]:
                    post = add(post, lin(x[1])) if x[0] == "sp" else post
                cut = lin(a[t][2]) if a[t][0] == "cut" else {}
                at = add(pre, cut, -1)                       # column of the line's first character
                nt += 1
                # horizontal position of the text block
                free = add(add(add(lin(W), lin(M), -1), lin(PADL), -1), lin(PADR), -1)
                if hfill1:
                    bl = [{}, {1: 1}]
                elif sc.halign == "c":
                    bl = [add(lin(PADL), half(free)), add(lin(PADL), add(free, half(free), -1))]
                elif sc.halign == "r":
                    bl = [add(lin(PADL), free)]
                else:
                    bl = [lin(PADL)]
                # shift of the line within the block
                ind = lin(IND)
                if sc.justify == "\0":
                    sh = [{}]
                elif sc.justify == "l":
                    sh = [add(ind if sc.indentmode == "t" else {}, ini, -1)]
                elif sc.justify == "r":
                    sh = [add(add(lin(M), new, -1), ini, -1)]
                else:
                    base = ind if sc.indentmode == "t" else {}
                    f = add(add(lin(M), base, -1), new, -1)
                    sh = [add(add(base, half(f)), ini, -1), add(add(add(base, half(f)), ini, -1), {1: 1})]
                if sc.justify != "\0":
                    nj += 1
                okh = any(is_zero(add(add(at, b, -1), x, -1), zs) for b in bl for x in sh)
                if okh:
                    continue
                # an empty line has nothing to be justified
                if sc.justify != "\0" and any(is_zero(add(at, b, -1), zs) for b in bl) and any(isinstance(k, str) or k[0] == "empty" for k in h.seen(st)):
                    nempty += 1
                    continue
                if sc.justify == "\0":
                    V("horizontal:%s" % lang[sc.halign], "the text block does not start at the column which horizontal alignment '%s' and the left padding ask for" % lang[sc.halign], sc)
                else:
                    V("justify:%s" % lang[sc.justify], "a line is not %s within the text block%s" % ("centered" if sc.justify == "c" else lang[sc.justify] + "-justified",
                                                                                           " (indentation inside of the box)" if sc.indentmode == "t" else ""), sc)
    rep.cov.update(functions=1, text_lines=nt, vertical=nv, justified=nj, empty_lines=nempty,
                   explanation="output_box is interpreted for every alignment and justification with opaque widths, paddings and line lengths; the column of the text line (a linear form over these) and its row are compared with "
                               "the documented position: block at left padding / middle / right, line at start / middle / end of the block")
    rep.assumptions += ["where a half is not an integer either neighbouring column (line) is accepted", "a box one column wider than its text is exempt from horizontal alignment (either side of the text)",
                        "line counts are constants; memory allocation succeeds, debug output off"]
    rep.need(nt > 50 and nj > 20 or lost, "text lines not found")
