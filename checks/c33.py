"""C33: the words of the configuration language, decided on the scanner's automaton for every input text."""
from collections import deque
from sim import UNK, ZERO, NOOFF
from bx import fields, enumval
from grammar import Grammar
from lexer import (Lexer, LexHooks, Nfa, YYG, LVAL, EXTRA, TEXT, word, chars, cat, alt, star, plus, without, UTF8, LETTER, DIGIT, ANY, BOM)

SHAPES = "NW NNW N NNE NE ENE E ESE SE SSE S SSW SW WSW W WNW".split()
WS = chars(" \t\r\n")
IDCH = alt(LETTER, DIGIT, chars("_-"))
ID = cat(LETTER, star(IDCH))
WORD = cat(alt(LETTER, UTF8), star(alt(IDCH, UTF8)))
COMMENT = cat(chars("#"), star(ANY))
DELIM = chars("\"~'`!@%&*=:;<>?/|.\\")
STRING = cat(DELIM, star(ANY), chars("\n"))
ALLB = ("set", frozenset(range(256)))


def modes():
    """{mode: (items at the start of a line, items elsewhere)}; an item is (expression, label)"""
    skip = [(alt(WS, BOM), ("skip",))]
    bad = [(ANY, ("tok", "YUNREC"))]
    com = [(COMMENT, ("skip",))]
    ident = [(ID, ("ascii", "ASCII_ID")), (WORD, ("bx", "BXWORD"))]
    kw = [(word(w), l) for w, l in (
        ("sample", ("go", "YSAMPLE", "sample")), ("tags", ("tok", "YTAGS")), ("elastic", ("go", "YELASTIC", "elastic")), ("shapes", ("go", "YSHAPES", "shapes")),
        ("replace", ("tok", "YREPLACE")), ("reverse", ("tok", "YREVERSE")), ("padding", ("tok", "YPADDING")), ("to", ("tok", "YTO")), ("with", ("tok", "YWITH")),
        ("global", ("flag", "YRXPFLAG", "g")), ("once", ("flag", "YRXPFLAG", "o")), ("end", ("box", "YEND", "top")),
        ("author", ("ascii", "KEYWORD")), ("designer", ("ascii", "KEYWORD")), ("indent", ("ascii", "KEYWORD")),
        ("delimiter", ("go", "YCHGDEL", "delim")), ("delim", ("go", "YCHGDEL", "delim")))]
    shp = [(word(s), ("shape", s)) for s in SHAPES]
    one = {
        "top": skip + [(word("parent"), ("go", "YPARENT", "parent")), (word("box"), ("box", "YBOX", "box"))] + ident + com + bad,
        "box": skip + [(STRING, ("string",))] + kw + ident + [(cat(alt(chars("+-"), cat()), plus(DIGIT)), ("num",)), (chars(",(){}"), ("sym", None))] + com + bad,
        "shapes": skip + [(STRING, ("string",))] + shp + [(chars("}"), ("sym", "box")), (chars(",(){"), ("sym", None))] + com + bad,
        "elastic": skip + shp + [(chars(")"), ("sym", "box")), (chars(",({}"), ("sym", None))] + com + bad,
        "delim": skip + [(plus(without(" \t\r\n")), ("delimspec",))],
        "parent": [(plus(without("\r\n")), ("filename",)), (alt(cat(chars("\r"), chars("\n")), chars("\r"), chars("\n")), ("back", "top"))],
    }
    m = {k: (v, v) for k, v in one.items()}
    end = cat(word("ends"), star(chars(" \t\r")), chars("\n"))
    text = [(chars("\n"), ("more?",)), (ANY, ("more",))]
    m["sample"] = ([(cat(star(chars(" \t")), end), ("endtext",))] + text, text)
    m["sample_end"] = (None, [(end, ("go", "YENDSAMPLE", "box")), (ALLB, ("any",))])
    return m


def show(w):
    return repr(bytes(w).decode("latin1"))[1:-1]


class Check:
    def __init__(self, tree, rep):
        self.rep = rep
        self.mod = tree.module()
        self.g = Grammar(tree)
        self.L = Lexer(tree, self.g)
        self.tokname = self.L.tok
        self.mode = {"top": 0}
        self.pairs = {}        # (label, rule) -> example
        self.act = {}
        self.n = 0
        self.nstates = 0

    def V(self, key, text):
        self.rep.violation(key, "src/lexer.l: " + text)

    def action(self, n):
        if n not in self.act:
            self.act[n] = self.L.action(n)
            if self.L.overrun:
                self.rep.unresolved("action of scanner rule %d: path budget" % n)
        return self.act[n]

    def compare(self, mname, bol, items):
        d = self.L.dfa
        nfa = Nfa(items)
        s0, r0 = d.start(self.mode[mname], bol), nfa.s0
        seen = {(s0, r0)}
        w = deque([(s0, r0, ())])
        bad = 0
        while w:
            s, r, txt = w.popleft()
            self.n += 1
            if txt:
                acc = d.wins(s)
                rule = acc[0] if acc else None
                if rule in d.dflt:
                    rule = None
                lab = nfa.label(r) if r else None
                if lab == ("any",):
                    pass
                elif (rule is None) != (lab is None):
                    bad += 1
                    if bad <= 3:
                        if rule is None:
                            self.V("lost:%s:%s" % (mname, show(txt)), "%s: the text '%s' is not recognised as %s" % (WHERE[mname], show(txt), what(lab)))
                        else:
                            self.V("extra:%s:%s" % (mname, show(txt)), "%s: the text '%s' is taken as one word, which it is not" % (WHERE[mname], show(txt)))
                    continue
                elif lab is not None:
                    self.pairs.setdefault((lab, rule), (mname, txt))
            for c in range(256):
                s2, r2 = d.step(s, c), nfa.step(r, c)
                if s2 is None and not r2:
                    continue
                k = (s2, r2)
                if k not in seen:
                    seen.add(k)
                    w.append((s2, r2, txt + (c,)))
        self.nstates += len(seen)

    # ---- what an action must do ----
    def verify(self, lab, rule, ex):
        mname, txt = ex
        t = show(txt)
        W = "%s: '%s'" % (WHERE[mname], t)
        runs = self.action(rule)
        key = "%s:%s" % (mname, t.lower())
        if lab[0] == "string":
            return self.string(rule, W, key)
        trail = rule in self.L.dfa.trail
        if not runs:
            self.rep.unresolved("action for %s" % W)
            return
        got = set()
        for kind, v, mode, st in runs:
            tok = self.tokname.get(v[1], str(v[1])) if v is not None and v[0] == "c" else None
            lv = st.mem.get((LVAL, NOOFF))
            if kind == "reject":
                self.rep.unresolved("action for %s goes elsewhere" % W)
                return
            if kind == "return" and v[0] != "c" and lab[0] not in ("sym",):
                self.rep.unresolved("token returned for %s" % W)
                return
            if lab[0] in ("tok", "go", "flag", "box", "ascii", "bx"):
                if kind != "return" or tok != lab[1]:
                    self.V("token:" + key, "%s is %s, not %s" % (W, "skipped" if kind != "return" else "taken as " + str(tok), what(lab)))
                    return
            if lab[0] == "go" or lab[0] == "box":
                if mode is None:
                    self.V("mode:" + key, "%s does not begin the %s" % (W, WHERE[lab[2]].lower() if lab[2] in WHERE else lab[2]))
                    return
                self.enter(lab[2], mode, W, key)
            elif lab[0] not in ("back", "filename", "delimspec", "endtext", "sym") and mode is not None and mode != self.mode[mname]:
                self.V("mode:" + key, "%s ends the %s" % (W, WHERE[mname].lower()))
                return
            if lab[0] == "box":
                for f, want in (("sesc", 92), ("sdel", 34)):
                    c = st.mem.get((EXTRA, (self.P[f][0], ())))
                    if c is None or c[0] == "c" and c[1] & 0xff != want:
                        self.V("delimreset:" + key, "%s does not reset the string delimiters" % W)
                        return
            if lab[0] == "flag" and lv is not None and lv[0] == "c" and lv[1] & 0xff != ord(lab[2]) or lab[0] == "flag" and lv is None:
                self.V("value:" + key, "%s does not give the flag '%s'" % (W, lab[2]))
                return
            if lab[0] == "shape":
                want = enumval(self.mod, lab[1])
                if kind != "return" or tok != "SHAPE":
                    self.V("token:" + key, "%s is not taken as a shape name" % W)
                    return
                if lv is None or lv[0] == "c" and lv[1] != want:
                    self.V("value:" + key, "%s is taken for another shape than %s" % (W, lab[1]))
                    return
            if lab[0] == "ascii":
                d = [e[2] for e in st.q or () if e[0] == "dup" and e[1] == lv]
                if lv is None or d and d[0] != TEXT:
                    self.V("value:" + key, "%s: the word is not handed over" % W)
                    return
            if lab[0] == "bx" and lv is None:
                self.V("value:" + key, "%s: the word is not handed over" % W)
                return
            if lab[0] == "num":
                if kind != "return" or tok != "YNUMBER":
                    self.V("token:" + key, "%s is not taken as a number" % W)
                    return
                if lv is None:
                    self.V("value:" + key, "%s: the number is not handed over" % W)
                    return
            if lab[0] == "sym":
                if kind != "return" or (v[0] == "c" and v[1] != txt[0]):
                    self.V("token:" + key, "%s is not passed to the grammar" % W)
                    return
                if lab[1] is not None:
                    if mode != self.mode.get(lab[1]):
                        self.V("mode:" + key, "%s does not end the %s" % (W, WHERE[mname].lower()))
                        return
                elif mode is not None and mode != self.mode[mname]:
                    self.V("mode:" + key, "%s ends the %s" % (W, WHERE[mname].lower()))
                    return
            if lab[0] == "skip" and kind != "next":
                self.V("token:" + key, "%s is not skipped" % W)
                return
            if lab[0] == "back":
                if kind != "next" or mode != self.mode.get(lab[1]):
                    self.V("mode:" + key, "%s does not end the PARENT entry" % W)
                    return
            if lab[0] == "filename":
                if kind != "return" or tok != "FILENAME":
                    self.V("token:" + key, "%s is not taken as the name of the parent file" % W)
                    return
                if mode != 0:
                    self.V("mode:" + key, "%s: the entry does not end after the name" % W)
                    return
            if lab[0] == "more":
                if kind != "next" or st.mem.get((YYG, (self.L.F["yy_more_flag"][0], ()))) in (None, ZERO):
                    self.V("text:" + key, "%s is lost from the sample" % W)
                    return
            if lab[0] == "more?" and kind != "next":
                self.V("text:" + key, "%s ends the sample" % W)
                return
            if lab[0] == "delimspec":
                if kind != "return":
                    self.V("token:" + key, "%s is skipped" % W)
                    return
                got.add(tok)
                if mode != self.mode.get("box"):
                    self.V("mode:" + key, "%s: the delimiter specification does not end" % W)
                    return
                if tok == "YDELIMSPEC":
                    c = {f: st.mem.get((EXTRA, (self.P[f][0], ()))) for f in ("sesc", "sdel")}
                    dup = [e[1] for e in st.q or () if e[0] == "dup"]
                    src = [("s", x) for x in dup] + [("s", TEXT)]
                    for f, off in (("sesc", 0), ("sdel", 1)):
                        if c[f] is None:
                            self.V("delim:" + f, "%s is accepted as delimiter specification, but not used" % W)
                        elif not any(repr(("ld", (b, (off, ())))) in repr(c[f]) for b in src) and any(repr(("ld", (b, (1 - off, ())))) in repr(c[f]) for b in src):
                            self.V("delim:" + f, "%s: escape character and delimiter are exchanged" % W)
                elif not any(e[0] == "diag" for e in st.q or ()):
                    self.V("delim:mute", "%s: a delimiter specification is refused without a message" % W)
            if lab[0] == "endtext":
                if kind != "return":
                    self.V("token:" + key, "%s does not end the sample" % W)
                    return
                b = [e[1] for e in st.q or () if e[0] == "btrim"]
                if b and b[0] == "text" and tok != "STRING":
                    self.V("sample:text", "%s: the text of a sample is not handed over" % W)
                    return
                if b and b[0] == "empty" and tok == "STRING":
                    self.V("sample:empty", "%s: an empty sample is accepted" % W)
                    return
                if tok == "STRING" and lv is None:
                    self.V("sample:lost", "%s: the text of a sample is lost" % W)
                    return
                if mode is not None:
                    self.enter("sample_end", mode, W, key)
        if lab[0] == "delimspec" and "YDELIMSPEC" not in got:
            self.V("delim:never", "no delimiter specification is accepted")
        if lab[0] in ("endtext", "go") and lab[-1] != "sample" and mname in ("sample", "sample_end") and not trail:
            self.V("trail:" + key, "%s: the line break is lost" % W)

    def enter(self, name, mode, W, key):
        if name in self.mode and self.mode[name] != mode:
            self.V("mode:" + key, "%s does not lead to the %s" % (W, WHERE[name].lower()))
        self.mode.setdefault(name, mode)

    def string(self, rule, W, key):
        P = self.P
        for same in (True, False):
            st = self.L.state()
            st.mem[(("s", TEXT), NOOFF)] = ("c", 34)
            st.mem[(EXTRA, (P["sdel"][0], ()))] = ("c", 34 if same else 126)
            st.mem[(EXTRA, (P["sesc"][0], ()))] = ("c", 92)
            runs = self.L.action(rule, st=st)
            kinds = [(k, self.tokname.get(v[1]) if v is not None and v[0] == "c" else None) for k, v, m, x in runs]
            if not runs:
                self.rep.unresolved("strings")
                return
            if same:
                if any(k == "reject" for k, t in kinds):
                    self.V("string:reject", "%s begins with the string delimiter, but is not taken as a string" % W)
                elif not any(t == "STRING" for k, t in kinds):
                    self.V("string:never", "%s is never taken as a string" % W)
                for k, v, m, x in runs:
                    tok = self.tokname.get(v[1]) if v is not None and v[0] == "c" else None
                    if tok == "STRING" and x.mem.get((LVAL, NOOFF)) is None:
                        self.V("string:value", "%s: the string is not handed over" % W)
                    if m is not None:
                        self.V("string:mode", "%s: a string ends the block" % W)
            elif any(t == "STRING" for k, t in kinds):
                self.V("string:delim", "%s: a string is accepted although it begins with a character which is not the string delimiter" % W)
        if rule not in self.L.dfa.trail:
            self.V("string:trail", "%s: the line break after a string is swallowed" % W)


WHERE = {"top": "Top level", "box": "Design", "shapes": "SHAPES block", "elastic": "ELASTIC block", "delim": "DELIMITER entry", "parent": "PARENT entry", "sample": "SAMPLE block", "sample_end": "End of the SAMPLE block"}


def what(lab):
    if lab[0] in ("tok", "go", "box", "flag"):
        return {"YUNREC": "an unknown character"}.get(lab[1], "the word " + lab[1].lstrip("Y"))
    return {"skip": "white space or comment", "shape": "a shape name", "sym": "punctuation", "string": "a string", "num": "a number", "ascii": "a word", "bx": "a word", "filename": "a file name", "back": "the end of the entry",
            "more": "sample text", "more?": "sample text", "endtext": "the end of the sample", "delimspec": "a delimiter specification"}[lab[0]]


def check(tree, rep):
    C = Check(tree, rep)
    C.P = fields(C.mod, "pass_to_flex")
    M = modes()
    done = set()
    while True:
        todo = [m for m in M if m in C.mode and m not in done]
        if not todo:
            break
        for m in todo:
            done.add(m)
            before = set(C.pairs)
            for bol in (1, 0):
                if M[m][1 - bol] is not None:
                    C.compare(m, bol, M[m][1 - bol])
            # actions leading to other modes first
            for k in sorted(set(C.pairs) - before, key=lambda p: (p[0][0] not in ("go", "box", "endtext"), str(p))):
                C.verify(k[0], k[1], C.pairs[k])
    for m in M:
        if m not in done and not rep.viol:
            rep.unresolved("%s is never reached" % WHERE[m])
    rep.cov.update(explanation="In every mode of the scanner (found by following the mode changes of its actions), its automaton is compared with the documented words by a product construction, which covers every input text; the action of each "
                               "rule is then interpreted abstractly and token, value and mode change are compared with the documented meaning.",
                   modes=len(done), product_states=C.n, words_and_rules=len(C.pairs), action_paths=C.L.paths)
    rep.assumptions += ["memory allocation succeeds", "debug logging is off", "flex's matching loop (longest match, first rule) works as documented"]
