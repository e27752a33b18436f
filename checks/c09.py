"""C09: short option string, long option table, parser behaviour, help text and manual describe the same set of options."""
import os, re
from common import REPO, Broken
from cmdl import Run, initial
from sim import ZERO, UNK, Sim, St
from bx import BxHooks, need_fn


class TabHooks(BxHooks):
    def __init__(self):
        self.found = []

    def call2(self, sim, st, I, name, args, ctx):
        if name == "getopt_long":
            self.found.append((sim.lit(args[2]), args[3], st, I))
            return []
        return None


def tables(mod):
    """(short option string, [(long name, has_arg, value)]) as passed to getopt_long"""
    need_fn(mod, "process_commandline")
    h = TabHooks()
    s = Sim(mod, h, cap=50, budget=60000)
    s.run("process_commandline", [("c", 2), ("u", ("argv",))], St())
    if not h.found:
        raise Broken("no call of getopt_long below process_commandline")
    short, tab, st, I = h.found[0]
    if short is None:
        raise Broken("short option string is not a literal")
    # the long option array: a constant object, possibly copied to the stack
    g = None
    if tab[0] == "p" and tab[1][0] == "g":
        g = tab[1][1]
    elif tab[0] == "p":
        d = [v for (b, o), v in st.mem.items() if b == tab[1] and o[0] == "dflt"]
        if d and d[0][0] == "copyof" and d[0][1][0] == "g":
            g = d[0][1][1]
    rows = mod.table(g) if g else None
    if not isinstance(rows, list):
        raise Broken("long option table not found")
    res = []
    for r in rows:
        if not isinstance(r, list) or not r[0]:
            break
        res.append((r[0], r[1], r[3] if len(r) > 3 else 0, r[2]))
    return short, res, I


def shortmap(s):
    m = {}
    i = 0
    s = s.lstrip("+-:")
    while i < len(s):
        c = s[i]
        i += 1
        n = 0
        while i < len(s) and s[i] == ":":
            n += 1
            i += 1
        m[c] = n
    return m


def usage_options(mod):
    """option lines of the help text: {(short, long): takes argument}"""
    need_fn(mod, "usage_long")
    lits = []
    for n in mod.reachable("usage_long"):
        f = mod.functions.get(n)
        if f is None or f.decl or n in ("discover_config_file",):
            continue
        for i in f.calls():
            for o in i.ops:
                if isinstance(o, tuple):
                    s = mod.cstr(o)
                    if s and re.search(r"(?m)^\s+-", s):
                        lits.append((s, i))
    # tables of help lines are possible, too
    for k, g in mod.globals.items():
        t = g.get("init")
        if t and t[0] in ("arr", "struct"):
            def walk(x):
                if isinstance(x, list):
                    for y in x:
                        walk(y)
                elif isinstance(x, str) and re.match(r"\s+-{1,2}\w.*\s{2,}\S", x):
                    lits.append((x, None))
            walk(mod.table(k))
    res = {}
    for s, i in lits:
        for line in s.split("\n"):
            m = re.match(r"\s+(?:-(\w))?(?:,\s*)?(?:--([\w-]+))?(?:[ =]?(<[^>]+>))?(\s|$)", line)
            if m and (m.group(1) or m.group(2)):
                res[(m.group(1), m.group(2))] = (bool(m.group(3)), i)
    return res


def man_options():
    p = os.path.join(REPO, "doc", "boxes.1.in")
    if not os.path.exists(p):
        raise Broken("manual page not found")
    res = []
    for line in open(p, encoding="utf-8", errors="replace"):
        if not re.match(r"\\fB(\\-|-)", line):
            continue
        line = line.strip().replace("\\-", "-").rstrip(".")
        group = []
        for part in line.split(", "):
            m = re.match(r"\\fB(--?)([\w-]+)\\fP", part)
            if m:
                rest = part[m.end():]
                group.append((m.group(1), m.group(2), "\\fI" in rest))
        if group:
            res.append((group, line))
    return res


HIDDEN = {"x", "extra"}      # deliberately undocumented debugging option


def check(tree, rep):
    mod = tree.module()
    short, longs, I = tables(mod)
    sm = shortmap(short)
    where = I.where()
    rep.need(len(sm) >= 10 and len(longs) >= 10, "option tables look empty")
    ARG = {0: 0, 1: 1, 2: 2}
    obligations = 0
    names = {}
    for name, arg, val, flag in longs:
        obligations += 2
        if name in names:
            rep.violation("dup-" + name, "long option --%s is declared twice (%s)" % (name, where))
        names[name] = (arg, val)
        if 32 < val < 127:
            c = chr(val)
            if c not in sm:
                rep.violation("noshort-" + name, "--%s maps to -%s, which the short option string '%s' does not contain (%s)" % (name, c, short, where))
            elif sm[c] != arg:
                rep.violation("arg-" + name, "-%s %s an argument but --%s %s (%s)" % (c, "takes" if sm[c] else "does not take", name, "takes one" if arg else "does not", where))
    byval = {}
    for n, (a, v) in names.items():
        byval.setdefault(v, []).append(n)
    # behaviour of the parser for each declared value
    r0, i0 = initial(mod)
    for v in sorted({ord(c) for c in sm} | set(byval)):
        obligations += 2
        lab = ("-" + chr(v)) if 32 < v < 127 else "--" + byval[v][0]
        r = Run(mod, v)
        rep.cov["interpreter_steps"] = rep.cov.get("interpreter_steps", 0) + r.sim.steps
        okc = len(r.next) + len(r.returned)
        if okc == 0 and not r.sim.overrun:
            rep.violation("unhandled" + lab, "%s is declared (%s) but the parser fails for it on every path" % (lab, where))
            continue
        takes = sm.get(chr(v), 0) if 32 < v < 127 else names[byval[v][0]][0]
        if takes and not r.h.reads_optarg:
            rep.violation("ignored-arg" + lab, "%s is declared with an argument, but the parser never looks at it (%s)" % (lab, where))
        if not takes and r.h.reads_optarg:
            rep.violation("undeclared-arg" + lab, "%s is declared without argument, but the parser uses one (%s)" % (lab, where))
        if not takes and not any(r.changed(st, i0) for st in r.next + [x for _, x in r.returned]) and not r.sim.overrun:
            rep.violation("noeffect" + lab, "%s is accepted but has no effect on the option record (%s)" % (lab, where))
    # unknown values must be refused
    for v in (ord("?"), ord(":"), ord("Z"), 7777):
        if v in byval or (32 < v < 127 and chr(v) in sm):
            continue
        obligations += 1
        r = Run(mod, v)
        if r.next or r.returned:
            rep.violation("accepts-unknown", "an option getopt_long reports as invalid (%r) does not end in failure (%s)" % (chr(v) if v < 128 else v, where))
            break
    # help text
    us = usage_options(mod)
    rep.need(len(us) >= 10, "help text not recognised (%d option lines)" % len(us))
    ush, ulo = {}, {}
    for (s, l), (a, i) in us.items():
        if s:
            ush[s] = a
        if l:
            ulo[l] = a
        if s and l:
            obligations += 1
            if l in names and names[l][1] != ord(s):
                rep.violation("help-pair-" + l, "the help text pairs -%s with --%s, the parser does not (%s)" % (s, l, i.where() if i else "help table"))
        if s and s not in sm:
            rep.violation("help-extra-" + s, "the help text lists -%s, which is not accepted" % s)
        if l and l not in names:
            rep.violation("help-extra-" + l, "the help text lists --%s, which is not accepted" % l)
    for c, n in sm.items():
        obligations += 1
        if c in HIDDEN:
            continue
        if c not in ush:
            rep.violation("help-missing-" + c, "-%s is accepted but missing from the help text (usage_long)" % c)
        elif ush[c] != bool(n):
            rep.violation("help-arg-" + c, "help text and parser disagree on whether -%s takes an argument" % c)
    for l, (a, v) in names.items():
        obligations += 1
        if l in HIDDEN:
            continue
        if l not in ulo:
            rep.violation("help-missing-" + l, "--%s is accepted but missing from the help text (usage_long)" % l)
        elif ulo[l] != bool(a):
            rep.violation("help-arg-" + l, "help text and parser disagree on whether --%s takes an argument" % l)
    # manual
    man = man_options()
    rep.need(len(man) >= 10, "manual page options not recognised")
    seen = set()
    for group, line in man:
        sv = [n for d, n, a in group if d == "-"]
        for d, n, a in group:
            obligations += 1
            seen.add(n)
            if d == "-":
                if n not in sm:
                    rep.violation("man-extra-" + n, "the manual documents -%s, which is not accepted" % n)
                elif bool(sm[n]) != a:
                    rep.violation("man-arg-" + n, "manual and parser disagree on whether -%s takes an argument" % n)
            else:
                if n not in names:
                    rep.violation("man-extra-" + n, "the manual documents --%s, which is not accepted" % n)
                elif bool(names[n][0]) != a:
                    rep.violation("man-arg-" + n, "manual and parser disagree on whether --%s takes an argument" % n)
                elif len(sv) == 1 and 32 < names[n][1] < 127 and chr(names[n][1]) != sv[0]:
                    rep.violation("man-pair-" + n, "the manual pairs -%s with --%s, the parser does not" % (sv[0], n))
    # options documented separately are told apart by the parser
    for v, ns in byval.items():
        for a in ns:
            for b in ns:
                if a < b and a in ulo and b in ulo:
                    rep.violation("same-%s-%s" % (a, b), "--%s and --%s have lines of their own in the help text, but the parser treats them as one" % (a, b))
        obligations += 1
    for n in list(sm) + list(names):
        if n not in seen and n not in HIDDEN:
            rep.violation("man-missing-" + n, "%s%s is accepted but not documented in doc/boxes.1.in" % ("-" if len(n) == 1 else "--", n))
    rep.cov.update({"obligations": obligations, "discharged": obligations - len(rep.viol), "short_options": len(sm), "long_options": len(longs),
                    "help_lines": len(us), "manual_entries": len(man),
                    "rule": "agreement of the getopt_long short string and long table (initialisers), the parser's per-option transfer function "
                            "(abstract interpretation from process_commandline with getopt_long returning that option), the help text literals and the manual's option headings",
                    "explanation": "each declared option is one set of obligations: same argument requirement everywhere, handled without failing on all paths, optarg consulted iff declared, listed in help and manual"})
