"""C03: formats and argument lists agree; no text from outside is used as a format; counted argument lists have the stated length."""
import os, re, glob, subprocess
import common

# libc: function -> (index of format, index of first argument or None for the va_list variants)
SINKS = {"printf": (0, 1), "fprintf": (1, 2), "sprintf": (1, 2), "snprintf": (2, 3), "dprintf": (1, 2), "asprintf": (1, 2), "syslog": (1, 2),
         "vprintf": (0, None), "vfprintf": (1, None), "vsprintf": (1, None), "vsnprintf": (2, None), "vasprintf": (1, None), "vdprintf": (1, None), "vsyslog": (1, None)}
CONV = re.compile(r"%(?:([-+ #0']*)(\*|\d+)?(?:\.(\*|\d*))?(hh|h|ll|l|z|j|t|L|q)?([a-zA-Z])|(%))")
BUILT = ("malloc", "calloc", "realloc", "alloca")


def conversions(fmt):
    """list of operand kinds ('int', 'long', 'ptr', 'dbl', '?'), or None when a conversion is malformed"""
    res, i = [], 0
    while True:
        i = fmt.find("%", i)
        if i < 0:
            return res
        m = CONV.match(fmt, i)
        if not m:
            return None
        i = m.end()
        if m.group(6):
            continue
        if m.group(2) == "*":
            res.append(("int", "*"))
        if m.group(3) == "*":
            res.append(("int", ".*"))
        ln, c = m.group(4), m.group(5)
        if c in "diouxXc":
            res.append(("long" if ln in ("l", "ll", "z", "j", "t", "q") and c != "c" else "int", m.group(0)))
        elif c in "spn":
            res.append(("ptr", m.group(0)))
        elif c in "aAeEfFgG":
            res.append(("dbl" if ln != "L" else "?", m.group(0)))
        elif c == "m":
            pass
        else:
            return None


def kind(f, ref):
    t = None
    if ref[0] == "i":
        t = f.ins[ref[1]].t
    elif ref[0] == "a":
        t = f.args[ref[1]]["type"]
    elif ref[0] == "c":
        t = "i%d" % ref[2] if len(ref) > 2 else None
    elif ref[0] in ("g", "gep", "fn", "null"):
        t = "ptr"
    if t is None:
        return None
    if t.startswith("ptr"):
        return "ptr"
    return {"i32": "int", "i64": "long", "double": "dbl"}.get(t)


class Origins:
    def __init__(self, m):
        self.m = m
        self.taken = set()
        for f in m.defined.values():
            for i in f.all_ins():
                for o in i.ops:
                    if isinstance(o, tuple) and o and o[0] == "fn":
                        self.taken.add(o[1])
        self.stores = {}
        for f in m.defined.values():
            for i in f.all_ins():
                if i.op == "store" and i.ops[1][0] == "g":
                    self.stores.setdefault(i.ops[1][1], []).append((f, i.ops[0]))

    def of(self, f, ref, seen=None):
        """set of origins of a pointer: ('str', text) | ('foreign', text) | ('unknown', text)"""
        seen = set() if seen is None else seen
        k = (f.name if f else None, ref)
        if k in seen:
            return set()
        seen.add(k)
        m = self.m
        s = m.cstr(ref)
        if s is not None:
            return {("str", s)}
        if ref[0] in ("null", "zero") or ref[0] == "c" and ref[1] == 0:
            return set()
        if ref[0] == "a":
            if f.name in self.taken or f.name == "main":
                return {("unknown", "parameter of %s" % f.name)}
            r = set()
            for c in m.callers(f.name):
                r |= self.of(c.fn, c.ops[ref[1]], seen)
            return r
        if ref[0] != "i":
            return {("unknown", str(ref)[:60])}
        I = f.ins[ref[1]]
        if I.op == "phi":
            r = set()
            for _, o in I.ops:
                r |= self.of(f, o, seen)
            return r
        if I.op == "select":
            return self.of(f, I.ops[1], seen) | self.of(f, I.ops[2], seen)
        if I.op in ("bitcast", "freeze"):
            return self.of(f, I.ops[0], seen)
        if I.op == "getelementptr" or I.op == "gep":
            base = self.of(f, I.ops[0], seen)
            return {("unknown", "part of a string") if o[0] == "str" else o for o in base}
        if I.op == "load":
            a = I.ops[0]
            b = a
            hops = 0
            while b[0] in ("i", "gep") and hops < 12:
                hops += 1
                if b[0] == "gep":
                    b = b[1]
                    continue
                J = f.ins[b[1]]
                if J.op in ("getelementptr", "gep"):
                    b = J.ops[0]
                else:
                    break
            if b[0] == "g":
                g = m.globals.get(b[1], {})
                if "init" not in g:
                    return {("foreign", b[1])}
                tab = m.table(b[1])
                if a[0] == "g" and g["init"][0] != "arr":
                    r = set()
                    for ff, v in self.stores.get(b[1], []):
                        r |= self.of(ff, v, seen)
                    if g["init"][0] in ("g", "gep"):
                        r |= self.of(None, g["init"], seen)
                    return r or {("unknown", "global " + b[1])}
                if tab and all(isinstance(x, (str, type(None))) for x in tab):
                    return {("str", x) for x in tab if x is not None}
                return {("unknown", "table " + b[1])}
            fld = m.last_field(f, a)
            if fld:
                return {("foreign", ".".join(str(x) for x in fld) if isinstance(fld, tuple) else str(fld))}
            return {("unknown", "loaded value")}
        if I.op == "alloca":
            return self.built(f, ref, "assembled in a buffer", seen)
        if I.op == "call":
            c = I.callee
            if c in BUILT:
                return self.built(f, ref, "assembled in allocated memory", seen)
            if c in ("bxs_to_output", "u32_strconv_to_output", "strerror"):
                return {("foreign", "result of %s" % c)}
            if c in ("concat_strings_alloc", "strdup"):
                r = set()
                for o in I.ops[1 if c != "strdup" else 0:]:
                    r |= {(k, t) for k, t in self.of(f, o, seen) if k == "foreign"}
                return r or {("unknown", "result of %s" % c)}
            if c in m.defined:
                r = set()
                for j in m.defined[c].all_ins():
                    if j.op == "ret" and j.ops:
                        r |= self.of(m.defined[c], j.ops[0], seen)
                if r and (any(o[0] == "foreign" for o in r) or not any(o[0] == "unknown" for o in r)):
                    return r
                return {("unknown", "result of %s" % c)}
            if c in ("getenv", "strerror", "fgets", "gettext", "realpath", "nl_langinfo", "setlocale"):
                return {("foreign", "result of %s" % c)}
            return {("unknown", "result of %s" % c)}
        return {("unknown", I.op)}


    def built(self, f, ref, what, seen):
        """a buffer: foreign when text from outside is written into it by a formatting function"""
        root, todo, al = ref, [ref], set()
        while todo:
            x = todo.pop()
            if x in al:
                continue
            al.add(x)
            for j in f.all_ins():
                if j.op in ("getelementptr", "gep", "phi", "select", "bitcast") and (x in j.ops or j.op == "phi" and any(o == x for _, o in j.ops)):
                    todo.append(("i", j.id))
        for j in f.calls():
            if not j.ops or j.ops[0] not in al:
                continue
            if j.callee in ("vsnprintf", "vsprintf"):
                return {("foreign", "a formatted message")}
            if j.callee in ("sprintf", "snprintf"):
                fi, ai = SINKS[j.callee]
                cv = [conversions(t) if k == "str" else None for k, t in self.of(f, j.ops[fi], set())]
                for c in cv:
                    if c is None:
                        continue
                    for (w, t), a in zip(c, j.ops[ai:]):
                        if w == "ptr":
                            for k, o in self.of(f, a, seen):
                                if k == "foreign":
                                    return {(k, o)}
            if j.callee in ("strcpy", "strcat", "strncpy", "strncat"):
                for k, o in self.of(f, j.ops[1], seen):
                    if k == "foreign":
                        return {(k, o)}
        return {("unknown", what)}


def fptr_targets(m, org, f, ref):
    """functions a called pointer may be, when it is loaded from a global variable"""
    if ref[0] == "i" and f.ins[ref[1]].op == "load" and f.ins[ref[1]].ops[0][0] == "g":
        g = f.ins[ref[1]].ops[0][1]
        r = set()
        i = m.globals.get(g, {}).get("init")
        if i and i[0] == "fn":
            r.add(i[1])
        for ff, v in org.stores.get(g, []):
            if v[0] == "a" and ff.name not in org.taken:
                r |= {c.ops[v[1]][1] if c.ops[v[1]][0] == "fn" else None for c in m.callers(ff.name)}
            else:
                r.add(v[1] if v[0] == "fn" else None)
        return r, g
    return set(), None


def wrappers(m):
    """functions that hand one of their parameters on as a format: name -> (index of format, index of first argument | None)"""
    w = dict(SINKS)
    for n in list(w):
        f = m.functions.get(n)
        if f is not None and not f.decl:
            del w[n]
    ch = True
    while ch:
        ch = False
        for f in m.defined.values():
            if f.name in w:
                continue
            for i in f.calls():
                if i.callee in w and w[i.callee][1] is None:
                    a = i.ops[w[i.callee][0]] if w[i.callee][0] < len(i.ops) else None
                    if a and a[0] == "a":
                        w[f.name] = (a[1], f.nargs if f.vararg else None)
                        ch = True
                        break
    return w


def short(s):
    s = s.replace("\n", "\\n")
    return s if len(s) < 60 else s[:57] + "..."


def check(tree, rep):
    m = tree.module()
    org = Origins(m)
    w = wrappers(m)
    sites = convs = 0
    gl = {}
    skip = set()
    for f in m.defined.values():
        if f.name.startswith("yy") and f.file in ("parser.c", "lex.yy.c") and f.name not in w:
            pass
        for i in f.calls():
            c, spec = i.callee, None
            if c in w:
                spec = w[c]
            elif c is None:
                tg, g = fptr_targets(m, org, f, i.calleeref())
                if tg and all(t in w for t in tg):
                    sp = {w[t] for t in tg}
                    if len(sp) == 1:
                        spec, c = sp.pop(), g
                        gl[g] = spec
            if spec is None:
                continue
            fi, ai = spec
            if fi >= len(i.ops):
                continue
            fm = i.ops[fi]
            if f.name in w and fm == ("a", w[f.name][0]):
                continue                    # the wrapper itself; its callers are judged
            sites += 1
            os_ = org.of(f, fm)
            for k, t in sorted(os_):
                if k == "foreign":
                    rep.violation("foreign-%s-%s" % (f.name, t), "%s: the format of %s is a text that does not come from the program (%s): a %% in it is taken for a conversion" % (i.where(), c, t))
                elif k == "unknown":
                    rep.unresolved("format of %s at %s: %s" % (c, i.where(), t))
            if ai is None:
                continue
            args = i.ops[ai:]
            for k, t in sorted(os_):
                if k != "str":
                    continue
                cv = conversions(t)
                if cv is None:
                    rep.violation("malformed-%s-%s" % (f.name, t[:40]), "%s: the format \"%s\" of %s contains a malformed conversion" % (i.where(), short(t), c))
                    continue
                convs += len(cv)
                for want, txt in cv:
                    if re.search(r"(l[cs]|[CS])$", txt):
                        rep.violation("wide-%s-%s" % (f.name, t[:40]), "%s: conversion %s in %s(\"%s\") fails, and the text is lost, in a locale which cannot represent the character" % (i.where(), txt, c, short(t)))
                if len(cv) > len(args):
                    rep.violation("missing-%s-%s" % (f.name, t[:40]), "%s: %s(\"%s\") has %d conversions, but only %d arguments" % (i.where(), c, short(t), len(cv), len(args)))
                    continue
                if len(cv) < len(args):
                    rep.violation("surplus-%s-%s" % (f.name, t[:40]), "%s: %s(\"%s\") has %d conversions, but %d arguments" % (i.where(), c, short(t), len(cv), len(args)))
                    continue
                for (want, txt), a in zip(cv, args):
                    have = kind(f, a)
                    if have is not None and want != "?" and have != want:
                        rep.violation("type-%s-%s-%s" % (f.name, t[:40], txt), "%s: conversion %s in %s(\"%s\") gets an argument of another type (%s instead of %s)" % (
                            i.where(), txt, c, short(t), {"int": "an int", "long": "a 64-bit integer", "ptr": "a pointer", "dbl": "a floating point number"}[have],
                            {"int": "an int", "long": "a 64-bit integer", "ptr": "a pointer", "dbl": "a floating point number"}[want]))
    rep.need(sites > 50, "only %d calls of format functions found" % sites)

    # ---- counted argument lists
    counted = {}
    for f in m.defined.values():
        if f.vararg and f.name not in w and f.nargs and f.args[-1]["type"] in ("i32", "i64") and any((i.callee or "").startswith("llvm.va_start") for i in f.calls()):
            counted[f.name] = f.nargs - 1
    lists = 0
    nsh = len([1 for n, v in m.enums.get("shape_t", []) ]) or None
    for n, k in counted.items():
        for i in m.callers(n):
            lists += 1
            a = i.ops[k]
            if a[0] != "c":
                rep.unresolved("number of arguments of %s at %s is computed" % (n, i.where()))
                continue
            have = len(i.ops) - k - 1
            if a[1] != have:
                rep.violation("count-%s-%s" % (i.fn.name, n), "%s: %s is told that %d arguments follow, but there are %d%s" % (
                    i.where(), n, a[1], have, ": the last is ignored" if a[1] < have else ": it reads arguments which do not exist"))
            if n in ("bxs_concat", "concat_strings_alloc"):
                for o in i.ops[k + 1:]:
                    if kind(i.fn, o) not in (None, "ptr"):
                        rep.violation("list-%s-%s" % (i.fn.name, n), "%s: %s is given something that is no string" % (i.where(), n))
            elif n in ("highest", "widest"):
                for o in i.ops[k + 1:]:
                    if o[0] == "c" and not 0 <= o[1] < 16:
                        rep.violation("list-%s-%s" % (i.fn.name, n), "%s: %s is given %d, which is no shape" % (i.where(), n, o[1]))

    # ---- the same, by the types of the source language
    hdrs = ["config.h", "boxes.h"] + sorted(os.path.basename(h) for h in glob.glob(os.path.join(common.SRC, "*.h")) if not h.endswith(".in.h"))
    hdrs = list(dict.fromkeys(hdrs))

    def cc(files, text):
        h = os.path.join(tree.dir, "c03_witness.h")
        open(h, "w").write(text)
        ps = []
        for c in files:
            ps.append((c, subprocess.Popen([common.LLVM + "clang", "-fsyntax-only", "-fno-caret-diagnostics", "-I" + tree.dir, "-I" + common.SRC, "-Wno-everything", "-Wformat", "-Wformat-extra-args",
                                            "-Wno-format-zero-length", "-Wno-format-security", "-Wincompatible-pointer-types", "-Wint-conversion", "-Wno-error", "-Wno-error=incompatible-pointer-types", "-Wno-error=int-conversion",
                                            "-include", h, c], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")))
        return [(c, p.communicate()[0], p.returncode) for c, p in ps]

    base = "".join('#include "%s"\n' % h for h in hdrs)

    def usable(line):
        h = os.path.join(tree.dir, "c03_probe.c")
        open(h, "w").write(base + line)
        return subprocess.run([common.LLVM + "clang", "-fsyntax-only", "-w", "-I" + tree.dir, "-I" + common.SRC, h], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode == 0

    attr = ""
    for n, (fi, ai) in sorted({**{k: v for k, v in w.items() if k in m.defined and not m.defined[k].local}, **gl}.items()):
        line = "extern __typeof__(%s) %s __attribute__((format(printf,%d,%d)));\n" % (n, n, fi + 1, ai + 1 if ai is not None else 0)
        if usable(line):
            attr += line
        else:
            rep.unresolved("no prototype of %s in a header: only sizes of its arguments are compared" % n)
    mac = {}
    for n, ty in (("bxs_concat", "uint32_t"), ("concat_strings_alloc", "char")):
        line = "#define %s(n_, ...) ((void) sizeof((const %s *[]) {__VA_ARGS__}), (%s)(n_, __VA_ARGS__))\n" % (n, ty, n)
        if n in counted and usable(line):
            mac[n] = line
        else:
            rep.unresolved("%s not found: types of its arguments not compared" % n)
    files = 0
    groups = {}
    for c in tree.cfiles:
        own = tuple(sorted(n for n in mac if m.defined[n].file == os.path.basename(c)))
        groups.setdefault(own, []).append(c)
    for own, cs in groups.items():
        for c, out, rc in cc(cs, base + attr + "".join(l for n, l in mac.items() if n not in own)):
            if rc:
                rep.unresolved("%s cannot be read together with all headers; only sizes of arguments were compared" % os.path.basename(c))
                continue
            files += 1
            for x in re.finditer(r"(?m)^(\S+?):(\d+):\d+: (?:warning|error): (.*?) \[-W(?:error,-W)?([\w-]+)\]$", out):
                if x.group(4).startswith("format-nonliteral") or x.group(4).startswith("format-security"):
                    continue
                if "format" not in x.group(4) and "%s" and not re.search(r"const (uint32_t|char) \*", x.group(3)):
                    continue            # pointers elsewhere: not this property
                rep.violation("src-%s-%s-%s" % (os.path.basename(x.group(1)), x.group(4), x.group(3)[:80]), "%s:%s: %s" % (os.path.basename(x.group(1)), x.group(2), x.group(3)))
    rep.cov.update({"format_calls": sites, "conversions": convs, "format_functions": sorted(k for k in w if k in m.defined) + sorted(gl), "counted_lists": lists, "counted_functions": sorted(counted),
                    "files_typed": files, "explanation": "every call of a function of the printf family, and of every function of the program which hands a parameter on as a format, was found in the IR; the format was traced to its literals; "
                    "number and size of the arguments were compared with its conversions, and the front end of clang compared their types"})
