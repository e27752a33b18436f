"""C15: the configuration file used is the first readable one in the documented search order; an explicitly given location is never silently replaced."""
from sim import Sim, St, UNK, ZERO, NOOFF
from bx import BxHooks, fields, need_fn
from common import makevar

NAMES = [".boxes", "box-designs", "boxes-config", "boxes"]


def S(t):
    return ("p", ("h", ("str", t), 0), NOOFF)


class H(BxHooks):
    """q = tuple of probes (kind, path, outcome) and diagnostics"""

    def __init__(self, mod, env, fopt, convfail):
        self.mod, self.env, self.fopt, self.convfail = mod, env, fopt, convfail
        self.off = fields(mod, "opt_t")["f"][0]
        self.unknown = []

    def text(self, sim, v):
        if v[0] == "p" and v[1][0] == "h" and isinstance(v[1][1], tuple) and v[1][1][0] == "str" and v[2] == NOOFF:
            return v[1][1][1]
        return sim.lit(v)

    def load(self, sim, st, I, loc, ctx):
        b, o = loc
        if b == ("g", "opt") and o == (self.off, ()):
            return self.mk(st, self.fopt) if self.fopt else ZERO
        t = None
        if b[0] == "h" and isinstance(b[1], tuple) and b[1][0] == "str":
            t = b[1][1]
        if t is not None and not o[1] and 0 <= o[0] <= len(t):
            return ("c", ord((t + "\0")[o[0]]))
        return None

    def known(self, st, kind, path):
        for e in st.q or ():
            if e[:2] == (kind, path):
                return e[2]
        return None

    def split(self, st, kind, path):
        k = self.known(st, kind, path)
        if k is not None:
            return [(k, st)]
        out = []
        for r in (0, 1):
            s2 = st.copy()
            s2.q = (st.q or ()) + ((kind, path, r),)
            out.append((r, s2))
        return out

    def call2(self, sim, st, I, n, args, ctx):
        if n in ("getenv", "secure_getenv"):
            t = self.text(sim, args[0])
            r = self.env.get(t)
            return [(self.mk(st, r) if r else ZERO, st)]
        if n == "concat_strings_alloc":
            parts = [self.text(sim, a) for a in args[1:]]
            cnt = args[0][1] if args[0][0] == "c" else len(parts)
            parts = parts[:cnt]
            if None in parts:
                self.unknown.append("concat_strings_alloc line %s" % I.line)
                return [(("u", ("strunk", ctx, I.id)), st)]
            return [(self.mk(st, "".join(parts)), st)]
        if n in ("strdup", "strndup") and self.text(sim, args[0]) is not None:
            return [(self.mk(st, self.text(sim, args[0])), st)]
        if n in ("fopen", "bx_fopen"):
            t = self.text(sim, args[0])
            if t is None:
                self.unknown.append("%s line %s" % (n, I.line))
                return None
            t = t.replace("//", "/")
            out = []
            for r, s in self.split(st, "open", t):
                v = ("u", ("FILE", t))
                if r:
                    s.facts[("ne", v)] = frozenset((0,))
                out.append((v if r else ZERO, s))
            return out
        if n in ("opendir",):
            t = self.text(sim, args[0])
            if t is None:
                self.unknown.append("%s line %s" % (n, I.line))
                return None
            t = t.replace("//", "/")
            out = []
            for r, s in self.split(st, "dir", t):
                v = ("u", ("DIR", t))
                if r:
                    s.facts[("ne", v)] = frozenset((0,))
                out.append((v if r else ZERO, s))
            return out
        if n in ("stat", "lstat", "stat64", "access"):
            t = self.text(sim, args[0])
            if t is None:
                self.unknown.append("%s line %s" % (n, I.line))
                return None
            t = t.replace("//", "/")
            out = []
            for r, s in self.split(st, "stat", t):
                if args[1][0] == "p" and r and n != "access":
                    off = fields(self.mod, "stat")["st_mode"][0]
                    for isdir, s2 in self.split(s, "isdir", t):
                        if isdir:
                            self.nofile(s2, t)
                        s2.mem[(args[1][1], (args[1][2][0] + off, ()))] = ("c", 0o040755 if isdir else 0o100644)
                        out.append((ZERO, s2))
                    continue
                if not r:
                    self.nofile(s, t)
                out.append((ZERO if r else ("c", -1), s))
            return out
        if n in ("fclose", "closedir", "free", "strerror"):
            return [(ZERO, st)]
        if n in ("u32_strconv_from_arg", "u32_strconv_from_encoding", "bxs_from_unicode", "bxs_from_ascii", "u32_strconv_from_input"):
            t = self.text(sim, args[0])
            if t is None and args[0] != ZERO:
                self.unknown.append("%s line %s" % (n, I.line))
            if args[0] == ZERO:
                st.q = (st.q or ()) + (("diag",),)
                return [(ZERO, st)]
            if n == "bxs_from_unicode" and t in self.convfail:
                st.q = (st.q or ()) + (("diag",),)
                return [(ZERO, st)]
            return [(self.mk(st, t), st)]
        if n in ("bx_fprintf", "fprintf", "perror"):
            st.q = (st.q or ()) + (("diag",),)
            return [(UNK, st)]
        if n == "strlen" and self.text(sim, args[0]) is not None:
            return [(("c", len(self.text(sim, args[0]))), st)]
        return None

    def nofile(self, st, p):
        """whatever the reason, there is no readable file at p"""
        st.q = tuple(e for e in st.q if not (len(e) == 3 and e[1] == p and e[0] in ("open", "stat", "isdir"))) + (("open", p, 0),)

    def mk(self, st, t):
        return S(t)


def strip(tr):
    return [(e[0], e[1].rstrip("/"), e[2]) if len(e) == 3 else e for e in tr]


def isfile(tr, p):
    """1 / 0 / None (not determined by what this path asked)"""
    g = {(e[0], e[1]): e[2] for e in tr if len(e) == 3}
    if g.get(("open", p)) == 0 or g.get(("stat", p)) == 0 or g.get(("isdir", p)) == 1:
        return 0
    if g.get(("open", p)) == 1 and g.get(("isdir", p)) == 0:
        return 1
    if g.get(("dir", p)) == 1:
        return 0
    return None


def isdir(tr, p):
    for e in tr:
        if e[:2] == ("dir", p):
            return e[2]
    if isfile(tr, p) == 1:
        return 0
    return None


def indir(tr, d):
    for n in NAMES:
        f = isfile(tr, d + "/" + n)
        if f is None:
            return None, d + "/" + n
        if f:
            return d + "/" + n, None
    return 0, None


def reference(tr, env, fopt, glob, gconf):
    """-> (path | 0 failure | None undetermined, location whose state was not asked)"""
    expl = None
    if not glob:
        expl = fopt or env.get("BOXES")
    if expl:
        f = isfile(tr, expl)
        if f is None:
            return None, expl
        if f:
            return expl, None
        d = isdir(tr, expl)
        if d is None:
            return None, expl
        return indir(tr, expl) if d else (0, None)
    cand = []
    if not glob:
        if env.get("HOME"):
            cand.append(("d", env["HOME"]))
        if env.get("XDG_CONFIG_HOME"):
            cand.append(("d", env["XDG_CONFIG_HOME"] + "/boxes"))
        if env.get("HOME"):
            cand.append(("d", env["HOME"] + "/.config/boxes"))
    cand += [("f", gconf), ("d", "/etc/xdg/boxes"), ("d", "/usr/local/share/boxes"), ("d", "/usr/share/boxes")]
    for k, p in cand:
        if k == "f":
            f = isfile(tr, p)
            if f is None:
                return None, p
            if f:
                return p, None
        else:
            d = isdir(tr, p)
            if d is None:
                return None, p
            if d:
                r, miss = indir(tr, p)
                if r is None or r:
                    return r, miss
    return 0, None


def check(tree, rep):
    mod = tree.module()
    need_fn(mod, "discover_config_file")
    gconf = makevar("GLOBALCONF", "/usr/share/boxes")
    B, HM, X, F = "/the/BOXES", "/the/HOME", "/the/XDG", "/the/-f"
    scen = []
    for f in (None, F):
        for b in (None, B):
            scen.append((dict(BOXES=b, HOME=HM, XDG_CONFIG_HOME=X), f, 0, ()))
    for h in (None, HM):
        for x in (None, X):
            if not (h and x):
                scen.append((dict(HOME=h, XDG_CONFIG_HOME=x), None, 0, ()))
    scen.append((dict(HOME=HM + "/", XDG_CONFIG_HOME=X + "/"), None, 0, ()))
    scen.append((dict(BOXES=B + "/", HOME=HM), None, 0, ()))
    scen.append((dict(HOME=HM), F + "/", 0, ()))
    scen.append((dict(BOXES=B, HOME=HM, XDG_CONFIG_HOME=X), F, 1, ()))
    scen.append((dict(BOXES=B, HOME=HM), F, 0, (F,)))
    scen.append((dict(BOXES=B, HOME=HM), None, 0, (B,)))
    n = 0
    used = {}
    for env, f, glob, cf in scen:
        h = H(mod, env, f, cf)
        s = Sim(mod, h, cap=4000, budget=150000)
        st = St()
        rets = s.run("discover_config_file", [("c", glob)], st)
        name = "%s%s, %s set" % ("global search" if glob else "-f given" if f else "no -f", ", given path not convertible" if cf else "", "/".join(k for k, v in env.items() if v) or "nothing")
        if h.unknown:
            rep.unresolved.append("%s: path construction not followed: %s" % (name, sorted(set(h.unknown))[:3]))
            continue
        for rv, x in rets:
            n += 1
            tr = x.q or ()
            t = h.text(s, rv)
            if t is not None:
                got = t.replace("//", "/")
            elif rv == ZERO:
                got = 0
            else:
                rep.unresolved.append("%s: result %r" % (name, rv))
                continue
            clean = lambda p: p and (p.rstrip("/") if p.count("/") > 1 else p)
            want, miss = reference(strip(tr), {k: clean(v) for k, v in env.items()}, clean(f), glob, gconf)
            got = got and clean(got)
            if cf and want in cf:
                if got != 0 or any(e[0] in ("open", "dir") and e[1] not in cf for e in tr if len(e) == 3):
                    rep.violation("fallback:" + cf[0], "discover_config_file (src/discovery.c): %s: falls back to another location (%s)" % (name, got), probes=fmt(tr))
                want = 0
            used[want or "none"] = used.get(want or "none", 0) + 1
            if want is None:
                rep.violation("skip:%s:%s" % (name, miss), "discover_config_file (src/discovery.c): %s: decides for %s without having looked at %s, which comes first in the documented order" % (name, got or "failure", miss), probes=fmt(tr))
            elif got != want:
                rep.violation("wrong:%s:%s" % (name, want), "discover_config_file (src/discovery.c): %s: uses %s; the documented order gives %s" % (name, got or "no config file", want or "a failure"), probes=fmt(tr))
            if got == 0 and ("diag",) not in tr:
                rep.violation("silent:" + name, "discover_config_file (src/discovery.c): %s: fails without a message on stderr" % name, probes=fmt(tr))
        if s.overrun:
            rep.unresolved.append(name + ": budget exceeded")
    rep.need(n > 100 or rep.unresolved, "hardly any path through the configuration search")
    rep.cov.update(explanation="All abstract paths of discover_config_file() for every combination of -f / environment variables and every outcome of opening files and directories; the result of each path is compared with the documented search order evaluated on the answers the path got.",
                   scenarios=len(scen), paths=n, results={k: v for k, v in sorted(used.items())})
    rep.assumptions += ["locations are non-empty strings", "debug logging is off"]


def fmt(tr):
    return ", ".join("%s(%s)=%s" % e if len(e) == 3 else "message" for e in tr)[-900:]
