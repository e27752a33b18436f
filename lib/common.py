"""Shared driver: compiles /repo's current sources to IR (nothing is run), loads it, and writes evidence / verdicts."""
import json, os, subprocess, sys, tempfile, time, shutil, glob, re, atexit

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
SRC = os.path.join(REPO, "src")
LLVM = "/usr/lib/llvm-18/bin/"


class Broken(Exception):
    """the analysis cannot be carried out (vanished anchor, zero instances, ...): error exit, neither pass nor violation"""


def run(cmd, cwd=None, ok=True):
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace")
    if ok and p.returncode != 0:
        raise Broken("command failed: %s\n%s" % (" ".join(cmd), p.stderr[-3000:]))
    return p


def irdump():
    exe = os.path.join(VERIF, "build", "irdump")
    src = os.path.join(VERIF, "tool", "irdump.cpp")
    if not os.path.exists(exe) or os.path.getmtime(exe) < os.path.getmtime(src) and os.access(os.path.join(VERIF, "build"), os.W_OK):
        build_tool()
    return exe


def build_tool():
    os.makedirs(os.path.join(VERIF, "build"), exist_ok=True)
    fl = run(["llvm-config-18", "--cxxflags", "--ldflags", "--libs"]).stdout.split()
    exe = os.path.join(VERIF, "build", "irdump")
    tmp = exe + ".%d" % os.getpid()
    run(["g++", "-O1", "-w", os.path.join(VERIF, "tool", "irdump.cpp"), "-o", tmp] + fl)
    os.replace(tmp, exe)


class Unresolved(list):
    def __call__(self, text):
        self.append(text)


class Tree:
    """a scratch compilation of /repo/src"""

    def __init__(self, keep=None):
        self.dir = tempfile.mkdtemp(prefix="bxsa.")
        atexit.register(shutil.rmtree, self.dir, True)
        self._mod = {}
        self.gen()

    def gen(self):
        d = self.dir
        hdr = open(os.path.join(SRC, "boxes.in.h"), encoding="utf-8").read()
        hdr = hdr.replace("--BVERSION--", makevar("BVERSION", "0.0.0"), 1).replace("--GLOBALCONF--", makevar("GLOBALCONF", "/usr/share/boxes"), 1)
        open(os.path.join(d, "boxes.h"), "w", encoding="utf-8").write(hdr)
        for f in ("parser.y", "lexer.l"):
            shutil.copy(os.path.join(SRC, f), d)
        run(["bison", "--defines=parser.h", "-o", "parser.c", "parser.y", "-Wno-all"], cwd=d)
        run(["flex", "--header-file=lex.yy.h", "lexer.l"], cwd=d)
        self.cfiles = sorted(glob.glob(os.path.join(SRC, "*.c"))) + [os.path.join(d, "parser.c"), os.path.join(d, "lex.yy.c")]
        if len(self.cfiles) < 15:
            raise Broken("only %d C files found" % len(self.cfiles))

    def macros(self):
        """object-like macros after including all of the program's headers: {name: text}"""
        if not hasattr(self, "_mac"):
            src = "".join('#include "%s"\n' % os.path.basename(h) for h in ["config.h", "boxes.h"] + sorted(glob.glob(os.path.join(SRC, "*.h"))) if not h.endswith(".in.h"))
            p = subprocess.run([LLVM + "clang", "-E", "-dM", "-I" + self.dir, "-I" + SRC, "-xc", "-"], input=src, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
            if p.returncode:
                raise Broken("preprocessing the headers failed: " + p.stderr[-500:])
            self._mac = dict(m.groups() for m in re.finditer(r"(?m)^#define (\w+) (.*)$", p.stdout))
        return self._mac

    def macroint(self, name, dflt=None):
        try:
            return int(self.macros().get(name, "x").strip("()"), 0)
        except ValueError:
            return dflt

    def module(self, passes="sroa"):
        if passes in self._mod:
            return self._mod[passes]
        from ir import Module
        d = self.dir
        procs = []
        bcs = []
        for c in self.cfiles:
            o = os.path.join(d, os.path.basename(c)[:-2] + ".bc")
            bcs.append(o)
            if not os.path.exists(o):
                procs.append((c, subprocess.Popen([LLVM + "clang", "-O0", "-Xclang", "-disable-O0-optnone", "-g", "-w", "-I" + d, "-I" + SRC, "-emit-llvm", "-c", c, "-o", o],
                                                  stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
                if len(procs) % 8 == 0:
                    procs[-8][1].wait()
        for c, p in procs:
            out, _ = p.communicate()
            if p.returncode != 0:
                raise Broken("clang failed on %s:\n%s" % (c, out[-2000:]))
        lb = os.path.join(d, "all.linked")
        if not os.path.exists(lb):
            run([LLVM + "llvm-link"] + bcs + ["-o", lb])
        ob = os.path.join(d, "m.opt")
        run([LLVM + "opt", "-passes=" + passes, lb, "-o", ob])
        js = os.path.join(d, "m.json")
        run([irdump(), ob, js])
        self._mod[passes] = Module(js)
        return self._mod[passes]


_mk = None


def makevar(name, dflt):
    global _mk
    if _mk is None:
        _mk = open(os.path.join(REPO, "Makefile"), encoding="utf-8", errors="replace").read()
    m = re.search(r"^%s\s*:?=\s*(\S+)" % name, _mk, re.M)
    return m.group(1) if m else dflt


class Report:
    def __init__(self, pid, level="other"):
        self.pid = pid
        self.level = level
        self.t0 = time.time()
        self.viol = []      # (key, text, detail)
        self.cov = {}
        self.assumptions = []
        self.unresolved = Unresolved()

    def violation(self, key, text, **detail):
        if not any(k == key for k, _, _ in self.viol):
            self.viol.append((key, text, detail))

    def need(self, cond, msg):
        if not cond:
            raise Broken(msg)

    def finish(self):
        known = load_known().get(self.pid, {})
        new = [(k, t, d) for k, t, d in self.viol if k not in known]
        old = [(k, t, d) for k, t, d in self.viol if k in known]
        tier = os.environ.get("VERIF_TIER", "quick")
        if tier not in ("quick", "thorough"):
            tier = "quick"
        ev = {"property": self.pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": self.level, "coverage": self.cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(new)}
        if self.unresolved:
            self.cov["unresolved"] = self.unresolved[:80]
            self.cov["unresolved_count"] = len(self.unresolved)
        if "explanation" not in self.cov:
            self.cov["explanation"] = "see DESIGN.md"
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w"), indent=1, default=str)
        for k, t, d in old:
            print("KNOWN-FINDING: property=%s %s" % (self.pid, t))
        if new:
            rp = os.path.join(VERIF, "evidence", self.pid + ".violation.json")
            json.dump([{"key": k, "text": t, "detail": d} for k, t, d in new], open(rp, "w"), indent=1, default=str)
            for k, t, d in new:
                print("  %s" % t)
                for kk, vv in d.items():
                    print("      %s: %s" % (kk, vv))
            print("VIOLATION property=%s replay=%s" % (self.pid, rp))
            return 1
        print("%s: ok (%s)" % (self.pid, ", ".join("%s=%s" % (k, v) for k, v in self.cov.items() if isinstance(v, (int, float)))))
        return 0


def load_known():
    """known-findings.txt: 'known: property=<id> key=<key> <text>'; 'fixed:' lines suppress nothing"""
    res = {}
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p, encoding="utf-8"):
            m = re.match(r"known: property=(\S+) key=(\S+)\s*(.*)", l)
            if m:
                res.setdefault(m.group(1), {})[m.group(2)] = m.group(3)
    return res
