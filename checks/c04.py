"""C04: a failing phase ends the run with a nonzero exit status and nothing further is done; a run without failures ends with status 0.
Second part: no failure code of any function is dropped on the way up."""
from modes import MODES, mode_run, failed
from mainsim import code_of, PHASES, PTR, INT, FAIL
from bx import BxHooks
from failflow import failflow

FALLIBLE = tuple(n for n, k in PHASES.items() if k in (PTR, INT))


def check(tree, rep):
    mod = tree.module()
    n = nf = 0
    seenfail = set()
    for name in MODES:
        h, s, ends = mode_run(mod, name, fails=FALLIBLE, cap=200, budget=60000)
        for code, st, tr in ends:
            n += 1
            f = failed(tr)
            c = code_of(st, code)
            if f:
                nf += 1
                seenfail.add(f[0][0])
                w = f[0][0].split("(")[0]
                if c == "zero":
                    rep.violation("%s:%s" % (name, w), "main (src/boxes.c): in mode '%s' a failure of %s() ends in exit status 0" % (name, w), trace=[e[0] for e in tr])
                i = tr.index(f[0])
                rest = [e[0] for e in tr[i + 1:] if e[0].split("(")[0] in PHASES]
                if rest:
                    rep.violation("%s:%s:goes on" % (name, w), "main (src/boxes.c): in mode '%s' the run goes on with %s() after %s() failed" % (name, rest[0], w), trace=[e[0] for e in tr])
            elif c == "nonzero" and ("diag",) not in tr:
                rep.violation("%s:spurious" % name, "main (src/boxes.c): mode '%s' ends with nonzero exit status though no phase failed" % name, trace=[e[0] for e in tr])
    rep.need(nf > 20, "no failing phase was analysed")
    ff = failflow(mod, rep)
    rep.cov.update(explanation="(1) all abstract paths of main() per mode with each phase failing; exit status and later phases. (2) every call of a function which reports failure by its result: the result must be tested, stored, passed on or returned, and the failing branch must not return success.",
                   modes=len(MODES), paths=n, failing_paths=nf, failing_phases=sorted(seenfail), **ff)
    rep.assumptions += ["debug logging is off", "an encoding given with -n which is unknown is replaced (documented fallback), errors inside one box design only drop that design (documented)"]
