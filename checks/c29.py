"""C29: each invocation mode performs exactly its phases, in order, and nothing else."""
from modes import MODES, mode_run, phases, failed
from mainsim import code_of


def check(tree, rep):
    mod = tree.module()
    n = 0
    detail = {}
    for name, (o, want) in MODES.items():
        h, s, ends = mode_run(mod, name)
        seen = {}
        for code, st, tr in ends:
            if failed(tr):
                continue
            if code_of(st, code) == "nonzero" and ("diag",) in tr:
                continue     # an error reported by main itself
            n += 1
            seen.setdefault(tuple(phases(tr))[1 if phases(tr)[:1] == ["process_commandline"] else 0:], []).append(code_of(st, code))
        detail[name] = [" > ".join(k) for k in sorted(seen)]
        for k in seen:
            if "output_input(?)" in k or "apply_substitutions(?)" in k:
                rep.unresolved.append("%s: argument of a phase is not a constant" % name)
                continue
            if list(k) not in want:
                rep.violation("%s:%s" % (name, ">".join(k)), "main (src/boxes.c): mode '%s' can run the phases %s; documented: %s" % (name, " > ".join(k) or "(none)", " or ".join(" > ".join(w) for w in want)))
        need = [w for w in want if w[-1] != "analyze_input"]
        if not s.overrun and not any(tuple(w) in seen for w in need):
            rep.violation("%s:never" % name, "main (src/boxes.c): mode '%s' never reaches its documented phases %s" % (name, " > ".join(need[0])), seen=detail[name])
        if s.overrun:
            rep.unresolved.append("%s: path budget exceeded" % name)
    rep.cov.update(explanation="All failure-free abstract paths of main() (static helpers interpreted in place) per invocation mode; the sequence of phase calls on each is compared with the documented sequence of the mode.",
                   modes=len(MODES), paths=n, sequences=detail)
    rep.assumptions += ["debug logging is off", "phases (functions declared in headers) are atomic here; their inside is covered by other checks"]
