"""C06: results go to the output, messages to the standard error stream."""
from streams import Streams
from effects import name_of
from bx import need_fn, DEBUG_FNS
from common import Broken

RESULT = ("output_box", "output_input", "list_designs", "query_by_tag")            # phases which produce results on opt.outfile
WORK = ("process_commandline", "discover_config_file", "parse_config_files", "read_all_input", "analyze_input", "autodetect_design", "generate_box", "remove_box", "apply_substitutions", "check_encoding",
        "print_input_lines", "log_debug", "log_debug_cont", "u32_strconv_to_output", "bxs_to_output")


def literals(mod, f, ref, seen=None):
    """string literals a value may be (None in the set: something else as well)"""
    seen = set() if seen is None else seen
    if ref in seen:
        return set()
    seen.add(ref)
    s = mod.cstr(ref) if ref[0] in ("g", "gep") else None
    if s is not None:
        return {s}
    if ref[0] == "i":
        I = f.ins[ref[1]]
        if I.op == "phi":
            return set().union(*[literals(mod, f, o[1], seen) for o in I.ops])
        if I.op == "select":
            return literals(mod, f, I.ops[1], seen) | literals(mod, f, I.ops[2], seen)
    return {None}


def is_message(mod, s):
    """does the site print a message: '<program>: ...' or a system error"""
    if s.name == "perror":
        return True
    if s.fmt is None:
        return None
    fm = literals(mod, s.f, s.fmt)
    if None in fm:
        return None
    if all(x.startswith("%s: ") or x.startswith("%s:%") for x in fm) and s.args:
        a = literals(mod, s.f, s.args[0])
        return True if a == {"boxes"} else None
    return all(x.startswith("boxes: ") for x in fm) or False


def cutreach(mod, root, cut):
    seen, st = set(), [root]
    while st:
        n = st.pop()
        if n in seen or n in cut and n != root:
            continue
        seen.add(n)
        st.extend(mod.cg.get(n, ()))
    return seen


def check(tree, rep):
    mod = tree.module()
    need_fn(mod, "main", "process_commandline", "parse_config_files", "read_all_input", *RESULT)
    S = Streams(mod)
    work = {}
    for w in WORK:
        if w in mod.defined:
            for n in cutreach(mod, w, set(RESULT)):
                work.setdefault(n, w)
    only = set()      # functions which run on behalf of a result phase only
    for r in RESULT:
        only |= mod.reachable(r)
    nores = cutreach(mod, "main", set(RESULT))
    only -= nores
    mainlevel = set()
    st = ["main"]
    while st:
        n = st.pop()
        if n in mainlevel or n not in mod.defined or n != "main" and not mod.defined[n].local:
            continue
        mainlevel.add(n)
        st.extend(mod.cg.get(n, ()))
    nm = nr = 0

    def V(k, s, t):
        rep.violation("%s:%s" % (k, s.f.name), "%s %s: %s" % (s.f.name, s.I.where(), t))
    for s in S.sites:
        if s.f.name in DEBUG_FNS:
            continue
        msg = is_message(mod, s)
        if "?" in s.stream:
            rep.unresolved("stream of %s %s" % (s.f.name, s.I.where()))
            continue
        res = s.stream & {"out", "file"}
        if msg and res:
            V("message", s, "a message is printed on the output")
        if res and s.f.name in work:
            V("stage", s, "prints on the output although it runs in the phase of %s" % work[s.f.name])
        if not res and msg is False and s.f.name in only:
            V("result", s, "part of the result is printed on the standard error stream")
        if "out" in s.stream and s.f.name in only:
            V("stdout", s, "part of the result is printed on the standard output regardless of the output file")
        if not res and msg is False and s.f.name in mainlevel and s.name not in FMTS:
            V("help", s, "text which was asked for is printed on the standard error stream")
        nr += bool(res)
        nm += bool(msg)
    # streams handed to other functions of the C library: unknown printing functions
    known = {I for x in S.direct for I in (x.I,)}
    for f in mod.defined.values():
        for I in f.all_ins():
            if I.op == "call" and I not in known and name_of(I) not in mod.defined:
                for o in I.ops:
                    if o[0] == "i" and f.ins[o[1]].op == "load" and S.stream(f, o) & {"out", "file"} and (name_of(I) or "?") not in ("fflush", "fclose", "ferror", "fileno", "setvbuf", "fseek", "isatty", "clearerr", "feof"):
                        if f.name in work:
                            V("other", type("X", (), {"f": f, "I": I}), "hands the output stream to %s in the phase of %s" % (name_of(I), work[f.name]))
                        else:
                            rep.unresolved("%s %s: %s on the output" % (f.name, I.where(), name_of(I)))
    rep.cov.update(sites=len(S.sites), on_output=nr, messages=nm, work_functions=len(work), result_functions=len(only),
                   explanation="Every place which prints (%d, streams resolved through parameters): messages ('boxes: ...' and system errors) must go to stderr; %d functions which run before or beside the result phases must not "
                               "print on the output at all; %d functions of the result phases must print everything else on the selected output" % (len(S.sites), len(work), len(only)))
    rep.assumptions += ["the call graph contains the calls through bx_fprintf; no other function pointers print", "debug messages are covered by C22"]
    rep.need(nr > 20 and nm > 50 and "list_designs" in only, "printing sites not found")


FMTS = ("perror",)
