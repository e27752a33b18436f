"""C05: a read error on the input or a write error on the output makes the run fail."""
from modes import MODES, mode_run, failed, phases
from mainsim import code_of, FAIL, OK
from bx import BxHooks, fields, need_fn
from sim import Sim, St, UNK, ZERO, NOOFF

WRITERS = ("list_designs", "query_by_tag", "output_box", "output_input(0)", "usage_long", "write")
STDOUTW = ("usage_long", "write")


def check(tree, rep):
    mod = tree.module()
    n = nz = 0
    for name in MODES:
        h, s, ends = mode_run(mod, name, fails=("output",), cap=200, budget=60000)
        for code, st, tr in ends:
            w = [i for i, e in enumerate(tr) if e[0] in WRITERS]
            if not w:
                continue
            n += 1
            c = code_of(st, code)
            what = tr[w[-1]][0].split("(")[0]
            stream = "stdout" if tr[w[-1]][0] in STDOUTW else "outfile"
            tail = [e for e in tr[w[-1] + 1:] if e[0] in ("fflush", "ferror")]
            if c != "zero":
                continue
            nz += 1
            if [e for e in tail if e[-1] == FAIL]:
                rep.violation("%s:ignored" % name, "main (src/boxes.c): mode '%s' ends with status 0 although %s() on the output reported an error after %s()" % (name, tail[0][0], what), trace=[e[0] for e in tr])
                continue
            got = {e[0] for e in tail if e[1] in (stream, "?")}
            if "fflush" not in got:
                rep.violation("%s:flush" % name, "main (src/boxes.c): mode '%s' ends with status 0 without having flushed the %s after %s(), so a failing write goes unnoticed" % (name, stream, what), trace=[e[0] for e in tr])
            if "ferror" not in got:
                rep.violation("%s:ferror" % name, "main (src/boxes.c): mode '%s' ends with status 0 without having asked for errors on the %s after %s()" % (name, stream, what), trace=[e[0] for e in tr])
    rep.need(nz >= 8, "hardly any successful writing path was found")
    r = reading(mod, rep)
    rep.cov.update(explanation="Successful paths of main() per mode: after the last phase which writes, the stream must be flushed and asked for errors, both with success. Input reader: every path on which the stream reports a read error must return failure.",
                   writing_paths=n, successful_writing_paths=nz, **r)
    rep.assumptions += ["stdio keeps the error indicator of a stream set until cleared"]


def reading(mod, rep):
    need_fn(mod, "read_all_input")
    off = fields(mod, "opt_t")["infile"][0]

    class R(BxHooks):
        def __init__(self):
            self.asked = []
            self.read = []

        def which(self, v):
            r = repr(v)
            if v == ("u", ("ld", (("g", "opt"), (off, ())))):
                return "infile"
            return "stdin" if "'g', 'stdin'" in r else "?"

        def call2(self, sim, st, I, name, args, ctx):
            if name in ("fgets", "fread", "getc", "fgetc", "getline", "fgets_unlocked"):
                i = {"fgets": 2, "fread": 3, "getline": 2}.get(name, 0)
                self.read.append((self.which(args[i]), I))
                s2 = st.copy()
                s2.q = "readerror"
                end = ("c", -1 if name in ("getc", "fgetc", "getline") else 0)
                out = [(end, s2)]
                if st.q is None and name == "fgets":        # errors after a line are errors, too
                    s3 = st.copy()
                    s3.q = "line"
                    out.append((args[0], s3))
                st.q = "eof"
                return out + [(end, st)]
            if name in ("u32_strconv_from_input", "bxs_from_unicode"):
                v = ("u", ("res", name))
                st.facts[("ne", v)] = frozenset((0,))
                return [(v, st)]
            if name in ("u32_strlen", "expand_tabs_into"):
                return [(("c", 3), st)]
            if name in ("btrim32", "free"):
                return [(UNK, st)]
            if name == "ferror":
                w = self.which(args[0])
                self.asked.append((w, I))
                v = ("u", ("ferror",))
                if st.q == "readerror" and w in ("infile", "?"):
                    st.facts[("ne", v)] = frozenset((0,))
                    return [(v, st)]
                return [(ZERO, st)]
            if name == "feof":
                w = self.which(args[0])
                return [(ZERO if st.q == "readerror" else ("c", 1), st)]
            return None
    h = R()
    s = Sim(mod, h, cap=30, budget=30000)
    rets = s.run("read_all_input", [], St())
    rep.need(h.read, "read_all_input no longer reads lines by a known library function")
    n = 0
    for w, I in h.read:
        if w == "stdin":
            rep.violation("stdin", "read_all_input (src/input.c) line %s reads stdin, not the input file" % I.line)
    for rv, st in rets:
        n += 1
        if st.q == "readerror" and rv != ZERO:
            a = [w for w, _ in h.asked]
            rep.violation("readerror", "read_all_input (src/input.c) returns the text read so far as complete when the input stream reports a read error (%s)" %
                          ("errors are asked for on " + a[0] if a else "errors are never asked for"), line=h.read[0][1].line)
        if st.q == "eof" and rv == ZERO:
            rep.violation("eof", "read_all_input (src/input.c) treats the regular end of the input as an error", line=h.read[0][1].line)
    return {"reader_paths": n, "reader_error_queries": len(h.asked)}
