"""C16: options which need no configuration do not touch it (-c, -h aside from its display line, -v)."""
from modes import MODES, mode_run
from mainsim import FAIL, OK

CONF = ("discover_config_file", "parse_config_files")


def check(tree, rep):
    mod = tree.module()
    n = 0
    for name, want in (("draw with -c", 0), ("remove with -c", 0), ("version (-v)", 0), ("help (-h)", 0), ("draw", 1), ("remove (-r)", 1), ("list (-l)", 1), ("query (-q)", 1), ("mend (-m)", 1)):
        more = None
        h, s, ends = mode_run(mod, name, fails=CONF)
        for code, st, tr in ends:
            n += 1
            conf = [e for e in tr if e[0] in CONF]
            if not want and conf:
                rep.violation("%s:%s" % (name, conf[0][0]), "main (src/boxes.c): mode '%s' depends on the configuration: it calls %s()" % (name, conf[0][0]), trace=[e[0] for e in tr])
            if want and not [e for e in conf if e[0] == "parse_config_files" and e[1] == OK] and [e for e in tr if e[0] in ("read_all_input", "list_designs", "query_by_tag")]:
                rep.violation("%s:none" % name, "main (src/boxes.c): mode '%s' goes to work without a successfully parsed configuration" % name, trace=[e[0] for e in tr])
    # the help text only names the configuration; it is printed in full without one
    from bx import BxHooks, need_fn
    from sim import Sim, St, UNK, ZERO
    need_fn(mod, "usage_long", "discover_config_file")

    class U(BxHooks):
        alloc_ok = True
        keep = ()

        def __init__(self, found):
            self.found = found
            self.exits = []

        def call2(self, sim, st, I, name, args, ctx):
            if name == "discover_config_file":
                st = st.copy()
                v = ("u", ("set", "config"))
                st.facts[("ne", v)] = frozenset((0,))
                return [(v if self.found else ZERO, st)]
            if name in ("fprintf", "fputs", "bx_fprintf", "fwrite", "printf", "puts"):
                st = st.copy()
                st.q = (st.q or 0) + 1
                return [(UNK, st)]
            if name == "bxs_to_output":
                return [(UNK, st)]
            return None

        def inline(self, sim, name):
            f = mod.functions.get(name)
            return bool(f and not f.decl and f.local)

        def exit(self, sim, st, ins, code, ctx):
            self.exits.append(st)
    lines = {}
    for found in (1, 0):
        h = U(found)
        s = Sim(mod, h, cap=100, budget=60000)
        ends = s.run("usage_long", [("u", ("stream",))], St())
        n += len(ends) + len(h.exits)
        if h.exits and not s.overrun:
            rep.violation("usage:%d" % found, "usage_long (src/cmdline.c) ends the program%s" % ("" if found else " when there is no configuration: -h fails then"))
        lines[found] = {st.q for _, st in ends}
    if lines[1] and lines[0] and max(x or 0 for x in lines[0]) < min(x or 0 for x in lines[1]) - 1:
        rep.violation("usage:short", "usage_long (src/cmdline.c) prints less of the help text when there is no configuration")
    rep.need(n > 50, "too few paths")
    rep.cov.update(explanation="All abstract paths of main() per mode with configuration lookup and parsing succeeding and failing; usage_long() with and without a configuration.", paths=n)
