#!/usr/bin/env python3
"""Make and confirm a planted bug (development helper, not part of any check).
seed.py FILE...: each FILE is Python defining ID, PROP, EDITS [(file, old, new)], DEMO (shell), NEEDS, BREAKS.
The change is made in a scratch copy of /repo, which must build, pass the suite and fail the demo; the unchanged copy must pass the demo."""
import os, re, shutil, subprocess, sys, tempfile, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)


def script(name, d):
    s = open("/opt/vp/" + name).read().replace("/opt/vp/build.sh", d + ".build.sh").replace("/repo", d)
    f = d + "." + name
    open(f, "w").write(s)
    return f


for f in sys.argv[1:]:
    m = {}
    exec(open(f, encoding="utf-8").read(), m)
    d = tempfile.mkdtemp(prefix="sr.")
    os.rmdir(d)
    shutil.copytree("/repo", d, symlinks=True)
    b, t = script("build.sh", d), script("test.sh", d)
    out = os.path.join(V, "seeded", m["ID"])
    os.makedirs(out, exist_ok=True)
    open(out + "/demo.sh", "w").write("#!/bin/bash\n" + m["DEMO"].lstrip())
    json.dump({"property": m["PROP"], "needs": m["NEEDS"], "what_it_breaks": m["BREAKS"]}, open(out + "/meta.json", "w"), indent=1)
    for n, c in m.get("FILES", {}).items():
        open(out + "/" + n, "w").write(c)
    msg = []
    ok = True
    try:
        sh("git checkout -q -- . && bash " + b, d)
        r = sh("bash %s/demo.sh" % out, d, timeout=300)
        if r.returncode != 0:
            ok = False
            msg.append("demo fails on the unchanged tree (%d): %s" % (r.returncode, r.stdout[-300:]))
        for fn, o, nw in m["EDITS"]:
            s = open(d + "/" + fn, encoding="utf-8").read()
            if s.count(o) != 1:
                ok = False
                msg.append("%r occurs %d times in %s" % (o, s.count(o), fn))
                continue
            open(d + "/" + fn, "w", encoding="utf-8").write(s.replace(o, nw))
        open(out + "/patch.diff", "w").write(subprocess.run(["git", "diff"], cwd=d, stdout=subprocess.PIPE, text=True).stdout)
        r = sh("bash " + b, d)
        if r.returncode != 0:
            ok = False
            msg.append("does not build: " + r.stdout[-400:])
        w = re.findall(r"warning:.*", r.stdout)
        if w:
            msg.append("new warnings: %s" % w[:2])
        r = sh("bash %s %s.json" % (t, d), d)
        try:
            j = json.load(open(d + ".json"))
            if j["failed"] or len(j["passed"]) != 567:
                ok = False
                msg.append("tests: %d passed, failed %s" % (len(j["passed"]), j["failed"][:4]))
        except Exception as e:
            ok = False
            msg.append("tests: %s" % e)
        r = sh("bash %s/demo.sh" % out, d, timeout=300)
        if r.returncode == 0:
            ok = False
            msg.append("demo passes with the change")
        if os.path.exists(V + "/checks/%s.py" % m["PROP"].lower()):
            r = sh("%s/check %s" % (V, m["PROP"]), d, env=dict(os.environ, VP_REPO=d))
            msg.append("check: %s %s" % (r.returncode, r.stdout.strip()[:240]))
        print(m["ID"], "OK" if ok else "BAD", *msg, sep="\n   ")
    finally:
        for x in (d,):
            shutil.rmtree(x, ignore_errors=True)
        for x in (b, t, d + ".json"):
            if os.path.exists(x):
                os.unlink(x)
