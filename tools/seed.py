#!/usr/bin/env python3
"""Writes and verifies planted bugs (seeded/<id>/).

  seed.py make SPECFILE [ID ...]   writes seeded/<id>/ from the specs in a Python file and verifies them
  seed.py verify [ID ...]          verifies what is in seeded/
  seed.py catch [ID ...]           runs the check of each one's property against it

A spec file calls bug(id, property, needs, breaks, [(file, old, new), ...], demo, programs="", flags="").
The patch is applied to /repo (or the copy named by VERIF_REPO) and always undone.
"""
import json, os, subprocess, sys, shutil, tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = os.environ.get("VERIF_REPO", "/repo")  # a scratch copy may be given


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, errors="replace", **kw)


TMP = tempfile.mkdtemp()
BASE = set(json.load(open("/opt/vp/BASELINE.json")).get("stable", [])) if os.path.exists("/opt/vp/BASELINE.json") else set()


def undo():
    sh(f"git -C {R} checkout -- .")


def clean():
    return not sh(f"git -C {R} status --porcelain").stdout.strip()


def passed():
    out = f"/tmp/seed_out.{os.getpid()}.json"
    r = sh(f"sed 's#/opt/vp/build.sh#{TMP}/build.sh#; s#=/repo/#={R}/#' /opt/vp/test.sh > {TMP}/test.sh; sed 's#/repo#{R}#g' /opt/vp/build.sh > {TMP}/build.sh; bash {TMP}/test.sh {out}")
    try:
        d = json.load(open(out))
    except Exception:
        return None, r.stdout[-2000:]
    return set(d["passed"]), r.stdout[-2000:]


def write(spec):
    d = f"{V}/seeded/{spec['id']}"
    assert clean()
    try:
        for f, old, new in spec["edits"]:
            p = f"{R}/{f}"
            t = open(p, newline="").read()
            if "\r\n" in t:
                old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
            if t.count(old) != 1:
                print(spec["id"], "edit matches", t.count(old), "times in", f, ":", old[:60])
                return False
            open(p, "w", newline="").write(t.replace(old, new))
        sh(f"git -C {R} diff > {TMP}/patch.diff")
    finally:
        undo()
    if os.path.isdir(d):
        sh(f"find {d} -delete")
    os.makedirs(d)
    shutil.copy(TMP + "/patch.diff", d + "/patch.diff")
    s = open(V + "/tools/seed/demo.sh").read()
    s = s.replace("@FLAGS@", spec["flags"]).replace("@PROGRAMS@", spec["programs"])
    open(d + "/demo.sh", "w").write(s)
    os.chmod(d + "/demo.sh", 0o755)
    open(d + "/demo.cpp", "w").write('#include "demo.h"\n' + spec["demo"].lstrip("\n"))
    shutil.copy(V + "/tools/seed/demo.h", d)
    shutil.copytree(V + "/stubs", d + "/stubs")
    json.dump({"property": spec["property"], "needs": spec["needs"], "what_it_breaks": spec["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    return True


def verify(i, want):
    d = f"{V}/seeded/{i}"
    a = sh(f"bash {d}/demo.sh", cwd=R)
    if a.returncode:
        return f"demo fails on the unchanged tree ({a.returncode}): {a.stdout[-1500:]}"
    r = sh(f"git -C {R} apply {d}/patch.diff")
    if r.returncode:
        return "does not apply: " + r.stdout
    try:
        p, log = passed()
        if p is None or not want <= p:
            return "tests: " + str(None if p is None else sorted(want - p)) + log
        b = sh(f"bash {d}/demo.sh", cwd=R)
        if b.returncode == 0:
            return "demo does not notice"
        if b.returncode == 2:
            return "demo does not build: " + b.stdout[-1500:]
        return "ok " + b.stdout.strip()[-200:]
    finally:
        undo()


def catch(i, tier="quick"):
    d = f"{V}/seeded/{i}"
    prop = json.load(open(d + "/meta.json"))["property"]
    r = sh(f"git -C {R} apply {d}/patch.diff")
    if r.returncode:
        return "does not apply"
    try:
        env = dict(os.environ, VERIF_SEED=os.environ.get("VERIF_SEED", "1"), VERIF_TIER=tier)
        c = sh(f"python3 {V}/run.py {prop} {tier}", cwd=V, env=env)
        v = [l for l in c.stdout.splitlines() if l.startswith("VIOLATION")]
        return f"{prop} exit {c.returncode} {v[:1]} " + ("" if v else c.stdout[-600:])
    finally:
        undo()


def record(i, c):
    f = V + "/tools/catches.txt"
    d = dict(l.split(None, 1) for l in open(f)) if os.path.exists(f) else {}
    d[i] = c.split()[0] + "\n" if "VIOLATION" in c else "none\n"
    open(f, "w").write("".join(k + " " + d[k] for k in sorted(d)))


def main():
    mode = sys.argv[1]
    rest = sys.argv[2:]
    if mode == "make":
        specs = []
        def bug(id, property, needs, breaks, edits, demo, programs="", flags=""):
            specs.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo, programs=programs, flags=flags))
        exec(open(rest[0]).read(), {"bug": bug})
        ids = []
        for s in specs:
            if rest[1:] and s["id"] not in rest[1:]:
                continue
            if write(s):
                ids.append(s["id"])
        rest = ids
        mode = "verify"
    if not rest:
        rest = sorted(os.listdir(V + "/seeded"))
    if not clean():
        sys.exit("/repo is not clean")
    if mode == "verify":
        want, log = passed()
        assert want, log
        for i in rest:
            print(i, verify(i, want), flush=True)
        sh(f"bash {TMP}/build.sh")
    elif mode == "catch":
        for i in rest:
            c = catch(i)
            print(i, c, flush=True)
            record(i, c)


main()
