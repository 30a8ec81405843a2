"""Validates planted bugs and writes them to /verif/seeded (not used by any check).

    python3 tools/plant.py SPECS.py [ID...]

SPECS.py defines BUGS: a list of dicts id, property, edits [(file, old, new[, nth])],
needs, breaks, demo (Python source).  Each bug is applied to a scratch copy of /repo;
kept only if it builds, the stable tests pass, and the demo passes on /repo and fails on the copy.
"""
import json, os, runpy, shutil, subprocess, sys, xml.etree.ElementTree as ET

PY = "/opt/venv/bin/python"
ENV = dict(os.environ, JAX_PLATFORMS="cpu", PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", HOME="/root")
DEMO_SH = '#!/bin/bash\nexport JAX_PLATFORMS=cpu PYTHONDONTWRITEBYTECODE=1\nPYTHONPATH="$PWD" exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])


def run(cmd, cwd, env=ENV, timeout=900):
    return subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)


def apply(copy, edits):
    for e in edits:
        path, old, new = e[:3]
        nth = e[3] if len(e) > 3 else None
        p = os.path.join(copy, path)
        s = open(p).read()
        n = s.count(old)
        if nth is None:
            assert n == 1, f"{path}: {n} matches of {old!r}"
            s = s.replace(old, new)
        else:
            parts = s.split(old)
            assert len(parts) > nth + 1, f"{path}: only {n} matches"
            s = old.join(parts[: nth + 1]) + new + old.join(parts[nth + 1 :])
        open(p, "w").write(s)


def tests(copy):
    out = copy + ".xml"
    r = run([PY, "-m", "pytest", "-q", "-n", "6", "-p", "no:cacheprovider", "-p", "vp_seed", "--timeout=300",
             "-o", "junit_family=xunit2", "--junitxml=" + out, "--ignore=tests/heap_test.py",
             "--deselect", "tests/hash_test.py::test_large_hash_table", "tests"], copy, dict(ENV, PYTHONPATH="/opt/vp/env"))
    ok = set()
    for c in ET.parse(out).getroot().iter("testcase"):
        name = "::".join(x for x in (c.get("classname"), c.get("name")) if x)
        if c.find("failure") is None and c.find("error") is None and c.find("skipped") is None:
            ok.add(name)
    os.remove(out)
    return sorted(STABLE - ok)


def main():
    bugs = runpy.run_path(sys.argv[1])["BUGS"]
    only = set(sys.argv[2:])
    for b in bugs:
        if only and b["id"] not in only:
            continue
        copy = f"/tmp/plant/{b['id']}"
        d = f"/verif/seeded/{b['id']}"
        shutil.rmtree(copy, ignore_errors=True)
        subprocess.run(["cp", "-a", "/repo", copy], check=True)
        try:
            apply(copy, b["edits"])
        except AssertionError as e:
            print(b["id"], "EDIT", e, flush=True); continue
        diff = run(["git", "diff"], copy).stdout
        w = f"/tmp/plant/{b['id']}.demo"
        os.makedirs(w, exist_ok=True)
        open(w + "/demo.py", "w").write(b["demo"]); open(w + "/demo.sh", "w").write(DEMO_SH)
        r0 = run(["bash", w + "/demo.sh"], "/repo", timeout=300)
        r1 = run(["bash", w + "/demo.sh"], copy, timeout=300)
        if r0.returncode != 0 or r1.returncode == 0:
            print(b["id"], "DEMO base", r0.returncode, "patched", r1.returncode, (r0.stdout[-600:] if r0.returncode else ""), flush=True); continue
        bad = tests(copy)
        if bad:
            print(b["id"], "TESTS", len(bad), bad[:4], flush=True); continue
        os.makedirs(d, exist_ok=True)
        open(d + "/patch.diff", "w").write(diff)
        open(d + "/demo.sh", "w").write(DEMO_SH); open(d + "/demo.py", "w").write(b["demo"])
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        shutil.rmtree(w)
        print(b["id"], "KEPT", r1.stdout.strip().splitlines()[-1:] , flush=True)


main()
