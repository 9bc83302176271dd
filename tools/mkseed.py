#!/opt/venv/bin/python
"""mkseed.py SPEC.py [--check]: validates planted bugs in a scratch copy of /repo and stores those that hold up
under seeded/<id>/.  With --check also runs the property's check against each (in the copy)."""
import json
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCR = "/tmp/seedcopy"


def sh(cmd, **k):
    return subprocess.run(cmd, shell=isinstance(cmd, str), capture_output=True, text=True, **k)


def fresh():
    shutil.rmtree(SCR, ignore_errors=True)
    subprocess.check_call(["cp", "-a", "/repo", SCR])
    sh(["git", "-C", SCR, "tag", "-d", "vcheck-pass"])


def stable_ok(cwd):
    base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    import xml.etree.ElementTree as ET
    out = "/tmp/seedcopy.xml"
    sh(". /opt/vp/env.sh; export PYTHONPATH=%s:$PYTHONPATH; cd %s; $PY -m pytest -q -p no:cacheprovider -p vp_seed --timeout=120 --continue-on-collection-errors -o junit_family=xunit2 --junitxml=%s" % (cwd, cwd, out))
    ok = set()
    for tc in ET.parse(out).getroot().iter("testcase"):
        if not any(x.tag in ("failure", "error", "skipped") for x in tc):
            ok.add("%s::%s" % (tc.get("classname"), tc.get("name")))
    return sorted(base - ok)


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    only = [a for a in sys.argv[2:] if not a.startswith("-")]
    for s in ns["SEEDS"]:
        if only and s["id"] not in only:
            continue
        fresh()
        d = "/tmp/seed_" + s["id"]
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        open(d + "/demo.py", "w").write(s["demo"].strip() + "\n")
        open(d + "/demo.sh", "w").write('#!/bin/bash\n# exit 0 on the unchanged tree\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        os.chmod(d + "/demo.sh", 0o755)
        a = sh([d + "/demo.sh"], cwd=SCR)
        if a.returncode:
            print(s["id"], "DEMO FAILS ON UNCHANGED TREE", a.stderr[-500:])
            continue
        bad = False
        for f, old, new in s["edits"]:
            p = os.path.join(SCR, f)
            t = open(p).read()
            if t.count(old) != 1:
                print(s["id"], "EDIT MATCHES %d TIMES: %s" % (t.count(old), old[:60]))
                bad = True
                break
            open(p, "w").write(t.replace(old, new))
        if bad:
            continue
        diff = sh(["git", "diff"], cwd=SCR).stdout
        if any(f.endswith((".c", ".h", ".pyx")) for f, _, _ in s["edits"]):
            b = sh(["/opt/venv/bin/python", "setup.py", "build_ext", "--inplace"], cwd=SCR)
            if b.returncode:
                print(s["id"], "BUILD FAILS", b.stderr[-300:])
                continue
        b = sh([d + "/demo.sh"], cwd=SCR)
        if b.returncode == 0:
            print(s["id"], "DEMO DOES NOT NOTICE THE CHANGE")
            continue
        miss = stable_ok(SCR)
        if miss:
            print(s["id"], "STABLE TESTS FAIL:", miss[:5])
            continue
        out = os.path.join(HERE, "seeded", s["id"])
        os.makedirs(out, exist_ok=True)
        open(out + "/patch.diff", "w").write(diff)
        for f in ("demo.sh", "demo.py"):
            shutil.copy(d + "/" + f, out + "/" + f)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(out + "/meta.json", "w"), indent=1)
        shutil.rmtree(d)
        r = sh([HERE + "/run.py", s["property"]], env=dict(os.environ, VERIF_REPO=SCR), cwd=HERE)
        v = [x for x in r.stdout.splitlines() if x.startswith("VIOLATION")]
        rf = HERE + "/tools/seed_results.json"
        res = json.load(open(rf)) if os.path.exists(rf) else {}
        res[s["id"]] = "caught by the check of %s" % s["property"] if v else "missed"
        json.dump(res, open(rf, "w"), indent=1, sort_keys=True)
        print(s["id"], s["property"], "KEPT;", "check rc=%d %s" % (r.returncode, "CAUGHT" if v else "MISSED"), v[:2], r.stdout[-300:] if not v else "")
        sys.stdout.flush()
    shutil.rmtree(SCR, ignore_errors=True)


main()
