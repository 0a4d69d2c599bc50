"""Confirm a planted bug in a scratch copy: seed.py ID [--check [PROPS]]

Copies /repo to /tmp, runs the demo, applies the patch, builds, runs the stable
tests, runs the demo again, optionally runs this property's check on the copy.
"""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    sid = sys.argv[1]
    d = os.path.join(V, "seeded", sid)
    meta = json.load(open(os.path.join(d, "meta.json")))
    w = "/tmp/seed-%s" % sid
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(w)
    repo = w + "/repo"
    subprocess.check_call(["cp", "-a", "/repo", repo])
    os.makedirs(w + "/vp")
    for f in os.listdir("/opt/vp"):
        if os.path.isfile("/opt/vp/" + f):
            t = open("/opt/vp/" + f).read().replace("/repo", repo).replace("/opt/vp", w + "/vp")
            open(w + "/vp/" + f, "w").write(t)
    demo = w + "/demo"
    shutil.copytree(d, demo, ignore=shutil.ignore_patterns("*.diff", "*.patch", "meta.json"))

    def run(cmd, cwd=repo, **k):
        return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
    ok = True
    r = run(["bash", w + "/vp/build.sh"])
    if r.returncode: print("base build failed", r.stdout[-2000:]); ok = False
    r = run(["bash", demo + "/demo.sh"], timeout=300)
    print("demo on base: %d" % r.returncode, "" if r.returncode == 0 else r.stdout[-1500:])
    ok &= r.returncode == 0
    r = run(["git", "apply", d + "/patch.diff"])
    if r.returncode: print("apply failed", r.stdout); ok = False
    r = run(["bash", w + "/vp/build.sh"])
    if r.returncode: print("patched build failed", r.stdout[-2000:]); ok = False
    if "warning" in r.stdout: print("warnings:", [l for l in r.stdout.splitlines() if "warning" in l][:5])
    if "--notest" not in sys.argv:
        run(["bash", w + "/vp/test.sh", w + "/out.json"])
        res = json.load(open(w + "/out.json"))
        miss = set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) - set(res["passed"])
        print("tests: %d passed, missing %s" % (len(res["passed"]), sorted(miss)))
        ok &= not miss
    r = run(["bash", demo + "/demo.sh"], timeout=300)
    print("demo patched: %d  %s" % (r.returncode, r.stdout[-300:].strip()))
    ok &= r.returncode != 0
    if "--check" in sys.argv:
        props = [a for a in sys.argv[sys.argv.index("--check") + 1:] if a.startswith("C")] or [meta["property"]]
        for p in props:
            env = dict(os.environ, VF_REPO=repo)
            r = subprocess.run(["python3-vt", V + "/fw/check.py", p], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            print("check %s: exit %d  %s" % (p, r.returncode, "\n".join([l for l in r.stdout.splitlines() if "VIOLATION" in l or r.returncode == 2][:6])))
    shutil.rmtree(w)
    print("%s: %s" % (sid, "confirmed" if ok else "NOT CONFIRMED"))
    return 0 if ok else 1


sys.exit(main())
