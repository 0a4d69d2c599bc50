#!/usr/bin/env python3
"""check.py ID [--thorough]: decide one property on /repo's current tree."""
import sys, os, json, time, subprocess, re, importlib
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vbuild
from vbuild import VERIF, BuildError
import checks

KNOWN = os.path.join(VERIF, "known-findings.txt")


def known_for(pid):
    """Lines: 'finding: property=<id> scenario=<name> key=<key> <description>'."""
    out = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r"finding: property=(\S+) scenario=(\S+) key=(\S+) (.*)", l.strip())
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3), m.group(4)))
    return out


def main():
    pid = sys.argv[1]
    thorough = "--thorough" in sys.argv[2:]
    tier = "thorough" if thorough else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    spec = checks.CHECKS[pid]
    outdir = os.path.join(VERIF, "out", pid)
    os.makedirs(outdir, exist_ok=True)
    for f in os.listdir(outdir):
        os.unlink(os.path.join(outdir, f))
    budget = spec.get("budget", (280, 3000))[1 if thorough else 0]
    scen, internal, viols, knownhits = [], [], [], []
    known = known_for(pid)

    def late():
        # Enough is known: leave time to report it.
        return viols and time.time() - t0 > (2700 if thorough else 240)
    for hi, h in enumerate(spec["harnesses"]):
        for fl in h["flavours"]:
            if late():
                break
            if isinstance(fl, tuple):
                fl, only_thorough = fl
                if only_thorough and not thorough:
                    continue
            try:
              exe = vbuild.build(h["src"], fl, h.get("wraps", ()), h.get("extra", ()), h.get("main", True),
                               h.get("repo_extra", ()), name="%s_%d" % (pid, hi))
            except BuildError as e:
                # The interpreted ARM instructions may not be all that a later tree uses.
                if not fl.startswith("arm"):
                    raise
                print("NOTE: the ARM configuration (%s) does not build here: %s" % (fl, str(e)[-300:]))
                spec["assumptions"] = spec["assumptions"] + ["the ARM configuration (%s) did not build and was left out" % fl]
                continue
            res = os.path.join(outdir, "res-%d-%s.json" % (hi, fl))
            sub = os.path.join(outdir, "r%d-%s" % (hi, fl))
            os.makedirs(outdir, exist_ok=True)
            left = max(20, budget - (time.time() - t0))
            cmd = [exe, "--out", res, "--outdir", outdir, "--budget", str(left)] + (["--thorough"] if thorough else []) + h.get("args", [])
            if os.environ.get("VF_FIRST"):
                if viols:
                    break
                cmd.append("--first")
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
            if r.returncode != 0:
                raise BuildError("harness failed: %s\n%s" % (cmd, r.stdout[-2000:]))
            for s in json.load(open(res)):
                s["flavour"] = fl
                if s["internal"]:
                    internal.append("%s/%s: %s" % (s["scenario"], fl, s["internal"]))
                keep = []
                for v in s["violations"]:
                    v["scenario"] = s["scenario"]
                    v["exe"] = exe
                    k = [d for (sc, key, d) in known if sc == s["scenario"] and key == v["key"]]
                    if k:
                        knownhits.append((s["scenario"], v["key"], k[0]))
                        continue
                    keep.append(v)
                s["nviol"] = len(keep)
                # Replay before reporting.
                seenk = set()
                for v in keep:
                    if (v["key"] in seenk and len(viols) >= 1) or late():
                        continue
                    ok = None
                    for rp in (v["replay"], v.get("hist")):
                        if not rp:
                            continue
                        q = subprocess.run([exe, "--replay", rp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
                        if q.returncode == 1:
                            ok = (rp, q.stdout)
                            break
                    if ok is None:
                        internal.append("%s/%s: not reproduced on replay: %s %s" % (s["scenario"], fl, v["key"], v["msg"][:300]))
                        continue
                    seenk.add(v["key"])
                    rp = os.path.join(outdir, "violation-%d.replay" % len(viols))
                    with open(rp, "w") as f:
                        f.write(open(ok[0]).read())
                    with open(rp + ".txt", "w") as f:
                        f.write("property %s scenario %s flavour %s\nkey: %s\n%s\ncase: %s\n\nreplay output:\n%s\nreplay command: %s --replay %s\n"
                                % (pid, s["scenario"], fl, v["key"], v["msg"], v["note"], ok[1], exe, rp))
                    viols.append((v, rp))
                del s["violations"]
                scen.append(s)
    for ex in spec.get("extra_steps", []):
        # Python-side steps: return (scenario-dict list, violations list of (msg, replay))
        ss, vv = ex(pid, thorough, outdir)
        scen += ss
        viols += vv
    lvl = spec["level"]
    ev = sum(s["evals"] for s in scen)
    cov = {"scenarios": [{k: s[k] for k in s if k not in ("samples", "internal")} for s in scen],
           "samples": [x for s in scen for x in s["samples"][:2]][:40],
           "exhaustive": all(s["exhaustive"] for s in scen)}
    if lvl in ("exploration", "fault_enumeration"):
        cov["evaluations"] = ev
        cov["distinct_nontrivial"] = sum(s["distinct"] for s in scen)
        cov["rule"] = spec["rule"]
    else:
        cov["states"] = sum(s["states"] for s in scen)
        cov["transitions"] = sum(s["transitions"] for s in scen)
        cov["traces_validated_against_impl"] = sum(s["execs"] for s in scen)
        cov["evaluations"] = ev
        cov["rule"] = spec["rule"]
    cov["distinct_outcomes"] = sum(s["outcomes"] for s in scen)
    doc = {"property": pid, "tier": tier, "seed": seed, "level": lvl, "coverage": cov,
           "assumptions": spec.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": len(viols)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(doc, f, indent=1)
    for sc, key, d in sorted(set(knownhits)):
        print("KNOWN-FINDING: property=%s %s (scenario %s)" % (pid, d, sc))
    for s in scen:
        print("%s %-22s %-6s execs=%d points=%d evals=%d distinct=%d outcomes=%d states=%d trans=%d depth=%d dev<=%d exhaustive=%s %.1fs"
              % (pid, s["scenario"], s["flavour"], s["execs"], s["points"], s["evals"], s["distinct"], s["outcomes"], s["states"],
                 s["transitions"], s["max_depth"], s["max_dev"], s["exhaustive"], s["wall_ms"] / 1000.0))
    for m in internal:
        print("INTERNAL: " + m)
    vbuild.prune()
    if viols:
        for v, rp in viols[:5]:
            print("  %s: %s | %s | case: %s" % (v["scenario"], v["key"], v["msg"][:600], v["note"]))
        print("VIOLATION property=%s replay=%s" % (pid, viols[0][1]))
        return 1
    if internal:
        print("check error")
        return 2
    print("%s: held on everything explored (%s, %d evaluations, %.1fs)" % (pid, tier, ev, time.time() - t0))
    return 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except BuildError as e:
        print("build/run error: %s" % e)
        sys.exit(2)
