#!/usr/bin/env python3
"""check.py ID [--thorough]: decides one property on /repo's current source.

Builds the analyser and the library's IR, analyses the units of the property
and reports every alarm of the property's rules.  Exit 0: all obligations
discharged (listed findings excepted); 1: violation; 2: no answer.
"""
import concurrent.futures as cf, json, os, subprocess, sys, tempfile, shutil, time
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import catalog
REPO = os.environ.get("VERIF_REPO", "/repo")

def die(msg):
    print("ERROR: " + msg)
    sys.stdout.flush()
    sys.exit(2)

def known(pid):
    r = []
    for l in open(os.path.join(HERE, "known_findings.txt")):
        if l.startswith("known: "):
            head, key = l[7:].rstrip("\n").split(" ", 1)
            if head == "property=" + pid: r.append(key)
    return r

def key_of(a):
    return "%s|%s|%s|%s" % (a["rule"], a["file"].split("/repo/")[-1], a["func"], a["msg"])

def build(work):
    obj = os.path.join(ROOT, "engine", "build")
    p = subprocess.run(["make", "-s", "-j8", "-C", os.path.join(ROOT, "engine"), "OBJ=" + obj], capture_output=True, text=True)
    if p.returncode: die("the analyser does not build:\n" + p.stdout[-2000:] + p.stderr[-2000:])
    p = subprocess.run(["bash", os.path.join(ROOT, "engine", "build_bc.sh"), REPO, work], capture_output=True, text=True)
    if p.returncode: die("the library does not compile:\n" + p.stdout[-2000:] + p.stderr[-4000:])
    return os.path.join(obj, "sa"), os.path.join(work, "all.bc")

def run_unit(sa, bc, unit, work, limit):
    out = os.path.join(work, unit + ".json")
    t = time.time()
    try:
        p = subprocess.run([sa, "--bc", os.path.join(work, "lib.bc") if unit.startswith("lib_") else bc, "--unit", unit, "--deadline", str(limit), "--out", out],
                           capture_output=True, text=True, timeout=limit + 60)
    except subprocess.TimeoutExpired:
        return unit, None, "does not stop"
    if p.returncode not in (0, 3) or not os.path.exists(out):
        return unit, None, "analyser failed (%d): %s" % (p.returncode, p.stderr[-500:])
    d = json.load(open(out))
    d["wall"] = time.time() - t
    return unit, d, d["incomplete"]

def main():
    pid = sys.argv[1]
    thorough = "--thorough" in sys.argv or os.environ.get("VERIF_TIER") == "thorough"
    p = next((x for x in catalog.P if x["id"] == pid), None)
    if p is None: die("unknown property " + pid)
    t0 = time.time()
    work = tempfile.mkdtemp(prefix="verif-")
    try:
        sa, bc = build(work)
        limit = 780 if thorough else 420
        limit = int(limit - (time.time() - t0))
        results, missing = {}, []
        with cf.ThreadPoolExecutor(8) as ex:
            for u, d, inc in ex.map(lambda u: run_unit(sa, bc, u, work, limit), catalog.order(p["units"])):
                if d is not None: results[u] = d
                if inc: missing.append("%s: %s" % (u, inc))
    finally:
        shutil.rmtree(work, ignore_errors=True)
    rules = set(p["rules"])
    found, seen = [], set()
    for u, d in sorted(results.items()):
        for a in d["alarms"]:
            if a["rule"] in rules:
                k = key_of(a)
                if (k, a["line"], u) in seen: continue
                seen.add((k, a["line"], u))
                found.append((k, u, a))
    listed = known(pid)
    new = [x for x in found if x[0] not in listed]
    hit = sorted({k for k, u, a in found if k in listed})
    oblig = sorted({(r, u, o) for u, d in results.items() for r in rules for o in d["obligations"].get(r, [])})
    failed = {(a["rule"], a["line"], u) for k, u, a in found}
    sample = oblig[:: max(1, len(oblig) // 12)][:12]
    ev = {"property": pid, "tier": "thorough" if thorough else "quick", "seed": int(os.environ.get("VERIF_SEED", "1")), "level": p.get("level") or "proof",
          "coverage": {
              "obligations": len(oblig), "discharged": max(0, len(oblig) - len(failed)),
              "checker_cmd": "python3 checks/check.py " + pid,
              "trusted_base": catalog.TRUSTED,
              "rules": sorted(rules),
              "units": {u: {"entry": catalog.SRC.get(catalog.key(u)) or catalog.SRC.get(u[4:], u), "obligations": sum(len(d["obligations"].get(r, [])) for r in rules),
                            "functions": len(d["functions"]), "abstract_steps": d["steps"], "seconds": round(d["wall"], 1),
                            "client_states": len(d["facts"].get("client-states", [])) and d["facts"]["client-states"][0]} for u, d in sorted(results.items())},
              "functions_analysed": sorted({f for d in results.values() for f in d["functions"]}),
              "modelled_as_opaque": sorted({f for d in results.values() for f in d["opaque"]}),
              "samples": ["%s: %s in unit %s" % s for s in sample]},
          "assumptions": catalog.ASSUMPTIONS, "wall_s": round(time.time() - t0, 1), "violations": len(new)}
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", pid + ".json"), "w") as f: json.dump(ev, f, indent=1)
    for k in hit: print("KNOWN-FINDING: property=%s %s" % (pid, k))
    if new:
        rp = os.path.join(ROOT, "out", "replay-" + pid + ".txt")
        os.makedirs(os.path.dirname(rp), exist_ok=True)
        with open(rp, "w") as f:
            for k, u, a in new:
                f.write("%s:%d: %s: %s\n  in %s, reached from %s\n  unit %s; reproduce: python3 checks/check.py %s\n\n" % (a["file"], a["line"], a["rule"], a["msg"], a["func"], a["stack"], u, pid))
        for k, u, a in new[:20]:
            print("%s:%d: [%s] %s (unit %s, in %s)" % (a["file"], a["line"], a["rule"], a["msg"], u, a["func"]))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        sys.stdout.flush()
        return 1
    if missing: die("no answer for " + "; ".join(missing))
    if not oblig: die("no obligation of %s was found: the entry points are gone" % pid)
    for u in p["units"]:
        if not any(results[u]["obligations"].values()): die("nothing was analysed in unit " + u)
    print("%s holds: %d obligations in %d units, %.0f s" % (pid, len(oblig), len(results), time.time() - t0))
    return 0

if __name__ == "__main__":
    sys.exit(main())
