#!/usr/bin/env python3
"""check.py ID [quick|thorough]: builds the harnesses of one property from /repo's working tree, runs them, writes
evidence/ID.json, prints VIOLATION / KNOWN-FINDING lines. Exit 0: held. 1: violated. 3: error of the check."""
import hashlib, json, os, re, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
sys.path.insert(0, os.path.join(VERIF, "tools"))
from config import CHECKS, FLAVORS, LIBS

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def read(p):
    with open(p, "rb") as f: return f.read()

_hdr = None
def header_hash():
    global _hdr
    if _hdr is None:
        h = hashlib.sha256()
        for root in (os.path.join(REPO, "slinky"), os.path.join(VERIF, "lib"), os.path.join(VERIF, "mc"), os.path.join(VERIF, "harness")):
            for d, _, fs in sorted(os.walk(root)):
                for f in sorted(fs):
                    if f.endswith(".h"):
                        p = os.path.join(d, f)
                        h.update(p.encode()); h.update(read(p))
        _hdr = h.hexdigest()
    return _hdr

def compile_one(src, flags, compiler):
    key = hashlib.sha256((header_hash() + compiler + " ".join(flags) + src).encode() + read(src)).hexdigest()[:32]
    obj = os.path.join(BUILD, "obj", key + ".o")
    if os.path.exists(obj): return obj, None
    tmp = obj + ".tmp%d" % os.getpid()
    r = sh([compiler] + flags + ["-c", src, "-o", tmp])
    if r.returncode != 0: return None, "%s: %s" % (src, r.stdout[-3000:])
    os.replace(tmp, obj)
    return obj, None

def build(part):
    fl = FLAVORS[part["flavor"]]
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    os.makedirs(os.path.join(BUILD, "bin"), exist_ok=True)
    jobs = []
    srcs = []
    for lib in part["libs"]: srcs += [os.path.join(REPO, s) for s in LIBS[lib]]
    flags = fl["flags"] + ["-I" + REPO, "-I" + os.path.join(VERIF, "lib"), "-I" + os.path.join(VERIF, "mc"), "-I" + os.path.join(VERIF, "harness")]
    for s in srcs: jobs.append((s, flags, fl["cc"]))
    for s in part["sources"]: jobs.append((os.path.join(VERIF, s), flags + part.get("defines", []), fl["cc"]))
    for s in fl.get("plain_sources", []): jobs.append((os.path.join(VERIF, s), ["-std=c++17", "-O2", "-g1", "-I" + os.path.join(VERIF, "lib"), "-I" + os.path.join(VERIF, "mc")], "g++"))
    # Big ones first.
    jobs.sort(key=lambda j: -os.path.getsize(j[0]))
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(lambda j: compile_one(*j), jobs))
    errs = [e for _, e in res if e]
    if errs: return None, "\n".join(errs)
    objs = [o for o, _ in res]
    exe = os.path.join(BUILD, "bin", part["name"] + "-" + hashlib.sha256(" ".join(objs + fl["link"]).encode()).hexdigest()[:12])
    if not os.path.exists(exe):
        r = sh([fl["ld"]] + objs + fl["link"] + ["-o", exe + ".tmp%d" % os.getpid()])
        if r.returncode != 0: return None, r.stdout[-3000:]
        os.replace(exe + ".tmp%d" % os.getpid(), exe)
    return exe, None

def known_findings(prop):
    """Lines: 'finding: property=<id> key=<regex, must match the whole key> :: <what fails>'. Lines 'fixed: ...' suppress nothing."""
    res = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) key=(.*?) :: (.*)$", l.strip())
            if m and m.group(1) == prop: res.append((m.group(2), m.group(3)))
    return res

def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    cfg = CHECKS[prop]
    t0 = time.time()
    rdir = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    os.makedirs(os.path.join(BUILD, "out"), exist_ok=True)
    exes = []
    for part in cfg["parts"]:
        exe, err = build(part)
        if err:
            print("build failed:\n" + err)
            sys.exit(3)
        exes.append(exe)
    print("%s: built in %.1fs" % (prop, time.time() - t0), flush=True)
    violations, known, errors = [], [], 0
    stats = []
    kf = known_findings(prop)
    for part, exe in zip(cfg["parts"], exes):
        out = os.path.join(BUILD, "out", "%s-%s-%d.json" % (prop, part["name"], os.getpid()))
        budget = part["budget"][1 if tier == "thorough" else 0]
        cmd = [exe, "run", "--tier", tier, "--out", out, "--budget", str(budget), "--seed", str(seed), "--replay-dir", rdir, "--property", prop]
        env = dict(os.environ); env.update(part.get("env", {}))
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=env, errors="replace")
        sys.stdout.write(r.stderr[-4000:])
        if not os.path.exists(out):
            print("no result from %s (exit %d)" % (part["name"], r.returncode)); errors += 1; continue
        st = json.load(open(out)); os.unlink(out)
        st["part"] = part["name"]; st["kind"] = part["kind"]
        stats.append(st)
        if part["kind"] == "sched":
            for l in r.stdout.splitlines():
                if l.startswith("VIOLATION"):
                    violations.append((part["name"], l.split("replay=")[1], ""))
                    rp = l.split("replay=")[1]
                    with open(rp, "a") as f:
                        f.write("# replay with: %s replay <this file> -v   (built by tools/check.py %s)\n" % (part["name"], prop))
            if r.returncode not in (0, 1): errors += 1
        else:
            for v in st["violations"]:
                hit = None
                for rx, what in kf:
                    if re.fullmatch(rx, v["key"]): hit = what
                if hit:
                    known.append((v["key"], hit)); continue
                path = os.path.join(rdir, "%s-%s-%d.txt" % (prop, part["name"], v["unit"]))
                with open(path, "w") as f:
                    f.write("property %s part %s tier %s unit %d\nkey: %s\nunit: %s\nwhat: %s\nreplay: tools/replay.py %s\n" % (
                        prop, part["name"], tier, v["unit"], v["key"], v["unit_desc"], v["desc"], path))
                violations.append((part["name"], path, "%s: %s" % (v["key"], v["desc"])))
            if r.returncode not in (0, 1): errors += 1
    # Evidence
    level = cfg["level"]
    cov = {"parts": [{k: v for k, v in s.items() if k not in ("samples", "violations")} for s in stats]}
    enums = [s for s in stats if s["kind"] == "enum"]
    scheds = [s for s in stats if s["kind"] == "sched"]
    exhaustive = all(s.get("exhaustive", True) for s in enums) and all(not x["capped"] for s in scheds for x in s["scenarios"])
    samples = []
    for s in enums: samples += s["samples"][:4]
    for s in scheds: samples += [{"scenario": x["name"], "preemption_bound": x["bound_completed"], "executions": x["executions"], "outcomes": x["outcomes"]} for x in s["scenarios"]][:6]
    if scheds:
        cov["states"] = sum(x["states"] + x["executions"] for s in scheds for x in s["scenarios"])
        cov["transitions"] = sum(x["transitions"] for s in scheds for x in s["scenarios"])
        cov["traces_validated_against_impl"] = sum(x["executions"] for s in scheds for x in s["scenarios"])
        cov["explanation"] = "every execution runs the real implementation under the controlled scheduler; states counts distinct cached states plus complete executions"
    cov["evaluations"] = sum(s["evaluations"] for s in enums) + sum(x["executions"] for s in scheds for x in s["scenarios"])
    cov["distinct_nontrivial"] = sum(s["distinct_nontrivial"] for s in enums) + sum(x["outcomes"] for s in scheds for x in s["scenarios"])
    cov["rule"] = "; ".join([s["rule"] for s in enums] + (["schedules: every schedule within the preemption bound; distinct outcomes counted"] if scheds else []))
    cov["samples"] = samples or ["none"]
    cov["exhaustive"] = bool(exhaustive)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov, "assumptions": cfg.get("assumptions", []),
          "wall_s": round(time.time() - t0, 2), "violations": len(violations)}
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f: json.dump(ev, f, indent=1)
    for k, what in sorted(set((w, w) for _, w in known)):
        print("KNOWN-FINDING: property=%s %s" % (prop, what))
    for name, path, what in violations[:10]:
        if what: print("  " + what[:1500])
        print("VIOLATION property=%s replay=%s" % (prop, path))
    print("%s %s: %d evaluations, %d violations, %d errors, %.1fs" % (prop, tier, cov["evaluations"], len(violations), errors, time.time() - t0))
    if violations: sys.exit(1)
    if errors: sys.exit(3)
    sys.exit(0)

if __name__ == "__main__": main()
