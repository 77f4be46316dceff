#!/usr/bin/env python3
"""Runs the check of one property: TLC on its behaviour module(s), replay of the behaviours TLC
printed into the real crate, and TLC on what the real crate was recorded doing.
usage: check.py <property> | check.py --setup | check.py --replay <file>"""
import json, os, re, shutil, subprocess, sys, time
sys.modules.setdefault("check", sys.modules[__name__])
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "gen"))
from props import PROPS

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = os.environ.get("VERIF_SEED", "1")
BUILD = os.path.join(HERE, "build")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CORES = 8

class Tool(Exception): pass      # the check itself could not run
class Broken(Exception): pass    # a supported declaration no longer compiles

def sh(cmd, timeout, **kw):
    try: return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, **kw)
    except subprocess.TimeoutExpired as e: raise Tool("timeout: " + " ".join(cmd[:6])) from e

def cargo(crate, features, target):
    env = dict(os.environ, CARGO_TARGET_DIR=target, CARGO_NET_OFFLINE="true", RUSTFLAGS="")
    cmd = ["cargo", "build", "--offline", "--message-format=short", "--no-default-features", "--features", ",".join(features)]
    r = sh(cmd, 800, cwd=crate, env=env)
    if r.returncode != 0:
        out = r.stdout.decode(errors="replace")
        if "could not compile `nanoserde" in out or "error: failed to" in out: raise Tool("nanoserde does not build:\n" + out[-3000:])
        raise Broken(out[-6000:])
    return os.path.join(target, "debug", os.path.basename(crate) if os.path.basename(crate) == "harness" else "harness")

def quantifies_programs(pid):
    for line in open(os.path.join(HERE, "properties.jsonl"), encoding="utf-8"):
        if line.strip():
            p = json.loads(line)
            if p["id"] == pid: return "programs" in p["quantifier"]["over"]
    return False

def copy_crate(name, dst):
    """A copy of one of the crates here elsewhere, still built against REPO."""
    shutil.rmtree(dst, ignore_errors=True); shutil.copytree(os.path.join(HERE, name), dst)
    p = os.path.join(dst, "Cargo.toml"); s = open(p).read()
    open(p, "w").write(s.replace("../../repo", REPO))
    return dst

def build(features, crate=None, target="target"):
    if crate is None:
        crate = os.path.join(HERE, "harness")
        # development only: a scratch copy of the tree under test
        if REPO != "/repo": crate = copy_crate("harness", os.path.join(BUILD, "alt", "harness"))
    exe = cargo(crate, features, os.path.join(BUILD, target))
    keep = os.path.join(BUILD, "bin"); os.makedirs(keep, exist_ok=True)
    dst = os.path.join(keep, "harness-" + "-".join(sorted(features)) + "-%d" % os.getpid())
    shutil.copy2(exe, dst)
    return dst

def tlc(module, cfg, outpath, wd, env=None, workers=CORES, timeout=800, spec=os.path.join(HERE, "spec")):
    meta = os.path.join(wd, "meta-" + module); shutil.rmtree(meta, ignore_errors=True)
    cmd = ["java", "-Xss256m", "-Xmx8g", "-XX:+UseParallelGC", "-cp", JARS, "tlc2.TLC", "-workers", str(workers), "-metadir", meta,
           "-config", cfg, "-noGenerateSpecTE", module + ".tla"]
    e = dict(os.environ, VERIF_TIER=TIER, VERIF_SEED=SEED, VERIF_TAGS="all", VERIF_FMT="j", VERIF_LOC="0", VERIF_SPARSE="0", VERIF_COMBO="0"); e.update(env or {})
    with open(outpath, "wb") as f:
        try: r = subprocess.run(cmd, cwd=spec, env=e, stdout=f, stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired as x: raise Tool("TLC timed out on " + module) from x
    shutil.rmtree(meta, ignore_errors=True)
    head = subprocess.run(["grep", "-a", "-v", '^"CASE', outpath], stdout=subprocess.PIPE).stdout.decode(errors="replace")
    m = re.search(r"(\d+) states generated, (\d+) distinct states found, 0 states left", head)
    if r.returncode != 0 or not m or "No error has been found" not in head:
        brief = "\n".join(l for l in head.splitlines() if not l.startswith(("Parsing", "Semantic", "Linting", "Running")))
        raise Tool("TLC failed on %s:\n%s" % (module, brief[:5000]))
    return int(m.group(2)), int(m.group(1)), head

def case_at(casefile, shard, shards, idx):
    g = n = 0
    for line in open(casefile, encoding="utf-8"):
        if line.startswith('"CASE '): body = lambda: json.loads(json.loads(line)[5:])
        elif line.startswith("CASE "): body = lambda: json.loads(line[5:])
        else: continue
        g += 1
        if g % shards != shard: continue
        b = body()
        if n + len(b) >= idx: return b[idx - n - 1]
        n += len(b)

def replay(exe, fmt, casefile, wd, tag, shards=CORES, budget=400, env=None):
    """Returns (ran, absent, [(message, case)], [record files])."""
    t0 = time.time(); bad = []; ran = absent = 0; recs = []
    jobs = []
    def start(s, first):
        prog = os.path.join(wd, "prog-%s-%d" % (tag, s)); rec = os.path.join(wd, "rec-%s-%d" % (tag, s)); out = os.path.join(wd, "out-%s-%d" % (tag, s))
        p = subprocess.Popen(["prlimit", "--as=6000000000", exe, fmt, casefile, str(s), str(shards), str(first), prog, rec], stdout=open(out, "ab"), stderr=subprocess.DEVNULL, env=dict(os.environ, **(env or {})))
        return [s, p, prog, rec, out, first]
    for s in range(shards):
        for n in ("prog", "rec", "out"):
            q = os.path.join(wd, "%s-%s-%d" % (n, tag, s))
            if os.path.exists(q): os.remove(q)
        jobs.append(start(s, 0))
    pending = list(jobs); deaths = 0; died = []
    while pending:
        if time.time() - t0 > budget:
            for j in pending: j[1].kill()
            raise Tool("replay over budget")
        time.sleep(0.01)
        for j in list(pending):
            rc = j[1].poll()
            if rc is None: continue
            pending.remove(j)
            if rc == 0: continue
            try: at = int(open(j[2]).read().strip() or 0)
            except (OSError, ValueError): at = 0
            if at == 0: raise Tool("harness failed (%d) before its first case" % rc)
            why = "hangs (no end within 10 s, or 60 s of a big case)" if rc == 97 else "ends the process (%s)" % rc
            bad.append((why, case_at(casefile, j[0], shards, at))); deaths += 1
            died.append(at)
            if deaths < 24: pending.append(start(j[0], at))
            else:
                for k in pending: k[1].kill()
                pending = []; break
    for s in range(shards):
        for line in open(os.path.join(wd, "out-%s-%d" % (tag, s)), encoding="utf-8", errors="replace"):
            if line.startswith("BAD "):
                _, idx, rest = line.rstrip("\n").split(" ", 2); m, c = rest.rsplit("\t", 1)
                bad.append((json.loads(m), json.loads(c)))
            elif line.startswith("SUM "):
                _, n, r, b, a = line.split(); ran += int(r); absent += int(a)
        recs.append(os.path.join(wd, "rec-%s-%d" % (tag, s)))
    ran += deaths
    return ran, absent, bad, recs

def findings():
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    for l in open(p):
        m = re.match(r"open: property=(\S+) (\{.*\})$", l.strip())
        if m: out.append(dict(json.loads(m.group(2)), property=m.group(1)))
    return out

def violation(pid, fmt, feats, msg, case, n):
    d = os.path.join(BUILD, "replay"); os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "%s-%d.json" % (pid, n))
    json.dump({"property": pid, "format": fmt, "features": feats, "message": msg, "case": case}, open(p, "w"))
    print("VIOLATION property=%s replay=%s" % (pid, p))
    print("  %s  %s" % (str(msg)[:600], json.dumps(case)[:600]))

def known(pid, feats, exe, wd):
    """Runs each listed finding once; it suppresses only its own case, which no behaviour module emits."""
    n = 0
    for f in findings():
        if f.get("property") != pid or "case" not in f: continue
        if "type" in f:
            import schema
            f["case"]["t"] = [t.rust for t, _ in schema.ROOTS].index(f["type"]) + 1
        cf = os.path.join(wd, "known.case"); open(cf, "w").write("CASE " + json.dumps([f["case"]]) + "\n")
        try:
            r = subprocess.run(["prlimit", "--as=3000000000", exe, f["format"], cf, "0", "1", "0", os.path.join(wd, "known.prog"), os.path.join(wd, "known.rec")],
                               stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=f.get("seconds", 3))
            fails = r.returncode != 0 or b"\nBAD " in b"\n" + r.stdout
        except subprocess.TimeoutExpired: fails = True
        if fails: print("KNOWN-FINDING: property=%s %s" % (pid, f["what"])); n += 1
        else: print("note: property=%s listed finding no longer fails: %s" % (pid, f["what"]))
    return n

def check_trace(module, recs, wd, env, spec=None, excused=False):
    """TLC on what the crate was recorded doing: (records, distinct states, states, [(why, record)])."""
    tf = os.path.join(wd, "trace.ndjson"); bad = []
    with open(tf, "wb") as o:
        for rf in recs:
            if os.path.exists(rf): o.write(open(rf, "rb").read())
    tl = sum(1 for _ in open(tf, "rb"))
    if tl == 0:
        if not excused: raise Tool("nothing was recorded for " + module)
        return 0, 0, 0, []
    s, g, head = tlc(module, module + ".cfg", os.path.join(wd, "tr-out"), wd, dict(env, TRACE=tf), **({"spec": spec} if spec else {}))
    lines = None
    for l in head.splitlines():
        if not l.startswith('"REJECT '): continue
        _, i, why = json.loads(l).split(" ", 2)
        if lines is None: lines = open(tf, encoding="utf-8").read().split("\n")
        bad.append(("recorded behaviour rejected by %s: %s" % (module, why), json.loads(lines[int(i) - 1])))
    return tl, s, g, bad

def run_prop(pid):
    P = PROPS[pid]; t0 = time.time()
    wd = os.path.join(BUILD, "run", "%s-%d" % (pid, os.getpid())); shutil.rmtree(wd, ignore_errors=True); os.makedirs(wd)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    nviol = 0; states = trans = ran = absent = traces = 0; samples = []; detail = []; exes = {}
    try:
        for k, run in enumerate(P["runs"]):
            tag = "%d" % k
            if run.get("tier") == "thorough" and TIER != "thorough": continue
            if "python" in run:      # a run that builds crates of its own (declaration forms, feature sets)
                import importlib
                mod = importlib.import_module(run["python"])
                res = mod.run(pid, run, wd, sys.modules[__name__])
            else:
                feats = run["features"]
                key = tuple(feats)
                if key not in exes:
                    exes[key] = build(feats)
                cases = os.path.join(wd, "cases-" + tag)
                s, g, head = tlc(run["mc"], run.get("cfg", run["mc"] + ".cfg"), cases, wd, dict(run.get("env") or {}, VERIF_FMT=run.get("vf", run["fmt"][0])))
                states += s; trans += g
                n, a, bad, recs = replay(exes[key], run["fmt"], cases, wd, tag)
                res = {"ran": n, "absent": a, "bad": bad, "mc": run["mc"], "states": s}
                if run.get("trace"):
                    t, s, g, b = check_trace(run["trace"], recs, wd, dict(run.get("env") or {}, VERIF_FMT=run.get("vf", run["fmt"][0])), None, bool(bad))
                    states += s; trans += g; traces += t; bad += b
                    res["trace_records"] = t
                if len(samples) < 4:
                    for line in open(cases):
                        if line.startswith('"CASE '):
                            b = json.loads(json.loads(line)[5:])
                            if b and len(json.dumps(b[0])) < 900: samples.append(b[0])
                            if len(samples) >= 2 * (k + 1): break
                if n == 0: raise Tool("no case of %s ran" % run["mc"])
                os.remove(cases)
                feats_ = feats
            ran += res["ran"]; absent += res.get("absent", 0); states += res.get("xstates", 0); trans += res.get("xtrans", 0)
            samples += res.get("samples", []); traces += res.get("xtraces", 0)
            for m, c in res["bad"][:10]:
                violation(pid, run.get("fmt"), run.get("features"), m, c, nviol); nviol += 1
            nviol += max(0, len(res["bad"]) - 10)
            detail.append({x: (len(y) if x == "bad" else y) for x, y in res.items() if x not in ("samples",)})
        nk = known(pid, None, next(iter(exes.values())), wd) if exes else 0
    except Broken as e:
        # a type of the corpus lost its implementation or its derive: the property fails for that program
        if P.get("compiles") or (quantifies_programs(pid) and re.search(r"^src/types_\w+\.rs:\d+:\d+: error", str(e), re.M)):
            violation(pid, None, None, "a supported declaration does not compile", str(e), 0); nviol = 1; nk = 0
            samples.append("compile error")
        else:
            raise
    finally:
        for x in exes.values():
            if os.path.exists(x): os.remove(x)
        if not os.environ.get("VERIF_KEEP"): shutil.rmtree(wd, ignore_errors=True)
    ev = {"property": pid, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": int(SEED), "level": "model_checking",
          "coverage": {"states": states, "transitions": trans, "traces_validated_against_impl": ran + traces, "cases_replayed": ran,
                       "records_checked": traces, "cases_without_this_type": absent, "samples": samples[:6], "runs": detail,
                       "known_findings_seen": nk},
          "assumptions": P.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": nviol}
    json.dump(ev, open(os.path.join(HERE, "evidence", pid + ".json"), "w"), indent=1)
    print("%s: %d states, %d behaviours replayed, %d records checked, %d violations, %.1f s" % (pid, states, ran, traces, nviol, time.time() - t0))
    return 1 if nviol else 0

def main():
    global TIER
    a = sys.argv[1]
    if "--thorough" in sys.argv: TIER = "thorough"
    try:
        if a == "--setup":
            build(["std", "bin", "json", "ron", "toml"]) if "--full" in sys.argv else None
            for t in ("java", "cargo", "prlimit"):
                if not shutil.which(t): raise Tool("missing " + t)
            return 0
        if a == "--replay":
            r = json.load(open(sys.argv[2]))
            wd = os.path.join(BUILD, "run", "replay-%d" % os.getpid()); os.makedirs(wd, exist_ok=True)
            cf = os.path.join(wd, "case"); open(cf, "w").write("CASE " + json.dumps([r["case"]]) + "\n")
            n, ab, bad, recs = replay(build(r["features"]), r["format"], cf, wd, "x", shards=1)
            print(bad[0][0] if bad else "the case passes"); return 1 if bad else 0
        return run_prop(a)
    except Tool as e:
        print("ERROR %s: %s" % (a, e)); return 2
    except Broken as e:
        print("ERROR %s: the harness does not compile against this tree\n%s" % (a, e)); return 2

if __name__ == "__main__": sys.exit(main())
