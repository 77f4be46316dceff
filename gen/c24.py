"""C24: TLC dresses declarations (MC_Forms); they are compiled; the modules about values run on the dressed types."""
import os, shutil, subprocess, sys, json
import props
HERE = os.path.dirname(os.path.abspath(__file__))
FEATS = ["std", "bin", "json", "ron"]
RUNS = [("bin", "MC_C01", None), ("bin", "MC_C02", None), ("bin", "MC_EnumsB", None),
        ("json", "MC_Round", "TR_Tok"), ("json", "MC_Fields", None), ("json", "MC_Enums", None), ("json", "MC_C05", "TR_Json"),
        ("ron", "MC_Round", "TR_Tok"), ("ron", "MC_Fields", None), ("ron", "MC_Enums", None)]

def run(pid, run_, wd, ck):
    states = trans = ran = absent = traces = 0; bad = []; samples = []
    forms = os.path.join(wd, "forms")
    s, g, _ = ck.tlc("MC_Forms", "MC_Forms.cfg", forms, wd); states += s; trans += g
    spec = os.path.join(wd, "spec"); shutil.copytree(os.path.join(ck.HERE, "spec"), spec)
    crate = ck.copy_crate("harness", os.path.join(wd, "harness"))
    r = ck.sh([sys.executable, os.path.join(HERE, "forms.py"), forms, spec, crate], 60)
    if r.returncode: raise ck.Tool("forms.py:\n" + r.stdout.decode(errors="replace")[-2000:])
    for line in open(forms, encoding="utf-8"):
        if line.startswith('"CASE ') and len(samples) < 3:
            c = json.loads(json.loads(line)[5:])[0]
            if c["no"] > 0: samples.append({"declaration": c["body"], "form": c["form"]})
    exe = ck.build(FEATS, crate, "target-forms")
    try:
        detail = []
        for fmt, mc, tr in RUNS:
            cases = os.path.join(wd, "c24-cases")
            env = {"VERIF_TAGS": "all", "VERIF_FMT": fmt[0], "VERIF_SPARSE": "1"}
            s, g, _ = ck.tlc(mc, mc + ".cfg", cases, wd, env, spec=spec); states += s; trans += g
            n, a, b, recs = ck.replay(exe, fmt, cases, wd, "c24")
            if n == 0: raise ck.Tool("no case of %s ran" % mc)
            bad += [("%s %s: %s" % (fmt, mc, m), c) for m, c in b]; ran += n; absent += a
            if tr:
                t, s, g, b = ck.check_trace(tr, recs, wd, env, spec, bool(b))
                traces += t; states += s; trans += g; bad += b
            detail.append([fmt, mc, n])
    finally: os.remove(exe)
    return {"ran": ran, "absent": absent, "bad": bad, "xstates": states, "xtrans": trans, "xtraces": traces, "samples": samples, "detail": detail}
