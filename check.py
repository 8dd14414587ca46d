#!/usr/bin/env python3
"""Run the solver-based check of one property:  check.py C03 [--tier quick|thorough] [--keep]

Compiles the property's harness together with the repository's current sources to LLVM bitcode, lets engine/symx execute
every entry symbolically, replays every counterexample against the natively compiled code, and writes evidence/<id>.json.
Exit 0: held; exit 1: VIOLATION lines; exit 2: the check could not be built or explored nothing."""
import sys, os, re, json, time, subprocess, tempfile, shutil, fcntl, resource, glob
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
ENGINE = os.path.join(VERIF, "engine", "symx")

def sh(cmd, timeout=600, env=None, cwd=None):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=env, cwd=cwd, errors="replace")
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as e:
        return 124, "", "timeout"

def build_engine():
    lock = open(os.path.join(VERIF, "engine", ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    rc, o, e = sh(["make", "-s", "-C", os.path.join(VERIF, "engine"), "-j4"], 900)
    fcntl.flock(lock, fcntl.LOCK_UN)
    if rc: print(o + e); sys.exit(2)

def incdirs(work):
    inc = os.path.join(work, "inc"); os.makedirs(os.path.join(inc, "smart_dnn"), exist_ok=True)
    l = os.path.join(inc, "smart_dnn", "debugging")
    if not os.path.exists(os.path.join(REPO, "smart_dnn", "debugging")) and not os.path.lexists(l):
        try: os.symlink(os.path.join(REPO, "smart_dnn", "Debugging"), l)
        except FileExistsError: pass
    return ["-I" + REPO, "-I" + os.path.join(VERIF, "harness"), "-I" + inc]

def meta(src):
    """// @key text  lines of a harness:  bounds, assume, outside, trusted, opts <entry-regex> <symx options>, flags"""
    m = {"bounds": [], "assume": [], "outside": [], "opts": [], "flags": [], "inc": []}
    for line in open(src):
        g = re.match(r"\s*//\s*@(\w+)\s+(.*)", line)
        if g and g.group(1) in m: m[g.group(1)].append(g.group(2).strip())
    return m

def entry_ranges(text):
    """line ranges [a, b] of every ENTRY of a harness (by brace matching)"""
    r = []
    for g in re.finditer(r"^ENTRY\((\w+)\)", text, re.M):
        depth = 0; i = g.end(); seen = False
        while i < len(text) and not (seen and depth == 0):
            if text[i] == "{": depth += 1; seen = True
            elif text[i] == "}": depth -= 1
            i += 1
        r.append((g.group(1), text.count("\n", 0, g.start()) + 1, text.count("\n", 0, i) + 1))
    return r

def compile_tolerant(src, work, flags):
    """Compile the harness; entries the compiler refuses are taken out so that the others still run.
    -> (ok, message, source used, [(entry, diagnostic, the error lies in the repository's own code)])"""
    dropped = []; cur = src; text = open(src).read()
    for _ in range(40):
        ok, msg = compile_bc(cur, work, flags)
        if ok: return True, "", cur, dropped
        groups = []
        for line in msg.splitlines():
            g = re.match(r"(.+?):(\d+):\d+: (fatal error|error|note|warning): (.*)", line) or re.match(r"(In file included from) (.+)", line)
            if not g or len(g.groups()) < 4: continue
            if g.group(3) in ("error", "fatal error"): groups.append([line, g.group(1), [(g.group(1), int(g.group(2)))]])
            elif g.group(3) == "note" and groups: groups[-1][2].append((g.group(1), int(g.group(2))))
        ranges = entry_ranges(text); lines = text.split("\n"); hit = {}
        for first, where, locs in groups:
            for f, n in locs:
                if os.path.realpath(f) != os.path.realpath(cur): continue
                for en, a, b in ranges:
                    if a <= n <= b: hit.setdefault(en, (first, os.path.realpath(where).startswith(os.path.realpath(REPO) + "/"), a, b))
        if not hit: return False, msg, cur, dropped
        for en, (first, inrepo, a, b) in hit.items():
            dropped.append((en, first, inrepo))
            for k in range(a - 1, b): lines[k] = ""
        text = "\n".join(lines); cur = os.path.join(work, os.path.basename(src)); open(cur, "w").write(text)
    return False, "too many entries do not compile", cur, dropped

NATFLAGS = ["-O1", "-g", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-ftrivial-auto-var-init=pattern"]
def compile_bc(src, work, flags):
    base = ["clang++", "-std=c++17", "-O0", "-Xclang", "-disable-O0-optnone", "-g", "-w", "-emit-llvm", "-c", "-ffp-contract=off", "-D_GLIBCXX_ASSERTIONS", "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-DSYMX_BC"] + incdirs(work) + ["-include", "prelude.hpp"] + flags
    jobs = []
    with ThreadPoolExecutor(2) as ex:
        a = ex.submit(sh, base + [src, "-o", os.path.join(work, "h.bc")])
        b = ex.submit(sh, base + [os.path.join(VERIF, "harness", "rt.cpp"), "-o", os.path.join(work, "rt.bc")])
        for r in (a.result(), b.result()):
            if r[0]: return False, r[1] + r[2]
    for cmd in (["llvm-link-18", os.path.join(work, "h.bc"), os.path.join(work, "rt.bc"), "-o", os.path.join(work, "l.bc")], ["opt-18", "-passes=mem2reg,sroa", os.path.join(work, "l.bc"), "-o", os.path.join(work, "p.bc")]):
        rc, o, e = sh(cmd)
        if rc: return False, o + e
    return True, ""

def compile_native(src, work, flags, out):
    omp = "-fopenmp" in flags
    cf = ["clang++", "-std=c++17", "-w", "-D_GLIBCXX_ASSERTIONS"] + (["-O1", "-g", "-fsanitize=thread"] if omp else NATFLAGS) + incdirs(work)
    srcs = [(src, ["-include", "prelude.hpp"] + flags), (os.path.join(VERIF, "native", "native.cpp"), [])]
    if omp: srcs.append((os.path.join(VERIF, "native", "kmp.cpp"), []))
    if any("NATIVE_LIFO" in f for f in flags): srcs.append((os.path.join(VERIF, "native", "lifo.cpp"), []))
    objs = []
    def one(i):
        o = os.path.join(work, "n%d.o" % i); objs.append(o)
        return sh(cf + srcs[i][1] + ["-c", srcs[i][0], "-o", o])
    with ThreadPoolExecutor(3) as ex: rs = list(ex.map(one, range(len(srcs))))
    for r in rs:
        if r[0]: return False, r[1] + r[2]
    rc, o, e = sh(["clang++", "-fsanitize=thread" if omp else "-fsanitize=address,undefined"] + sorted(objs) + ["-rdynamic", "-ldl", "-lpthread", "-o", out])
    return rc == 0, o + e

FILLS = [190, 0, 63, 255]
def run_native(exe, entry, theory, model, work, tag, fill=190, obs=None, tol=None):
    mf = os.path.join(work, "m_%s.txt" % tag)
    with open(mf, "w") as f: f.write("\n".join(model) + "\n")
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:alloc_dealloc_mismatch=1:max_malloc_fill_size=1000000:malloc_fill_byte=%d:allocator_may_return_null=0:max_allocation_size_mb=512:detect_stack_use_after_return=1:symbolize=1" % fill, TSAN_OPTIONS="exitcode=66:halt_on_error=0", UBSAN_OPTIONS="print_stacktrace=0")
    env["SYM_DIR"] = work
    if tol: env["SYM_TOL"] = tol
    cmd = [exe, entry, theory, mf] + ([obs] if obs else [])
    rc, o, e = sh(cmd, 60, env)
    return rc, (o + e)

def limits():
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))

def run_entry(bc, entry, tier, seed, opts, work, budget):
    out = os.path.join(work, entry + ".json"); theory = "fp" if entry[1] == "f" else "real"
    cmd = [ENGINE, bc, "--entry", entry, "--theory", theory, "--out", out, "--budget", str(budget), "--seed", str(seed)] + opts
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=budget + 60, preexec_fn=limits, errors="replace")
        rc, err = p.returncode, p.stderr
    except subprocess.TimeoutExpired: rc, err = 124, "engine timeout"
    if os.path.exists(out):
        try: return json.load(open(out)), err
        except Exception as ex: return None, "unreadable engine output: %s" % ex
    return None, "engine rc=%d %s" % (rc, err[-600:])

def known_findings():
    f = os.path.join(VERIF, "known_findings.json")
    return json.load(open(f)) if os.path.exists(f) else []

def main():
    prop = sys.argv[1]; tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv: tier = sys.argv[sys.argv.index("--tier") + 1]
    only = sys.argv[sys.argv.index("--only") + 1] if "--only" in sys.argv else None
    verbose = "-v" in sys.argv
    seed = int(os.environ.get("VERIF_SEED", "1") or 1); t0 = time.time()
    srcs = sorted(glob.glob(os.path.join(VERIF, "harness", prop + "_*.cpp")))
    if not srcs: print("no harness for", prop); sys.exit(2)
    build_engine()
    work = tempfile.mkdtemp(prefix="symx_%s_" % prop)
    try: rc = drive(prop, tier, seed, srcs, work, t0, only, verbose)
    finally:
        if "--keep" in sys.argv: print("work dir", work)
        else: shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)

def drive(prop, tier, seed, srcs, work, t0, only, verbose):
    incon = {}; metas = {"bounds": [], "assume": [], "outside": []}
    pool = ThreadPoolExecutor(8); builds = []
    def prep(i, src):
        w = os.path.join(work, str(i)); os.makedirs(w); m = meta(src); flags = [x for f in m["flags"] for x in f.split()]
        flags = [f.replace("@VERIF@", VERIF) for f in flags]
        return w, m, flags
    for i, src in enumerate(srcs):
        w, m, flags = prep(i, src)
        for k in metas: metas[k] += m[k]
        nat = os.path.join(w, "native"); builds.append((src, w, m, flags, nat, pool.submit(compile_tolerant, src, w, list(flags)), pool.submit(compile_native, src, w, flags, nat)))
    jobs = []
    illformed = []
    for (src, w, m, flags, nat, fb, fn) in builds:
        ok, msg, used, dropped = fb.result()
        illformed += [(src, en, diag) for en, diag, inrepo in dropped if inrepo]
        for en, diag, inrepo in dropped:
            if not inrepo: incon["%s: not encodable against this interface: %s" % (en, diag)] = 1
        if ok and used != src: fn.result(); fn = pool.submit(compile_native, used, w, flags, nat)
        if not ok: print("BUILD-FAILED", os.path.basename(src)); print("\n".join([l for l in msg.splitlines() if "error" in l][:8]) or msg[-1500:]); return 2
        text = open(src).read(); entries = re.findall(r"ENTRY\((\w+)\)", text) 
        rc, o, e = sh(["llvm-nm-18", "--defined-only", os.path.join(w, "p.bc")])
        entries = sorted(set(re.findall(r"\b([qt][rf]_\w+)\s*$", o, re.M)), key=lambda n: text.find(n))
        for en in entries:
            if tier == "quick" and en[0] == "t": continue
            if only and not re.search(only, en): continue
            opts = []; budget = 100 if tier == "quick" else 1500
            for line in m["opts"]:
                pat, rest = line.split(None, 1)
                if re.fullmatch(pat, en):
                    for tok in rest.split():
                        opts.append(tok)
            if "--budget" in opts: k = opts.index("--budget"); budget = float(opts[k + 1]) * (1 if tier == "quick" else 15); del opts[k:k + 2]
            if tier == "thorough" and "--max-instr" not in opts: opts += ["--max-instr", "20000000000"]
            if tier == "thorough" and "--obl-ms" not in opts: opts += ["--obl-ms", "60000"]
            jobs.append((src, w, en, opts, nat, fn, pool.submit(run_entry, os.path.join(w, "p.bc"), en, tier, seed, opts, w, budget)))
    if not jobs and not illformed: print("no entries"); return 2
    tot = dict(paths=0, paths_with_obligations=0, aborted=0, forks=0, instructions=0, terms=0, obligations=0, by_constant=0, by_term_identity=0, by_polynomial_theory=0, by_interval_analysis=0, by_smt=0, path_queries=0, path_queries_unsat=0, smt_queries=0, smt_unsat=0, smt_sat=0, smt_unknown=0, smt_cached=0, smt_time_s=0.0, poly_time_s=0.0)
    functions = set(); entries_ev = []; violations = []; covers = {}; wit_n = 0; wit_ok = 0; mism = []; wfail = []; samples = []; unrepro = []; vac = []
    for (src, w, en, opts, nat, fn, fut) in jobs:
        r, err = fut.result()
        if r is None:
            incon["%s: %s" % (en, err)] = 1; vac.append(en)
            if verbose: print("ENGINE-FAILED", en, err)
            continue
        for k in tot: tot[k] += r.get(k, 0)
        for k, v in r["inconclusive"].items(): incon["%s: %s" % (en, k)] = v
        for k, v in r["covers"].items(): covers[k] = covers.get(k, 0) + v
        for f in r["functions"]:
            f = re.sub(r"<.*", "", f)
            if re.match(r"(smart_dnn::|Shape::|RandomEngine::|Logger)", f): functions.add(f)
        entries_ev.append({k: r[k] for k in ("entry", "theory", "paths", "paths_with_obligations", "aborted", "forks", "obligations", "by_smt", "by_polynomial_theory", "smt_queries", "smt_unsat", "smt_time_s", "wall_s")})
        if verbose: print("  %-40s paths %d (%d) obl %d smt %d/%.1fs viol %d incon %s wall %.1fs" % (en, r["paths"], r["paths_with_obligations"], r["obligations"], r["smt_queries"], r["smt_time_s"], len(r["violations"]), r["inconclusive"], r["wall_s"]))
        if r["paths_with_obligations"] == 0 and not r["violations"]: vac.append(en)
        theory = "fp" if en[1] == "f" else "real"
        okn, msgn = fn.result()
        if not okn:
            print("BUILD-FAILED native", os.path.basename(src)); print(msgn[-1500:]); return 2
        # encoder validation: replay passing paths natively and compare what the harness observed
        for k, wt in enumerate(r["witnesses"]):
            of = os.path.join(w, "obs_%s_%d" % (en, k)); rc, out = run_native(nat, en, theory, wt["model"], w, "%s_w%d" % (en, k), obs=of)
            wit_n += 1; good = rc == 0; why = out[-300:]
            if good:
                got = [float(x) for x in open(of).read().split()] if os.path.exists(of) else []
                exp = [float(x) for x in wt["obs"]]
                if len(got) != len(exp): good = False; why = "observation count %d vs %d" % (len(got), len(exp))
                else:
                    for a, b in zip(got, exp):
                        same = (a == b) or (a != a and b != b) or abs(a - b) <= (2e-3 if theory == "real" else 1e-12) * (1 + abs(a) + abs(b))
                        if not same: good = False; why = "observed %r, predicted %r" % (a, b); break
            if good:
                wit_ok += 1
                if len(samples) < 6: samples.append({"entry": en, "inputs": wt["model"][:24], "observed": wt["obs"][:12]})
            else: mism.append("%s witness %d: rc %d %s" % (en, k, rc, why.strip()[-200:])); wfail.append((en, wt["model"], rc, out))
        for v in r["violations"]: violations.append((src, w, en, theory, nat, v))
    # replay counterexamples
    confirmed = []; seen = set()
    for (src, w, en, theory, nat, v) in violations:
        key = (en, v["kind"], v["msg"], v["loc"])
        if key in seen: continue
        done = False
        for i, mdl in enumerate(v["models"]):
            for fill in FILLS:
                rc, out = run_native(nat, en, theory, mdl, w, "%s_v%d" % (en, i), fill)
                if rc in (0, 2, 9, 124): 
                    if rc == 9 or rc == 2: break
                    continue
                confirmed.append((src, en, theory, v, mdl, fill, rc, out)); seen.add(key); done = True; break
            if done: break
        if not done and v["kind"] == "assert":   # the solver refuted it, its model was too fine to replay: another path of the entry that fails the same way natively stands in
            for (wen, mdl, rc, out) in wfail:
                if wen == en and rc == 7 and ("REPLAY-VIOLATION " + v["msg"]) in out: confirmed.append((src, en, theory, v, mdl, FILLS[0], rc, out)); seen.add(key); done = True; break
        if not done: unrepro.append((key, v))
    unrepro = [(k, v) for k, v in unrepro if k not in seen]
    for k, v in unrepro: incon["%s: counterexample did not reproduce natively (%s: %s at %s)" % (k[0], k[1], k[2], k[3])] = 1
    known = [f for f in known_findings() if f.get("property") == prop and f.get("status") == "known"]
    rdir = os.path.join(VERIF, "replays", prop); shutil.rmtree(rdir, ignore_errors=True)
    newv = []; kf = set()
    for c in confirmed:
        v = c[3]; hit = None
        for f in known:
            if f["entry"] == c[1] and f["kind"] == v["kind"] and re.search(f["match"], v["msg"] + " @ " + v["loc"]): hit = f
        if hit: kf.add(json.dumps(hit)); continue
        newv.append(c)
    for h in sorted(kf): print("KNOWN-FINDING: property=%s %s" % (prop, json.loads(h)["what"]))
    shown = 0
    for (src, en, theory, v, mdl, fill, rc, out) in newv:
        d = os.path.join(rdir, "%s_%d" % (en, shown)); os.makedirs(d)
        open(os.path.join(d, "model.txt"), "w").write("\n".join(mdl) + "\n")
        open(os.path.join(d, "report.txt"), "w").write("%s: %s\nat %s\nnative exit code %d\n\n%s\n" % (v["kind"], v["msg"], v["loc"], rc, out[-4000:]))
        rs = os.path.join(d, "replay.sh")
        open(rs, "w").write("#!/bin/sh\n# rebuilds the harness natively against the repository and runs it on the counterexample\nexec python3 %s/replay.py %s %s %s %d\n" % (VERIF, os.path.basename(src), en, os.path.join(d, "model.txt"), fill)); os.chmod(rs, 0o755)
        if shown < 8:
            print("VIOLATION property=%s replay=%s" % (prop, rs)); print("  %s: %s at %s (entry %s)" % (v["kind"], v["msg"], v["loc"], en))
            last = [l for l in out.splitlines() if "REPLAY-VIOLATION" in l or "ERROR" in l or "runtime error" in l or "Assertion" in l or "WARNING: Thread" in l][:2]
            for l in last: print("    " + l[:300])
        shown += 1
    for (src, en, diag) in illformed:   # an operation the public headers declare cannot be instantiated
        d = os.path.join(rdir, "%s_build" % en); os.makedirs(d, exist_ok=True)
        open(os.path.join(d, "report.txt"), "w").write(diag + "\n")
        rs = os.path.join(d, "replay.sh")
        open(rs, "w").write("#!/bin/sh\n# compiles the harness against the repository: the operation it uses does not compile\nexec python3 %s/replay.py %s %s --build\n" % (VERIF, os.path.basename(src), en)); os.chmod(rs, 0o755)
        if shown < 8: print("VIOLATION property=%s replay=%s" % (prop, rs)); print("  a declared operation does not compile when used: %s (entry %s)" % (diag[:300], en))
        shown += 1
    for m_ in mism: incon["witness mismatch: " + m_] = 1
    for en in vac: incon["%s: no obligation reached" % en] = 1
    for k, n in list(incon.items())[:40]: print("INCONCLUSIVE %s x%d" % (k[:300], n))
    cov = dict(states=tot["paths"], transitions=tot["instructions"], traces_validated_against_impl=wit_ok, samples=samples or ["none"], symbolic_paths_with_obligations=tot["paths_with_obligations"], forks=tot["forks"],
        obligations_discharged={"total": tot["obligations"], "by_constant_folding": tot["by_constant"], "by_term_identity": tot["by_term_identity"], "by_polynomial_theory_solver": tot["by_polynomial_theory"], "by_interval_analysis": tot["by_interval_analysis"], "by_smt": tot["by_smt"], "path_conjunctions_sent_to_smt": tot["path_queries"], "path_conjunctions_unsat": tot["path_queries_unsat"]},
        solver={"queries": tot["smt_queries"], "unsat": tot["smt_unsat"], "sat": tot["smt_sat"], "unknown": tot["smt_unknown"], "cache_hits": tot["smt_cached"], "time_s": round(tot["smt_time_s"], 2), "polynomial_time_s": round(tot["poly_time_s"], 2), "solvers": "z3 5.3.2 (z3-new) incremental, cvc5 1.1.2 as portfolio; engine/poly.cpp for rational identities"},
        functions_encoded=sorted(functions), bounds=metas["bounds"], outside_the_claim=metas["outside"], entries=entries_ev, covers=covers, inconclusive=incon, witnesses_replayed=wit_n, counterexamples_confirmed=len(confirmed), counterexamples_not_reproduced=len(unrepro))
    ev = dict(property=prop, tier=tier, seed=seed, level="model_checking", coverage=cov, assumptions=metas["assume"], wall_s=round(time.time() - t0, 2), violations=len(newv) + len(illformed))
    if not only:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True); tmp = os.path.join(VERIF, "evidence", prop + ".json.tmp")
        json.dump(ev, open(tmp, "w"), indent=1); os.replace(tmp, tmp[:-4])
    print("%s %s: %d entries, %d paths, %d obligations (%d by SMT, %d by polynomial theory), %d solver queries %.1fs, %d/%d witnesses replayed, %d violations, %d inconclusive, %.1fs" % (prop, tier, len(jobs), tot["paths"], tot["obligations"], tot["by_smt"], tot["by_polynomial_theory"], tot["smt_queries"], tot["smt_time_s"], wit_ok, wit_n, len(newv) + len(illformed), len(incon), time.time() - t0))
    if newv or illformed: return 1
    if len(vac) == len(jobs): return 2
    return 0
if __name__ == "__main__": main()
