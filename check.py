#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] : rebuild the IR of /repo's current tree, run the symbolic
executor on the property's entries, replay candidates on the real code, write evidence."""
import sys, os, subprocess, json, re, time, glob, shutil, hashlib

V = os.path.dirname(os.path.abspath(__file__))
B = os.path.join(V, ".build")
REPO = "/repo"
TC = "stable-x86_64-unknown-linux-gnu"


ASSUMPTIONS = [
    "rustc/LLVM: the compiled IR (optimised O2 after LTO, panic=abort, overflow checks on) represents the source",
    "libm functions (exp, ln, log2, pow) are abstracted by facts that hold of the platform libm (monotone, special values, exact point values); candidates are replayed on the real code",
    "HashMap hashing is replaced by a constant (iteration order of hash maps is that of equal hashes)",
    "the solver (Z3) answers correctly",
]


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def die(msg, code=2):
    print(msg)
    sys.exit(code)


def rust_env():
    e = dict(os.environ)
    e.update(RUSTUP_TOOLCHAIN=TC, CARGO_NET_OFFLINE="true")
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_RUSTFLAGS", "RUSTC_WRAPPER"):
        e.pop(k, None)
    return e


def build_engine():
    e = rust_env()
    e["CARGO_TARGET_DIR"] = os.path.join(B, "engine")
    r = sh(["cargo", "build", "--release", "--offline"], cwd=os.path.join(V, "engine"), env=e)
    if r.returncode:
        die("engine build failed\n" + r.stdout[-4000:])
    return os.path.join(B, "engine", "release", "symex")


def build_ir(prop, work):
    """compile harness+/repo to one optimised LLVM module; returns (ll, native binary)"""
    e = rust_env()
    tgt = os.path.join(B, "target")
    e["CARGO_TARGET_DIR"] = tgt
    e["RUSTFLAGS"] = "-C save-temps -C opt-level=0"
    # never trust timestamps for the code under test
    rel = os.path.join(tgt, "release")
    for p in glob.glob(rel + "/.fingerprint/llm-samplers-*") + glob.glob(rel + "/.fingerprint/harness-*"):
        shutil.rmtree(p, ignore_errors=True)
    for p in glob.glob(rel + "/deps/harness-*") + glob.glob(rel + "/deps/*llm_samplers-*"):
        os.remove(p)
    r = sh(["cargo", "build", "--release", "--offline", "--features", prop.lower()], cwd=os.path.join(V, "harness"), env=e)
    if r.returncode:
        die("harness does not build against /repo\n" + r.stdout[-6000:])
    bcs = glob.glob(rel + "/deps/harness-*.lto.input.bc")
    if len(bcs) != 1:
        die("expected one LTO module, found %r" % bcs)
    bc = os.path.join(work, "in.bc")
    shutil.move(bcs[0], bc)
    native = os.path.join(work, "native")
    shutil.copy(os.path.join(rel, "harness"), native)
    for p in glob.glob(rel + "/deps/harness-*"):
        os.remove(p)
    entries = sh([native]).stdout.split()
    bind = os.path.expanduser("~/.rustup/toolchains/%s/lib/rustlib/x86_64-unknown-linux-gnu/bin" % TC)
    nm = subprocess.run([bind + "/llvm-nm", "--defined-only", "--format=just-symbols", bc], stdout=subprocess.PIPE, text=True).stdout.split()
    first = re.compile(r"C(?:s[0-9a-zA-Z]*_)?(\d+)([a-z_][a-z0-9_]*)")
    csv = []
    for s in nm:
        if not s.startswith("_R"):
            continue
        m = first.search(s)
        own = bool(m) and m.group(2).startswith("llm_samplers") and not s.startswith("_RNC")
        if own or "8hash_one" in s:
            csv.append(s + ",noinline")
    open(os.path.join(work, "ni.csv"), "w").write("\n".join(csv) + "\n")
    s1 = os.path.join(work, "s.bc")
    s2 = os.path.join(work, "o.bc")
    ll = os.path.join(work, "o.ll")
    q = dict(stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    api = ",".join(entries)
    ok = subprocess.run([bind + "/opt", "-strip-debug", bc, "-o", s1], **q).returncode == 0
    ok = ok and subprocess.run([bind + "/opt", "-passes=forceattrs,strip-dead-prototypes,internalize,globaldce,default<O2>", "-forceattrs-csv-path=" + os.path.join(work, "ni.csv"),
                    "-vectorize-loops=false", "-vectorize-slp=false", "-internalize-public-api-list=" + api, s1, "-o", s2], **q).returncode == 0
    ok = ok and subprocess.run([bind + "/llvm-dis", s2, "-o", ll], **q).returncode == 0
    if not ok:
        die("IR pipeline failed")
    return ll, native, entries


def known_findings(prop):
    out = []
    p = os.path.join(V, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) assertion=(\S+) (.*)", l)
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3).strip()))
    return out


def main():
    a = sys.argv[1:]
    prop = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    only = a[a.index("--only") + 1].split(",") if "--only" in a else None
    extra = a[a.index("--") + 1:] if "--" in a else []
    conf = json.load(open(os.path.join(V, "props.json")))[prop]
    os.makedirs(B, exist_ok=True)
    t0 = time.time()
    work = os.path.join(B, "work-%s-%d" % (prop, os.getpid()))
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    try:
        code = run(prop, tier, only, extra, conf, work, t0)
    finally:
        if "--keep" not in a:
            shutil.rmtree(work, ignore_errors=True)
    sys.exit(code)


def run(prop, tier, only, extra, conf, work, t0):
    eng = build_engine()
    ll, native, entries = build_ir(prop, work)
    build_s = time.time() - t0
    sel = [e for e in entries if e.startswith("q_") or (tier == "thorough" and e.startswith("t_"))]
    if tier == "thorough":
        # entries named t_X replace nothing: they extend the quick set
        pass
    if only:
        sel = [e for e in entries if e in only]
    c = dict(conf.get("opts", {}))
    c.update(conf.get(tier, {}))
    budget = c.get("budget", 120 if tier == "quick" else 700)
    jf = os.path.join(work, "out.json")
    replay_dir = os.path.join(V, ".build", "replay")
    cmd = [eng, "run", "--ll", ll, "--entry", ",".join(sel), "--native", native, "--scratch", work, "--replay-dir", replay_dir, "--prop", prop,
           "--json", jf, "--budget", str(budget), "--timeout-ms", str(c.get("timeout_ms", 10000)), "--samples", str(c.get("samples", 6)), "--conc", str(c.get("conc", 64))]
    if "entry_budget" in c:
        cmd += ["--entry-budget", str(c["entry_budget"])]
    kf = known_findings(prop)
    for k, _ in kf:
        cmd += ["--known", k]
    cmd += extra
    r = subprocess.run(cmd)
    if r.returncode not in (0, 1, 4) or not os.path.exists(jf):
        die("engine failed with exit code %d" % r.returncode)
    j = json.load(open(jf))
    missing = sorted(set(j["require"]) - set(j["reach"]))
    code = 0
    viol = j["violations"]
    keep = os.path.join(V, ".build", "replay")
    if viol:
        code = 1
        nb = os.path.join(keep, prop + "-native")
        shutil.copy(native, nb)
        for v in viol:
            print("violated: %s in %s: %s" % (v["assertion"], v["entry"], v["native"].strip()[:300]))
            print("replay with: %s %s %s" % (nb, v["entry"], v["replay"]))
        print("VIOLATION property=%s replay=%s" % (prop, viol[0]["replay"]))
    for k, text in kf:
        if k in j["known"]:
            print("KNOWN-FINDING: property=%s %s" % (prop, text))
    if not viol and not only:
        if missing:
            print("INCONCLUSIVE property=%s: paths required by the harness were not reached: %s" % (prop, ", ".join(missing)))
        for k, n in j["inconclusive"].items():
            print("INCOMPLETE property=%s: %s (x%d)" % (prop, k, n))
        if j["mismatches"]:
            print("INCONCLUSIVE property=%s: engine and native run disagree: %s" % (prop, j["mismatches"][0]))
        # a required path may be missing only when the exploration was cut short (reported as INCOMPLETE above)
        if (missing and not j["inconclusive"]) or j["mismatches"] or j["paths"] == 0:
            code = 2
    own = {k: n for k, n in j["functions"].items() if k.startswith("llm_samplers")}
    bounds = conf["bounds"] + ((" Thorough tier: " + conf["bounds_thorough"]) if tier == "thorough" and conf.get("bounds_thorough") else "")
    na = sum(v["structural"] + v["solver"] for v in j["asserts"].values())
    ns = sum(v["solver"] for v in j["asserts"].values())
    nq = j["queries"]["sat"] + j["queries"]["unsat"] + j["queries"]["unknown"]
    complete = not j["inconclusive"] and not viol and not missing
    wall = time.time() - t0
    tree = hashlib.sha256()
    for p in sorted(glob.glob(REPO + "/src/**/*.rs", recursive=True)):
        tree.update(open(p, "rb").read())
    ev = {
        "property": prop,
        "tier": tier,
        "seed": int(os.environ.get("VERIF_SEED", "1")),
        "level": "model_checking",
        "wall_s": round(wall, 2),
        "violations": len(viol),
        "assumptions": ASSUMPTIONS,
        "coverage": {
            "samples": j["samples"][:8] or ["no completed path was sampled"],
            "states": j["paths"],
            "transitions": j["decisions"],
            "explored": "every feasible path within the bounds" if complete else "part of the paths within the bounds (see inconclusive)",
            "traces_validated_against_impl": j["validated"],
            "evaluations": na,
            "assertions_decided_by_solver": ns,
            "assertions_decided_by_simplification_or_path_facts": na - ns,
            "solver_queries": nq,
            "queries": j["queries"],
            "solver_s": j["solver_s"],
            "max_query_s": j["max_query_s"],
        },
        "bounds": bounds,
        "outside": conf.get("outside", ""),
        "complete": complete,
        "inconclusive": j["inconclusive"],
        "required_paths_missing": missing,
        "reached": j["reach"],
        "assertions": j["asserts"],
        "entries": j["entries"],
        "functions_encoded": dict(sorted(own.items(), key=lambda x: -x[1])[:120]),
        "functions_encoded_total": len(j["functions"]),
        "instructions_executed_symbolically": j["instructions"],
        "pruned_paths": j["pruned"],
        "abstract_paths": j["abstract_paths"],
        "math_variables": j["math_vars"],
        "solver": j["solver"],
        "build_s": round(build_s, 2),
        "source_sha256": tree.hexdigest(),
        "violations_found": viol,
        "known_findings_seen": j["known"],
    }
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    s = json.dumps(ev, indent=1)
    if len(s) > 60000:
        ev["functions_encoded"] = dict(list(ev["functions_encoded"].items())[:40])
        s = json.dumps(ev, indent=1)
    if not only:
        open(os.path.join(V, "evidence", prop + ".json"), "w").write(s)
    print("%s %s: %s; %d paths, %d assertions (%d by solver), %d queries, solver %.1fs, build %.1fs, wall %.1fs" % (
        prop, tier, "violated" if viol else "held" if complete else "held on what was explored" if code == 0 else "no verdict", j["paths"], na, ns, nq, j["solver_s"], build_s, wall))
    return code


main()
