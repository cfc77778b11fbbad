#!/usr/bin/env python3
"""check.py ID [quick|thorough]   decide one property
check.py --replay FILE            run a recorded counterexample natively
check.py --build                  build everything

Exit 0: the property held on everything explored.  Exit 1: a VIOLATION line was
printed.  Exit 2: no verdict (build failure, unsupported construct, limit)."""
import glob, hashlib, json, os, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from props import PROPS

TARGET = os.path.join(HERE, "target")
ENV = dict(os.environ, CARGO_NET_OFFLINE="true", RUSTUP_TOOLCHAIN="stable")
for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET", "CARGO_ENCODED_RUSTFLAGS"):
    ENV.pop(k, None)


class NoVerdict(Exception):
    pass


def sh(cmd, cwd, env=ENV, timeout=600):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    if p.returncode != 0:
        raise NoVerdict("build failed: %s\n%s" % (" ".join(cmd), p.stdout.decode(errors="replace")[-3000:]))


def feats(variant):
    return ["--features", "alloc"] if variant == "alloc" else []


def build_engine():
    d = os.path.join(TARGET, "engine")
    sh(["cargo", "build", "--release", "--offline", "--target-dir", d], os.path.join(HERE, "engine"))
    return os.path.join(d, "release", "sxe")


def build_ir(variant):
    d = os.path.join(TARGET, "ir-" + variant)
    for f in glob.glob(os.path.join(d, "release", "deps", "harness-*.ll")):
        os.remove(f)
    # cargo does not notice a removed .ll file; touch nothing, force by fingerprint removal
    for f in glob.glob(os.path.join(d, "release", ".fingerprint", "harness-*", "*")):
        os.remove(f)
    sh(["cargo", "rustc", "--offline", "--release", "--lib", "--crate-type", "staticlib", "--target-dir", d]
       + feats(variant) + ["--", "--emit=llvm-ir", "-C", "no-vectorize-loops", "-C", "no-vectorize-slp"],
       os.path.join(HERE, "harness"))
    l = glob.glob(os.path.join(d, "release", "deps", "harness-*.ll"))
    if len(l) != 1:
        raise NoVerdict("no IR produced: %r" % l)
    return l[0]


def build_replay(variant, profile):
    d = os.path.join(TARGET, "replay-" + variant)
    sh(["cargo", "build", "--offline", "--target-dir", d] + (["--release"] if profile == "release" else [])
       + feats(variant), os.path.join(HERE, "replay"))
    return os.path.join(d, "release" if profile == "release" else "debug", "replay")


def run_line(binary, line, timeout=20):
    try:
        p = subprocess.run([binary], input=(line + "\n").encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           timeout=timeout)
    except subprocess.TimeoutExpired:
        return "timeout after %d s" % timeout
    out = p.stdout.decode(errors="replace").strip()
    if p.returncode != 0 or not out:
        return "process died: status %d %s" % (p.returncode, p.stderr.decode(errors="replace")[-300:])
    st, _, fails = out.split("|", 2)
    return "".join(c if c.isprintable() else "\\x%02x" % ord(c) for c in fails)


def sanitized(variant, line):
    """Memory errors that a plain run does not show: AddressSanitizer, then Miri."""
    d = os.path.join(TARGET, "asan-" + variant)
    env = dict(ENV, RUSTUP_TOOLCHAIN="nightly", RUSTFLAGS="-Zsanitizer=address")
    try:
        sh(["cargo", "build", "--offline", "--target", "x86_64-unknown-linux-gnu", "--target-dir", d] + feats(variant),
           os.path.join(HERE, "replay"), env)
        r = run_line(os.path.join(d, "x86_64-unknown-linux-gnu", "debug", "replay"), line, 60)
        if r:
            return "AddressSanitizer: " + r
    except Exception as e:  # noqa: the sanitizer is only a second opinion
        print("note: sanitizer build unavailable: %s" % str(e)[:200], file=sys.stderr)
    try:
        env = dict(ENV, RUSTUP_TOOLCHAIN="nightly", MIRIFLAGS="-Zmiri-disable-isolation")
        p = subprocess.run(["cargo", "miri", "run", "--offline", "-q", "--target-dir", os.path.join(TARGET, "miri-" + variant)]
                           + feats(variant), cwd=os.path.join(HERE, "replay"), env=env, input=(line + "\n").encode(),
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=300)
        if p.returncode != 0 and b"Undefined Behavior" in p.stderr:
            t = p.stderr.decode(errors="replace")
            i = t.find("Undefined Behavior")
            return "Miri: " + t[i:i + 300].split("\n")[0]
    except Exception as e:
        print("note: Miri unavailable: %s" % str(e)[:200], file=sys.stderr)
    return ""


def case(entry, tier, v):
    return "%s|%d|%s|%s" % (entry, tier, ",".join(map(str, v["jobs"])), ",".join("%d=%d" % (a, b) for a, b in v["vars"]))


def engine(binary, ir, entry, tier, seed, opts):
    cmd = [binary, "--ir", ir, "--entry", entry, "--tier", str(tier), "--seed", str(seed),
           "--threads", str(os.cpu_count() or 8), "--seconds", str(opts.get("seconds", 600 if tier == 0 else 3000)),
           "--samples", str(opts.get("samples", 3))]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=ENV)
    try:
        return json.loads(p.stdout.decode())
    except ValueError:
        raise NoVerdict("engine: %s" % p.stderr.decode(errors="replace")[-2000:])


def known(pid):
    """Findings recorded and not repaired: lines 'known: property=ID entry=E jobs=.. <text>'."""
    r = []
    try:
        for l in open(os.path.join(HERE, "known-findings.txt")):
            w = l.split()
            if l.startswith("known:") and "property=" + pid in w:
                r.append((dict(x.split("=", 1) for x in w[1:] if "=" in x), l.strip()))
    except FileNotFoundError:
        pass
    return r


def main():
    if sys.argv[1] == "--replay":
        c = json.load(open(sys.argv[2]))
        for prof in ("dev", "release"):
            print(prof, run_line(build_replay(c["variant"], prof), c["case"]) or "no failure")
        return 0
    if sys.argv[1] == "--build":
        build_engine()
        for v in ("alloc", "noalloc"):
            build_ir(v)
            for p in ("dev", "release"):
                build_replay(v, p)
        return 0
    pid = sys.argv[1]
    tier_name = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    tier = 1 if tier_name == "thorough" else 0
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    spec = PROPS[pid]
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    evf = os.path.join(HERE, "evidence", pid + ".json")
    if os.path.exists(evf):
        os.remove(evf)
    variants = []
    for v, _e, _o in spec["runs"]:
        if v not in variants:
            variants.append(v)
    with ThreadPoolExecutor(8) as ex:
        fe = ex.submit(build_engine)
        fi = {v: ex.submit(build_ir, v) for v in variants}
        fr = {(v, p): ex.submit(build_replay, v, p) for v in variants for p in ("dev",)}
        eng = fe.result()
        ir = {v: f.result() for v, f in fi.items()}
        rep = {k: f.result() for k, f in fr.items()}
    for v in variants:
        rep[(v, "release")] = build_replay(v, "release")
    errors, viols, runs, samples_out = [], [], [], []
    agg = {k: 0 for k in ("leaves", "steps", "merges", "splits", "obligations", "trivial", "proved", "queries",
                          "coverage_queries", "jobs", "dropped", "panics_expected")}
    solver_s = 0.0
    funcs, validated, mism = set(), 0, 0
    for v, entry, opts in spec["runs"]:
        if opts.get("thorough_only") and tier == 0:
            continue
        if viols and time.time() - t0 > 240 and not known(pid):
            break  # a counterexample is in hand; the rest would only delay the report
        r = engine(eng, ir[v], entry, tier, seed, opts)
        for k in agg:
            agg[k] += r[k]
        solver_s += r["solver_s"]
        funcs.update(r["functions"])
        errors += ["%s/%s: %s" % (v, entry, e) for e in r["errors"]]
        for x in opts.get("reach", [1]):
            if not r["reach"].get(str(x)) and not r["violations"] and not r["errors"]:
                errors.append("%s/%s: witness %s was never reached" % (v, entry, x))
        if not r["violations"] and not r["errors"] and r["proved"] + r["trivial"] != r["obligations"]:
            errors.append("%s/%s: obligations left open" % (v, entry))
        for x in r["violations"]:
            x["variant"], x["entry"] = v, entry
            viols.append(x)
        # the translation against the real code: sampled paths, run natively
        smp = r["samples"]
        if smp and not r["violations"]:
            inp = "\n".join(case(entry, tier, s) for s in smp) + "\n"
            for prof in ("dev", "release"):
                p = subprocess.run([rep[(v, prof)]], input=inp.encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE)
                lines = p.stdout.decode(errors="replace").split("\n")
                for s, l in zip(smp, lines + [""] * len(smp)):
                    f = l.split("|", 2)
                    want = "panicked" if s["panicked"] else "returned"
                    if len(f) == 3 and f[0] == want and f[1] == s["out"] and not f[2]:
                        validated += 1
                    else:
                        mism += 1
                        if mism <= 5:
                            errors.append("native run disagrees (%s): %s expected %s %s got %s"
                                          % (prof, case(entry, tier, s), want, s["out"], l))
            for s in smp[:2]:
                samples_out.append({"entry": entry, "build": v, "case": case(entry, tier, s), "output_hex": s["out"]})
        runs.append({"entry": entry, "build": v, "what": opts.get("what", ""), "jobs": r["jobs"], "paths": r["leaves"],
                     "merges": r["merges"], "obligations": r["obligations"], "trivial": r["trivial"],
                     "proved_by_solver": r["proved"], "queries": r["queries"], "solver_s": r["solver_s"],
                     "instructions": r["steps"], "max_symbolic_variables": r["max_vars"],
                     "max_simultaneous_states": r["max_frontier"], "wall_s": r["wall_s"], "reach": r["reach"]})
    # replay counterexamples
    confirmed = []
    kn = known(pid)
    kn_hit = set()
    seen = set()
    for x in viols[:12]:
        line = case(x["entry"], tier, x)
        key = (x["entry"], x["kind"], x["id"], tuple(x["jobs"]))
        if key in seen:
            continue
        seen.add(key)
        why = ""
        for prof in ("dev", "release"):
            why = run_line(rep[(x["variant"], prof)], line)
            if why:
                why = "%s profile: %s" % (prof, why)
                break
        if not why and x["kind"] in ("memory", "ub"):
            why = sanitized(x["variant"], line)
        if not why:
            errors.append("counterexample does not reproduce: %s (%s %s)" % (line, x["kind"], x["text"]))
            continue
        k = [t for m, t in kn if m.get("entry") == x["entry"] and m.get("jobs", ",".join(map(str, x["jobs"]))) == ",".join(map(str, x["jobs"]))
             and m.get("id", str(x["id"])) == str(x["id"])]
        if k:
            kn_hit.add(k[0])
            continue
        path = os.path.join(HERE, "evidence", "replay-%s-%d.json" % (pid, len(confirmed)))
        json.dump({"property": pid, "variant": x["variant"], "case": line, "kind": x["kind"], "text": x["text"],
                   "observed": why, "how": "check.py --replay " + path}, open(path, "w"), indent=1)
        confirmed.append((path, x, why))
        if len(confirmed) >= 3:
            break
    ours = sorted(f for f in funcs if "nominals" in f)
    ev = {
        "property": pid, "tier": tier_name if tier_name in ("quick", "thorough") else "quick", "seed": seed,
        "level": "model_checking", "wall_s": round(time.time() - t0, 2), "violations": len(confirmed),
        "coverage": {
            "states": agg["leaves"] + agg["dropped"], "transitions": agg["steps"], "traces_validated_against_impl": validated,
            "samples": samples_out[:8] or [{"note": "no sample: " + "; ".join(errors)[:200]}],
            "symbolic_paths": agg["leaves"], "paths_outside_bounds": agg["dropped"], "merges": agg["merges"],
            "splits": agg["splits"], "jobs": agg["jobs"], "obligations": agg["obligations"],
            "obligations_constant": agg["trivial"], "discharged_by_solver": agg["proved"],
            "solver_queries": agg["queries"], "coverage_queries": agg["coverage_queries"], "solver_s": round(solver_s, 3),
            "expected_panics": agg["panics_expected"], "functions_encoded": len(funcs), "crate_functions": ours,
            "bounds": spec["bounds"][tier], "runs": runs, "errors": errors,
        },
        "assumptions": spec.get("assumptions", []) + [
            "the executor's model of LLVM IR and of the allocator interface (sampled paths are re-run natively)",
            "x86-64, 64-bit usize; IR as emitted by the installed stable rustc with overflow and debug checks on",
        ],
    }
    json.dump(ev, open(evf, "w"), indent=1)
    for t in sorted(kn_hit):
        print("KNOWN-FINDING: property=%s %s" % (pid, t))
    for e in errors:
        print("ERROR %s" % e)
    print("%s %s: paths=%d obligations=%d (constant %d, solver %d) queries=%d solver=%.1fs native-validated=%d wall=%.1fs"
          % (pid, tier_name, agg["leaves"], agg["obligations"], agg["trivial"], agg["proved"], agg["queries"], solver_s,
             validated, time.time() - t0))
    if confirmed:
        for path, x, why in confirmed:
            print("%s %s: %s" % (x["kind"], x["text"], why))
            print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    return 2 if errors else 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except NoVerdict as e:
        print("ERROR", e)
        sys.exit(2)
