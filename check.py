#!/usr/bin/env python3
"""Runs the check of one property: check.py C01 [--tier quick|thorough] [--replay FILE] [--cases N] [--repo DIR]

Builds the harness of the property against the current tree of /repo in three variants (assertions and sanitizers on; a
release build with NDEBUG; one that is guided by the coverage of the library), runs them, writes evidence/<id>.json and
prints the verdict. Exit code 0: the property held on everything that was explored; 1: it was violated (VIOLATION line);
2: the check could not be run.
"""
import json, os, re, shutil, subprocess, sys, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
VARIANTS = {
    # name: (compiler, flags)
    "debug": (["clang++", "-O0", "-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all",
               "-D_GLIBCXX_ASSERTIONS"]),
    "release": (["g++", "-O1", "-g0", "-DNDEBUG"]),
    # Coverage-guided: only the functions of Sharg (and those with its types) report what they execute.
    "guided": (["clang++", "-O1", "-g0", "-D_GLIBCXX_ASSERTIONS", "-DPBT_GUIDED",
                "-fsanitize-coverage=trace-pc-guard,trace-cmp",
                "-fsanitize-coverage-allowlist=" + os.path.join(VERIF, "lib", "instrument.txt")]),
}
LIBS = ["-pthread", "-lutil"]


def arg(name, default=None):
    if name in sys.argv:
        return sys.argv[sys.argv.index(name) + 1]
    return default


def known_findings(prop):
    """id -> text of the findings that are listed for this property."""
    found = {}
    path = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"finding: property=(\S+) id=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                found[m.group(2)] = m.group(3)
    return found


def main():
    prop = sys.argv[1]
    tier = arg("--tier", os.environ.get("VERIF_TIER", "quick"))
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = os.environ.get("VERIF_SEED", "1")
    try:
        seed = str(int(seed))
    except ValueError:
        seed = str(sum(ord(c) * 31 ** i for i, c in enumerate(seed)) % (1 << 31))
    repo = arg("--repo", "/repo")
    started = time.time()
    build = os.path.join(VERIF, "build", prop)
    replays = os.path.join(VERIF, "replays")
    os.makedirs(build, exist_ok=True)
    os.makedirs(replays, exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    source = os.path.join(VERIF, "harness", prop + ".cpp")
    env = dict(os.environ)
    env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=1:handle_abort=0"
    env["UBSAN_OPTIONS"] = "print_stacktrace=1"
    env["LC_ALL"] = "C"

    replay = arg("--replay")
    wanted = list(VARIANTS)
    if replay:
        m = re.search(r"^variant (\w+)", open(replay).read(), re.M)
        wanted = [m.group(1)] if m else wanted

    results = {}

    def work(variant):
        binary = os.path.join(build, variant)
        cmd = VARIANTS[variant] + ["-std=c++20", "-w", "-I" + os.path.join(repo, "include"),
                                   "-I" + os.path.join(VERIF, "lib"), source, "-o", binary] + LIBS
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        if r.returncode != 0:
            results[variant] = {"error": "build failed:\n" + r.stdout[:4000]}
            return
        out = os.path.join(build, variant + ".json")
        if os.path.exists(out):
            os.unlink(out)
        run = [binary, "--tier", tier, "--seed", seed, "--replay-dir", replays, "--out", out,
               "--workers", "2" if variant == "guided" else "4", "--max-s", "150" if tier == "quick" else "2400"]
        if replay:
            run = [binary, "--replay", os.path.abspath(replay)]
        if arg("--cases"):
            run += ["--cases", arg("--cases")]
        t = time.time()
        r = subprocess.run(run, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", env=env,
                           cwd=build)
        results[variant] = {"rc": r.returncode, "out": r.stdout, "report": out, "wall": time.time() - t}
        if os.path.exists(binary) and not os.environ.get("VERIF_KEEP"):
            os.unlink(binary)

    threads = [threading.Thread(target=work, args=(v,)) for v in wanted]
    for t in threads:
        t.start()
    for t in threads:
        t.join()

    if replay:
        for v in wanted:
            print(results[v].get("error") or results[v]["out"])
        return 1 if any("REPRODUCED" in results[v].get("out", "").splitlines() for v in wanted) else 0

    listed = known_findings(prop)
    violations, known, errors = [], {}, []
    for v in wanted:
        r = results.get(v, {"error": "no result"})
        if "error" in r:
            errors.append((v, r["error"]))
            continue
        lines = r["out"].splitlines()
        for line in lines:
            if line.startswith("KNOWN "):
                kid, _, msg = line[6:].partition("\t")
                if kid in listed:
                    known[kid] = msg
                else:
                    path = os.path.join(replays, "%s-%s-unlisted-%s.replay" % (prop, v, kid))
                    open(path, "w").write("property %s\nvariant %s\nseed %s\nmessage %s\n" % (prop, v, seed, msg))
                    violations.append((v, path, msg))
        failed = [l for l in lines if l.startswith("FAILED ")]
        if failed:
            path = failed[0][7:]
            if not os.path.isabs(path):
                path = os.path.join(build, path)
            violations.append((v, path, "\n".join(lines[lines.index(failed[0]) + 1:])))
        elif r["rc"] != 0:
            errors.append((v, "the harness ended with %s\n%s" % (r["rc"], r["out"][-3000:])))

    # Evidence
    reports, hashes = [], set()
    for v in wanted:
        rep = results.get(v, {}).get("report")
        if rep and os.path.exists(rep):
            reports.append(json.load(open(rep)))
            if os.path.exists(rep + ".hashes"):
                hashes.update(l.strip() for l in open(rep + ".hashes"))
                os.unlink(rep + ".hashes")
    labels, samples = {}, []
    for r in reports:
        for k, n in r["labels"].items():
            labels[k] = labels.get(k, 0) + n
    for r in reports:
        samples += r["samples"][:4]
    if reports:
        evidence = {
            "property": prop, "tier": tier, "seed": int(seed), "level": "exploration",
            "coverage": {
                "evaluations": sum(r["evaluations"] for r in reports),
                "distinct_nontrivial": len(hashes),
                "rule": reports[0]["rule"],
                "samples": samples,
                "labels": labels,
                "variants": {r["variant"]: {k: r[k] for k in ("planned", "evaluations", "discarded", "directed",
                                                              "distinct_nontrivial", "unreproducible",
                                                              "unreproducible_note", "corpus", "features")} for r in reports},
                "known_findings_seen": sorted(known),
            },
            "assumptions": ["g++ 13 and clang 18 with libstdc++ on x86_64 Linux; the C locale",
                            "std::exit and system() are replaced by recorders in the harness; no command is executed"],
            "wall_s": round(time.time() - started, 2),
            "violations": len(violations),
        }
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
            json.dump(evidence, f, indent=1)

    for kid, msg in sorted(known.items()):
        print("KNOWN-FINDING: property=%s %s: %s" % (prop, kid, msg))
    if violations:
        for v, path, msg in violations:
            print("[%s] %s" % (v, msg[:6000]))
            print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if errors:
        for v, e in errors:
            print("ERROR [%s] %s" % (v, e))
        return 2
    for r in reports:
        print("%s %s: %d cases (%d distinct non-trivial, %d discarded, %d not reproducible), no violation"
              % (prop, r["variant"], r["evaluations"], r["distinct_nontrivial"], r["discarded"], r["unreproducible"]))
    print("%s held on everything explored (%.1f s)" % (prop, time.time() - started))
    return 0


if __name__ == "__main__":
    sys.exit(main())
