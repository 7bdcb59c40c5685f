#!/usr/bin/env python3
"""Runs one check: builds its harness from /repo's working tree in every
configuration, runs them, merges what they covered into evidence/<id>.json.

run.py ID [--tier quick|thorough] [--seed N] [--only PROPFN] [--config NAME]
run.py --replay FILE
"""
import argparse, fcntl, hashlib, json, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
HARNESS = os.path.join(HERE, "harness")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(HERE, "build"))
OUT = os.environ.get("VERIF_OUT", os.path.join(HERE, "out"))
EVIDENCE = os.environ.get("VERIF_EVIDENCE", os.path.join(HERE, "evidence"))

sys.path.insert(0, HERE)
from checks import CHECKS, CONFIGS  # noqa: E402


def flags(config):
    return [f.replace("@HERE@", HERE).replace("@REPO@", REPO) for f in CONFIGS[config]["flags"]]


def tree_hash(source, config):
    h = hashlib.sha256()
    files = sorted(os.path.join(REPO, f) for f in os.listdir(REPO) if f.endswith((".hh", ".h", ".hpp")))
    for d, _, names in sorted(os.walk(HARNESS)):
        files += sorted(os.path.join(d, n) for n in names if n.endswith((".hh", ".h")))
    files += [os.path.join(HARNESS, source), os.path.join(HERE, "checks.py")]
    for f in files:
        h.update(f.encode())
        with open(f, "rb") as fd:
            h.update(fd.read())
    h.update(repr(flags(config)).encode())
    return h.hexdigest()[:20]


def build(source, config):
    """returns (binary, error text)"""
    stem = os.path.splitext(source)[0]
    os.makedirs(BUILD, exist_ok=True)
    exe = os.path.join(BUILD, "%s.%s.%s" % (stem, config, tree_hash(source, config)))
    if os.path.exists(exe):
        return exe, None
    for old in os.listdir(BUILD):
        if old.startswith("%s.%s." % (stem, config)):
            try:
                os.unlink(os.path.join(BUILD, old))
            except OSError:
                pass
    tmp = "%s.tmp%d" % (exe, os.getpid())
    cmd = flags(config) + ["-I" + REPO, "-I" + HARNESS, "-o", tmp, os.path.join(HARNESS, source)] + CONFIGS[config].get("libs", [])
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        return None, " ".join(cmd) + "\n" + p.stdout[:1500]
    os.rename(tmp, exe)
    return exe, None


def tail(path, n=1500):
    try:
        with open(path, "rb") as f:
            f.seek(0, 2)
            size = f.tell()
            f.seek(max(0, size - n))
            return f.read().decode("utf-8", "replace")
    except OSError:
        return ""


def replay(path):
    meta = {}
    for line in open(path):
        k, _, v = line.partition(":")
        meta[k.strip()] = v.strip()
        if k == "choices":
            break
    check = CHECKS[meta["property"]]
    exe, err = build(check["source"], meta["config"])
    if err:
        print(err)
        return 2
    if meta["kind"] == "sequence":
        cmd = [exe, "--property", meta["property"], "--config", meta["config"], "--seed", meta["seed"], "--tier", meta["tier"],
               "--scale", meta["scale"], "--sequence", meta["sequence"]]
    else:
        cmd = [exe, "--property", meta["property"], "--config", meta["config"], "--replay", path]
    p = subprocess.run(cmd)
    if p.returncode == 1:
        print("VIOLATION property=%s replay=%s" % (meta["property"], path))
    return p.returncode


def known_findings(pid):
    path = os.path.join(HERE, "known_findings.txt")
    res = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            m = re.match(r"finding: property=(\S+) (.*)", line)
            if m and m.group(1) == pid:
                res.append(m.group(2))
    return res


def libfuzzer(pid, check, seed, seconds, runs):
    """coverage-guided campaign over the same property functions"""
    exe, err = build(check["source"], "fuzz")
    if err:
        return {"error": err}
    work = os.path.join(OUT, "fuzz-" + pid)
    shutil.rmtree(work, ignore_errors=True)
    jobs = []
    for w in range(8):
        corpus = os.path.join(work, "corpus%d" % w)
        os.makedirs(corpus)
        log = open(os.path.join(work, "log%d" % w), "w")
        jobs.append((w, subprocess.Popen(
            [exe, "-seed=%d" % ((seed * 8 + w) % 2**31 + 1), "-runs=%d" % runs, "-max_total_time=%d" % seconds,
             "-max_len=4096", "-len_control=20", "-timeout=120", "-rss_limit_mb=3500", "-print_final_stats=1",
             "-artifact_prefix=%s/crash%d-" % (work, w), corpus],
            stdout=log, stderr=subprocess.STDOUT)))
    res = {"executions": 0, "edges": 0, "artifacts": []}
    for w, p in jobs:
        p.wait()
        text = tail(os.path.join(work, "log%d" % w), 200000)
        m = re.findall(r"stat::number_of_executed_units:\s*(\d+)", text)
        if m:
            res["executions"] += int(m[-1])
        m = re.findall(r"cov: (\d+)", text)
        if m:
            res["edges"] = max(res["edges"], int(m[-1]))
        res["artifacts"] += [os.path.join(work, f) for f in sorted(os.listdir(work)) if f.startswith("crash%d-crash-" % w)]
    return res


def artifact_choices(path):
    data = open(path, "rb").read()
    choices, i = [], 1
    while i + 1 < len(data) and len(choices) < 4096:
        n = data[i] >> 4
        n = n - 8 if n > 8 else (n or 1)
        if n == 1:
            v = data[i + 1]
        else:
            v = sum(data[i + 1 + j] << (8 * j) for j in range(n) if i + 1 + j < len(data))
        choices.append(v)
        i += 1 + n
    return data[0] if data else 0, choices


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--only")
    ap.add_argument("--config")
    ap.add_argument("--replay")
    ap.add_argument("--build-only", action="store_true")
    ap.add_argument("--keep-going", action="store_true")
    a = ap.parse_args()
    if a.replay:
        return replay(os.path.abspath(a.replay))
    if a.build_only and not a.id:
        jobs = [(c["source"], cfg) for c in CHECKS.values() for cfg in c["configs"]]
        bad = 0
        with ThreadPoolExecutor(8) as ex:
            for (s, c), (exe, err) in zip(jobs, ex.map(lambda j: build(*j), jobs)):
                if err:
                    bad |= not CONFIGS[c].get("optional")
                    print("build failed:", s, c, err)
        return bad
    start = time.time()
    pid, check = a.id, CHECKS[a.id]
    tier = "thorough" if a.tier == "thorough" else "quick"
    configs = dict(check["configs"])
    if tier == "thorough":
        configs.update(check.get("thorough_configs", {}))
    if a.config:
        configs = {a.config: configs.get(a.config, 1.0)}
    os.makedirs(OUT, exist_ok=True)
    os.makedirs(EVIDENCE, exist_ok=True)
    with ThreadPoolExecutor(8) as ex:
        built = dict(zip(configs, ex.map(lambda c: build(check["source"], c), configs)))
    errors = ["%s: %s" % (c, e) for c, (x, e) in built.items() if e and not CONFIGS[c].get("optional")]
    left_out = {c: e for c, (x, e) in built.items() if e and CONFIGS[c].get("optional")}
    for c, e in left_out.items():
        print("configuration %s left out, it does not build: %s" % (c, e))
    build_s = time.time() - start
    if errors:
        # nothing can be decided about this tree; say so rather than guess
        print("\n".join(errors))
        print("ERROR: harness of %s did not build" % pid)
    if a.build_only:
        return 2 if errors else 0
    runs, violations, undecided = [], [], []
    budget = 3300 if tier == "thorough" else 560
    for c, (exe, err) in built.items():
        if err:
            continue
        log = os.path.join(OUT, "%s-%s.log" % (pid, c))
        res = os.path.join(OUT, "%s-%s.json" % (pid, c))
        rep = os.path.join(OUT, "%s-%s.replay" % (pid, c))
        for f in (log, res, rep):
            if os.path.exists(f):
                os.unlink(f)
        left = budget - (time.time() - start)
        cmd = [exe, "--property", pid, "--config", c, "--seed", str(a.seed), "--tier", tier, "--scale", str(configs[c]),
               "--out", res, "--log", log, "--replay-out", rep, "--deadline", "%.0f" % max(left / max(1, len(built) - len(runs)), 15)]
        if a.only:
            cmd += ["--only", a.only]
        for attempt in range(3):
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            sys.stdout.write(p.stdout)
            if p.returncode != 2 or "UNREPRODUCED" not in p.stdout or time.time() - start > budget:
                break
            # a failure that came once only (what lies beyond a buffer differs
            # from run to run, say): look for one that comes again
            cmd[cmd.index("--seed") + 1] = str(a.seed + 7919 * (attempt + 1))
        try:
            r = json.load(open(res))
        except (OSError, ValueError):
            r = {"config": c, "evaluations": 0, "planned": 0, "distinct_nontrivial": 0, "labels": {}, "samples": [], "props": {}, "incomplete": True, "wall_s": 0}
        runs.append(r)
        if p.returncode == 1:
            t = tail(log)
            if t.strip():
                print("--- log of the failing run\n" + t)
            violations.append(rep)
            if not a.keep_going:
                break
        elif p.returncode != 0:
            undecided.append(c)
    fuzz = None
    if tier == "thorough" and not violations and not undecided and check.get("fuzz") and not a.only and not a.config:
        fuzz = libfuzzer(pid, check, a.seed, check["fuzz"], 2**31 - 1)
        for art in fuzz.get("artifacts", []):
            names = list(runs[0]["props"])
            first, choices = artifact_choices(art)
            for c, (exe, err) in built.items():
                rep = os.path.join(OUT, "%s-%s-fuzz.replay" % (pid, c))
                with open(rep, "w") as f:
                    f.write("property: %s\nconfig: %s\nkind: case\nprop: %s\nmessage: found by libFuzzer\nchoices: %d %s\n" % (
                        pid, c, names[first % len(names)], len(choices), " ".join(map(str, choices))))
                if all(subprocess.run([exe, "--property", pid, "--replay", rep], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode == 1 for _ in range(3)):
                    violations.append(rep)
                    break
        if "error" in fuzz:
            print("libFuzzer campaign not built: " + fuzz["error"])
    labels, samples, per = {}, [], {}
    for r in runs:
        for k, v in r["labels"].items():
            labels[k] = labels.get(k, 0) + v
        samples += ["[%s] %s" % (r["config"], s) for s in r["samples"][:12]]
        per[r["config"]] = {k: r[k] for k in ("evaluations", "planned", "distinct_nontrivial", "incomplete", "wall_s", "props")}
    coverage = {
        "evaluations": sum(r["evaluations"] for r in runs),
        "distinct_nontrivial": sum(r["distinct_nontrivial"] for r in runs),
        "rule": check["rule"] + " Distinct: no two choice sequences of one configuration alike; configurations draw different cases.",
        "samples": samples[:40] or ["(the run ended before a sample was taken)"],
        "classes": labels,
        "configurations": per,
        "build_s": round(build_s, 1),
    }
    if left_out:
        coverage["left_out"] = left_out
    if fuzz:
        coverage["libfuzzer"] = {k: v for k, v in fuzz.items() if k != "artifacts"}
    found = known_findings(pid)
    ev = {"property": pid, "tier": tier, "seed": a.seed, "level": "exploration", "coverage": coverage,
          "assumptions": check.get("assumptions", []), "wall_s": round(time.time() - start, 2), "violations": len(violations)}
    with open(os.path.join(EVIDENCE, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k in found:
        print("KNOWN-FINDING: property=%s %s" % (pid, k))
    for v in violations:
        print("VIOLATION property=%s replay=%s" % (pid, v))
    print("%s %s seed %d: %d cases, %d distinct non-trivial, %d configurations, %.1f s" % (
        pid, tier, a.seed, coverage["evaluations"], coverage["distinct_nontrivial"], len(runs), time.time() - start))
    if violations:
        return 1
    return 2 if errors or undecided else 0


if __name__ == "__main__":
    sys.exit(main())
