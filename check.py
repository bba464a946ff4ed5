#!/usr/bin/env python3
"""Decides one property: check.py <ID> [--replay FILE]

Builds /repo's working tree with the harness of the property, runs the search in parallel, writes evidence/<ID>.json.
Exit 0: held on everything explored; 1: VIOLATION; anything else: an error of the check."""
import array, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
HARNESS = os.path.join(VERIF, "harness")
BUILD = os.path.join(VERIF, "build")
CORES = os.cpu_count() or 4

sys.path.insert(0, os.path.join(VERIF, "tools"))
from plan import PLAN, LEVEL  # per property: configurations, rule, assumptions

CXX = "g++"
COMMON = ["-std=gnu++17", "-DUNITTEST", "-w", "-g1", "-fno-omit-frame-pointer"]
SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all"]
CONFIGS = {
    # release, uninitialised automatic variables hold a pattern
    "rel": ["-O1", "-ftrivial-auto-var-init=pattern"] + SAN,
    # debug: assertions on, debug mode of the standard library
    "dbg": ["-O1", "-DDEBUG_SPINE", "-D_GLIBCXX_ASSERTIONS", "-D_GLIBCXX_DEBUG", "-ftrivial-auto-var-init=zero"] + SAN,
    # double as the value type of units
    "dbl": ["-O1", "-DSPN_PLATFORM_CAP_DOUBLE", "-ftrivial-auto-var-init=pattern"] + SAN,
    # room for little more than the beginning of a log message
    "tiny": ["-O1", "-DSPINE_LOGGING_MAX_MSG_SIZE=28", "-DDEBUG_SPINE", "-ftrivial-auto-var-init=pattern"] + SAN,
    # optimised as on a target, no sanitizers
    "opt": ["-O2", "-DNDEBUG"],
}
LIBRARY = ["-fPIC", "-fvisibility=hidden", "-fvisibility-inlines-hidden"]
# the platforms other than the native one, on stand-ins for their cores (harness/fakes)
ARDUINO = ["-DARDUINO=10800", "-I" + os.path.join(HARNESS, "fakes", "arduino")]
ZEPHYR = ["-DZEPHYR", "-DCONFIG_LOG_RUNTIME_FILTERING", "-I" + os.path.join(HARNESS, "fakes", "zephyr")]
for name, platform in (("ard", ARDUINO), ("zep", ZEPHYR)):
    CONFIGS[name] = CONFIGS["rel"] + platform
    CONFIGS[name + "d"] = CONFIGS["dbg"] + platform
    CONFIGS[name + "o"] = CONFIGS["opt"] + platform
for name in CONFIGS:
    if not name.startswith(("ard", "zep")):
        CONFIGS[name] = CONFIGS[name] + ["-DNATIVE"]


def die(msg, code=2):
    print("ERROR: " + msg, file=sys.stderr)
    sys.exit(code)


def sources():
    out = []
    for root, _, files in os.walk(os.path.join(REPO, "src")):
        for f in files:
            if f.endswith(".cpp") and os.path.join(root, f) != os.path.join(REPO, "src", "main.cpp"):
                out.append(os.path.join(root, f))
    return sorted(out)


def tree_hash(prop):
    h = hashlib.sha256()
    files = []
    for top in (os.path.join(REPO, "src"), HARNESS):
        for root, _, fs in os.walk(top):
            files += [os.path.join(root, f) for f in fs if f.endswith((".hpp", ".cpp", ".h"))]
    for f in sorted(files):
        if f.startswith(HARNESS) and f.endswith(".cpp") and os.path.basename(f) not in (prop + ".cpp", prop + "_program.cpp", "engine.cpp"):
            continue
        h.update(f.encode() + b"\0")
        with open(f, "rb") as fh:
            h.update(fh.read())
    h.update(repr((COMMON, CONFIGS, PLAN[prop].get("programs"))).encode())
    return h.hexdigest()[:20]


def run_cmd(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout


def build(prop, configs, fuzzer=False):
    """Returns {config: binary}"""
    key = tree_hash(prop) + ("-fuzz" if fuzzer else "")
    spec = PLAN[prop]
    outdir = os.path.join(BUILD, prop, key)
    want = {c: os.path.join(outdir, c, prop) for c in configs}
    if all(os.path.exists(b) for b in want.values()):
        return want
    shutil.rmtree(os.path.join(BUILD, prop), ignore_errors=True) if not fuzzer else None
    jobs = []
    with ThreadPoolExecutor(CORES) as ex:
        for c in configs:
            os.makedirs(os.path.join(outdir, c), exist_ok=True)
            flags = CONFIGS[c] + COMMON + spec.get("flags", [])
            if spec.get("programs"):
                flags += ['-DPROGRAMS="%s"' % ",".join(spec["programs"])]
            cxx = [CXX]
            if fuzzer:
                cxx = ["clang++"]
                flags = [f for f in flags if not f.startswith("-fsanitize")]
                flags += ["-fsanitize=fuzzer,address,undefined", "-fno-sanitize-recover=all", "-DPBT_FUZZER"]
            inc = ["-I" + os.path.join(REPO, "src"), "-I" + HARNESS]
            units = [(os.path.join(HARNESS, prop + ".cpp"), ["-DPART=%d" % i]) for i in range(spec.get("parts", 1))]
            units += [(os.path.join(HARNESS, "engine.cpp"), [])] + [(s, []) for s in sources()]
            for name, (how, config, more) in spec.get("programs", {}).items():
                # the same program in several builds, loaded by the harness
                d = os.path.join(outdir, c, "lib" + name)
                os.makedirs(d, exist_ok=True)
                for s in [os.path.join(HARNESS, prop + "_program.cpp")] + sources():
                    o = os.path.join(d, s.lstrip("/").replace("/", "_") + ".o")
                    jobs.append(((c, name), o, ex.submit(run_cmd, [how] + CONFIGS[config] + more + COMMON + LIBRARY + inc + ["-c", s, "-o", o])))
            for s, extra in units:
                o = os.path.join(outdir, c, "_".join([s.lstrip("/").replace("/", "_")] + extra) + ".o")
                jobs.append((c, o, ex.submit(run_cmd, cxx + flags + extra + inc + ["-c", s, "-o", o])))
        objs = {c: [] for c in configs}
        objs.update({(c, name): [] for c in configs for name in spec.get("programs", {})})
        for c, o, j in jobs:
            rc, out = j.result()
            if rc != 0:
                print(out[-6000:], file=sys.stderr)
                die("compilation of %s (%s) failed" % (os.path.basename(o), c))
            objs[c].append(o)
        links = []
        for c in configs:
            for name, (how, config, more) in spec.get("programs", {}).items():
                cmd = [how] + [f for f in CONFIGS[config] + more if f.startswith("-f")] + LIBRARY + ["-shared", "-Wl,-Bsymbolic"] + objs[(c, name)]
                rc, out = run_cmd(cmd + ["-o", os.path.join(outdir, c, "lib" + name + ".so")])
                if rc != 0:
                    print(out[-6000:], file=sys.stderr)
                    die("linking of %s (%s) failed" % (prop, name))
            flags = (["-fsanitize=fuzzer,address,undefined"] if fuzzer else [f for f in CONFIGS[c] if f.startswith("-f")])
            cmd = ["clang++" if fuzzer else CXX] + flags + objs[c] + ["-o", want[c] + ".tmp"] + spec.get("libs", [])
            links.append((c, ex.submit(run_cmd, cmd)))
        for c, j in links:
            rc, out = j.result()
            if rc != 0:
                print(out[-6000:], file=sys.stderr)
                die("linking of %s (%s) failed" % (prop, c))
            os.rename(want[c] + ".tmp", want[c])
    return want


def parse_failure(path):
    d = {}
    with open(path, errors="replace") as f:
        for line in f:
            k, _, v = line.rstrip("\n").partition("=")
            d.setdefault(k, v)
    return d


def write_replay(prop, config, src):
    d = os.path.join(VERIF, "evidence", "replays")
    os.makedirs(d, exist_ok=True)
    with open(src, "rb") as f:
        body = f.read()
    path = os.path.join(d, "%s-%s-%s.replay" % (prop, config, hashlib.sha256(body).hexdigest()[:10]))
    with open(path, "wb") as f:
        f.write(("property=%s\nconfig=%s\n" % (prop, config)).encode() + body)
    return path


def replay(prop, path):
    d = parse_failure(path)
    config = d.get("config", "rel")
    b = build(prop, [config])[config]
    p = subprocess.run([b, "--replay", path], env=dict(os.environ, TZ="UTC"))
    if p.returncode == 1:
        print("VIOLATION property=%s replay=%s" % (prop, path))
    return p.returncode


def fuzz(prop, config, secs, seed, work):
    """A libFuzzer campaign with the same properties. Returns (evaluations, failure file or None)"""
    try:
        fb = build(prop, [config], fuzzer=True)[config]
    except SystemExit:
        print("note: no libFuzzer build for %s" % prop, file=sys.stderr)
        return None
    procs = []
    for w in range(CORES):
        d = os.path.join(work, "fuzz%d" % w)
        os.makedirs(os.path.join(d, "corpus"))
        env = dict(os.environ, TZ="UTC", PBT_SHARED_FILE=os.path.join(d, "shared"))
        cmd = [fb, "-seed=%d" % (seed * 1000 + w + 1), "-max_total_time=%d" % secs, "-max_len=1024", "-timeout=25",
               "-rss_limit_mb=3500", "-verbosity=0", "-print_final_stats=1", "-use_value_profile=%d" % (w % 2),
               "-artifact_prefix=" + d + "/", os.path.join(d, "corpus")]
        log = open(os.path.join(d, "log"), "wb")
        procs.append((d, subprocess.Popen(cmd, env=env, stdout=subprocess.DEVNULL, stderr=log)))
    total, failed = 0, []
    for d, p in procs:
        try:
            p.wait(secs + 120)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
        with open(os.path.join(d, "shared"), "rb") as f:
            head = array.array("Q", f.read(32))
            f.seek(32 + 4096)
            choices = array.array("Q")
            choices.frombytes(f.read(8 * head[2]))
        total += head[0]
        if p.returncode != 0 and head[3]:
            path = os.path.join(d, "choices")
            with open(path, "w") as f:
                f.write("choices=" + " ".join(map(str, choices)) + "\n")
            failed.append(path)
    return total, failed


def main():
    if len(sys.argv) < 2 or sys.argv[1] not in PLAN:
        die("usage: check.py <ID> [--replay FILE]")
    prop = sys.argv[1]
    if len(sys.argv) == 4 and sys.argv[2] == "--replay":
        sys.exit(replay(prop, sys.argv[3]))
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    spec = PLAN[prop]
    t0 = time.time()
    configs = spec["configs"]
    binaries = build(prop, configs)
    built = time.time() - t0
    secs = float(os.environ.get("VERIF_SECS", spec.get("secs", 12) if tier == "quick" else spec.get("thorough_secs", 300)))
    min_cases = spec.get("min_cases", 1000) if tier == "quick" else spec.get("min_cases", 1000) * 10
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    evidence_path = os.path.join(VERIF, "evidence", prop + ".json")
    if os.path.exists(evidence_path):
        os.remove(evidence_path)
    work = tempfile.mkdtemp(prefix="check-%s-" % prop)
    try:
        runs = []
        shares = spec.get("shares") or [1] * len(configs)
        slots = [c for c, n in zip(configs, shares) for _ in range(n)]
        per = [slots[i % len(slots)] for i in range(max(CORES, len(slots)))]
        env = dict(os.environ, TZ="UTC")
        for w, c in enumerate(per):
            out = os.path.join(work, "w%d" % w)
            cmd = [binaries[c], "--seed", str(seed), "--worker", str(w), "--secs", str(secs), "--min-cases",
                   str(min_cases), "--shrink-secs", "25" if tier == "quick" else "90", "--out", out]
            log = open(out + ".log", "wb")
            runs.append((c, w, out, subprocess.Popen(cmd, env=env, stdout=log, stderr=log)))
        failures, stats, errors = [], [], []
        for c, w, out, p in runs:
            rc = p.wait()
            if rc == 1 and os.path.exists(out + ".failure"):
                failures.append((c, out + ".failure"))
            elif rc == 0:
                stats.append((c, json.load(open(out)), out + ".hashes"))
            else:
                with open(out + ".log", "rb") as f:
                    errors.append("worker %d (%s) ended with %d: %s" % (w, c, rc, f.read()[-500:]))
        fuzzed = None
        if tier == "thorough" and not failures and spec.get("fuzz", True) and shutil.which("clang++"):
            c = configs[0]
            r = fuzz(prop, c, int(os.environ.get("VERIF_FUZZ_SECS", spec.get("fuzz_secs", 180))), seed, work)
            if r:
                fuzzed, failed = r
                for i, path in enumerate(failed):
                    out = os.path.join(work, "f%d" % i)
                    p = subprocess.run([binaries[c], "--shrink", path, "--out", out], env=env, stdout=subprocess.DEVNULL)
                    if p.returncode == 1:
                        failures.append((c, out + ".failure"))
                    else:
                        print("note: a failure of the fuzzer build did not reproduce", file=sys.stderr)
        distinct = set()
        labels, samples, evaluations, nontrivial, per_config = {}, [], 0, 0, {}
        for c, s, hashes in stats:
            evaluations += s["evaluations"]
            nontrivial += s["nontrivial"]
            per_config[c] = per_config.get(c, 0) + s["evaluations"]
            for k, v in s["labels"].items():
                labels[k] = labels.get(k, 0) + v
            a = array.array("Q")
            with open(hashes, "rb") as f:
                a.frombytes(f.read())
            distinct.update(a)
            samples += s["samples"][:2]
        coverage = {
            "evaluations": evaluations,
            "distinct_nontrivial": len(distinct),
            "nontrivial": nontrivial,
            "rule": spec["rule"],
            "samples": samples[:10] or ["(none: a violation ended the search)"],
            "classes": dict(sorted(labels.items())),
            "evaluations_per_configuration": per_config,
            "build_s": round(built, 1),
        }
        if fuzzed is not None:
            coverage["libfuzzer_evaluations"] = fuzzed
        evidence = {"property": prop, "tier": tier, "seed": seed, "level": LEVEL, "coverage": coverage,
                    "assumptions": spec["assumptions"], "wall_s": round(time.time() - t0, 1),
                    "violations": len(failures)}
        violations = []
        for c, f in failures:
            d = parse_failure(f)
            path = write_replay(prop, c, f)
            violations.append((d.get("what", ""), path, c, d.get("story", "")))
        if violations:
            coverage["failures"] = [{"what": w, "config": c, "replay": p, "story": s[:2000]} for w, p, c, s in violations]
        with open(evidence_path, "w") as f:
            json.dump(evidence, f, indent=1)
            f.write("\n")
        if violations:
            # the shortest reproduction first
            violations.sort(key=lambda v: len(v[3]))
            for w, path, c, story in violations[:3]:
                print("# [%s] %s" % (c, w))
                if story:
                    print("#   " + story[:1500])
            print("VIOLATION property=%s replay=%s" % (prop, violations[0][1]))
            sys.exit(1)
        if errors:
            die("; ".join(errors))
        if not distinct:
            die("no non-trivial case was generated")
        missing = [l for l in spec.get("require", []) if not labels.get(l)]
        if missing:
            die("classes never generated: " + ", ".join(missing))
        print("%s: held on %d cases (%d distinct non-trivial), %.0f s" % (prop, evaluations, len(distinct), time.time() - t0))
    finally:
        shutil.rmtree(work, ignore_errors=True)


main()
