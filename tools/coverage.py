#!/usr/bin/env python3
"""Which lines of /repo/src no check runs: coverage.py WORKDIR [--secs S] [--jobs N] [ID...]

Builds each harness with gcov (no sanitizers), lets it search for some seconds, and lists the lines of the library that
are compiled in somewhere and were run by nothing. An aid for extending generators; it decides nothing."""
import gzip, json, os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
args = sys.argv[1:]
def opt(name, default):
    if name not in args:
        return default
    i = args.index(name)
    v = args[i + 1]
    del args[i:i + 2]
    return v
SECS, JOBS = opt("--secs", "4"), int(opt("--jobs", "4"))
WORK = args.pop(0)
sys.path.insert(0, os.path.join(VERIF, "tools"))
from plan import PLAN

H = os.path.join(VERIF, "harness")
PLATFORM = {"ard": ["-DARDUINO=10800", "-I" + H + "/fakes/arduino"], "zep": ["-DZEPHYR", "-DCONFIG_LOG_RUNTIME_FILTERING", "-I" + H + "/fakes/zephyr"]}
os.makedirs(WORK, exist_ok=True)
with open(WORK + "/cov.hpp", "w") as f:
    f.write('#pragma once\n#include <unistd.h>\n#include <cstdlib>\n#ifdef __cplusplus\nextern "C" void __gcov_dump(void);\ninline void cov_exit(int c) { __gcov_dump(); ::_exit(c); }\n#define _exit cov_exit\n#endif\n')


def sources():
    out = []
    for root, _, files in os.walk(REPO + "/src"):
        out += [os.path.join(root, f) for f in files if f.endswith(".cpp") and f != "main.cpp"]
    return sorted(out)


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def one(prop):
    lines = {}
    spec = PLAN[prop]
    for config in [c for c in spec["configs"] if c not in ("dbl", "tiny") and not c.endswith("o")]:
        d = os.path.join(WORK, prop + "-" + config)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        flags = ["-std=gnu++17", "-DUNITTEST", "-w", "-O0", "--coverage", "-fno-inline", "-include", WORK + "/cov.hpp", "-I" + REPO + "/src", "-I" + H]
        flags += PLATFORM.get(config[:3], ["-DNATIVE"]) + (["-DDEBUG_SPINE"] if config.endswith(("dbg", "d")) else []) + spec.get("flags", [])
        if spec.get("programs"):
            flags.append('-DPROGRAMS="none"')
        objs = []
        for i, (s, extra) in enumerate([(H + "/%s.cpp" % prop, ["-DPART=%d" % k]) for k in range(spec.get("parts", 1))] + [(H + "/engine.cpp", [])] + [(s, []) for s in sources()]):
            o = "%s/%d.o" % (d, i)
            p = run(["g++"] + flags + extra + ["-c", s, "-o", o], cwd=d)
            if p.returncode:
                return prop, config, p.stdout[-800:], lines
            objs.append(o)
        p = run(["g++", "--coverage"] + objs + ["-o", d + "/x"] + spec.get("libs", []))
        if p.returncode:
            return prop, config, p.stdout[-800:], lines
        run([d + "/x", "--seed", "1", "--worker", "0", "--secs", SECS, "--min-cases", "200", "--shrink-secs", "1", "--out", d + "/out"], env=dict(os.environ, TZ="UTC"))
        run(["gcov", "--json-format"] + [o for o in objs], cwd=d)
        for f in os.listdir(d):
            if not f.endswith(".gcov.json.gz"):
                continue
            for file in json.load(gzip.open(os.path.join(d, f)))["files"]:
                name = os.path.join(d, file["file"])
                name = os.path.realpath(name)
                if name.startswith(REPO + "/src"):
                    for l in file["lines"]:
                        k = (name, l["line_number"])
                        lines[k] = lines.get(k, 0) + l["count"]
        shutil.rmtree(d)
    return prop, None, "", lines


total, by = {}, {}
with ThreadPoolExecutor(JOBS) as ex:
    for prop, config, error, lines in ex.map(one, args or [p for p in PLAN if not PLAN[p].get("programs")]):
        if error:
            print("%s (%s): %s" % (prop, config, error))
        for k, n in lines.items():
            total[k] = total.get(k, 0) + n
            if n:
                by.setdefault(k, set()).add(prop)
missed = sorted(k for k, n in total.items() if not n)
print("%d lines, %d of them were run by nothing" % (len(total), len(missed)))
text = {}
for name, line in missed:
    text.setdefault(name, open(name).read().split("\n"))
    print("%s:%d: %s" % (name[len(REPO) + 5:], line, text[name][line - 1].strip()))
json.dump({"%s:%d" % (n[len(REPO) + 5:], l): sorted(by.get((n, l), [])) for n, l in total}, open(WORK + "/lines.json", "w"), indent=0)
