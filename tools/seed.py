#!/usr/bin/env python3
"""Plants a bug: confirms it in /repo (and undoes it), writes seeded/<id>/, runs the check of its property against it.

    seed.py SPECS.py [ID...]     SPECS.py defines SEEDS, a list of dicts: id, property, needs, breaks, edits, demo, flags
    seed.py --check [ID...]      runs the checks against what is in seeded/
"""
import json, os, subprocess, sys, shutil

REPO, VERIF = "/repo", "/verif"
BASE = "321e363"
SEEDED = os.path.join(VERIF, "seeded")
DEMO_SH = """#!/bin/bash
# exits 0 when the property holds; run in the repository
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf -- "$t"' EXIT
export t
find src -name '*.cpp' ! -name main.cpp | xargs -P 8 -I{{}} sh -c 'g++ -std=gnu++17 {flags} -w {defs} -DUNITTEST -Isrc -I"'"$d"'" -c "$1" -o "$t/$(echo "$1" | tr / _).o"' sh {{}} || exit 2
g++ -std=gnu++17 {flags} -w {defs} -DUNITTEST -Isrc -I"$d" "$d/demo.cpp" "$t"/*.o -o "$t/demo" || exit 2
timeout 60 "$t/demo"
"""
# the same program in several builds, which must tell stderr the same
BUILDS_SH = """#!/bin/bash
# exits 0 when the property holds; run in the repository
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf -- "$t"' EXIT
n=0
while read -r cxx; do
    n=$((n + 1)) && mkdir "$t/$n" && export t n cxx d
    find src -name '*.cpp' ! -name main.cpp | xargs -P 8 -I{{}} sh -c '$cxx -std=gnu++17 -w -DUNITTEST -Isrc -I"$d" -c "$1" -o "$t/$n/$(echo "$1" | tr / _).o"' sh {{}} || exit 2
    $cxx -std=gnu++17 -w -DUNITTEST -Isrc -I"$d" "$d/demo.cpp" "$t/$n"/*.o -o "$t/$n/demo" || exit 2
    timeout 60 "$t/$n/demo" 2> "$t/$n/said" > /dev/null; echo "exit $?" >> "$t/$n/said"
    cmp "$t/1/said" "$t/$n/said" || exit 1
done <<'BUILDS'
{builds}
BUILDS
"""


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def clean():
    assert not sh(f"git -C {REPO} status --porcelain").stdout.strip(), "/repo is not clean"


def undo():
    sh(f"git -C {REPO} checkout -- .")


def original_lines_only(path):
    """line numbers removed or replaced by the working tree must stem from the base commit"""
    diff = sh(f"git -C {REPO} diff -U0 -- {path}").stdout
    import re
    bad, removed = [], 0
    blame = sh(f"git -C {REPO} blame -l -s HEAD -- {path}").stdout.splitlines()
    base = sh(f"git -C {REPO} rev-parse {BASE}").stdout.strip()
    for m in re.finditer(r"^@@ -(\d+)(?:,(\d+))? ", diff, re.M):
        n = int(m[2]) if m[2] is not None else 1
        for i in range(int(m[1]), int(m[1]) + n):
            removed += 1
            if not blame[i - 1].lstrip("^").startswith(base[:39]):
                bad.append(blame[i - 1])
    return removed, bad


def run_check(sid):
    d = os.path.join(SEEDED, sid)
    meta = json.load(open(os.path.join(d, "meta.json")))
    clean()
    p = sh(f"git -C {REPO} apply {d}/patch.diff")
    if p.returncode:
        return f"does not apply: {p.stdout}"
    try:
        p = sh(f"python3 {VERIF}/check.py {meta['property']}")
    finally:
        undo()
    caught = p.returncode == 1 and f"VIOLATION property={meta['property']} " in p.stdout
    lines = [l for l in p.stdout.splitlines() if l.startswith("#")][:2]
    return ("CAUGHT " if caught else f"MISSED (exit {p.returncode}) ") + " | ".join(lines)[:300] + ("" if caught else p.stdout[-300:])


def plant(s):
    clean()
    tmp = f"/tmp/seeds/{s['id']}"
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    flags = s.get("flags", "")
    demo = BUILDS_SH.format(builds="\n".join(s["builds"])) if "builds" in s else DEMO_SH.format(flags=flags, defs=s.get("defs", "-DNATIVE"))
    open(tmp + "/demo.sh", "w").write(demo)
    os.chmod(tmp + "/demo.sh", 0o755)
    open(tmp + "/demo.cpp", "w").write(s["demo"].lstrip())
    if "beside" in s:
        shutil.copytree(os.path.join(VERIF, "harness", "fakes", s["beside"]), tmp, dirs_exist_ok=True)
    try:
        p = sh(f"bash {tmp}/demo.sh", cwd=REPO)
        if p.returncode:
            return f"demo fails on the unchanged tree ({p.returncode}): {p.stdout[-600:]}"
        for f, old, new in s["edits"]:
            path = os.path.join(REPO, "src/spine", f)
            text = open(path).read()
            if text.count(old) != 1:
                return f"{f}: text occurs {text.count(old)} times: {old[:60]}"
            open(path, "w").write(text.replace(old, new))
        total = 0
        for f in sorted({e[0] for e in s["edits"]}):
            removed, bad = original_lines_only("src/spine/" + f)
            total += removed
            if bad:
                return "changes lines of a fix: " + bad[0]
        if not total:
            return "changes no line of the original"
        p = sh("bash /opt/vp/build.sh && bash /opt/vp/test.sh /tmp/seeds/out.json")
        if "190 passed, 0 failed" not in p.stdout:
            return "tests: " + p.stdout[-500:]
        p = sh(f"bash {tmp}/demo.sh", cwd=REPO)
        if p.returncode in (0, 2):
            return f"demo exits {p.returncode} with the patch: {p.stdout[-600:]}"
        diff = sh(f"git -C {REPO} diff").stdout
    finally:
        undo()
    open(tmp + "/patch.diff", "w").write(diff)
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(tmp + "/meta.json", "w"), indent=1)
    dest = os.path.join(SEEDED, s["id"])
    shutil.rmtree(dest, ignore_errors=True)
    os.makedirs(SEEDED, exist_ok=True)
    shutil.move(tmp, dest)
    return "planted"


if __name__ == "__main__":
    if sys.argv[1] == "--check":
        for sid in sys.argv[2:] or sorted(os.listdir(SEEDED)):
            print(sid, run_check(sid), flush=True)
        sys.exit()
    scope = {}
    exec(open(sys.argv[1]).read(), scope)
    for s in scope["SEEDS"]:
        if len(sys.argv) > 2 and s["id"] not in sys.argv[2:]:
            continue
        r = plant(s)
        print(s["id"], r, flush=True)
        if r == "planted":
            print("   ", run_check(s["id"]), flush=True)
