#!/usr/bin/env python3
"""Mutation analysis of the checks: mutate.py WORKDIR [--slots N] [--secs S] [--part i/n] [--only REGEX]

Makes small changes to copies of /repo/src (never to /repo), runs the quick checks of the properties that are anchored
in the changed file against each, and lists the changes that no check reports (WORKDIR/survivors) for inspection.
A survivor is either a change that keeps the behaviour (or leaves the statements' scope) or a gap in a generator."""
import json, os, random, re, shutil, subprocess, sys, threading, queue

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
def opt(name, default):
    return args[args.index(name) + 1] if name in args else default
WORK = args[0]
SLOTS, SECS = int(opt("--slots", "4")), opt("--secs", "4")
ONLY = re.compile(opt("--only", "."))

SWAPS = [
    (r" <= ", [" < "]), (r" >= ", [" > "]), (r" < ", [" <= "]), (r" > ", [" >= "]), (r" == ", [" != "]), (r" != ", [" == "]),
    (r" && ", [" || "]), (r" \|\| ", [" && "]), (r" \+ ", [" - "]), (r" - ", [" + "]), (r" \* ", [" / "]), (r" / ", [" * "]), (r" % ", [" / "]),
    (r" \+ 1\b", [""]), (r" - 1\b", [""]), (r" \+= ", [" -= ", " = "]), (r" -= ", [" += ", " = "]), (r"\+\+", ["--"]), (r"(?<!-)--(?!-)", ["++"]),
    (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]), (r"\bmin\(", ["max("]), (r"\bmax\(", ["min("]),
    (r"std::min<size_t>\(", ["std::max<size_t>("]), (r"std::max<size_t>\(", ["std::min<size_t>("]),
    (r"(?<=[( ])!(?=[a-z_(])", [""]), (r"\bif \((?!constexpr)", ["if (!(", ]), (r"(?<![\w.\"'])0(?![\w.\"'])", ["1"]), (r"(?<![\w.\"'])1(?![\w.\"'])", ["0", "2"]),
    (r"(?<![\w.\"'])([2-9]|\d\d+)(?![\w.\"'])", ["(\\1 + 1)", "(\\1 - 1)"]), (r"\? ", ["? !!"]),
    (r"(?<![\w.\"'])(\d+\.\d+)(f?)", ["(\\1\\2 * 2)"]),
    (r"\bfloor\(", ["ceil("]), (r"\bceil\(", ["floor("]), (r"\bround\(", ["floor("]), (r"\bfront\b", ["back"]), (r"\bback\b", ["front"]),
    (r"\bbegin\b", ["end"]), (r"\bHIGH\b", ["LOW"]), (r"\bLOW\b", ["HIGH"]), (r"\bconst auto\b", []), (r"\breturn ([^;{]+);", ["return {};"]),
]

# a second set: kept, narrowed, copied, reordered (--set 2)
TYPES = [
    (r"\bsize_t (?=\w+\b(?!\())", ["uint8_t ", "uint16_t "]), (r"\b(?:ArrayBase::)?Size (?=\w+\b(?!\())", ["uint8_t "]),
    (r"\buint32_t (?=\w+\b(?!\())", ["uint16_t "]), (r"\b(?:u?int64_t|long long|unsigned long|time_t) (?=\w+\b(?!\())", ["int32_t "]),
    (r"\bint (?=\w+\b(?!\())", ["int8_t "]), (r"\bdouble (?=\w+\b(?!\())", ["float "]), (r"\bfloat (?=\w+\b(?!\())", ["int "]),
    (r"\bk_time_us\b", ["k_time_ms"]), (r"\bk_time_ms\b", ["k_time_s"]), (r"\bk_time_s\b", ["k_time_ms"]), (r"\bconst auto (?=\w+ =)", ["static const auto "]),
    (r"\bauto& ", ["auto "]), (r"\bstd::move\(([\w.]+)\)", ["\\1"]), (r"\bconst T& (?=\w)", ["const T "]), (r"\bstd::fabs\(", ["("]), (r"\bRealRawType\b", ["float"]),
    (r"\(const \w+& (\w+)\) \{$", []), (r" == (nullptr|npos|0)\b", [" != \\1"]), (r"\bstd::exchange\(([\w.]+), [^)]*\)", ["\\1"]),
    (r"static_cast<(u?int\d+_t|float|double|size_t|ValueType)>\(", ["static_cast<uint8_t>(", "static_cast<int16_t>("]),
]

def mutants_2(path, rel):
    lines = open(path).read().split("\n")
    out = []
    for n, line in enumerate(lines):
        s = line.strip()
        if s.startswith(("//", "#", "using ", "namespace", "template", "static_assert", "friend", "/*", "*", "spn_assert")) or not s:
            continue
        code = line.split("//")[0]
        for pat, reps in TYPES:
            for m in re.finditer(pat, code):
                for r in reps:
                    new = code[:m.start()] + m.expand(r) + code[m.end():]
                    if new != code: out.append((rel, n, line, new, pat))
        simple = re.compile(r"^\s+(?!return|using|case|break|continue|friend|static|public|private|template)[^{}/]*;\s*(//.*)?$")
        declares = re.compile(r"= default|= delete|^\s+(\[\[\w+\]\] )?(virtual |explicit |constexpr )?[\w:<>,&*\[\] ]+[ &*][\w~]+\(.*\)( const)?( noexcept)?( override)?;|^\s+~?\w+\(.*[&*].*\);")
        if n + 1 < len(lines) and declares.search(line) is None and declares.search(lines[n + 1]) is None and simple.match(line) and simple.match(lines[n + 1]) and len(line) - len(line.lstrip()) == len(lines[n + 1]) - len(lines[n + 1].lstrip()) and not re.match(r"^\s+[\w:<>,&* ]+ \w+( = [^;]*|\{[^;]*\})?;", line):
            # two statements in the other order; the second line is emptied by the caller
            out.append((rel, n, line + "\n" + lines[n + 1], lines[n + 1].split("//")[0] + "\n" + code, "swap"))
    return out

def mutants_of(path, rel):
    if opt("--set", "1") == "2": return mutants_2(path, rel)
    lines = open(path).read().split("\n")
    out = []
    comment = False
    for n, line in enumerate(lines):
        s = line.strip()
        if s.startswith(("//", "#", "using ", "namespace", "template", "static_assert", "friend", "/*", "*", "spn_assert")) or not s:
            continue
        code = line.split("//")[0]
        seen = set()
        def add(new, what):
            if new != code and new not in seen:
                seen.add(new)
                out.append((rel, n, line, new, what))
        for pat, reps in SWAPS:
            for m in re.finditer(pat, code):
                for r in reps:
                    new = code[:m.start()] + m.expand(r) + code[m.end():]
                    if pat.startswith(r"\bif"):
                        # negate the whole condition
                        depth, i = 1, m.end()
                        while i < len(code) and depth:
                            depth += {"(": 1, ")": -1}.get(code[i], 0)
                            i += 1
                        if depth: continue
                        new = code[:m.end()] + "!(" + code[m.end():i - 1] + "))" + code[i:]
                    add(new, pat)
        if re.match(r"^\s+(\(void\))?[\w.:>\-\[\]*]+(<[\w:]+>)?(\(.*\)|\+\+|--| [-+*/]?= .*);\s*$", code) and not re.match(r"^\s+(return|using|virtual)\b", code):
            add(re.match(r"\s*", code).group() + ";", "delete")
        m = re.match(r"^(\s+)(\[\[.*\]\] )?if \(.*\) (return|break|continue|[\w.:>\-]+(\(|\+\+| =)).*;\s*$", code)
        if m and "constexpr" not in code:
            add(m.group(1) + ";", "delete if")
    return out

def main():
    os.makedirs(WORK, exist_ok=True)
    done_path = os.path.join(WORK, "done.jsonl")
    done = set()
    if os.path.exists(done_path):
        for l in open(done_path):
            d = json.loads(l)
            done.add((d["file"], d["line"], d["new"]))
    props = {}
    for l in open(os.path.join(VERIF, "properties.jsonl")):
        p = json.loads(l)
        for f in p["anchors"]["files"]:
            props.setdefault(f, []).append(p["id"])
    extra = json.loads(opt("--extra", "{}"))
    ms = []
    for root, _, files in os.walk("/repo/src/spine"):
        for f in sorted(files):
            rel = os.path.relpath(os.path.join(root, f), "/repo")
            if not ONLY.search(rel) or not f.endswith("pp"):
                continue
            ms += [m for m in mutants_of(os.path.join(root, f), rel)]
    random.Random(int(opt("--seed", "1"))).shuffle(ms)
    ms.sort(key=lambda m: m[4] == "swap") # these mostly keep the behaviour
    ms = [m for m in ms if (m[0], m[1] + 1, m[3]) not in done]
    limit = int(opt("--limit", "100000"))
    ms = ms[:limit]
    print(len(ms), "mutants", flush=True)
    if "--list" in args:
        return
    q = queue.Queue()
    for m in ms: q.put(m)
    lock = threading.Lock()
    log = open(done_path, "a")
    surv = open(os.path.join(WORK, "survivors"), "a")

    def slot(k):
        base = os.path.join(WORK, "slot%d" % k)
        repo, ver = os.path.join(base, "repo"), os.path.join(base, "verif")
        if os.path.exists(base): shutil.rmtree(base)
        shutil.copytree("/repo/src", os.path.join(repo, "src"))
        os.makedirs(ver)
        for d in ("harness", "tools"):
            shutil.copytree(os.path.join(VERIF, d), os.path.join(ver, d))
        s = open(os.path.join(VERIF, "check.py")).read()
        s = s.replace('CXX = "g++"', 'CXX = "%s"' % os.path.join(WORK, "cxx"))
        s = s.replace("os.cpu_count() or 4", "3")
        s = s.replace('"25" if tier', '"2" if tier')
        open(os.path.join(ver, "check.py"), "w").write(s)
        # a first look: one configuration, quick to compile
        s = s.replace('configs = spec["configs"]', 'configs = spec["configs"][:1]')
        s = s.replace('SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all"]', 'SAN = ["-O0"]').replace('"-g1"', '"-g0"')
        s = s.replace("if missing:", "if False:")
        open(os.path.join(ver, "first.py"), "w").write(s)
        env = dict(os.environ, VERIF_REPO=repo, VERIF_SECS=SECS, CCACHE_DIR=os.path.join(WORK, "cc"), CCACHE_BASEDIR=base, CCACHE_NOHASHDIR="1")
        while True:
            try: rel, n, old, new, what = q.get_nowait()
            except queue.Empty: return
            path = os.path.join(repo, rel)
            text = open(path).read()
            lines = text.split("\n")
            span = old.count("\n") + 1
            assert "\n".join(lines[n:n + span]) == old
            lines[n:n + span] = [new]
            open(path, "w").write("\n".join(lines))
            result, by = "SURVIVED", ""
            ids = props.get(rel, []) + extra.get(rel, [])
            for script, p in [("first.py", p) for p in ids[:2]] + [("check.py", p) for p in ids]:
                try:
                    r = subprocess.run([sys.executable, os.path.join(ver, script), p], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=400)
                    rc, out = r.returncode, r.stdout
                except subprocess.TimeoutExpired:
                    rc, out = 3, "timeout"
                if rc == 0: continue
                if script == "first.py" and rc != 1 and "compilation of" not in out: continue
                if "compilation of" in out or "linking of" in out:
                    result = "nocompile"
                elif rc == 1:
                    result, by = "killed", p
                else:
                    result, by = "error", p + " " + out[-300:]
                break
            open(path, "w").write(text)
            with lock:
                log.write(json.dumps(dict(file=rel, line=n + 1, old=old, new=new, result=result, by=by)) + "\n")
                log.flush()
                if result in ("SURVIVED", "error"):
                    surv.write("%s:%d %s %s\n  - %s\n  + %s\n" % (rel, n + 1, result, by or ids, old.strip(), new.strip()))
                    surv.flush()
    with open(os.path.join(WORK, "cxx"), "w") as f:
        f.write('#!/bin/sh\nexec ccache g++ "$@"\n')
    os.chmod(os.path.join(WORK, "cxx"), 0o755)
    ts = [threading.Thread(target=slot, args=(k,)) for k in range(SLOTS)]
    for t in ts: t.start()
    for t in ts: t.join()

main()
