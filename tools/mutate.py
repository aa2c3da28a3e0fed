#!/usr/bin/env python3
"""Mutation campaign (not a registered check): mutants of /repo/src that pass the repository's tests, each run against the checks in a copy.
usage: mutate.py WORKDIR [seed] [max]; results are appended to WORKDIR/results.jsonl"""
import json, os, random, re, shutil, subprocess, sys
W = os.path.abspath(sys.argv[1]); seed = int(sys.argv[2]) if len(sys.argv) > 2 else 1; maxn = int(sys.argv[3]) if len(sys.argv) > 3 else 10**9
FILES = ["ecdf2.cc", "ecdf1_new.cc", "ecdf1_mns2016.cc", "fftwconvolver.cc", "poisson_pmf.cc", "poisson_pmf.hh", "common.cc", "common.hh", "read_boundaries_file.cc", "string_utils.cc", "crossprob.cc", "crossprob_mc.cc", "tinymt64.cc", "tinymt64.h", "aligned_mem.hh"]
ORDER = {"ecdf2.cc": "C02 C01 C07 C15 C14 C06", "ecdf1_new.cc": "C03 C05 C14 C15", "ecdf1_mns2016.cc": "C04 C14 C15", "fftwconvolver.cc": "C02 C03 C05 C14 C15 C18 C22", "poisson_pmf.cc": "C01 C02 C03 C14 C05 C15", "poisson_pmf.hh": "C03 C01 C14", "common.cc": "C07 C01", "common.hh": "C01 C02 C14",
         "read_boundaries_file.cc": "C08 C09 C07 C17", "string_utils.cc": "C08 C09 C12 C07", "crossprob.cc": "C08 C09 C07 C17", "crossprob_mc.cc": "C10 C11 C12 C09 C14 C17", "tinymt64.cc": "C20 C12 C10", "tinymt64.h": "C20 C10 C11 C12", "aligned_mem.hh": "C14 C02 C17"}
def muts(line):
    out = []
    def sub(pat, rep, why):
        for m in re.finditer(pat, line):
            r = m.expand(rep) if isinstance(rep, str) else rep(m)
            out.append((line[:m.start()] + r + line[m.end():], why))
    code = line.split("//")[0]
    if not code.strip() or code.strip().startswith(("#include", "//", "*", "/*", "using", "cout <<", "stream <<")) or "cout << \"" in code:
        return []
    sub(r"(?<![<>=!-])<(?![<=a-zA-Z_])", "<=", "< to <="); sub(r"<=", "<", "<= to <"); sub(r"(?<![<>=-])>(?![>=(&*])(?= )", ">=", "> to >="); sub(r"(?<![>])>=", ">", ">= to >")
    sub(r"==", "!=", "== to !="); sub(r"!=", "==", "!= to =="); sub(r"&&", "||", "&& to ||"); sub(r"\|\|", "&&", "|| to &&")
    sub(r"(?<=[\w\])])( ?)\+( ?)(?=[\w(])(?!\+)", r"\1-\2", "+ to -"); sub(r"(?<=[\w\])])( ?)-( ?)(?=[\w(])(?![>-])", r"\1+\2", "- to +")
    sub(r"(?<=[\w\])])( ?)\*( ?)(?=[\w(])", r"\1/\2", "* to /"); sub(r"(?<=[\w\])])( ?)/( ?)(?=[\w(])", r"\1*\2", "/ to *")
    sub(r"(?<=[\w\])])( ?)\+( ?)1\b(?!\.)", "", "drop +1"); sub(r"(?<=[\w\])])( ?)-( ?)1\b(?!\.)", "", "drop -1"); sub(r"(?<=[\w\])])( ?)\+( ?)1\b(?!\.)", "+2", "+1 to +2")
    sub(r"(?<![\w.])0(?![\w.])", "1", "0 to 1"); sub(r"(?<![\w.])1(?![\w.])", "0", "1 to 0"); sub(r"(?<![\w.])1(?![\w.])", "2", "1 to 2"); sub(r"(?<![\w.])0\.0\b", "1e-7", "0.0 to 1e-7"); sub(r"(?<![\w.])1\.0\b", "0.9999999", "1.0 to 0.9999999")
    sub(r"(?<![\w.])(\d{2,})(?![\w.])", lambda m: str(int(m.group(1)) + 1), "number+1"); sub(r"(?<![\w.])(\d{2,})(?![\w.])", lambda m: str(int(m.group(1)) * 2), "number*2")
    sub(r"\+\+(?=\w)", "--", "++ to --"); sub(r"\+=", "-=", "+= to -="); sub(r"-=", "+=", "-= to +="); sub(r"(?<![\w)])-(?=[a-z])", "", "drop sign")
    sub(r"\bmin\(", "max(", "min to max"); sub(r"\bmax\(", "min(", "max to min"); sub(r"\bfalse\b", "true", "false to true"); sub(r"\btrue\b", "false", "true to false")
    sub(r"\b(int|long)\b(?= \w+ =)", "short", "int to short"); sub(r"\bdouble\b(?= \w+ =)", "float", "double to float"); sub(r"\blong double\b", "double", "long double to double"); sub(r"uint64_t", "uint32_t", "64 to 32 bit")
    sub(r"\bif \((.*)\) \{", r"if (false) {", "if false"); sub(r"\bif \((.*)\) \{", r"if (true) {", "if true"); sub(r">>", "<<", ">> to <<"); sub(r"(?<!<)<<(?= ?\d)", ">>", "<< to >>"); sub(r"\^=", "|=", "^= to |=")
    s = code.strip()
    if s.endswith(";") and not re.match(r"(const )?(static )?(int|long|double|FLOAT|size_t|vector|string|pair|Bound|struct|typedef|extern|return|unsigned|uint64_t|fftw_plan|stringstream|std::vector|char|else|throw|bool|PoissonPMF|FFTW|DoubleBuffer|Polynomial|RandomNumber|ExponentialRNG|\}|private|public)", s) and not s.startswith("return"):
        out.append((";\n", "delete statement"))
    if re.match(r"return\b", s) and "return;" not in s and s.endswith(";"):
        pass
    return out
def sh(cmd, cwd, timeout=600, env=None):
    try:
        p = subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=env)
        return p.returncode, p.stdout.decode(errors="replace")
    except subprocess.TimeoutExpired:
        subprocess.run("pkill -9 -f %s/repo/bin/" % W, shell=True)
        return 124, "timeout"
os.makedirs(W, exist_ok=True)
all_ = []
for f in FILES:
    for i, line in enumerate(open("/repo/src/" + f)):
        for new, why in muts(line):
            if new != line: all_.append((f, i, line, new, why))
random.Random(seed).shuffle(all_)
done = set()
if os.path.exists(W + "/results.jsonl"):
    for l in open(W + "/results.jsonl"):
        j = json.loads(l); done.add((j["file"], j["line"], j["new"]))
print(len(all_), "mutants", flush=True)
for d in ("repo", "verif"):
    if not os.path.exists(W + "/" + d):
        shutil.copytree("/" + d, W + "/" + d, ignore=shutil.ignore_patterns(".git", "seeded"), symlinks=True)
env = dict(os.environ, VERIF_REPO=W + "/repo", VERIF_SCALE="0.15", VERIF_AFL="5", VERIF_LIMIT="150", VERIF_SEED="7")
for n, (f, i, line, new, why) in enumerate(all_[:maxn]):
    if (f, i + 1, new.strip()) in done: continue
    src = open("/repo/src/" + f).read().splitlines(True)
    src[i] = new if new.endswith("\n") else new + "\n"
    open(W + "/repo/src/" + f, "w").writelines(src)
    r = {"file": f, "line": i + 1, "old": line.strip(), "new": new.strip(), "why": why}
    rc, out = sh('rm -rf bin build; make -j8 CXX="g++ -w -include iterator -include limits" all && timeout 100 python3 -m pytest -q -p no:cacheprovider --timeout=60 tests', W + "/repo", 200)
    if rc: r["result"] = "build or tests"
    else:
        r["result"] = "survives"; r["ran"] = []
        for c in ORDER[f].split() + (["C06"] if "C06" not in ORDER[f] else []):
            rc, out = sh("./run %s quick 2>/dev/null" % c, W + "/verif", 420, env)
            r["ran"].append("%s:%d" % (c, rc))
            if rc == 1:
                r["result"] = c; r["text"] = [l for l in out.splitlines() if l.startswith("violated")][:1]; break
    open(W + "/repo/src/" + f, "w").write(open("/repo/src/" + f).read())
    open(W + "/results.jsonl", "a").write(json.dumps(r) + "\n")
    if r["result"] == "survives": print("SURVIVES", f, i + 1, why, "|", r["old"], "->", r["new"], r["ran"], flush=True)
