#!/usr/bin/env python3
"""Development aid: small random changes of the code, and which of them the checks notice.

mutate.py SEED COUNT OUT COPY [file-regex]   COPY: a scratch copy of the repository, changed and restored
Every line of OUT: file, line, change, outcome (killed by, SURVIVED, does not compile).
"""
import json, os, random, re, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
L = "incremental_calibration/"
I = L + "include/aslam/calibration/"
E = "incremental_calibration_examples/incremental_calibration_examples_"
MAP = [
    (L + "src/core/IncrementalEstimator.cpp", "C01 C03 C02 C07"), (L + "src/core/IncrementalOptimizationProblem.cpp", "C04 C06 C03"),
    (L + "src/core/OptimizationProblem.cpp", "C05 C06 C04"), ("aslam_tsvd_solver/", "C36"), (I + "algorithms/permute", "C08"),
    (I + "algorithms/matrix", "C09 C22"), (I + "data-structures/Grid", "C10 C22"), (I + "data-structures/Vector", "C24"),
    (I + "geometry/", "C12"), (I + "functions/", "C19 C14"), (L + "src/functions", "C19 C14"), (I + "exceptions", "C21"), (L + "src/exceptions", "C21"),
    (L + "src/base/Timestamp", "C20"), (I + "base/", "C20 C23"), (L + "src/base/", "C20 C21"), (I + "statistics/Histogram", "C11"), (I + "statistics/Estimator", "C18"), (L + "src/statistics/Estimator", "C18"),
    (I + "statistics/Randomizer", "C16 C17"), (I + "statistics/", "C13 C14 C15 C16"), (L + "src/statistics/", "C13 C14 C15 C16"),
    (E + "2dlrf/src/2dlrf/simulate-o", "C38"), (E + "time_delay/src/simulation/simulator", "C38"), (E + "egomotion_sensors/src/simulation/simulator", "C38"),
    (E + "car/src/realworld/", "C39"), (E + "camera/src/camera/calibrateCamera", "C40"), (E + "camera/src/camera/validateCamera", "C40"), ("incremental_calibration_python/", "C37"),
    (E + "2dlrf/src/2dlrf/utils", "C30 C32"), (E + "2dlrf/src/2dlrf/", "C26 C25 C32"), (E + "camera/src/camera/CameraCalibrator", "C33"), (E + "camera/src/camera/CameraValidator", "C34"),
]
for d in ("car", "time_delay", "egomotion_sensors"):
    MAP += [(E + d + "/src/algo/bestQuat", "C31"), (E + d + "/src/algo/splines", "C35"), (E + d + "/src/algo/OptimizationProblemSpline", "C35 C29"), (E + d + "/src/algo/", "C29 C28 C32"),
            (E + d + "/src/design-variables", "C28"), (E + d + "/src/error-terms", "C26 C25"), (E + d + "/src/simulation/SimulationData", "C35"), (E + d + "/src/simulation/", "C30"), (E + d + "/src/geo", "C27")]
SWAPS = [(r"<=", "<"), (r"(?<![<\-])<(?![<=\w])", "<="), (r">=", ">"), (r"(?<![>\-])> (?!>)", ">= "), (r"==", "!="), (r"!=", "=="), (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " / "), (r" / ", " * "),
         (r"&&", "||"), (r"\|\|", "&&"), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"(?<![\w.\"])0(?![\w.])", "1"), (r"(?<![\w.\"])1(?![\w.])", "0"), (r"(?<![\w.\"])1(?![\w.])", "2"), (r"\b2\.0\b", "1.0"), (r"\b0\.0\b", "1.0"), (r"\b1\.0\b", "2.0"),
         (r"\bsin\(", "cos("), (r"\bcos\(", "sin("), (r"\bfront\(", "back("), (r"\bback\(", "front("), (r"\bmin\(", "max("), (r"\bmax\(", "min("), (r"(?<=[ (])!(?=[\w_(])", ""), (r"\+=", "-="), (r"-=", "+="), (r"\+\+", "--"), (r"\bbegin\(\)", "end()"),
         (r"\bleft", "right"), (r"\bright", "left"), (r"\bRear", "Front"), (r"\brear", "front"), (r"\(2\)", "(1)"), (r"\bhead", "tail"), (r"\btranspose\(\)", "eval()"), (r"\.inverse\(\)", ""), (r"\bcontinue;", "break;"), (r"\bbreak;", "continue;")]


def sites(text):
    out = []
    lines = text.split("\n")
    comment = False
    depth = 0
    for n, l in enumerate(lines):
        s = l.strip()
        if s.startswith("/*"):
            comment = True
        if comment:
            if "*/" in s:
                comment = False
            continue
        if not s or s.startswith(("//", "#", "using", "template", "namespace", "throw", "*", "typedef", "__FILE__", "class", "std::cout", "std::cerr", "<<")) or "__FILE__" in s or "__PRETTY" in s:
            continue
        code = re.sub(r'"[^"]*"', lambda m: "\x01" * len(m.group(0)), l)
        if "<<" in code and "stream" not in code:
            continue
        for a, b in SWAPS:
            for m in re.finditer(a, code):
                if a.startswith("(?<![<") and re.search(r"(template|cast|vector|shared|Matrix|Grid|Distribution|std::|Exception)\s*$", code[:m.start()]):
                    continue
                out.append((n, l[:m.start()] + b + l[m.end():]))
        if s.endswith(";") and not s.startswith(("return", "break", "continue", "const ", "auto ", "double ", "size_t ", "int ", "public", "static", "virtual", "Eigen::", "bool ", "}", "friend")) and re.match(r"^[\w_\->.\[\]():*+ ]+ ?(=|\+=|-=|\(|\+\+)", s) and s.count("(") == s.count(")"):
            out.append((n, re.match(r"\s*", l).group(0) + ";"))
        if re.match(r"^(if|while) \(.*\)( \{)?$", s) and s.count("(") == s.count(")"):
            out.append((n, re.sub(r"\b(if|while) \((.*)\)", r"\1 (false && (\2))", l)))
    return out


def main():
    seed, count, out, copy = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3], sys.argv[4]
    want = re.compile(sys.argv[5] if len(sys.argv) > 5 else ".")
    rng = random.Random(seed)
    pool = []
    for base, _, fs in os.walk(copy):
        for f in sorted(fs):
            p = os.path.relpath(os.path.join(base, f), copy)
            if not p.endswith((".cpp", ".cc", ".tpp")) or "/test/" in p or not want.search(p):
                continue
            checks = next((c for k, c in MAP if p.startswith(k)), None)
            if not checks:
                continue
            t = open(os.path.join(copy, p), errors="replace").read()
            if re.search(r"\bint\s+main\s*\(", t) and checks not in ("C38", "C39", "C40") or "simulate-online.cpp" in p:
                continue
            pool += [(p, checks, n, r) for n, r in sites(t)]
    rng.shuffle(pool)
    print(len(pool), "sites", file=sys.stderr)
    env = dict(os.environ, VERIF_REPO=copy)
    for p, checks, n, r in pool[:count]:
        full = os.path.join(copy, p)
        t = open(full).read()
        lines = t.split("\n")
        old = lines[n]
        lines[n] = r
        open(full, "w").write("\n".join(lines))
        res = "SURVIVED " + checks
        try:
            for c in checks.split():
                try:
                    x = subprocess.run(["timeout", "400", "python3", os.path.join(V, "check.py"), c], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=V)
                except Exception as e:
                    x = None
                if x is None or x.returncode not in (0, 1):
                    res = "NOVERDICT %s %s" % (c, x and x.stdout.decode(errors="replace")[-150:].replace("\n", " "))
                    break
                if x.returncode == 1:
                    res = "killed " + c
                    break
        finally:
            open(full, "w").write(t)
        with open(out, "a") as f:
            f.write("%s\t%s:%d\t%s\t=>\t%s\n" % (res, p, n + 1, old.strip(), r.strip()))


if __name__ == "__main__":
    main()
