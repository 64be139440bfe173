#!/usr/bin/env python3
"""Development aid: applies small syntactic changes to one source file of a copy
of /repo, one at a time, and reports which ones the given checks do not notice.

usage: mutate.py FILE PROP[,PROP] [--jobs N] [--lines A-B] [--tests] [--max N]
FILE is relative to mpact/sim. A survivor is printed with its line; survivors
are to be reviewed by hand (many are equivalent). Nothing in /repo changes.
"""
import argparse, concurrent.futures as cf, os, queue, random, re, shutil, subprocess, sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ROOT = "/tmp/mut"
SUBS = [(r"(?<=[\w\)\]]) < (?=[\w\(\-])", [" <= ", " > "]), (r" <= ", [" < "]), (r"(?<=[\w\)\]]) > (?=[\w\(\-])", [" >= "]), (r" >= ", [" > "]),
        (r" == ", [" != "]), (r" != ", [" == "]), (r" && ", [" || "]), (r" \|\| ", [" && "]),
        (r" \+ 1\b", ["", " + 2"]), (r" - 1\b", ["", " - 2"]), (r" \+ (?!1\b)", [" - "]), (r" - (?!1\b)", [" + "]),
        (r"\+\+", ["--"]), (r"--", ["++"]), (r" << ", [" >> "]), (r" >> ", [" << "]), (r" & ", [" | "]), (r" \| ", [" & "]), (r" \^ ", [" | "]),
        (r" \+= ", [" -= ", " = "]), (r" -= ", [" += "]), (r" \|= ", [" = ", " &= "]), (r" &= ", [" = ", " |= "]), (r" \* ", [" / "]), (r" / ", [" * "]), (r" % ", [" / "]),
        (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]), (r"(?<=\()!(?=\w)", [""]), (r"~(?=\w|\()", [""]),
        (r"\b0\b", ["1"]), (r"\b1\b", ["0", "2"]), (r"\b([2-9]|[1-9]\d+)\b(?!_t)", ["\\1 + 1", "\\1 - 1"]),
        (r"\bbegin\(\)", ["end()"]), (r"push_back", ["push_front"]), (r"front\(\)", ["back()"]), (r"\bmin\b", ["max"]), (r"\bmax\b", ["min"])]


def mutants(text, lo, hi):
    lines = text.split("\n")
    out, seen = [], set()
    incomment = False
    for i, l in enumerate(lines):
        if i + 1 < lo or i + 1 > hi:
            continue
        s = l.strip()
        if s.startswith("/*"):
            incomment = True
        if incomment:
            if "*/" in s:
                incomment = False
            continue
        if not s or s.startswith("//") or s.startswith("#") or s.startswith("LOG") or s.startswith("using ") or s.startswith("namespace"):
            continue
        code = l.split("//")[0]
        for pat, reps in SUBS:
            for m in re.finditer(pat, code):
                if code[:m.start()].count('"') % 2:
                    continue
                for r in reps:
                    n = code[:m.start()] + m.expand(r) + code[m.end():]
                    if n != code and (i, n) not in seen:
                        seen.add((i, n))
                        out.append((i, n))
        m = re.match(r"^(\s*)if \((.*)\) \{$", code)
        if m:
            for c in ("!(%s)" % m.group(2), "true || (%s)" % m.group(2), "false && (%s)" % m.group(2)):
                out.append((i, "%sif (%s) {" % (m.group(1), c)))
        if s.endswith(";") and not re.match(r"^(return|break|continue|using|typedef|friend|virtual|static|struct|class|public|private|case)\b", s) and \
                re.match(r"^\s*[\w:\->\.\[\]\(\)\*&, ]+(\(|=|\+\+|--)", code) and not re.match(r"^\s*(const |auto\*? |auto&? |int |unsigned |uint\w+ |size_t |bool |std::|absl::|template)\S* *\w+( =|;|\()", code) and not s.startswith(")"):
            prev = lines[i - 1].strip() if i else ""
            if prev.endswith((";", "{", "}", ":")) or prev.startswith("//"):
                out.append((i, re.match(r"^\s*", code).group(0) + ";"))
        if re.match(r"^\s*return [^;]+;$", code):
            for r in ("true", "false", "nullptr", "0"):
                pass
    return lines, out


def slot_setup(k):
    d = os.path.join(ROOT, str(k))
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    subprocess.check_call("mkdir -p %s/repo && cp -a /repo/mpact %s/repo/ && mkdir %s/verif && cp -a %s/build %s/engine %s/harness %s/runtime %s/shim %s/shim_dec %s/shim_antlr %s/tools %s/known_findings.txt %s/verif/ && mkdir -p %s/verif/evidence"
                          % (d, d, d, V, V, V, V, V, V, V, V, V, d, d), shell=True)
    return d


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("file")
    ap.add_argument("props")
    ap.add_argument("--jobs", type=int, default=4)
    ap.add_argument("--lines", default="1-100000")
    ap.add_argument("--max", type=int, default=0)
    ap.add_argument("--skip", default="")
    ap.add_argument("--timeout", type=int, default=240)
    a = ap.parse_args()
    rel = "mpact/sim/" + a.file
    text = open("/repo/" + rel).read()
    lo, hi = map(int, a.lines.split("-"))
    lines, ms = mutants(text, lo, hi)
    if a.skip:
        ms = [m for m in ms if not re.search(a.skip, lines[m[0]])]
    if a.max and len(ms) > a.max:
        random.seed(1)
        ms = sorted(random.sample(ms, a.max))
    q = queue.Queue()
    base = os.getpid()
    for k in range(a.jobs):
        q.put(slot_setup("%d_%d" % (base, k)))
    count = dict(killed=0, invalid=0, survived=0, timeout=0)

    def one(m):
        i, n = m
        d = q.get()
        try:
            t = list(lines)
            t[i] = n
            open(os.path.join(d, "repo", rel), "w").write("\n".join(t))
            c = subprocess.run(["clang++-18", "-std=c++17", "-w", "-fsyntax-only", *(["-I" + V + "/shim_dec", "-I" + V + "/shim_antlr", "-I/tmp/g4"] if a.file.startswith("decoder") else []), "-I" + V + "/shim", "-I" + d + "/repo", "-x", "c++", os.path.join(d, "repo", rel)], capture_output=True)
            if c.returncode:
                return m, "invalid", ""
            res = []
            for p in a.props.split(","):
                try:
                    r = subprocess.run(["python3", d + "/verif/tools/check.py", p], env=dict(os.environ, VF_REPO=d + "/repo"), capture_output=True, text=True, timeout=a.timeout)
                except subprocess.TimeoutExpired:
                    return m, "timeout", p
                if r.returncode == 1:
                    return m, "killed", p
                res.append(r.returncode)
                if r.returncode not in (0, 1):
                    return m, "error", r.stdout[-300:]
                if "exhaustive=False" in r.stdout:
                    return m, "incomplete", r.stdout[-300:]
            return m, "survived", str(res)
        finally:
            q.put(d)
    with cf.ThreadPoolExecutor(a.jobs) as ex:
        for m, st, info in ex.map(one, ms):
            count[st] = count.get(st, 0) + 1
            if st not in ("killed", "invalid"):
                print("%s %s:%d\n  - %s\n  + %s %s" % (st.upper(), a.file, m[0] + 1, lines[m[0]].strip(), m[1].strip(), info if st != "survived" else ""), flush=True)
    print(a.file, count)
    for k in range(a.jobs):
        shutil.rmtree(os.path.join(ROOT, "%d_%d" % (base, k)), ignore_errors=True)


if __name__ == "__main__":
    main()
