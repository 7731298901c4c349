"""A mutation campaign: single-line changes to the sources, each run against the checks that should notice.

mutate.py list SEED N           prints N mutants, spread over the files
mutate.py work FILE OUT K M     (inside a mount namespace where /repo, /verif and /opt/vp are this worker's copies) runs mutants
                                K, K+M, ... of FILE; appends one JSON line each to OUT: invalid, caught (by what), killed (by the tests), or survived
campaign.sh starts the workers."""
import json, os, random, re, subprocess, sys
F = {"core/src/bytecode.rs": "C16 C06 C07 C08 C03 C02 C11 C10 C09", "core/src/bundle.rs": "C05 C04 C02 C01 C03", "core/src/definition.rs": "C02 C17 C01 C03 C05 C09 C15",
     "core/src/encode.rs": "C06 C02 C03 C01", "core/src/decode.rs": "C06 C02 C03 C01", "core/src/io.rs": "C06 C02 C01 C03", "core/src/mapper.rs": "C09", "core/src/ast.rs": "C19 C11 C13 C10 C14",
     "decompiler/src/lib.rs": "C11 C12 C10", "decompiler/src/print.rs": "C16 C15 C13 C14", "decompiler/src/files.rs": "C17", "scc/cli/src/opts.rs": "C18 C20",
     "compiler/src/assembler.rs": "C21 C23", "compiler/src/cte.rs": "C25", "compiler/src/parser.rs": "C25 C21 C23", "compiler/src/scope.rs": "C25 C21 C23", "compiler/src/source_map.rs": "C25 C24",
     "compiler/src/sugar.rs": "C21 C23", "compiler/src/symbol.rs": "C25 C23", "compiler/src/transform.rs": "C21 C23", "compiler/src/typechecker.rs": "C21 C23 C25", "compiler/src/unit.rs": "C25 C24 C23 C21",
     "scc/lib/src/lib.rs": "C26", "scc/lib/src/timestamp.rs": "C26"}
SUBS = [(r"==", "!="), (r"!=", "=="), (r" < ", " <= "), (r" > ", " >= "), (r" <= ", " < "), (r" >= ", " > "), (r"&&", "||"), (r"\|\|", "&&"),
        (r" \+ ", " - "), (r" - ", " + "), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\bif ", "if !"), (r"\bif !", "if "),
        (r"(?<![\w.])0(?![\w.])", "1"), (r"(?<![\w.])1(?![\w.])", "2"), (r"(?<![\w.])(\d\d?)(?![\w.])", lambda m: str(int(m.group(1)) + 1)),
        (r"\.iter\(\)", ".iter().rev()"), (r"\.iter\(\)", ".iter().skip(1)"), (r"\.iter\(\)", ".iter().take(1)"), (r"\.is_some\(\)", ".is_none()"), (r"\.is_none\(\)", ".is_some()"),
        (r"\.first\(\)", ".last()"), (r"\.last\(\)", ".first()"), (r"\.min\(\)", ".max()"), (r"\.min\(", ".max("), (r"\.next\(\)", ".last()"), (r"\bSome\(([^()]*)\)", "None"),
        (r"\bbreak\b", "continue"), (r"\bcontinue\b", "break"), (r"\bOk\((\w+)\)", None), (r"depth \+ 1", "depth"), (r"\.rev\(\)", ""), (r"\*self", "*self"),
        (r"\bu16\b", "u8"), (r"\bi16\b", "i8"), (r"\bu32\b", "u16"), (r"\bi64\b", "i32"), (r"\bpop\b", "peek"), (r"\bany\(", "all("), (r"\ball\(", "any("),
        (r"\bis_empty\(\)", "len() == 1"), (r"\bread_exact\b", "read"), (r"\bwrite_all\b", "write"), (r"matches!\(", "!matches!("), (r"\bunwrap_or\(([^()]*)\)", "unwrap_or_default()"),
        (r"\bSome\((\w+)\) =>", r"Some(\1) if false =>")]


def mutants(path):
    src = open("/repo/" + path).read().splitlines(keepends=True)
    out = []
    for n, line in enumerate(src):
        if "cfg(test)" in line:
            break
        t = line.strip()
        if not t or t.startswith(("//", "#[", "use ", "pub use", "mod ", "pub mod")):
            continue
        for pat, rep in SUBS:
            if rep is None:
                continue
            for m in re.finditer(pat, line):
                new = line[:m.start()] + (m.expand(rep) if isinstance(rep, str) else rep(m)) + line[m.end():]
                if new != line:
                    out.append((n, new))
        # a statement left out
        if t.endswith(";") and not t.startswith(("let ", "return", "pub ", "const ", "type ", "}")) and line.count("(") == line.count(")"):
            out.append((n, line[: len(line) - len(line.lstrip())] + "\n"))
        # an argument list turned round
        for m in re.finditer(r"\((\w+), (\w+)\)", line):
            out.append((n, line[:m.start()] + f"({m.group(2)}, {m.group(1)})" + line[m.end():]))
        # a case of a match that takes the place of another
        if t.endswith(",") and "=>" in t and n + 1 < len(src) and src[n + 1].strip().endswith(",") and "=>" in src[n + 1] and t.count("=>") == 1 == src[n + 1].count("=>"):
            a, b = line.split("=>"), src[n + 1].split("=>")
            if a[1].strip() != b[1].strip():
                out.append((n, a[0] + "=>" + b[1]))
    return [{"file": path, "line": n + 1, "old": src[n], "new": new} for n, new in dict.fromkeys(out)]


def sh(c, timeout=None):
    try:
        return subprocess.run(c, shell=True, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        return subprocess.CompletedProcess(c, 124, "", "")


def work(mfile, out, k, m):
    todo = [json.loads(l) for l in open(mfile)][k::m]
    done = {(r["file"], r["line"], r["new"]) for r in map(json.loads, open(out))} if os.path.exists(out) else set()
    base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    for x in todo:
        if (x["file"], x["line"], x["new"]) in done:
            continue
        p = "/repo/" + x["file"]
        src = open(p).read().splitlines(keepends=True)
        keep = list(src)
        assert src[x["line"] - 1] == x["old"], x
        src[x["line"] - 1] = x["new"]
        open(p, "w").write("".join(src))
        res = {"verdict": "survived", "by": []}
        try:
            if sh("cd /verif && . lib/env.sh && cd harness/" + ("compiler" if "compiler/" in p else "scc" if "scc/lib" in p else "core") + " && cargo build --release --offline").returncode != 0:
                res["verdict"] = "invalid"
            else:
                for c in F[x["file"]].split():
                    r = sh(f"cd /verif && python3 check.py {c} quick", 900)
                    if r.returncode != 0:
                        res = {"verdict": "caught" if r.returncode == 1 else "no answer", "by": [c], "out": (r.stdout + r.stderr)[-400:] if r.returncode != 1 else ""}
                        break
            if res["verdict"] == "survived":
                b = sh("bash /opt/vp/build.sh")
                if b.returncode != 0:
                    res["verdict"] = "invalid"
                else:
                    sh(f"bash /opt/vp/test.sh /tmp/mut-{k}.json")
                    passed = set(json.load(open(f"/tmp/mut-{k}.json"))["passed"])
                    if set(base) - passed:
                        res["verdict"] = "killed"
        finally:
            open(p, "w").write("".join(keep))
        with open(out, "a") as f:
            f.write(json.dumps({**x, **res}) + "\n")


if sys.argv[1] == "list":
    rnd = random.Random(int(sys.argv[2]))
    per = {p: mutants(p) for p in F}
    for p in per:
        rnd.shuffle(per[p])
        print(p, len(per[p]), file=sys.stderr)
    want, n = [], int(sys.argv[3])
    total = sum(len(v) ** 0.7 for v in per.values())
    for p, v in per.items():
        want += v[: max(4, round(n * len(v) ** 0.7 / total))]
    rnd.shuffle(want)
    for x in want:
        print(json.dumps(x))
else:
    work(sys.argv[2], sys.argv[3], int(sys.argv[4]), int(sys.argv[5]))
