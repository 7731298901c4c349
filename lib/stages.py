"""The stages of each check: which models are run, and how each is bound to the code."""
import fcntl, hashlib, json, os, subprocess
import tlc
from tlc import VERIF, WORK


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.states = self.transitions = self.traces = 0
        self.samples, self.models, self.violations = [], [], []

    def model(self, tag, r, extra=None):
        self.states += r.distinct
        self.transitions += r.states
        self.models.append({"model": tag, "distinct_states": r.distinct, "states_generated": r.states,
                            "emitted": r.ncases, "wall_s": round(r.wall, 2), **(extra or {})})

    def violate(self, stage, what, case=None):
        self.violations.append({"stage": stage, "what": what, "case": case})


_built = {}
CRATES = ("core", "compiler", "scc")


def repo_hash():
    h = hashlib.sha256()
    for root, dirs, files in os.walk("/repo"):
        dirs[:] = sorted(x for x in dirs if x not in (".git", "target"))
        for n in sorted(files):
            if n.endswith((".rs", ".toml", ".lock", ".reds", ".txt")):
                p = os.path.join(root, n)
                h.update(p.encode() + b"\0" + open(p, "rb").read() + b"\0")
    return h.hexdigest()


def build(crate):
    """Builds harness/<crate> against /repo's working tree, and returns the binary."""
    if crate in _built:
        return _built[crate]
    os.makedirs(WORK, exist_ok=True)
    d = os.path.join(VERIF, "harness", crate)
    with open(os.path.join(WORK, f"build-{crate}.lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        # cargo trusts mtimes; a restored copy may carry old ones, so rebuild whenever the content differs
        stamp = os.path.join(VERIF, "target", "core", f"stamp-{crate}")
        now = repo_hash()
        clean = ""
        if not os.path.exists(stamp) or open(stamp).read() != now:
            names = [n for n in ("redscript", "redscript-decompiler", "redscript-compiler", "scc-lib", "vh-" + crate)
                     if f'name = "{n}"' in open(os.path.join(d, "Cargo.lock")).read()]
            clean = "cargo clean --release --offline " + " ".join("-p " + n for n in names) + " 2>/dev/null; "
        r = subprocess.run(["bash", "-c", f". {VERIF}/lib/env.sh; cd {d} && {clean} cargo build --release --offline 2>&1"],
                           capture_output=True, text=True)
        if r.returncode == 0 and os.path.exists(os.path.join(d, "shim.c")):
            so = os.path.join(VERIF, "target", "core", "release", "libvhshim.so")
            r = subprocess.run(["gcc", "-shared", "-fPIC", "-O1", "-o", so, os.path.join(d, "shim.c"), "-ldl"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode == 0:
            with open(stamp, "w") as f:
                f.write(now)
    if r.returncode != 0:
        raise RuntimeError(f"building harness/{crate} failed:\n" + r.stdout[-5000:])
    _built[crate] = os.path.join(VERIF, "target", "core", "release", "vh-" + crate)
    return _built[crate]


def replay(ctx, stage, family, cases_file, crate="core", limit=None):
    """Runs every case of cases_file against the code; failures become violations."""
    binary = build(crate)
    report = cases_file + "." + family + ".report"
    r = subprocess.run([binary, "replay", family, cases_file, report], capture_output=True, text=True)
    if r.returncode < 0:
        # the code under test brought the process down (abort, stack overflow): the case it was at is the counterexample
        at = int.from_bytes(open(report + ".at", "rb").read(8), "little") if os.path.exists(report + ".at") else 0
        with open(cases_file) as f:
            ctx.violate(stage, f"the process died with signal {-r.returncode}", json.loads(next(l for n, l in enumerate(f) if n == at)))
        return
    if r.returncode != 0 or not os.path.exists(report):
        raise RuntimeError(f"{stage}: the harness ended with {r.returncode}: {r.stderr[-3000:]}")
    rep = json.load(open(report))
    ctx.traces += rep["cases"]
    bad = {f["line"]: f["what"] for f in rep["failures"]}
    with open(cases_file) as f:
        for n, line in enumerate(f):
            if n == 0 and len(ctx.samples) < 6:
                ctx.samples.append({"stage": stage, "case": clip(line)})
            if n in bad:
                ctx.violate(stage, bad[n], json.loads(line))
    return rep


def clip(line, n=1500):
    line = line.strip()
    return line if len(line) <= n else line[:n] + f"... ({len(line)} bytes)"


def gen(family, module, init, next_="Next", inv=(), props=(), **kw):
    """Stage: TLC checks the invariants of module and emits behaviours, each of which is replayed into the code."""
    crate = kw.pop("crate", "core")

    def stage(ctx):
        tag = f"{ctx.prop}_{module}_{init}" + (f"_{kw['tagx']}" if "tagx" in kw else "")
        args = {k: v for k, v in kw.items() if k != "tagx"}
        r = tlc.run(tag, module, init, next_, invariants=list(inv), properties=list(props), seed=ctx.seed, **args)
        ctx.model(f"{module}!{init}", r)
        if r.violation:
            raise RuntimeError(f"the specification contradicts itself ({module}!{init}):\n{r.violation}")
        if r.ncases == 0:
            raise RuntimeError(f"{module}!{init} emitted nothing")
        replay(ctx, f"{module}!{init} -> {family}", family, r.cases_file, crate)
        if not ctx.violations:
            os.remove(r.cases_file)
    return stage


def model(module, init, next_, inv, **kw):
    """Stage: TLC checks the invariants of the specification itself (which other stages bind to the code)."""
    def stage(ctx):
        r = tlc.run(f"{ctx.prop}_{module}_{init}_{next_}", module, init, next_, invariants=list(inv), seed=ctx.seed, **kw)
        ctx.model(f"{module}!{init}/{next_}", r)
        if r.violation:
            raise RuntimeError(f"the specification contradicts itself ({module}!{init}/{next_}):\n{r.violation}")
    return stage


def judge(family, module, init, jmodule, jinv, gen_inv=("EmitCase",), jprops=(), describe=None, **kw):
    """Stage: TLC emits inputs, the harness records what the code makes of each, and TLC judges the recording."""
    crate = kw.pop("crate", "core")
    jkw = kw.pop("jkw", {})

    def stage(ctx):
        tag = f"{ctx.prop}_{module}_{init}" + (f"_{kw['tagx']}" if "tagx" in kw else "")
        args = {k: v for k, v in kw.items() if k != "tagx"}
        r = tlc.run(tag, module, init, "Next", invariants=list(gen_inv), seed=ctx.seed, **args)
        ctx.model(f"{module}!{init}", r)
        if r.violation:
            raise RuntimeError(f"the specification contradicts itself ({module}!{init}):\n{r.violation}")
        recs = r.cases_file + ".recs"
        p = subprocess.run([build(crate), "record", family, r.cases_file, recs], capture_output=True, text=True, timeout=600)
        if p.returncode < 0:
            lines = open(recs).read().count("\n") if os.path.exists(recs) else 0
            ctx.violate(f"{module}!{init} -> {jmodule}", f"the process died with signal {-p.returncode} at or after case {lines + 1}")
            return
        if p.returncode != 0:
            raise RuntimeError(f"{tag}: the recording ended with {p.returncode}: {p.stderr[-3000:]}")
        lines = open(recs).read().splitlines()
        ctx.traces += len(lines)
        if lines and len(ctx.samples) < 6:
            ctx.samples.append({"stage": f"{module}!{init} -> {jmodule}", "case": clip(lines[len(lines) // 2])})
        j = tlc.run(tag + "_judge", jmodule, "Init", "Next", invariants=list(jinv), properties=list(jprops), seed=ctx.seed,
                    env={"RECS": recs}, workers=4, **jkw)
        ctx.model(f"{jmodule} on {module}!{init}", j)
        if j.violation:
            ctx.violate(f"{module}!{init} -> {jmodule}", j.violation[:3000])
        seen = set()
        for line in open(j.cases_file):
            v = json.loads(line)
            if v["n"] in seen:
                continue
            seen.add(v["n"])
            ctx.violate(f"{module}!{init} -> {jmodule}", clip(line, 900), json.loads(lines[v["n"] - 1]))
        if not ctx.violations:
            os.remove(r.cases_file), os.remove(recs)
    return stage


def prog(init, rounds, ask=5, gen="GenProg", **kw):
    """Programs through the real compiler; TLC runs the source and the bytecode side by side."""
    return judge("prog", gen, init, "JudgeProg", ("Report",), constants={"Rounds": rounds}, crate="compiler", jkw={"constants": {"MaxAsk": ask}}, **kw)


def image(gen, init, **constants):
    """The bundles the real compiler leaves; TLC checks them as graphs of definitions."""
    return judge("image", gen, init, "JudgeImage", ("Report",), constants=constants, crate="compiler")


def defs(init, rounds):
    """Files of declarations through the real compiler; TLC compares what the bundle then defines with what they declare."""
    return judge("defs", "GenDefs", init, "JudgeDefs", ("Report",), constants={"Rounds": rounds}, crate="compiler")


# ---------------------------------------------------------------------------------------------- known findings
def known_findings(prop):
    out = []
    path = os.path.join(VERIF, "known-findings.jsonl")
    for line in open(path) if os.path.exists(path) else []:
        line = line.strip()
        if not line or line.startswith("fixed:") or line.startswith("#"):
            continue
        k = json.loads(line)
        if k["property"] != prop:
            continue
        out.append({"text": k["what"], "match": (lambda v, k=k: all(s in json.dumps(v, sort_keys=True) for s in k["match"]))})
    return out


# ---------------------------------------------------------------------------------------------- properties
def code(aspect, init, inv=("EmitCase",), mb=2, mo=2, next_="NextNone", **kw):
    return gen("code." + aspect, "GenCode", init, next_, inv, constants={"MaxBlock": mb, "MaxOps": mo}, **kw)


def bundle(aspect, init, deep):
    return gen("bundle." + aspect, "GenBundle", init, "Next", ("LayoutInv", "EmitCase"), constants={"Deep": deep}, heap="8g")


def bundles(aspect):
    return lambda t: [bundle(aspect, i, "TRUE" if t == "thorough" else "FALSE") for i in ("InitDefs", "InitStrings", "InitMixed", "InitBig")] + (
        [many(x, "InitAll") for x in ("strings", "defs")] if aspect == "roundtrip" else [])


POOL_INV = ("NoDuplicates", "FirstIsPlaceholder", "InternIsIdempotent", "EmitHist")


def many(aspect, init, sims=None):
    if sims is None:
        return gen("many." + aspect, "GenMany", init, "NextNone", ("Permutation", "EmitAll"), constants={"MaxSteps": 9})
    return gen("many." + aspect, "GenMany", init, "Next", ("Permutation", "EmitHist"), constants={"MaxSteps": 9}, simulate=sims, depth=12)


def pool(aspect):
    def f(t):
        sims = 60 if t == "quick" else 1500
        return [gen("pool." + aspect, "GenPool", "Init", "Next", POOL_INV, ("Stable", "NeverShrinks"), constants={"MaxSteps": 2}, tagx="bfs"),
                gen("pool." + aspect, "GenPool", "Init", "Next", POOL_INV, constants={"MaxSteps": 18}, simulate=sims, depth=22, tagx="sim"),
                many(aspect, "InitAll"), many(aspect, "Init", 4 if t == "quick" else 60)]
    return f


def text(module, init, jinv, rounds=1, inv="EmitText"):
    return judge("text", module, init, "JudgeText", jinv, gen_inv=(inv,), constants={"Rounds": rounds})


PROPS = {
    "C01": {"level": "model_checking", "stages": bundles("roundtrip")},
    "C02": {"level": "model_checking", "stages": bundles("layout")},
    "C03": {"level": "model_checking", "stages": lambda t: [bundle("faults", "InitFaults", "FALSE"), code("cut", "InitInstr"), code("cut", "InitBlock")]},
    "C04": {"level": "model_checking", "stages": pool("strings")},
    "C05": {"level": "model_checking", "stages": pool("defs")},
    "C06": {"level": "model_checking", "stages": lambda t: [code("bytes", "InitInstr"), code("bytes", "InitBlock", ("BlockInv", "EmitCase"), 2 if t == "quick" else 3),
                                                         code("bytes", "InitLongInstr"), code("bytes", "InitHuge"), code("bytes", "InitLong", ("BlockInv", "EmitCase"))]},
    "C07": {"level": "model_checking", "stages": lambda t: [code("locs", "InitBlock", ("BlockInv", "EmitCase")), code("locs", "InitLongLocs", ("BlockInv", "EmitCase")),
                                                         code("locs", "InitCursor", ("CursorTypeOK", "EmitCursor"), mo=2 if t == "quick" else 3, next_="NextCursor")]},
    "C08": {"level": "model_checking", "stages": lambda t: [code("label", "InitLabel", ("LabelInv", "EmitCase")), code("label", "InitLabelSame")]},
    "C09": {"level": "model_checking", "stages": lambda t: [
        gen("mapper", "GenMapper", "Init", "Next", ("Shape", "SwapTwice", "EmitHist"), constants={"MaxSteps": 1, "Small": "FALSE"}, tagx="one"),
        gen("mapper", "GenMapper", "Init", "Next", ("Shape", "SwapTwice", "EmitHist"), constants={"MaxSteps": 2, "Small": "TRUE"}, tagx="two")]},
    "C10": {"level": "model_checking", "stages": lambda t: [
        judge("flow", "GenFlow", "Init1", "JudgeFlow", ("Report",), constants={"Rounds": 1}),
        judge("flow", "GenFlow", "InitKnown", "JudgeFlow", ("Report",), constants={"Rounds": 1}),
        judge("flow", "GenFlow", "InitR", "JudgeFlow", ("Report",), constants={"Rounds": 8000 if t == "quick" else 150000}),
        judge("flow", "GenFlow", "InitMany", "JudgeFlow", ("Report",), constants={"Rounds": 1}),
        judge("flow", "GenFlow", "InitFar", "JudgeFlow", ("Report",), constants={"Rounds": 400 if t == "quick" else 10000}),
        ] + ([judge("flow", "GenFlow", "InitN", "JudgeFlow", ("Report",), constants={"Rounds": 1}),
              judge("flow", "GenFlow", "Init2", "JudgeFlow", ("Report",), constants={"Rounds": 1})] if t == "thorough" else [])},
    "C11": {"level": "model_checking", "stages": lambda t: [
        gen("expr", "GenExpr", "Init1", "Next", ("ReadsBack", "EmitCase"), constants={"Rounds": 1}),
        gen("expr", "GenExpr", "Init2", "Next", ("ReadsBack", "EmitCase"), constants={"Rounds": 1}),
        gen("expr", "GenExpr", "InitR", "Next", ("ReadsBack", "EmitCase"), constants={"Rounds": 1000 if t == "quick" else 20000})]},
    "C12": {"level": "model_checking", "stages": lambda t: [
        *[judge("locals", "GenLocals", i, "JudgeLocals", ("Right",), constants={"Rounds": 1}) for i in ("Init3", "InitAround", "InitLists", "InitSame")],
        judge("locals", "GenLocals", "InitR", "JudgeLocals", ("Right",), constants={"Rounds": 4000 if t == "quick" else 200000})]},
    "C13": {"level": "model_checking", "stages": lambda t: [
        *[text("GenText", i, ("Same",)) for i in ("InitLit", "InitPairs", "InitConv")],
        text("GenText", "InitDeep", ("Same",), 3000 if t == "quick" else 60000),
        text("GenExpr", "Init1", ("Same",), inv="EmitCase"), text("GenExpr", "Init2", ("Same",), inv="EmitCase"),
        text("GenExpr", "InitR", ("Same",), 1500 if t == "quick" else 30000, inv="EmitCase")]},
    "C14": {"level": "model_checking", "stages": lambda t: [
        text("GenFlow", "Init1", ("Same", "Laid"), inv="EmitCase"), text("GenFlow", "InitR", ("Same", "Laid"), 4000 if t == "quick" else 60000, inv="EmitCase"),
        text("GenFlow", "InitMany", ("Same", "Laid"), inv="EmitCase"),
        ] + ([text("GenFlow", "InitN", ("Same", "Laid"), inv="EmitCase"), text("GenFlow", "Init2", ("Same", "Laid"), inv="EmitCase")] if t == "thorough" else [])},
    "C15": {"level": "model_checking", "stages": lambda t: [
        judge("decl", "GenDecl", "Init1", "JudgeDecl", ("Declared", "Laid"), constants={"Rounds": 1}),
        judge("decl", "GenDecl", "InitR", "JudgeDecl", ("Declared", "Laid"), constants={"Rounds": 800 if t == "quick" else 20000})]},
    "C16": {"level": "model_checking", "stages": lambda t: [
        gen("listing", "GenCode", "InitListing", "NextNone", ("EmitCase",), constants={"MaxBlock": 1, "MaxOps": 1}),
        gen("listing", "GenCode", "InitListingLong", "NextNone", ("EmitCase",), constants={"MaxBlock": 1, "MaxOps": 1}),
        gen("listing", "GenCode", "InitListings", "NextNone", ("EmitCase",), constants={"MaxBlock": 3 if t == "quick" else 4, "MaxOps": 1})]},
    "C17": {"level": "model_checking", "stages": lambda t: [
        gen("files", "GenFiles", "Init", "Next", ("FilesInv", "EmitCase"), constants={"Funs": 3 if t == "quick" else 4}),
        gen("files", "GenFiles", "InitRnd", "Next", ("FilesInv", "EmitCase"), constants={"Funs": 8})]},
    "C19": {"level": "model_checking", "stages": lambda t: [
        gen("types", "GenTypes", "Init", "Next", ("MangleInv", "EmitCase"), constants={"Depth": 4 if t == "quick" else 6, "Wide": 2})]},
    "C18": {"level": "model_checking", "stages": lambda t: [
        gen("opts", "GenOpts", "InitO", "NextO", ("OnlyGiven", "EmitDone"), constants={"MaxGroups": 3 if t == "quick" else 4, "MaxPaths": 1}, tagx="bfs"),
        gen("opts", "GenOpts", "InitO", "NextO", ("OnlyGiven", "EmitDone"), constants={"MaxGroups": 9, "MaxPaths": 1}, simulate=40 if t == "quick" else 600, depth=12, tagx="sim")]},
    "C20": {"level": "model_checking", "stages": lambda t: [
        gen("opts", "GenOpts", "InitFix", "NextNone", ("EmitFix",), constants={"MaxGroups": 1, "MaxPaths": 4 if t == "quick" else 5}),
        gen("opts", "GenOpts", "InitSame", "NextNone", ("EmitFix",), constants={"MaxGroups": 1, "MaxPaths": 3})]},
    "C21": {"level": "model_checking", "stages": lambda t: [
        prog("InitR", 1500 if t == "quick" else 30000)]},
    "C24": {"level": "model_checking", "stages": lambda t: [
        image("GenHier", "Init", N=4 if t == "quick" else 5),
        image("GenWrap", "InitW", Rounds=1200 if t == "quick" else 20000),
        image("GenProg", "InitR", Rounds=800 if t == "quick" else 10000)]},
    "C25": {"level": "model_checking", "stages": lambda t: [
        defs("InitQ", 1), defs("InitVisibility", 1), defs("InitR", 6000 if t == "quick" else 100000)]},
    "C26": {"level": "model_checking", "stages": lambda t: [
        *[model("GenScc", "InitU", n, ("Works", "Kept"), constants={"Steps": 0, "Clock": 12 if t == "quick" else 16}, constraint="Bound")
          for n in ("NextSame", "NextSeparate", "NextBoth", "NextStopsOnly")],
        gen("scc", "GenScc", "Init", "Next", ("EmitHist",), constants={"Steps": 3 if t == "quick" else 4, "Clock": 0}, crate="scc"),
        gen("scc", "GenScc", "Init", "Next", ("EmitHist",), constants={"Steps": 12, "Clock": 0}, simulate=300 if t == "quick" else 8000, depth=15, crate="scc", tagx="long"),
        gen("scc.stops", "GenScc", "Init", "Next", ("EmitStops",), constants={"Steps": 1 if t == "quick" else 2, "Clock": 0}, crate="scc")]},
    "C27": {"level": "model_checking", "stages": lambda t: [
        judge("check", "GenCheck", "InitC", "JudgeCheck", ("Report",), constants={"Rounds": 5000 if t == "quick" else 60000}, crate="compiler")]},
    "C23": {"level": "model_checking", "stages": lambda t: [
        prog("InitW", 2500 if t == "quick" else 30000, gen="GenWrap")]},
}
