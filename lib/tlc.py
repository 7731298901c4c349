"""Running TLC on the specification, and collecting the behaviours it emits."""
import json, os, re, shutil, subprocess, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
WORK = os.path.join(VERIF, "work")


class TlcError(Exception):
    pass


class TlcResult:
    def __init__(self):
        self.states = self.distinct = self.depth = 0
        self.ncases = 0
        self.violation = None
        self.log = ""
        self.cases_file = None
        self.wall = 0.0


def run(tag, module, init="Init", next_="Next", invariants=(), constants=None, constraint=None, workers=1,
        simulate=None, depth=None, seed=1, heap="4g", timeout=800, env=None, postcondition=None, properties=(),
        spec=None, view=None, action_constraint=None, extra=()):
    """Runs TLC; lines printed as "CASE <json>" go to work/<tag>.cases (one JSON value per line)."""
    d = os.path.join(WORK, tag)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    cfg = []
    for k, v in (constants or {}).items():
        cfg.append(f"CONSTANT {k} = {v}" if not str(v).startswith("<-") else f"CONSTANT {k} {v}")
    if spec:
        cfg.append(f"SPECIFICATION {spec}")
    else:
        cfg += [f"INIT {init}", f"NEXT {next_}"]
    for i in invariants:
        cfg.append(f"INVARIANT {i}")
    for i in properties:
        cfg.append(f"PROPERTY {i}")
    if constraint:
        cfg.append(f"CONSTRAINT {constraint}")
    if action_constraint:
        cfg.append(f"ACTION_CONSTRAINT {action_constraint}")
    if view:
        cfg.append(f"VIEW {view}")
    if postcondition:
        cfg.append(f"POSTCONDITION {postcondition}")
    cfg.append("CHECK_DEADLOCK FALSE")
    cfgf = os.path.join(d, "M.cfg")
    with open(cfgf, "w") as f:
        f.write("\n".join(cfg) + "\n")
    cmd = ["java", f"-Xmx{heap}", "-Xss64m", "-XX:+UseParallelGC",
           "-cp", "/opt/veriftools/tla/CommunityModules-deps.jar:/opt/veriftools/tla/tla2tools.jar",
           f"-DTLA-Library={SPEC}", "tlc2.TLC", "-config", cfgf, "-metadir", os.path.join(d, "meta"),
           "-workers", str(workers), "-lncheck", "final", "-noGenerateSpecTE"]
    if simulate:
        cmd += ["-simulate", f"num={simulate}", "-seed", str(seed)]
        if depth:
            cmd += ["-depth", str(depth)]
    else:
        cmd += ["-fp", "0", "-seed", str(seed)]
    cmd += list(extra)
    cmd += [os.path.join(SPEC, module + ".tla")]
    r = TlcResult()
    r.cases_file = os.path.join(d, "cases.ndjson")
    t0 = time.time()
    e = dict(os.environ)
    e.update(env or {})
    log = []
    with open(r.cases_file, "w") as cf:
        p = subprocess.Popen(cmd, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=e,
                             encoding="utf-8", errors="replace")
        try:
            for line in p.stdout:
                if line.startswith('"CASE '):
                    cf.write(json.loads(line)[5:] + "\n")
                    r.ncases += 1
                else:
                    log.append(line)
                if time.time() - t0 > timeout:
                    p.kill()
                    raise TlcError(f"TLC timed out after {timeout}s on {module} ({tag})")
        finally:
            p.wait()
    r.wall = time.time() - t0
    r.log = "".join(log)
    with open(os.path.join(d, "tlc.log"), "w") as f:
        f.write(r.log)
    shutil.rmtree(os.path.join(d, "meta"), ignore_errors=True)
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", r.log)
    if m:
        r.states, r.distinct = int(m[-1][0]), int(m[-1][1])
    m = re.findall(r"The number of states generated: (\d+)", r.log)
    if m:
        r.states = r.distinct = int(m[-1])
    if re.search(r"Invariant \S+ is violated|is violated\.|PostCondition|Temporal properties were violated|"
                 r"Assumption .* is false|evaluated to FALSE", r.log):
        r.violation = r.log[-6000:]
    elif p.returncode != 0:
        raise TlcError(f"TLC failed (exit {p.returncode}) on {module} ({tag}):\n" + r.log[-4000:])
    return r
