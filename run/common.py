"""Shared machinery: builds from /repo's working tree, TLC runs, replay of
specification behaviours in the real renderer, evidence and verdicts."""
import json, os, re, shutil, subprocess, sys, tempfile, time, atexit, hashlib, struct

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SMD_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
SPEC = os.path.join(VERIF, "spec")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
THOROUGH = TIER == "thorough"
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NPROC = os.cpu_count() or 4
T0 = time.time()


class ToolError(Exception):
    pass


_scratch = None


def scratch():
    """A directory of this run, removed at exit."""
    global _scratch
    if _scratch is None:
        base = os.path.join(BUILD, "scratch")
        os.makedirs(base, exist_ok=True)
        _scratch = tempfile.mkdtemp(prefix="run-", dir=base)
        os.chmod(_scratch, 0o755)
        atexit.register(lambda: shutil.rmtree(_scratch, ignore_errors=True))
    return _scratch


def newdir(prefix):
    return tempfile.mkdtemp(prefix=prefix + "-", dir=scratch())


def log(*a):
    print(f"[{time.time()-T0:6.1f}s]", *a, flush=True)


# ---------------------------------------------------------------- builds

def cargo(cwd, target, *args, env=None):
    e = dict(os.environ, RUSTUP_TOOLCHAIN="nightly", CARGO_TARGET_DIR=target,
             CARGO_NET_OFFLINE="true", RUSTFLAGS="-Awarnings")
    e.update(env or {})
    r = subprocess.run(["cargo", "build", "--offline", "-q", *args], cwd=cwd, env=e,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise ToolError(f"cargo build failed in {cwd}:\n{r.stdout[-4000:]}")


def build_gfm_probe():
    t = os.path.join(BUILD, "gfm")
    cargo(os.path.join(VERIF, "harness", "gfm-probe"), t, "--release", "--locked")
    return os.path.join(t, "release", "gfm-probe")


def build_core_probe():
    t = os.path.join(BUILD, "smd")
    cargo(os.path.join(VERIF, "harness", "core-probe"), t, "--locked")
    return os.path.join(t, "debug", "core-probe")


def build_smd():
    t = os.path.join(BUILD, "smd")
    cargo(REPO, t, "--locked", "-p", "smd", "--bin", "smd")
    return os.path.join(t, "debug", "smd")


# ---------------------------------------------------------------- TLC

class TlcResult:
    def __init__(self):
        self.states = self.transitions = self.depth = 0
        self.out = ""
        self.rc = 0
        self.violated = None
        self.actions = {}


def tlc(module, cfg, env=None, workers=None, simulate=None, depth=None, timeout=600, seed=None,
        expect_ok=True, heap="6g", deadlock=False, coverage=True, files=None, continue_=False):
    """Runs TLC on a copy of the specification. cfg is the text of the
    configuration. Returns a TlcResult; raises ToolError unless TLC finished
    (with expect_ok, unless it finished without error)."""
    d = newdir("tlc")
    for f in os.listdir(SPEC):
        if f.endswith(".tla"):
            shutil.copy(os.path.join(SPEC, f), d)
    for name, text in (files or {}).items():
        with open(os.path.join(d, name), "w") as fh:
            fh.write(text)
    with open(os.path.join(d, "MC.cfg"), "w") as fh:
        fh.write(cfg)
    cmd = ["java", "-XX:+UseParallelGC", f"-Xmx{heap}", "-Xss64m", "-Dfile.encoding=UTF-8",
           "-cp", JARS, "tlc2.TLC", "-config", "MC.cfg", "-metadir", os.path.join(d, "meta"),
           "-workers", str(workers or NPROC), "-noGenerateSpecTE"]
    if not deadlock:
        cmd += ["-deadlock"]
    if coverage:
        cmd += ["-coverage", "1000"]
    if continue_:
        cmd += ["-continue"]
    if simulate:
        cmd += ["-simulate", f"num={simulate}", "-seed", str(seed if seed is not None else SEED)]
        if depth:
            cmd += ["-depth", str(depth)]
    cmd += [module + ".tla"]
    e = dict(os.environ)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True, timeout=timeout, errors="replace")
    except subprocess.TimeoutExpired:
        raise ToolError(f"TLC timed out on {module}")
    r = TlcResult()
    r.out, r.rc = p.stdout, p.returncode
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", r.out)
    if m:
        r.transitions = int(m[-1][0].replace(",", ""))
        r.states = int(m[-1][1].replace(",", ""))
    m = re.search(r"The number of states generated: ([\d,]+)", r.out)
    if m:
        r.transitions = int(m.group(1).replace(",", ""))
        r.states = r.states or r.transitions
    m = re.search(r"depth of the complete state graph search is (\d+)", r.out)
    if m:
        r.depth = int(m.group(1))
    for m in re.finditer(r"^<(\w+) line \d+.*?>: (\d+):(\d+)", r.out, re.M):
        r.actions[m.group(1)] = r.actions.get(m.group(1), 0) + int(m.group(3))
    m = re.search(r"Error: Invariant (\w+) is violated|Error: Action property (\w+) is violated|"
                  r"Error: Temporal properties were violated|Error: Deadlock reached|"
                  r"Error: Assumption .* is false|The postcondition (\w+) is violated|Error: Evaluating invariant (\w+) failed", r.out)
    if m:
        r.violated = next((g for g in m.groups() if g), m.group(0))
    finished = "Finished in" in r.out or "Finished computing" in r.out or simulate
    if p.returncode not in (0, 12, 13, 11, 10) or not finished:
        at = max(r.out.find("Error:"), 0)
        raise ToolError(f"TLC failed on {module} (rc {p.returncode}):\n{r.out[at:at + 3000]}")
    if expect_ok and (p.returncode != 0 or r.violated):
        raise ToolError(f"the specification {module} itself fails ({r.violated}):\n{r.out[-3000:]}")
    return r


def tla_set(xs):
    return "{" + ", ".join(tla(x) for x in xs) + "}"


def tla(x):
    if isinstance(x, bool):
        return "TRUE" if x else "FALSE"
    if isinstance(x, int):
        return str(x)
    if isinstance(x, str):
        return '"' + x.replace("\\", "\\\\").replace('"', '\\"').replace("\n", "\\n").replace("\t", "\\t").replace("\r", "\\r") + '"'
    if isinstance(x, (set, frozenset)):
        return tla_set(sorted(x, key=str))
    if isinstance(x, (list, tuple)):
        return "<<" + ", ".join(tla(y) for y in x) + ">>"
    if isinstance(x, dict):
        return "[" + ", ".join(f"{k} |-> {tla(v)}" for k, v in x.items()) + "]"
    raise TypeError(x)


def read_gen(path):
    """Lines written with CSVWrite(ToJson(..))."""
    out = []
    if os.path.exists(path):
        with open(path, encoding="utf-8") as fh:
            for line in fh:
                line = line.rstrip("\n")
                if line:
                    v = json.loads(line)
                    out.append(json.loads(v) if isinstance(v, str) else v)
    return out


# ---------------------------------------------------------------- replay

def _read_progress(path):
    with open(path, "rb") as fh:
        b = fh.read()
    if len(b) < 16:
        return None, ""
    i, n = struct.unpack("<QQ", b[:16])
    return i, b[16:16 + n].decode("utf-8", "replace")


def replay(probe, docs, shards=None):
    """Renders every doc ({"src", optional "exp"}) with the real code, in
    parallel processes. Returns (records, n) where records are the documents
    that panicked ('panic'), hung ('hang'), killed the process ('abort') or
    differ from 'exp' ('actual'/'expected'); without 'exp' all of them."""
    d = newdir("replay")
    shards = shards or min(NPROC, max(1, len(docs) // 200))
    procs = []
    for s in range(shards):
        part = list(range(s, len(docs), shards))
        with open(f"{d}/in{s}", "w", encoding="utf-8") as fh:
            for i in part:
                fh.write(json.dumps(docs[i]) + "\n")
        procs.append((s, part))
    results, done = [], 0

    def start(s, skip, gen):
        return subprocess.Popen([probe, "replay", f"{d}/in{s}", f"{d}/out{s}.{gen}", f"{d}/prog{s}", str(skip)],
                                stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    running = {s: (start(s, 0, 0), 0, 0) for s, _ in procs}
    parts = dict(procs)
    while running:
        for s in list(running):
            p, skip, gen = running.pop(s)
            rc = p.wait()
            part = parts[s]
            fin = False
            with open(f"{d}/out{s}.{gen}", encoding="utf-8") as fh:
                for line in fh:
                    try:
                        v = json.loads(line)
                    except ValueError:
                        continue
                    if "done" in v:
                        fin = True
                        done += v["done"]
                    else:
                        v["doc"] = docs[part[v["i"]]]
                        v["i"] = part[v["i"]]
                        results.append(v)
            if rc != 0 or not fin:
                i, doc = _read_progress(f"{d}/prog{s}")
                if i is None:
                    raise ToolError(f"probe died before the first document (rc {rc})")
                done += i - skip + 1
                results.append({"i": part[i], "doc": docs[part[i]],
                                ("hang" if rc == 77 else "abort"): f"rc {rc}"})
                if len([r for r in results if "hang" in r or "abort" in r]) < 20 and i + 1 < len(part):
                    running[s] = (start(s, i + 1, gen + 1), i + 1, gen + 1)
    shutil.rmtree(d, ignore_errors=True)
    if done < len(docs) and not any("hang" in r or "abort" in r for r in results):
        raise ToolError(f"replay covered {done} of {len(docs)} documents")
    results.sort(key=lambda r: r["i"])
    return results, done


# ---------------------------------------------------------------- verdicts

def known(prop):
    out = []
    with open(os.path.join(VERIF, "known-findings.jsonl")) as fh:
        for line in fh:
            if line.strip():
                v = json.loads(line)
                if v.get("status") == "known" and v.get("property") == prop:
                    out.append(v)
    return out


class Check:
    """Collects coverage and violations of one property and ends the run."""

    def __init__(self, prop, level="model_checking"):
        self.prop, self.level = prop, level
        self.states = self.transitions = self.traces = 0
        self.samples, self.violations, self.notes = [], [], []
        self.cov = {}
        self.assumptions = []
        self.exhaustive = None
        self.known_hit = []

    def add_tlc(self, r, name=None):
        self.states += r.states
        self.transitions += r.transitions
        if name:
            self.cov.setdefault("models", {})[name] = {
                "states": r.states, "transitions": r.transitions, "depth": r.depth,
                **({"actions": r.actions} if r.actions else {})}

    def sample(self, x, n=4):
        if len(self.samples) < n:
            self.samples.append(x)

    def violation(self, what, **data):
        self.violations.append({"what": what, **data})

    def finish(self):
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces,
               "samples": self.samples[:12], **self.cov}
        if self.exhaustive is not None:
            cov["exhaustive"] = self.exhaustive
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        ev = {"property": self.prop, "tier": TIER, "seed": SEED, "level": self.level,
              "coverage": cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - T0, 2), "violations": len(self.violations)}
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as fh:
            json.dump(ev, fh, indent=1, ensure_ascii=False)
        for k in self.known_hit:
            print(f"KNOWN-FINDING: property={self.prop} {k}")
        for n in self.notes:
            print("note:", n)
        log(f"{self.prop}: states={self.states} transitions={self.transitions} traces={self.traces} "
            f"violations={len(self.violations)}")
        if self.violations:
            os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
            path = os.path.join(VERIF, "evidence", f"{self.prop}.replay.json")
            with open(path, "w") as fh:
                json.dump(self.violations[:50], fh, indent=1, ensure_ascii=False)
            for v in self.violations[:5]:
                print("  ", json.dumps(v, ensure_ascii=False)[:1500])
            print(f"VIOLATION property={self.prop} replay={path}", flush=True)
            sys.exit(1)
        sys.exit(0)
