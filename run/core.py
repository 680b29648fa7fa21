"""Configuration, file functions and logging against Config.tla,
FileStore.tla and Logging.tla."""
import concurrent.futures as cf, re
from common import *
from docs import model, Raw
from pipe import put, snapshot, diff, short, html_of
from prog import unprivileged, TEXTS
from browser import *
import cli


class Probe:
    def __init__(self, core, user=None, fsize=None, **env):
        def pre():
            if fsize is not None:
                import signal
                signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
                resource.setrlimit(resource.RLIMIT_FSIZE, (fsize, fsize))
        self.p = subprocess.Popen([core], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, env=env,
                                  preexec_fn=pre, restore_signals=False,
                                  **({"user": user, "group": user, "extra_groups": []} if user else {}))

    def ask(self, **k):
        try:
            self.p.stdin.write(json.dumps(k) + "\n")
            self.p.stdin.flush()
            line = self.p.stdout.readline()
        except OSError:
            line = ""
        return json.loads(line) if line else {"died": self.p.wait()}

    def close(self):
        self.p.stdin.close()
        self.p.wait()


def gen(c, name, module, consts, invariants, simulate=None, depth=None):
    out = os.path.join(newdir("gen"), "b")
    m = model(module, consts, invariants=list(invariants) + ["Emit"])
    r = tlc("MC", m["cfg"], files=m["files"], env={"GEN_OUT": out}, simulate=simulate, depth=depth, coverage=not simulate)
    c.add_tlc(r, name)
    bs = sorted({json.dumps(b, sort_keys=True) for b in read_gen(out)})
    log(f"{name}: {r.states} states, {len(bs)} behaviours")
    return [json.loads(b) for b in bs]


# ------------------------------------------------------------------ configuration

FORMS = ["none", "empty", "comment", "elsewhere", "table", "dotted", "inline", "extra", "crlf"]
BADFORMS = ["malformed", "binary", "twice", "isdir"]
ACTIONS = ["unset", "abort", "skip", "serialize", "bogus", "number", "list", "blank"]
KEEPS = ["unset", "true", "false", "maybe", "list", "blank"]
ENVA = ["unset", "abort", "skip", "serialize", "bogus", "blank"]
ENVK = ["unset", "true", "false", "maybe", "blank"]
NOISES = ["none", "other", "single", "prefix", "unknown"]
VAL = {"abort": '"abort"', "skip": '"skip"', "serialize": '"serialize"', "bogus": '"bogus"', "number": "7", "list": '["skip"]', "blank": '""',
       "true": "true", "false": "false", "maybe": '"maybe"'}
NOISE = {"none": {}, "other": {"SMD__OTHER__KEY": "x", "SMD__UNRELATED": "1"}, "single": {"SMD_PARSE__KEEP_TEMP_FILES": "true", "SMD_PARSE_ON_PARSE_ERROR": "abort"},
         "prefix": {"XSMD__PARSE__KEEP_TEMP_FILES": "true", "PARSE__ON_PARSE_ERROR": "abort"},
         "unknown": {"SMD__PARSE__UNKNOWN_KEY": "zzz"}}
ALLNOISE = sorted({k for v in NOISE.values() for k in v})
EA, EK = "SMD__PARSE__ON_PARSE_ERROR", "SMD__PARSE__KEEP_TEMP_FILES"


def content(l):
    f, form = l["file"], l["form"]
    kv = [(n, VAL[v]) for n, v in (("on_parse_error", f["action"]), ("keep_temp_files", f["keep"])) if v != "unset"]
    if form in ("none", "isdir"):
        return None
    lines = [f"{k} = {v}" for k, v in kv]
    return {"empty": "", "comment": "# nothing here\n\n", "elsewhere": "[other]\n" + "\n".join(lines) + "\n",
            "table": "[parse]\n" + "\n".join(reversed(lines)) + "\n", "crlf": "\r\n".join(["[parse]", *lines]) + "\r\n",
            "dotted": "".join(f"parse.{x}\n" for x in lines), "inline": "parse = { " + ", ".join(lines) + " }\n",
            "extra": "title = \"x\"\n\n[parse] # comment\nunknown = 3\n" + "\n".join(lines) + "\n[parse.deep]\nx = 1\n\n[more]\ny = 2\n",
            "malformed": "[parse\n" + "\n".join(lines) + "\n", "twice": "[parse]\n" + "\n".join(lines) + "\n[parse]\n",
            "binary": "[parse]\n" + "\n".join(lines)}[form]


def configure(l, conf):
    if os.path.isdir(conf):
        os.rmdir(conf)
    elif os.path.exists(conf):
        os.remove(conf)
    t = content(l)
    if l["form"] == "isdir":
        os.mkdir(conf)
    elif l["form"] == "binary":
        put(conf, t.encode() + b"\n# \xff\xfe\n")
    elif t is not None:
        put(conf, t.encode())
    return t


def envvars(l):
    e = {EA: None, EK: None, **{k: None for k in ALLNOISE}}
    e.update(NOISE[l["noise"]])
    for k, v in ((EA, l["env"]["action"]), (EK, l["env"]["keep"])):
        if v != "unset":
            e[k] = "" if v == "blank" else v
    return e


def load_all(c, core, bs, sample=400):
    """Every load of every history, through load_config and parse_from_str."""
    def shard(part):
        d = newdir("conf")
        os.makedirs(f"{d}/.config/smd")
        conf = f"{d}/.config/smd/config.toml"
        p = Probe(core, HOME=d, PATH="/usr/bin")
        bad = []
        for b in part:
            for l in b:
                t = configure(l, conf)
                p.ask(op="env", set=envvars(l))
                got = {"load": p.ask(op="load")}
                if l["form"] not in ("binary", "isdir"):
                    got["parse"] = p.ask(op="parse", content=t or "")
                r = l["result"]
                for how, g in got.items():
                    if "died" in g:
                        bad.append((l, how, g))
                        p = Probe(core, HOME=d, PATH="/usr/bin")
                        break
                    good = ("ok" in g and g["ok"]["parse"] == {"on_parse_error": r["action"], "keep_temp_files": r["keep"] == "true"}) if r["ok"] else "err" in g
                    if not good:
                        bad.append((l, how, g))
        p.close()
        return bad
    n = 8
    with cf.ThreadPoolExecutor(n) as ex:
        for bad in ex.map(shard, [bs[i::n] for i in range(n)]):
            for l, how, g in bad:
                c.violation("the effective configuration is not the layered one", how=how, expected=l["result"], got=g,
                            file=content(l), env={k: v for k, v in envvars(l).items() if v is not None}, form=l["form"])
    c.traces += len(bs)
    for b in bs[:3]:
        c.sample(b[0])


def run_all(c, binary, loads, page):
    """The program with each configuration: an error stops it before anything is written."""
    def one(l):
        d = newdir("confrun")
        os.makedirs(f"{d}/.config/smd")
        configure(l, f"{d}/.config/smd/config.toml")
        put(f"{d}/a.md", TEXTS[1].encode())
        put(f"{d}/a.html", b"old")
        before = snapshot(d)
        r = cli.smd(binary, ["parse", "-i", "a.md", "-o", "html"], d, d, **{k: v for k, v in envvars(l).items() if v is not None})
        ch = diff(before, snapshot(d))
        shutil.rmtree(d, ignore_errors=True)
        if l["result"]["ok"]:
            if r.returncode != 0 or list(ch) != ["a.html"] or ch["a.html"][1][2] != page:
                return "a valid configuration stops the run", r, ch
        elif r.returncode == 0 or ch or not r.stderr:
            return "an invalid configuration does not stop the run", r, ch
        return None
    with cf.ThreadPoolExecutor(10) as ex:
        for l, x in zip(loads, ex.map(one, loads)):
            c.traces += 1
            if x:
                c.violation(x[0], load=l, file=content(l), rc=x[1].returncode, changes=short(x[2]), stderr=x[1].stderr.decode("utf-8", "replace")[-500:])


# ------------------------------------------------------------------ files

STORE = {1: b"", 2: b"a", 3: b"line\n", 4: b"two\nwords\n", 5: "ü\n木 x\n\U0001f600\n".encode(), 6: b"\r\n", 7: b"x" * 8191 + "ü".encode(),
         8: b"w\n" * 60000, 9: "\ufefffirst\n".encode(), 10: b"nul\0\n", 11: b"\xff\xfe", 12: bytes(range(256)), 13: b"cut \xc3", 14: b"\n\n\n",
         15: b" lead\ntrail \n\n", 16: b"no newline"}
TEXTIDS = [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 14, 15, 16]
LISTIDS = [1, 3, 4, 5, 6, 8, 9, 10, 14, 15]


def words(b):
    t = b.decode()
    return [] if t == "" else t[:-1].split("\n")


def file_histories(c, core, bs, bad, user):
    def shard(part):
        out = []
        p = Probe(core, user=user, HOME="/", PATH="/usr/bin")
        for b in part:
            d = newdir("files")
            os.chmod(d, 0o755)
            if user:
                os.chown(d, user, user)
            os.mkdir(f"{d}/directory")
            put(f"{d}/secret", b"keep\n")
            os.chmod(f"{d}/secret", 0)
            paths = {"p1": f"{d}/one.txt", "p2": f"{d}/two é.bin", "p3": f"{d}/three", "directory": f"{d}/directory", "orphan": f"{d}/no/such/file",
                     "secret": f"{d}/secret", "under": f"{d}/secret/x", "empty": ""}
            put(f"{d}/bystander", b"unrelated\n")
            for i, o in enumerate(b):
                op, path, cont = o["op"], paths.get(o["path"]), STORE.get(o["content"])
                if op == "remove":
                    os.remove(path)
                    continue
                if op in ("text", "bytes"):
                    g = p.ask(op=op, path=path, hex=cont.hex())
                    good = ("ok" in g) == o["ok"]
                elif op == "store":
                    g = p.ask(op="store", path=path, words=words(cont))
                    good = ("ok" in g) == o["ok"]
                elif op == "encode":
                    g = p.ask(op="encode", words=words(cont))
                    good = g.get("ok") == cont.hex()
                elif op == "refuse":
                    g = p.ask(op="store", path=path, words=["fine", "a\nb"])
                    good = g == {"err": "serialize"}
                elif op == "read":
                    g = p.ask(op="read", path=path)
                    good = g.get("ok") == STORE[o["value"]].hex() if o["ok"] else "err" in g
                else:
                    g = p.ask(op="decode", path=path)
                    good = g.get("ok") == words(STORE[o["value"]]) if o["ok"] else "err" in g
                if not good:
                    out.append((b[:i + 1], g, "the call does not return what it should"))
                    break
                want = {os.path.basename(paths[q]): STORE[v] for q, v in o["files"].items() if v != 0}
                want["bystander"] = b"unrelated\n"
                want["secret"] = b"keep\n"
                have = {}
                for x in os.listdir(d):
                    if x != "directory":
                        with open(f"{d}/{x}", "rb") as fh:
                            have[x] = fh.read()
                if have != want:
                    out.append((b[:i + 1], {"differs": [x for x in set(have) | set(want) if have.get(x) != want.get(x)]}, "the files do not hold what they should"))
                    break
            if "died" in (g if b else {}):
                p = Probe(core, user=user, HOME="/", PATH="/usr/bin")
            shutil.rmtree(d, ignore_errors=True)
        p.close()
        return out
    n = 8
    with cf.ThreadPoolExecutor(n) as ex:
        for out in ex.map(shard, [bs[i::n] for i in range(n)]):
            for b, g, what in out:
                c.violation(what, got=json.loads(json.dumps(g)[:1000]) if len(json.dumps(g)) < 1000 else "...",
                            history=[[o["op"], o["path"], o["content"], o["ok"]] for o in b])
    c.traces += len(bs)
    for b in bs[:3]:
        c.sample([[o["op"], o["path"], o["content"], o["ok"], o["value"]] for o in b])


def limited(c, core):
    """A write that does not fit is an error, and other files stay."""
    for room in (0, 1, 100, 8192, 65536):
        d = newdir("limited")
        put(f"{d}/other", b"other\n" * 100)
        p = Probe(core, fsize=room, HOME="/", PATH="/usr/bin")
        for op in ("text", "bytes", "store"):
            for size in (room, room + 1, room + 70000):
                data = b"x" * (size - 1) + b"\n" if size else b""
                g = p.ask(op=op, path=f"{d}/f", **({"words": words(data)} if op == "store" else {"hex": data.hex()}))
                c.traces += 1
                have = open(f"{d}/f", "rb").read() if os.path.exists(f"{d}/f") else None
                if ("ok" in g) != (size <= room) or ("ok" in g and have != data) or open(f"{d}/other", "rb").read() != b"other\n" * 100:
                    c.violation("a write that does not fit", op=op, room=room, size=size, got=g, stored=None if have is None else len(have))
        p.close()


# ------------------------------------------------------------------ logging

WEIGHT = {"ERROR": 1, "WARN": 2, "INFO": 3, "DEBUG": 4, "TRACE": 5}
LOGLINE = re.compile(r"^ (ERROR|WARN|INFO|DEBUG|TRACE) +(\S+) +> (.*)$")
PLAINENV = {"unset": None, "off": "off", "error": "error", "warn": "warn", "info": "info", "debug": "debug", "trace": "trace"}
# other values: what they amount to
ODDENV = {"": "error", "INFO": "info", "OFF": "off", "nonsense": "some", "smd=debug": "some", "smd_core=trace": "some", "gfm=off,smd=info": "some",
          "=": "some", ",,,": "error", "info/Transpiling": "some", "smd=bogus": "some", "a=b=c": "some", "\udcff": "error", "warn,smd=trace": "some",
          "é": "some", "*": "some", "info,info": "info", "debug\n": "some", "0": "some"}
COMMANDS = {
    "html": (["parse", "-i", "a.md", "-o", "html"], {}), "warnings": (["parse", "-i", "b.md", "-o", "html"], {}),
    "empty": (["parse", "-i", "e.md", "-o", "html"], {}), "missing": (["parse", "-i", "nope.md", "-o", "html"], {}),
    "binary": (["parse", "-i", "bin.md", "-o", "html"], {}), "directory": (["parse", "-i", "dir", "-o", "html"], {}),
    "blocked": (["parse", "-i", "blocked.md", "-o", "html"], {}), "full": (["parse", "-i", "full.md", "-o", "html"], {}),
    "itself": (["parse", "-i", "x.html", "-o", "html"], {}), "config": (["parse", "-i", "a.md", "-o", "html"], {EA: "bogus"}),
    "initialize": (["initialize"], {}), "again": (["initialize"], {"again": "1"}), "arguments": (["parse", "-o", "docx"], {}),
    **{f"wide{k}": (["parse", "-i", f"wide{k}.md", "-o", "html"], {}) for k in range(3)},
    "nochrome": (["parse", "-i", "a.md"], {"CHROME": "/nonexistent"}), "help": (["parse", "-h"], {}),
}
PDFCOMMANDS = {"pdf": {}, "pdf-print": {"print": {"fail": "error"}}, "pdf-tab": {"tab": {"fail": "error"}}}


def tree(d, again):
    if os.path.exists(d):
        shutil.rmtree(d)
    os.makedirs(f"{d}/w/dir")
    os.makedirs(f"{d}/h/.config")
    os.mkdir(f"{d}/t")
    w = f"{d}/w"
    put(f"{w}/a.md", TEXTS[1].encode())
    put(f"{w}/b.md", "# T\n\n| a | b |\n|---|---|\n| 1 |\n\n[^1] \\x [x](javascript:1)\n\n```\nopen\n".encode())
    put(f"{w}/e.md", b"")
    for k in range(3):
        # wherever a text is cut, one of these has a character there
        put(f"{w}/wide{k}.md", ("# " + "x" * k + "木" * 90 + "\n\n" + "木" * 4000 + "\n").encode())
    put(f"{w}/bin.md", b"\xff\n")
    put(f"{w}/x.html", b"# x\n")
    put(f"{w}/blocked.md", b"# x\n")
    os.mkdir(f"{w}/blocked.html")
    put(f"{w}/full.md", b"# x\n")
    os.symlink("/dev/full", f"{w}/full.html")
    put(f"{w}/a.html", b"old " * 100)
    if again:
        os.mkdir(f"{d}/h/.config/smd")
        put(f"{d}/h/.config/smd/config.toml", b"[parse]\nkeep_temp_files = true\n")


def flags(v, i):
    return {0: [], 1: [["-v"], ["--verbose"], ["--debug"]][i % 3], 2: [["-vv"], ["-v", "-v"], ["--verbose", "--verbose"]][i % 3],
            3: ["-vvv"], 5: ["-vvvvv"]}[v]


def log_runs(c, binary, thorough):
    """Records runs of every command at every setting."""
    settings = [(0, k, v) for k, v in PLAINENV.items()] + [(0, a, s) for s, a in ODDENV.items()]
    settings += [(v, k, PLAINENV[k]) for v in (1, 2) for k in ("unset", "off", "error", "trace")] + [(3, "unset", None), (5, "info", "info")]
    ids = {}

    def parse(stderr, d):
        out = []
        for line in stderr.decode("utf-8", "replace").replace(d, "<d>").splitlines():
            if line.startswith("warning: invalid logging spec"):
                continue  # the logger library's remark about RUST_LOG itself
            m = LOGLINE.match(line)
            if not m and out and out[-1][0]:
                out[-1] = (*out[-1][:3], out[-1][3] + "\n" + line)  # the message goes on
                continue
            out.append((m.group(1), m.group(2), m.group(3), "") if m else ("", "", line, ""))
        return [(WEIGHT.get(k[0], 0), ids.setdefault(k, len(ids) + 1)) for k in out]

    def result(rc, stdout, d, printed=None):
        s = snapshot(d)
        if printed is not None:
            # the bytes a browser prints differ from run to run
            o = s.get("w/a.pdf")
            if o and o[0] == "file":
                s["w/a.pdf"] = ("printed",) if o[2] in printed else ("other", o[2])
        h = hashlib.sha1(json.dumps(short(sorted(s.items())), default=repr).encode() + b"|" + repr(sorted((k, repr(v)) for k, v in s.items())).encode())
        return [-999 if rc is None else rc, ids.setdefault(("out", stdout.decode("utf-8", "replace")), len(ids) + 1), ids.setdefault(("tree", h.hexdigest()), len(ids) + 1)]

    def run_command(item):
        name, (args, env) = item
        base = newdir("log")
        d = f"{base}/x"
        recs = []
        env = dict(env)
        again = env.pop("again", None)
        for i, (v, cls, val) in enumerate(settings):
            tree(d, again)
            r = cli.smd(binary, [*flags(v, i), *args], f"{d}/w", f"{d}/h", RUST_LOG=val, **env)
            shown = parse(r.stderr, d)
            if name.startswith("wide"):  # too many messages to compare
                shown = [m for m in shown if m[0] <= 1]
            recs.append((v, cls, val, shown, result(r.returncode, r.stdout, d)))
        # stderr that cannot be written to
        for how in ("full", "closed"):
            tree(d, again)
            sh = 'exec "$@" 2>/dev/full' if how == "full" else 'exec "$@" 2>&-'
            r = cli.smd("/bin/sh", ["-c", sh, "sh", binary, *args], f"{d}/w", f"{d}/h", **env)
            recs.append((0, "some", how, [], result(r.returncode, r.stdout, d)))
        shutil.rmtree(base, ignore_errors=True)
        return name, recs, not name.startswith("wide")

    def run_pdf(item):
        name, policy = item
        base = newdir("log")
        d = f"{base}/x"
        recs = []
        for i, (v, cls, val) in enumerate(settings):
            if not thorough and (cls == "some" or i % 2 and (v, cls) != (2, "unset")):
                continue
            tree(d, None)
            r = Run([binary, *flags(v, i), "parse", "-i", "a.md"], f"{d}/w", f"{d}/h", f"{d}/t", policy=policy, RUST_LOG=val)
            r.wait()
            shown = [m for m in parse(r.stderr, d) if m[0] <= 1]
            recs.append((v, cls, val, shown, result(r.rc, r.stdout, d, [y for _, y in r.printed()])))
        shutil.rmtree(base, ignore_errors=True)
        return name, recs, False
    with cf.ThreadPoolExecutor(8) as ex:
        a = list(ex.map(run_command, COMMANDS.items()))
        b = list(ex.map(run_pdf, PDFCOMMANDS.items()))
    return a + b, {v: k for k, v in ids.items()}


def check_logging(c, binary):
    recs, names = log_runs(c, binary, THOROUGH)
    commands, runs, index = {}, [], []
    for name, rs, exact in recs:
        full = next(r for r in rs if r[0] == 2 and r[1] == "unset")
        cn = name.replace("-", "_")
        commands[cn] = {"full": [tuple(m) for m in full[3]], "result": tuple(full[4])}
        for v, cls, val, shown, res in rs:
            runs.append({"command": cn, "v": v, "env": cls, "shown": tuple(tuple(m) for m in shown), "result": tuple(res), "exact": exact})
            index.append((name, v, val))
    c.traces += len(runs)
    start = 0
    while start < len(runs):
        m = model("Logging", dict(Commands=commands, Runs=tuple(runs[start:])), invariants=["SameResult", "RightMessages", "Reported"] + (["Monotone"] if start == 0 else []))
        r = tlc("MC", m["cfg"], files=m["files"], expect_ok=False, workers=1, coverage=False)
        c.add_tlc(r, "recorded runs" if start == 0 else None)
        if not r.violated:
            break
        i = int(re.findall(r"\bi = (\d+)", r.out)[-1])
        name, v, val = index[start + i - 1]
        run = runs[start + i - 1]
        c.violation(f"{r.violated}: {name} with -v x{v} and RUST_LOG={val!r}",
                    shown=[" ".join(names[m[1]])[:200] for m in run["shown"]][:20],
                    most_verbose=[" ".join(names[m[1]])[:200] for m in commands[run["command"]]["full"]][:20],
                    result=[run["result"][0], names[run["result"][1]], run["result"][2]], usual=list(commands[run["command"]]["result"]))
        start += i
        if len(c.violations) > 8:
            break
    for name, v, val in index[:3]:
        c.sample({"command": name, "v": v, "RUST_LOG": val})
