"""Behaviours of Program.tla carried out with the real smd binary in a tree of
scratch files, comparing the whole tree after every run."""
import concurrent.futures as cf, hashlib, re
from common import *
from docs import model, Raw
from browser import *
from pipe import snapshot, diff, short, put, html_of
import cli

NOBODY = 65534
TEXTS = {
    1: "# One\n\nfirst *document* with [a link](https://e.x/?a=1&b=2)\n",
    2: "# Two\n\n" + "".join(f"- item {i} of the second\n" for i in range(400)) + "\n> quoted\n",
    3: "",
    4: "no newline at the end & <b>",
    5: "# CRLF\r\n\r\nline\r\n",
    6: "\ufeff# after a mark\n\nü 木 \U0001f600\n",
    7: "".join(f"para {i} ü\n\n" for i in range(9000)),
    8: "x\n",
    9: "Text with a NUL \0 and a form feed \f\n",
}
NAMES = [("a", "md"), ("a.b", "md"), ("README", "none"), (".hidden", "md"), (".dot", "none"), ("a", "markdown"), ("a b", "md"), ("ü木", "md"),
         ("v1.2.3", "txt"), ("a.html", "md"), ("a.", "md"), ("x", "htm"), ("x", "HTML"), ("a.md", "md"), ("it's \"q\"", "md"), ("100%", "md"),
         ("a..b", "md"), ("$HOME", "md"), ("a~", "md")]
SELF = [("a", "html"), ("a.b", "html"), ("a", "pdf"), ("a.html", "pdf")]
SPELL = ["rel", "dot", "sub", "abs", "dotdot", "tilde", "link", "slashes"]
PDIRS = ["d", "a b", "x.d", "é%", "v1.0"]
CONFS = ["absent", "noparent", "fileparent", "mine", "empty", "broken", "invalid", "isdir", "binary", "unreadable"]
BAD = ["none", "noinput", "noarg", "format", "frob", "flag", "extra", "nosub", "nofile", "emptypath", "twoin", "baddir"]
ASKS = ["help", "version", "subhelp"]
CONF = {"mine": b"[parse]\non_parse_error = \"skip\"\nkeep_temp_files = true\n# mine\n", "empty": b"", "broken": b"[parse\non_parse",
        "invalid": b"[parse]\non_parse_error = \"maybe\"\n", "binary": b"\xff\xfe[parse]\n", "unreadable": b"[parse]\n"}
OLD = {"long": b"old output " * 60000, "short": b"o", "empty": b""}

DEF = dict(Names=[NAMES[0]], Docs=Raw("{1}"), Formats={"html"}, Spellings={"rel"}, Dirs={"d"}, Limits={"any"}, Edits={"edit"}, Confs=set(),
           Faults=set(), BadArgs=set(), Asks=set(), MaxOps=3)


def program(c, name, simulate=None, **kw):
    out = os.path.join(newdir("gen"), "behaviours")
    k = dict(DEF, **kw)
    k["Names"] = {tuple(n) for n in k["Names"]}
    for x in ("Confs", "Faults", "BadArgs", "Asks", "Edits", "Spellings", "Dirs", "Limits", "Formats"):
        k[x] = set(k[x])
    if not isinstance(k["Docs"], Raw):
        k["Docs"] = Raw("{" + ", ".join(map(str, k["Docs"])) + "}")
    m = model("ProgramGen", k, invariants=["Exact", "Confined", "Honest", "Once", "Emit"])
    r = tlc("MC", m["cfg"], files=m["files"], env={"GEN_OUT": out}, simulate=simulate, depth=k["MaxOps"] + 2 if simulate else None,
            coverage=not simulate)
    c.add_tlc(r, name)
    seen, bs = set(), []
    for b in read_gen(out):
        s = json.dumps(b, sort_keys=True)
        if s not in seen:
            seen.add(s)
            b["model"] = name
            bs.append((s, b))
    bs.sort(key=lambda x: x[0])
    log(f"{name}: {r.states} states, {len(bs)} behaviours")
    return [b for _, b in bs]


def says_so(stderr):
    """Whether something beyond the progress of the run was reported."""
    return any(l.strip() and not re.match(r"^ (WARN|INFO|DEBUG|TRACE) ", l) for l in stderr.decode("utf-8", "replace").splitlines())


_can = None


def unprivileged():
    """The user the runs belong to, if this process may become it."""
    global _can
    if _can is None:
        try:
            p = subprocess.run(["/bin/true"], user=NOBODY, group=NOBODY, extra_groups=[])
            d = newdir("perm")
            os.chmod(d, 0o755)
            put(d + "/x", b"x")
            q = subprocess.run(["/bin/cat", d + "/x"], user=NOBODY, group=NOBODY, extra_groups=[], stdout=subprocess.PIPE)
            _can = NOBODY if p.returncode == 0 and q.stdout == b"x" else 0
        except (PermissionError, OSError):
            _can = 0
    return _can or None


class World:
    """The tree of one behaviour."""

    def __init__(self, binary, core, b, pages, variant):
        self.binary, self.core, self.b, self.pages, self.v = binary, core, b, pages, variant
        self.root = newdir("prog")
        os.chmod(self.root, 0o755)
        self.user = unprivileged()
        stem, ext = b["name"]
        self.name = stem if ext == "none" else f"{stem}.{ext}"
        self.h = f"{self.root}/h"
        self.d = f"{self.h}/{b['dir']}"
        self.w = f"{self.root}/w"
        self.t = f"{self.root}/t"
        for x in (self.h, self.d, self.w, self.t):
            os.mkdir(x)
        os.symlink(f"h/{b['dir']}", f"{self.root}/lnk")
        self.inp = f"{self.d}/{self.name}"
        self.out = {f: f"{self.d}/{stem}.{f}" for f in ("html", "pdf")}
        mine = {self.name, *(os.path.basename(o) for o in self.out.values())}
        first = stem.lstrip(".").split(".")[0] or "x"
        for f in ("html", "pdf"):
            for x in {f"{self.name}.{f}", f"{first}.{f}", f"{stem}{f}", f"index.{f}", f"out.{f}", f"output.{f}", f"smd-1-0.{f}", f".{f}", stem, first,
                      f"{stem}.bak", f"{stem}.tmp", f"{self.name}~", f"{b['dir']}.{f}"} - mine:
                if not os.path.exists(f"{self.d}/{x}"):
                    put(f"{self.d}/{x}", b"not smd's: " + x.encode() + b"\n")
        for x in mine | {"index.html", f"{b['dir']}.html", "tmp.html"}:
            put(f"{self.w}/{x}", b"not smd's either\n")
        for x in {f"{b['dir']}.html", f"{b['dir']}.pdf"}:
            put(f"{self.h}/{x}", b"nor this\n")
        self.cdir = f"{self.h}/.config"
        self.conf = f"{self.cdir}/smd/config.toml"
        os.mkdir(self.cdir)
        # XDG_CONFIG_HOME names the directory, is not set, or is relative and so ignored
        self.xdg = [self.cdir, None, "rel/config"][variant % 3]
        # how verbose the runs are must not matter
        self.loud = [[], [], ["-v"], ["-vv"], ["-vvv"]][(variant // 12) % 5]
        self.level = [None, None, "error", "debug"][(variant // 60) % 4]
        if self.user:
            for x, ds, fs in os.walk(self.root):
                for y in [x] + [f"{x}/{f}" for f in ds + fs]:
                    os.chown(y, self.user, self.user, follow_symlinks=False)

    def own(self, p):
        if self.user:
            os.chown(p, self.user, self.user, follow_symlinks=False)

    def rm(self, p):
        if os.path.isdir(p) and not os.path.islink(p):
            shutil.rmtree(p)
        elif os.path.lexists(p):
            os.remove(p)

    def write(self, p, data):
        put(p, data)
        self.own(p)

    # ---- the user
    def edit(self, op):
        k, a = op["op"], op["arg"]
        if k == "edit":
            if os.path.isdir(self.inp):
                self.rm(self.inp)
            self.write(self.inp, TEXTS[a[0]].encode())
        elif k == "spoil":
            self.rm(self.inp)
            if a[0] == "binary":
                self.write(self.inp, b"# not utf-8 \xff\xfe\n")
            elif a[0] == "directory":
                os.mkdir(self.inp)
                self.own(self.inp)
        elif k == "place":
            o = self.out[a[0]]
            self.rm(o)
            if a[1] in OLD:
                self.write(o, OLD[a[1]])
            elif a[1] == "block":
                os.mkdir(o)
                self.own(o)
            elif a[1] == "full":
                os.symlink("/dev/full", o)
            elif a[1] == "hard":
                os.link(self.inp, o)
            elif a[1] == "soft":
                os.symlink(self.name if self.v % 2 else self.inp, o)
        elif k == "permit":
            files = [o for o in self.out.values() if os.path.isfile(o) and not os.path.islink(o)]
            os.chmod(self.d, 0o555 if a[0] == "nodir" else 0o755)
            os.chmod(self.inp, 0 if a[0] == "noread" else 0o644)
            for o in files:
                os.chmod(o, 0o444 if a[0] == "noout" else 0o644)
        elif k == "configure":
            self.rm(self.cdir)
            if a[0] == "noparent":
                return
            os.mkdir(self.cdir)
            self.own(self.cdir)
            if a[0] == "absent":
                return
            p = os.path.dirname(self.conf)
            if a[0] == "fileparent":
                self.write(p, b"a file\n")
                return
            os.mkdir(p)
            self.own(p)
            if a[0] == "isdir":
                os.mkdir(self.conf)
                self.own(self.conf)
            else:
                self.write(self.conf, CONF[a[0]])
                if a[0] == "unreadable":
                    os.chmod(self.conf, 0)

    # ---- the program
    def spelled(self, s):
        n, dn = self.name, self.b["dir"]
        return {"rel": (self.d, n), "dot": (self.d, "./" + n), "sub": (self.h, f"{dn}/{n}"), "abs": (self.w, self.inp),
                "dotdot": (self.w, f"../h/{dn}/../{dn}/{n}"), "tilde": (self.w, f"~/{dn}/{n}"), "link": (self.w, f"../lnk/{n}"),
                "slashes": (self.h, f".//{dn}//{n}")}[s]

    def args(self, f, path):
        return [["parse", "-i", path, "-o", f], ["parse", "--output", f, "--input", path], ["parse", f"--input={path}", f"--output={f}"],
                ["parse", "-o" + f, "-i" + path]][(self.v // 3) % 4]

    def run(self, args, cwd, **kw):
        return cli.smd(self.binary, [*self.loud, *args], cwd, self.h, user=self.user, XDG_CONFIG_HOME=self.xdg, RUST_LOG=self.level, **kw)

    def pdf(self, args, cwd, fault, fsize):
        e = dict(XDG_CONFIG_HOME=self.xdg, RUST_LOG=self.level)
        policy = {}
        if fault == "nochrome":
            e["CHROME"] = f"{self.root}/nochrome"
        elif fault != "ok":
            s, k = fault.split(":")
            policy = {s: {"fail": k}}
        r = Run([self.binary, *self.loud, *args], cwd, self.h, self.t, policy=policy, fsize=fsize, user=self.user, **e)
        r.wait()
        r.returncode = r.rc
        return r

    MISTAKES = {"none": [], "noinput": ["parse"], "noarg": ["parse", "-o", "html", "-i"], "format": ["parse", "-i", "{in}", "-o", "docx"],
                "frob": ["frob", "-i", "{in}"], "flag": ["parse", "-i", "{in}", "-o", "html", "--wat"], "extra": ["initialize", "x"],
                "nosub": ["-i", "{in}", "-o", "html"], "nofile": ["parse", "-i", "{d}/nope.md", "-o", "html"],
                "emptypath": ["parse", "-i", "", "-o", "html"], "twoin": ["parse", "-i", "{in}", "-i", "{in}", "-o", "html"],
                "baddir": ["parse", "-i", "{in}/x.md", "-o", "html"]}
    ASKS = {"help": ["--help"], "version": ["--version"], "subhelp": ["parse", "-h"]}

    def go(self):
        out = []
        for op in self.b["ops"]:
            if op["op"] in ("edit", "spoil", "place", "permit", "configure"):
                self.edit(op)
                continue
            before = snapshot(self.root)
            out += self.step(op, before)
            if out:
                break
        os.chmod(self.d, 0o755)
        shutil.rmtree(self.root, ignore_errors=True)
        return out

    def step(self, op, before):
        k, a, want = op["op"], op["arg"], op["status"]
        rs, page, rel, refused = [], None, None, False
        problems = []
        if k == "parse":
            f, s, l, fault = a
            cwd, path = self.spelled(s)
            page = self.pages[op["input"][1]] if op["input"][0] == "doc" else None
            rel = os.path.relpath(self.out[f], self.root)
            refused = self.out[f] == self.inp or op["outs"][f][0] == "link"
            if f == "html":
                lim = {"any": None, "exact": page and len(page), "short": page and len(page) - 1, "zero": 0}[l]
                rs = [self.run(self.args(f, path), cwd, fsize=lim)]
            else:
                lim = len(page) + 100 if l == "short" else None
                rs = [self.pdf(self.args(f, path), cwd, fault, lim)]
        elif k == "initialize":
            rs = [self.run(["initialize"], self.w)]
        elif k == "both":
            with cf.ThreadPoolExecutor(2) as ex:
                rs = list(ex.map(lambda _: self.run(["initialize"], self.w), range(2)))
        else:
            sub = lambda x: x.replace("{in}", self.inp).replace("{d}", self.d)
            rs = [self.run([sub(x) for x in (self.MISTAKES if k == "mistake" else self.ASKS)[a[0]]], self.w)]
        after = snapshot(self.root)
        ch = diff(before, after)
        rc = [r.returncode for r in rs]
        info = {"rc": rc, "stderr": rs[0].stderr.decode("utf-8", "replace")[-700:]}
        if any(x is None for x in rc):
            problems.append(("hang", f"{k} did not end", info))
        if k == "both":
            ok = (0 in rc) if want == 0 else (0 not in rc)
        else:
            ok = (rc[0] == 0) == (want == 0)
        fmt = a[0] if k == "parse" else None
        if not ok and want == 0:
            problems.append((f"denied-{fmt or k}", f"{k} {a} failed", info))
        if not ok and want == 1:
            problems.append(("lied", f"{k} {a} reported success", info))
            if refused:
                problems.append(("stray", f"{k} {a} was not refused", info))
        if want == 1 and ok and not all(says_so(r.stderr) for r in rs):
            problems.append(("silent", f"{k} {a} failed without a message", info))
        if any(x is not None and (x < 0 or x > 128) for x in rc):
            problems.append(("crash", f"{k} {a} ended abnormally", info))
        if k == "parse":
            c = ch.pop(rel, None)
            if want == 0 and ok:
                got = after.get(rel)
                if fmt == "html":
                    exp = [page]
                else:
                    pr = rs[0].printed()
                    exp = [y for x, y in pr if x == page]
                if got is None or got[0] != "file" or got[2] not in exp:
                    problems.append((f"content-{fmt}", f"{k} {a}: the output is not the rendering of the input",
                                     dict(info, got=repr(got[2][:200] if got and got[0] == "file" else got), expected=repr(exp[:1])[:200])))
            elif want == 1 and c is not None:
                if refused:
                    problems.append(("stray", f"{k} {a} changed the input", dict(info, change=short(c))))
                elif op["outs"][fmt] == ["partial"]:
                    got = after.get(rel)
                    if fmt == "html" and (got is None or got[0] != "file" or not page.startswith(got[2])):
                        problems.append(("stray", f"{k} {a}: something else was written", dict(info, got=short(got))))
                else:
                    problems.append(("touched", f"{k} {a} failed but its output changed", dict(info, change=short(c))))
        elif k in ("initialize", "both") and want == 0 and ok:
            for x in list(ch):
                if (x == "h/.config" or x == "h/.config/smd") and ch[x][0] is None and ch[x][1][0] == "dir":
                    ch.pop(x)
            c = ch.pop("h/.config/smd/config.toml", (None, None))[1]
            e = cli.env_for(self.h, XDG_CONFIG_HOME=self.xdg)
            p = subprocess.run([self.core], input=b'{"op":"load"}\n{"op":"default"}\n', env=e, stdout=subprocess.PIPE)
            try:
                loaded, default = [json.loads(x) for x in p.stdout.splitlines()]
            except ValueError:
                loaded, default = None, 0
            if c is None or c[0] != "file" or not c[2] or loaded != {"ok": default}:
                problems.append(("config", f"{k}: no loadable default configuration", dict(info, got=short(c), loaded=loaded)))
        for x, v in ch.items():
            kind = "config" if x.startswith("h/.config") and k in ("initialize", "both") else "stray"
            problems.append((kind, f"{k} {a} changed {x}", dict(info, change=short(v))))
            if kind == "config":
                problems.append(("stray", f"{k} {a} changed {x}", dict(info, change=short(v))))
        return problems


def carry_out_programs(c, binary, core, bs, aspects, nthreads=None):
    probe = build_gfm_probe()
    pages = {d: html_of(probe, t) for d, t in TEXTS.items()}
    if not unprivileged():
        bs = [b for b in bs if not any(o["op"] == "permit" or o["arg"] == ["unreadable"] for o in b["ops"])]
        c.assumptions.append("file permissions were not exercised: the check could not run as an unprivileged user")
    else:
        os.chmod(os.path.dirname(chrome()), 0o755)
    pdf = any(o["op"] == "parse" and o["arg"][0] == "pdf" for b in bs for o in b["ops"])

    def go(ib):
        i, b = ib
        v = int(hashlib.md5(json.dumps(b, sort_keys=True).encode()).hexdigest()[:6], 16)
        return b, World(binary, core, b, pages, v).go()
    n = 0
    with cf.ThreadPoolExecutor(nthreads or (24 if pdf else 10)) as ex:
        for b, problems in ex.map(go, enumerate(bs)):
            c.traces += 1
            c.sample({"model": b["model"], "name": b["name"], "ops": [[o["op"], o["arg"], o["status"]] for o in b["ops"]]}, n=8)
            for aspect, what, data in problems:
                if aspect in aspects:
                    c.violation(what, aspect=aspect, model=b["model"], name=b["name"], dir=b["dir"],
                                ops=[[o["op"], o["arg"], o["status"]] for o in b["ops"]], **data)
