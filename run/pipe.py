"""PDF conversions: behaviours of Pipeline.tla carried out with real runs of
smd whose browsers take exactly the steps of the behaviour."""
import concurrent.futures as cf, random, re
from common import *
from docs import model, generate, Raw
from browser import *

FAULTS = [("launch", "root"), ("launch", "refuse"), ("launch", "missing"), ("tab", "error"), ("tab", "die"), ("tab", "close"),
          ("navigate", "error"), ("navigate", "nav"), ("navigate", "die"), ("navigate", "close"), ("load", "die"), ("load", "close"),
          ("load", "destroy"), ("print", "error"), ("print", "die"), ("print", "close"), ("print", "garbage"), ("save", "dir")]
FAST = [f for f in FAULTS if f not in (("load", "die"), ("load", "close"))]
DIRS = ["plain", "a b", "100%", "%41", "a#b", "what?x", "ü木", "it's", "q\"q", "a&b;c", "[x]", "+p", "~t", "x.html", "$v"]
BYSTANDERS = ["index.html", "tmp.html", "temp.html", "out.html", "output.html", "smd.html", "smd-1-0.html", "test.html", ".smd.html", "notes.txt"]


def pipeline(c, name, runs, faults=(), maxfaults=0, takens=None, olds=None, dirs=("plain",), places=("here",), simulate=None, live=True):
    out = os.path.join(newdir("gen"), "behaviours")
    P = Raw(f"1..{runs}")
    sub = lambda xs: Raw("{" + ", ".join("{" + ", ".join(map(str, x)) + "}" for x in xs) + "}")
    m = model("PipelineGen", dict(Runs=P, Faults={tuple(f) for f in faults}, MaxFaults=maxfaults,
                                  Takens=sub(takens if takens is not None else [()]), Olds=sub(olds if olds is not None else [()]),
                                  Dirs=set(dirs), Places=set(places)),
              invariants=["Own", "Truth", "Tidy", "Kept", "Apart", "Earned", "Emit"], properties=["AllEnd"] if live and not simulate else [])
    r = tlc("MC", m["cfg"], files=m["files"], env={"GEN_OUT": out}, simulate=simulate, depth=runs * 12 if simulate else None,
            coverage=not simulate)
    c.add_tlc(r, name)
    seen, bs = set(), []
    for b in read_gen(out):
        k = json.dumps(b, sort_keys=True)
        if k not in seen:
            seen.add(k)
            b["model"] = name
            bs.append(b)
    bs.sort(key=lambda b: json.dumps(b, sort_keys=True))
    log(f"{name}: {r.states} states, {len(bs)} behaviours")
    return bs


def snapshot(root):
    """Every path under root with its kind, mode and content."""
    out = {}
    for d, ds, fs in os.walk(root):
        for x in ds + fs:
            p = os.path.join(d, x)
            r = os.path.relpath(p, root)
            st = os.lstat(p)
            if os.path.islink(p):
                out[r] = ("link", os.readlink(p))
            elif os.path.isdir(p):
                out[r] = ("dir", oct(st.st_mode & 0o7777))
            elif os.path.isfile(p):
                with open(p, "rb") as fh:
                    out[r] = ("file", oct(st.st_mode & 0o7777), fh.read())
            else:
                out[r] = ("other", st.st_mode)
    return out


def diff(a, b):
    return {k: (a.get(k), b.get(k)) for k in sorted(set(a) | set(b)) if a.get(k) != b.get(k)}


def short(x):
    return json.loads(json.dumps(x, default=lambda b: repr(b[:60]) if isinstance(b, bytes) else repr(b)))


def put(path, data):
    with open(path, "wb") as fh:
        fh.write(data)


def doc(p):
    return f"# Document {p}\n\nText of **{p}** with `code {p}` &amp; ü\n" + f"- item {p}\n" * p


_tmpl = {}


def learn(binary):
    """The temporary file a lone run uses, as a pattern of its pid."""
    if binary not in _tmpl:
        d = newdir("learn")
        for x in ("w", "h", "t"):
            os.mkdir(f"{d}/{x}")
        put(f"{d}/w/a.md", b"# x\n")
        r = Run([binary, "parse", "-i", "a.md"], f"{d}/w", f"{d}/h", f"{d}/t", gated=["navigate"])
        url = None
        s = r.step()
        if s:
            url = s[1]["url"]
            s[0].answer({})
        r.wait()
        t = None
        if url and url.startswith("file://"):
            t = url[7:].replace(str(r.pid), "{pid}")
            for k, v in (("w", "{cwd}"), ("t", "{tmp}")):
                t = t.replace(os.path.realpath(f"{d}/{k}"), v).replace(f"{d}/{k}", v)
        _tmpl[binary] = t
    return _tmpl[binary]


def html_of(probe, text):
    r = subprocess.run([probe, "fresh"], input=text.encode(), stdout=subprocess.PIPE, check=True)
    return r.stdout


def carry_out(binary, b, htmls, tmpl, settle=True):
    """Carries out one behaviour. Returns (problems, facts): a problem is
    (aspect, text, data)."""
    d = newdir("pipe")
    runs = list(range(1, len(b["status"]) + 1))
    w, wd = b["world"], f"{d}/{b['world']['dir']}"
    os.mkdir(wd)
    os.mkdir(f"{d}/h")
    problems = []
    inputs, outs, tmps, plan = {}, {}, {}, {p: {} for p in runs}
    for p, step, o in b["steps"]:
        plan[p][step] = o
    for x in BYSTANDERS:
        put(f"{wd}/{x}", b"file of the user " + x.encode() + b"\n")
    for p in runs:
        dd = wd if w["place"] == "here" else f"{d}/in{p}"
        os.makedirs(dd, exist_ok=True)
        n = f"doc{p}" if w["place"] == "here" else "doc"
        inputs[p], outs[p] = f"{dd}/{n}.md", f"{dd}/{n}.pdf"
        put(inputs[p], doc(p).encode())
        put(f"{dd}/{n}.html", b"html of the user\n")
        if plan[p].get("save") == "dir":
            os.mkdir(outs[p])
        elif p in w["old"]:
            put(outs[p], b"%PDF old " + b"x" * 5000)
        tmps[p] = f"{d}/t{p}"
        os.mkdir(tmps[p])
    rs = {p: Run([binary, "parse", "-i", inputs[p]], wd, f"{d}/h", tmps[p], gated=["launch", "tab", "navigate", "load", "print"],
                 launch={"before": 1 + p % 2, "after": (p + 1) % 2}, hold=True,
                 **({"CHROME": f"{d}/nochrome"} if plan[p].get("launch") == "missing" else {})) for p in runs}
    if tmpl:
        for p in w["taken"]:
            x = tmpl.replace("{pid}", str(rs[p].pid)).replace("{cwd}", wd).replace("{tmp}", tmps[p])
            if not os.path.exists(x):
                put(x, b"taken by the user\n")
    before = snapshot(d)
    for p in runs:
        rs[p].go()
    here = {}

    def arrive(p):
        if p not in here:
            here[p] = rs[p].step()
        return here[p]

    for p, step, o in b["steps"]:
        if step == "save" or (step, o) == ("launch", "missing"):
            continue
        s = arrive(p)
        if s is None:
            problems.append(("ends", f"run {p} ended before its browser's step {step}", {}))
            continue
        x, m = s
        if m["step"] != step:
            problems.append(("ends", f"run {p}: the browser was asked to {m['step']}, expected {step}", {}))
        here.pop(p)
        x.answer(rs[p].reply(m["step"], {} if o == "ok" else {"fail": o}))
        if settle and (o == "ok" and step != "print"):
            arrive(p)
        elif settle:
            try:
                rs[p].p.wait(40)
            except subprocess.TimeoutExpired:
                pass
    # steps beyond the behaviour: let them pass
    for p in runs:
        while True:
            s = here.pop(p, None) or rs[p].step()
            if s is None:
                break
            problems.append(("ends", f"run {p}: the browser was asked to {s[1]['step']} after the failure", {}))
            s[0].answer({})
    for p in runs:
        rs[p].wait()
    after = snapshot(d)
    ch = diff(before, after)
    for p in runs:
        r, exp = rs[p], b["status"][p - 1]
        rel = os.path.relpath(outs[p], d)
        got = after.get(rel)
        why = {"run": p, "rc": r.rc, "stderr": r.stderr.decode("utf-8", "replace")[-1500:]}
        if exp == 0:
            if r.rc != 0:
                problems.append(("own", f"run {p} failed although its browser did not", why))
            pr = r.printed()
            for content, _ in pr:
                if content != htmls[p]:
                    problems.append(("own", f"run {p}: the page printed is not its own document", dict(why, page=repr(content[:300]))))
            if r.rc == 0 and (not pr or got is None or got[0] != "file" or got[2] not in [y for _, y in pr]):
                problems.append(("own", f"run {p}: the PDF does not hold what was printed", dict(why, got=repr(got)[:300])))
            if r.rc == 0:
                ch.pop(rel, None)
        else:
            if r.rc == 0:
                problems.append(("status", f"run {p} succeeded although {[s for s in b['steps'] if s[0] == p and s[2] != 'ok']}", why))
            elif b"ERROR" not in r.stderr:
                problems.append(("status", f"run {p} failed without a message", why))
            if rel in ch:
                problems.append(("untouched", f"run {p} failed but changed its output", dict(why, change=short(ch.pop(rel)))))
    for k, v in ch.items():
        kind = "left" if v[0] is None else "clobbered"
        problems.append((kind, f"{'left behind' if kind == 'left' else 'changed or removed'}: {k}", {"change": short(v)}))
    shutil.rmtree(d, ignore_errors=True)
    return problems


def threads(core, n, htmls, b, tmpl):
    """The conversions of a behaviour as threads of one process."""
    d = newdir("threads")
    for x in ("w", "h", "t", "o", "i"):
        os.mkdir(f"{d}/{x}")
    for p in range(1, n + 1):
        put(f"{d}/i/{p}.html", htmls[p])
    for x in BYSTANDERS:
        put(f"{d}/w/{x}", b"file of the user\n")
    r = Run([core, "pdf", f"{d}/o", *[f"{d}/i/{p}.html" for p in range(1, n + 1)]], f"{d}/w", f"{d}/h", f"{d}/t",
            gated=["launch", "tab", "navigate", "load", "print"], hold=True)
    if tmpl and b["world"]["taken"]:
        x = tmpl.replace("{pid}", str(r.pid)).replace("{cwd}", f"{d}/w").replace("{tmp}", f"{d}/t")
        put(x, b"taken by the user\n")
    before = snapshot(f"{d}/w")
    r.go()
    problems, order, waiting, fails = [], [], {}, 0

    def get(i, step):
        # the i-th browser to have been started, at its next step
        while True:
            if i <= len(order) and order[i - 1] in waiting:
                return order[i - 1]
            s = r.step()
            if s is None:
                return None
            x, m = s
            if x not in order:
                order.append(x)
            waiting[x] = m

    for p, step, o in b["steps"]:
        if step == "save" or o == "missing":
            continue
        x = get(p, step)
        if x is None:
            problems.append(("ends", f"the process ended before browser {p} was asked to {step}", {}))
            break
        m = waiting.pop(x)
        if m["step"] != step:
            problems.append(("ends", f"browser {p} was asked to {m['step']}, expected {step}", {}))
        fails += o != "ok"
        x.answer(r.reply(m["step"], {} if o == "ok" else {"fail": o}))
    while True:
        s = r.step()
        if s is None:
            break
        s[0].answer({})
    rc = r.wait()
    why = {"rc": rc, "stderr": r.stderr.decode("utf-8", "replace")[-1500:]}
    if rc != 0:
        problems.append(("own", "the process died", why))
    okn = 0
    pr = r.printed()
    for p in range(1, n + 1):
        f = f"{d}/o/{p-1}.pdf"
        if os.path.exists(f):
            okn += 1
            got = open(f, "rb").read()
            page = [c for c, y in pr if y == got]
            if page != [htmls[p]]:
                problems.append(("own", f"conversion {p} returned what was printed for another page", dict(why, page=repr(page)[:300])))
    if okn != n - fails:
        problems.append(("own", f"{okn} of {n} conversions succeeded, {n - fails} expected", why))
    for k, v in diff(before, snapshot(f"{d}/w")).items():
        problems.append(("left" if v[0] is None else "clobbered", f"left or changed: {k}", {"change": short(v)}))
    left = os.listdir(f"{d}/t")
    if left:
        problems.append(("left", f"left behind in the temporary directory: {left}", {}))
    shutil.rmtree(d, ignore_errors=True)
    return problems


def carry_out_all(c, binary, bs, aspects, core=None, nthreads=24, unsettled=0.3):
    probe = build_gfm_probe()
    n = max([len(b["status"]) for b in bs] + [1])
    htmls = {p: html_of(probe, doc(p)) for p in range(1, n + 1)}
    tmpl = learn(binary)
    c.cov.setdefault("temporary_file", tmpl)
    rnd = random.Random(SEED)
    jobs = [(b, rnd.random() >= unsettled) for b in bs]

    def go(j):
        b, settle = j
        try:
            if b.get("threads"):
                return b, threads(core, len(b["status"]), htmls, b, tmpl)
            return b, carry_out(binary, b, htmls, tmpl, settle)
        except ToolError as e:
            return b, [("hang", str(e), {})]
    with cf.ThreadPoolExecutor(nthreads) as ex:
        for b, problems in ex.map(go, jobs):
            c.traces += 1
            c.sample({k: b[k] for k in ("model", "steps", "status", "world")}, n=6)
            for aspect, what, data in problems:
                if aspect in aspects:
                    c.violation(what, behaviour={k: b[k] for k in ("model", "steps", "status", "world")}, **data)
