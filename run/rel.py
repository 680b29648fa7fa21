"""Relations between several renderings: locality (C16) and purity (C04)."""
from common import *
from common import _read_progress
from docs import *

INL = ["w", "*", "**", "_", "`", "``", "~~", "[", "](", "](u)", "![", "<", "<http://x", "(", ")", "\\", "|", "[^a]", "&",
       "\"", "]"]
STARTS = ["w", "# ", "- ", "1. ", "> ", "*", "**", "_", "`", "[", "![", "<", "~~", "| a |\n|-|\n| b |", "| w", "---\n",
          "- [x] ", "***\n", "\\"]
WHOLE = ["```rs\nx *\n\n[\n```", "<details>\n<summary>s</summary>\nb *\n</details>", "***", "---",
         "| a | b |\n|---|---|\n| c | d |", "# h {#i}", "<details>\n<summary>s</summary>\n</details>"]
ICODES = ["    c *d", "\tx\n\ty", "    a\n\n    b [u](v"]


def concat(check, probe, name, docs):
    d, sh, running = newdir("concat"), NPROC, {}
    for s in range(sh):
        with open(f"{d}/i{s}", "w", encoding="utf-8") as fh:
            for x in docs[s::sh]:
                fh.write(json.dumps(x) + "\n")

    def start(s, skip, gen):
        return subprocess.Popen([probe, "concat", f"{d}/i{s}", f"{d}/o{s}.{gen}", f"{d}/p{s}", str(skip)],
                                stderr=subprocess.DEVNULL)
    running = {s: (start(s, 0, 0), 0, 0) for s in range(sh) if docs[s::sh]}
    n = bad = 0
    while running:
        for s in list(running):
            p, skip, gen = running.pop(s)
            rc, fin = p.wait(), False
            for line in open(f"{d}/o{s}.{gen}", encoding="utf-8"):
                v = json.loads(line)
                if "done" in v:
                    fin, n = True, n + v["done"]
                    continue
                bad += 1
                parts = docs[s::sh][v["i"]]["parts"]
                if "panic" in v:
                    check.violation("rendering did not return", model=name, src=docs[s::sh][v["i"]]["sep"].join(parts), outcome=v["panic"])
                else:
                    check.violation("the parts are not rendered independently", model=name, src=docs[s::sh][v["i"]]["sep"].join(parts),
                                    parts=parts, expected=v["expected"], actual=v["actual"], html=v["html"])
            if not fin:
                i, doc = _read_progress(f"{d}/p{s}")
                if i is None:
                    raise ToolError(f"probe died before the first document (rc {rc})")
                n += i - skip + 1
                bad += 1
                check.violation("rendering did not return", model=name, src=doc, outcome=f"rc {rc}")
                if gen < 3:
                    running[s] = (start(s, i + 1, gen + 1), i + 1, gen + 1)
    check.traces += n
    check.violations.sort(key=lambda v: len(v.get("src", "")))
    if docs:
        check.sample({"model": name, "parts": docs[len(docs) // 2]["parts"]}, n=12)
    log(f"{name}: {n} documents, {bad} differ")


def locality(check, probe, name, simulate=None, **consts):
    out = os.path.join(newdir("gen"), "docs")
    m = model("LocalityGen", consts, invariants=["Separated", "Emit"])
    if simulate:
        m = sampled(m, 5)
    r = tlc("MC", m["cfg"], files=m["files"], env={"GEN_OUT": out}, simulate=simulate, depth=60 if simulate else None,
            coverage=False)
    check.add_tlc(r, name)
    docs = [d for d in read_gen(out)]
    concat(check, probe, name, docs)


# documents for histories: equal lengths, prefixes, labels, ids, and open constructs
HDOCS = ["a\n", "b\n", "", "*", "# h {#i}\n\n[^n] x\n\n[^n]: note\n", "# h {#i}\n\n[^m] x\n\n[^m]: note\n",
         "[^n] y [^m]\n\n[^m]: 2\n", "- a\n- b\n  - c\n", "- a\n\n1. b\n", "- [x] t\n- [ ] u\n", "> q\n>> r\n",
         "```rs\nfn main() {}\n", "    code\n", "| a | b |\n|---|:-:|\n| 1 | *2* |\n", "| a | b |\n|---|:-:|\n",
         "[l](http://x/?a&b \"t\") ![i](p.png) <http://y>\n", "[l](javascript:x) `c` ~~s~~ **b** ***x***\n",
         "<details>\n<summary>s</summary>\n# h\n</details>\n", "<details>\n<summary>s</summary>\nopen", "a\n\nb\n\n***\nc\n",
         "### é木 \\* &amp; <b>\n", "w " * 400, "[^n] x\n", "[^n]: note\n", "1. a\n2. b\n10. c\n"]


import re


def families():
    """Documents that resemble each other: equal lengths, equal beginnings,
    equal ends, differences in one word, in letter case or in one marker."""
    base = ["# Alpha beta", "", "gamma *delta* epsilon `zeta` [eta](http://h/theta)", "", "- iota", "- kappa", "", "1. lambda",
            "2. mu", "", "> nu", "", "| xi | pi |", "|----|----|", "| ro | si |", "", "tau[^n] upsilon", "", "[^n]: phi", "",
            "```rs", "chi", "```", "", "<details>", "<summary>psi</summary>", "omega", "</details>"]
    text = "\n".join(base) + "\n"
    out = [text]
    for w in re.findall(r"[A-Za-z]{2,}", text):
        out.append(text.replace(w, w[::-1], 1))
        out.append(text.replace(w, w.upper(), 1))
    for i in range(0, len(base), 2):
        out.append("\n".join(base[:i] + base[i + 1:]) + "\n")
        out.append("\n".join(base[:i + 1]) + "\n")
        out.append("\n".join(base[i:]) + "\n")
    for a, b in [("*", "_"), ("- ", "* "), ("#", "##"), ("`", "*"), ("1. ", "7. "), ("http", "ftp"), ("[^n]", "[^m]"), ("> ", ">> ")]:
        out.append(text.replace(a, b))
    for n in (30, 80, 300):
        out += ["same words " * n + t for t in ("first\n", "other\n", "*irst\n", "first", "")]
    return list(dict.fromkeys(out))


def purity(check, probe, name, threads, docs, levels, steps, simulate=None, repeat=1):
    """Histories from Purity.tla, run in one process with persistent threads;
    the reference of each document comes from a process of its own."""
    out = os.path.join(newdir("gen"), "hist")
    m = model("Purity", dict(Threads=set(range(threads)), Docs=set(range(len(docs))), LogLevels=set(levels),
                             MaxSteps=steps), invariants=["Pure", "EmitFull"])
    r = tlc("MC", m["cfg"], files=m["files"], env={"GEN_OUT": out}, simulate=simulate,
            depth=steps * (threads + 1) + 2 if simulate else None, coverage=False)
    check.add_tlc(r, name)
    hist = read_gen(out)
    if not hist:
        raise ToolError(f"{name}: no histories")
    refs = []
    for d in docs:
        two = [subprocess.run([probe, "fresh"], input=d.encode(), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                              timeout=120) for _ in range(2)]
        if any(x.returncode for x in two):
            check.violation("rendering did not return", src=d)
            return
        if two[0].stdout != two[1].stdout:
            check.violation("two processes render the same document differently", src=d,
                            html=[x.stdout.decode() for x in two])
        refs.append(two[0].stdout.decode())
    d = newdir("hist")
    shards = min(NPROC, max(1, len(hist) // 50))
    ps = []
    for s in range(shards):
        with open(f"{d}/i{s}", "w", encoding="utf-8") as fh:
            fh.write(json.dumps({"docs": docs, "refs": refs, "threads": threads}) + "\n")
            for h in hist[s::shards]:
                steps_ = []
                for st in h["steps"] * repeat:
                    if st["level"]:
                        steps_.append(st["level"])
                    else:
                        steps_.append([[t, x] for t, x in enumerate(st["calls"]) if x >= 0])
                fh.write(json.dumps(steps_) + "\n")
        ps.append(subprocess.Popen([probe, "histories", f"{d}/i{s}", f"{d}/o{s}"], stderr=subprocess.DEVNULL))
    calls = 0
    for s, p in enumerate(ps):
        try:
            rc = p.wait(timeout=600)
        except subprocess.TimeoutExpired:
            p.kill()
            check.violation("a history of rendering calls did not end", model=name)
            continue
        fin = False
        for line in open(f"{d}/o{s}", encoding="utf-8"):
            v = json.loads(line)
            if "done" in v:
                fin, calls = True, calls + v["done"]
            elif len(check.violations) < 200:
                h = hist[s::shards][v["history"]]["steps"]
                check.violation("a rendering differs from that of a fresh process", model=name, src=docs[v["doc"]],
                                thread=v["thread"], step=v["step"], history=h, expected=refs[v["doc"]], actual=v["html"])
        if not fin:
            check.violation("a history of rendering calls ended the process", model=name, outcome=f"rc {rc}")
    check.traces += len(hist)
    check.cov["rendering_calls"] = check.cov.get("rendering_calls", 0) + calls
    check.sample({"model": name, "history": hist[len(hist) // 2]["steps"][:6]}, n=12)
    log(f"{name}: {len(hist)} histories, {calls} calls")
