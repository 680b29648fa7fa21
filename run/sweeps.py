"""Trace validation: renderings of arbitrary documents, recorded from the real
code, are read by the acceptor HtmlTrace.tla."""
import concurrent.futures
from common import *
from docs import *

# fragments of arbitrary documents; "§" is a new word
FRAGS = ["§", " ", "\n", "\n\n", "    ", "\t", "# ", "## §", "- ", "* ", "+ ", "1. ", "12. §", "> ", ">", ">> §", "*", "**",
         "_", "__", "***", "`", "``", "```", "```rs\n", "~~", "~", "[", "]", "(", ")", "](", "[^x]", "[^§]: ", "[^x]: §", "!",
         "![", "<", "<details>\n", "<summary>§</summary>\n", "</details>", "<details>", "|", "| § ", "|-|-|\n", "| - |\n",
         "|\n", "&", "\"", "'", "http://§", "javascript:", "data:", "@", ":", "{#", "}", "{#§}", "[ ] ", "- [x] §", "---",
         "***\n", "\\", "\\*", "é", "木", "𐍈", "\r\n", "=", "<http://§>", "[§](u)", "[§](u \"§\")", "![§](§)", "</p>", "<b>§",
         "<em>", "<!--", "-->", "&lt;", "&#60;", "\"onx=\"", "' onx='", " />", "<img src=x onerror=y>", "<script>§</script>",
         "*§*", "**§**", "`§`", "~~§~~", "  \n", "\x00", "\u2028", "a§b", "| § | § |\n|---|---|\n| § | § |\n"]
# a smaller alphabet for exhaustive enumeration
CORE = ["§", " ", "\n", "\n\n", "    ", "\t", "# ", "- ", "* ", "1. ", "> ", "*", "**", "_", "***", "`", "```", "~~", "[", "](",
        ")", "[^x]", "[^x]: ", "![", "<", ">", "<details>\n", "<summary>§</summary>\n", "</details>", "| § |\n", "|-|\n", "|",
        "&", "\"", "http://x", "javascript:", "[x] ", "---", "\\", "é", "{#i}", "<b>"]


def fragment_model(frags, counts, maxlen, simulate=False):
    return model("Fragments", dict(Frags={f for f in frags if f not in ("\x00", "\u2028")}, Counts=set(counts), MaxLen=maxlen),
                 invariants=["EmitLong" if simulate else "Emit"])


def run_sweep(probe, views, jobs):
    """jobs: lists of arguments after SKIP. Returns (records, docs rendered);
    a record is {"view", "r", "doc", "count"}."""
    d = newdir("sweep")

    def one(n, job):
        recs, done, skip, gen = [], 0, 0, 0
        while True:
            out = f"{d}/out{n}.{gen}"
            p = subprocess.run([probe, "sweep", views, out, f"{d}/prog{n}", str(skip), *job],
                               stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            ok = False
            if os.path.exists(out):
                with open(out, encoding="utf-8") as fh:
                    for line in fh:
                        v = json.loads(line)
                        if "done" in v:
                            ok, done = True, done + v["done"]
                        else:
                            recs.append({**v["rec"], "doc": v["doc"], "count": v["count"]})
                os.remove(out)
            if p.returncode == 0 and ok:
                return recs, done
            i, doc = _read_progress(f"{d}/prog{n}")
            if i is None:
                raise ToolError(f"probe died before the first document (rc {p.returncode})")
            recs.append({"view": "outcome", "r": {"o": "hang" if p.returncode == 77 else "abort",
                                                 "m": f"rc {p.returncode}"}, "doc": doc, "count": 1})
            skip, gen = i + 1, gen + 1
            done += 1
            if gen > 5:
                return recs, done
    merged, total = {}, 0
    with concurrent.futures.ThreadPoolExecutor(NPROC) as ex:
        for recs, done in ex.map(lambda x: one(*x), enumerate(jobs)):
            total += done
            for r in recs:
                key = json.dumps([r["view"], r["r"]], sort_keys=True)
                if key not in merged:
                    merged[key] = r
                else:
                    merged[key]["count"] += r["count"]
                    if len(r["doc"]) < len(merged[key]["doc"]):
                        merged[key]["doc"] = r["doc"]
    shutil.rmtree(d, ignore_errors=True)
    return list(merged.values()), total


from common import _read_progress  # noqa: E402


def random_jobs(seed, count, maxlen, frags=FRAGS, shards=None):
    f = os.path.join(newdir("frags"), "f.json")
    with open(f, "w") as fh:
        json.dump(frags, fh)
    shards = shards or NPROC
    return [["random", str(seed * 1000 + s), str(count // shards), str(maxlen), f] for s in range(shards)]


def doc_jobs(docs, shards=None):
    d = newdir("docs")
    shards = shards or NPROC
    jobs = []
    for s in range(shards):
        part = docs[s::shards]
        if part:
            with open(f"{d}/{s}", "w", encoding="utf-8") as fh:
                for x in part:
                    fh.write(json.dumps(x) + "\n")
            jobs.append(["docs", f"{d}/{s}"])
    return jobs


def accept(check, view, recs, name):
    """TLC reads the records of one view; returns those it rejects."""
    mine = [r for r in recs if r["view"] == view]
    if not mine:
        return []
    d = newdir("traces")
    with open(f"{d}/traces", "w", encoding="utf-8") as fh:
        for r in mine:
            fh.write(json.dumps(r["r"]) + "\n")
    m = model("HtmlTrace", dict(View=view), invariants=["TypeOK"])
    r = tlc("MC", m["cfg"], files=m["files"], env={"TRACES": f"{d}/traces", "REJECTED": f"{d}/rejected"},
            timeout=800, coverage=False)
    check.add_tlc(r, name)
    bad = {}
    for x in read_gen(f"{d}/rejected"):
        bad.setdefault(x["t"] - 1, x)
    for s in mine[:2]:
        check.sample({"model": name, "doc": s["doc"][:200], "trace": s["r"]}, n=12)
    log(f"{name}: {len(mine)} different traces, {len(bad)} rejected")
    return [dict(mine[k], why=x["why"], at=x["i"]) for k, x in sorted(bad.items())]


def generated_docs(check, name, frags, counts, maxlen, simulate=None):
    out = os.path.join(newdir("gen"), "docs")
    m = fragment_model(frags, counts, maxlen, simulate=bool(simulate))
    r = tlc("MC", m["cfg"], files=m["files"], env={"GEN_OUT": out}, simulate=simulate,
            depth=maxlen + 2 if simulate else None, coverage=False)
    check.add_tlc(r, name)
    docs = read_gen(out)
    log(f"{name}: {len(docs)} documents")
    return docs
