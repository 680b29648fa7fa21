"""Checks that replay documents generated from Markdown.tla and friends."""
import os
from common import *

CODE = ["let x = 1;", "*a* _b_ `c`", "# not a heading", "- no list", "<b>&amp;</b> \"q\"", "a\\*b \\\\ c",
        "  deeper", "| x | y |", "[l](u) ~~s~~", "1. one", "> q", "é木"]
BODIES = ["x", "", "*a*\n\n# h\n- l", "<p>&lt;\"'\\\\", "a `b` ``c``", "  in\n\tdent\n\n\nend", "```", "| a |\n|---|\n| b |", "[^1]: n [l](u)", "\n x\n"]

class Raw(str):
    pass


BASE = dict(Acts={"text", "blank"}, LineInl={"word"}, Levels={1}, CodeLines={"x"}, FenceBodies={"x"},
            QDepths={1}, MaxLines=4, HSeps={" "}, HTails={("", "")}, HEmpty={""}, NoRules={"--"}, Rules={"***", "---"}, EmptyMarks={"-"}, MarkSeps={" "}, Numbers={"1", "9"},
            Leads={""}, BlankLines={""}, Fences={("```", "", "```", ""), ("```", "rust", "```", "rust")}, QForms={"tight"})


def model(module, consts, spec="Spec", invariants=(), properties=(), extra=""):
    """A configuration and a module MC that fixes the constants (the
    configuration language cannot escape characters in strings)."""
    mc = [f"---- MODULE MC ----", f"EXTENDS {module}"]
    cfg = [f"SPECIFICATION {spec}"]
    for k, v in consts.items():
        mc.append(f"mc{k} == {v if isinstance(v, Raw) else tla(v)}")
        cfg.append(f"CONSTANT {k} <- mc{k}")
    mc.append(extra)
    mc.append("====")
    cfg += [f"INVARIANT {i}" for i in invariants] + [f"PROPERTY {p}" for p in properties]
    return {"cfg": "\n".join(cfg) + "\n", "files": {"MC.tla": "\n".join(mc) + "\n"}}


def md_model(module="MarkdownGen", emit=True, props=True, invariants=("TypeOK", "WellNested", "Conserved"), **kw):
    return model(module, dict(BASE, **kw), invariants=list(invariants) + (["Emit"] if emit else []),
                 properties=["AppendOnly"] if props else [])


def sampled(mdl, n):
    """Simulation looks at every successor of every step: emit one in n."""
    return {"cfg": mdl["cfg"].replace("INVARIANT Emit\n", "INVARIANT EmitSome\n"),
            "files": {"MC.tla": mdl["files"]["MC.tla"].replace(
                "\n====", f"\nEmitSome == RandomElement(1..{n}) # 1 \\/ Emit\n====")}}


def generate(check, name, mdl=None, sample=10, simulate=None, depth=None, timeout=600, workers=None, **kw):
    """TLC explores the machine; every state is a document with its expected
    events."""
    out = os.path.join(newdir("gen"), "docs")
    mdl = mdl or md_model(**kw)
    if simulate:
        mdl = sampled(mdl, sample)
    r = tlc("MC", mdl["cfg"], files=mdl["files"], env={"GEN_OUT": out}, simulate=simulate, depth=depth,
            workers=workers, timeout=timeout, coverage=not simulate)
    check.add_tlc(r, name)
    docs = read_gen(out)
    seen, uniq = set(), []
    for d in docs:
        if d["src"] not in seen:
            seen.add(d["src"])
            uniq.append(d)
    log(f"{name}: {r.states} states, {len(uniq)} documents")
    if not uniq:
        raise ToolError(f"{name}: no documents generated")
    return uniq


def conform(check, probe, name, docs, variants=True):
    """Replays documents; with variants also without the final newline, and
    (a regular sample) with CRLF line ends."""
    all_ = []
    for d in docs:
        all_.append(d)
        if variants and d["src"].endswith("\n") and not d["src"].endswith("\n\n"):
            all_.append({**d, "src": d["src"][:-1]})
    if variants and len(docs):
        step = max(1, len(docs) // 40_000)
        all_ += [{**d, "src": d["src"].replace("\n", "\r\n")} for d in docs[::step] if "\r" not in d["src"]]
    recs, n = replay(probe, all_)
    check.traces += n
    for d in docs[len(docs) // 2: len(docs) // 2 + 1]:
        check.sample({"model": name, "src": d["src"], "expected": d["exp"]}, n=12)
    for r in recs:
        if "actual" in r:
            check.violation("rendering differs from the specification", model=name, src=r["doc"]["src"],
                            expected=r["expected"], actual=r["actual"], html=r["html"])
        else:
            check.violation("rendering did not return", model=name, src=r["doc"]["src"],
                            outcome={k: r[k] for k in ("panic", "hang", "abort") if k in r})
    check.violations.sort(key=lambda v: len(v.get("src", "")))
    log(f"{name}: replayed {n}, {len(recs)} differ")
    return recs
