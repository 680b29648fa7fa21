"""Properties of rendering, each with the slices of the specification that
decide it."""
from common import *
from docs import *
from sweeps import *
from rel import *
from cli import smd

S = 8 if THOROUGH else 1          # depth of sampled exploration


def md(c, probe, name, **kw):
    conform(c, probe, name, generate(c, name, **kw))


def spec(c, probe, name, module, consts, invariants, properties=(), **kw):
    conform(c, probe, name, [d for d in generate(c, name, mdl=model(module, consts, invariants=list(invariants) + ["Emit"],
                                                                      properties=properties), **kw) if d["exp"] != ["?"]])


def para(c, probe, hosts, kinds="AllKinds", items=2, joins=(" ", "", "\n"), simulate=None):
    for h in hosts:
        spec(c, probe, f"inline-{h}{items}", "ParagraphGen",
             dict(Kinds=Raw(kinds) if isinstance(kinds, str) else set(kinds), Hosts={h}, Joins=set(joins), MaxItems=items),
             ["WellNested", "Conserved"], ["AppendOnly"], simulate=simulate, depth=items + 2 if simulate else None)


TABLE = dict(HeadContents={"word"}, Contents={"word", "empty"}, Aligns={"none"}, Styles={"spaced"}, Places={"alone"},
             Devs={"none"}, Dashes={3}, MaxCols=2, MaxRows=2)


def table(c, probe, name, simulate=None, **kw):
    spec(c, probe, name, "TablesGen", dict(TABLE, **kw), ["WellNested", "Rectangle", "Conserved"], simulate=simulate,
         depth=40 if simulate else None)


def literal(c, probe, name, simulate=None, **kw):
    spec(c, probe, name, "LiteralGen", kw, ["Faithful"], simulate=simulate, depth=kw["MaxPieces"] + 2 if simulate else None)


SIZES = set(range(1, 21)) | {31, 32, 33, 50, 63, 64, 65, 99, 100, 101, 127, 128, 129, 200, 255, 256, 257, 300, 511, 512, 513, 1000, 1024, 1025}


def scale(c, probe, kinds, deep=""):
    # one worker: lines of this length would be written in pieces
    spec(c, probe, "scale", "ScaleGen", dict(Kinds=set(kinds.split()), Sizes=SIZES | ({2048, 4097} if THOROUGH else set())), ["WellNested"], workers=1)
    if deep:
        spec(c, probe, "scaledeep", "ScaleGen", dict(Kinds=set(deep.split()), Sizes={n for n in SIZES if n <= 128}), ["WellNested"], workers=1)


def assume(c, *xs):
    c.assumptions += ["documents are judged after projection to elements, kept attributes and decoded text "
                      "(harness/gfm-probe/src/html.rs)", *xs]


# ------------------------------------------------------------------ sweeps

PAYLOADS = ["<b>", "</p>", "</a>", "</code></pre>", "<script>x</script>", "<img src=x onerror=y>", "<!--", "-->", "<", ">", "\"",
            "'", "&", "&lt;b&gt;", "&#60;b&#62;", "\" onx=\"y", "' onx='y", "\"><b>", "'><b>", "\"/><i>", "</li></ul>", "]]>",
            "<?x", "<!D", "\\<b>", "\\\"onx=\"", "`<b>`", "<b\nc>", "x\"onx=y", "{{", "</details><b>", "</summary><b>",
            "</td><b>", "</h1><b>", "a\" b=\"c", "%22onx=", "\u00e9<b>", "javascript:x", "onx=y", "<b", "<B STYLE=x>"]


def sweep(c, views, random, maxlens, rep_counts=(1, 2, 3, 255, 256, 257, 300), core=3, hostile=False):
    probe = build_gfm_probe()
    docs = generated_docs(c, f"fragments{core}", CORE, [1], core)
    docs += generated_docs(c, "repetitions", FRAGS, rep_counts, 1)
    if hostile:
        docs += hostile_docs(c)
    recs, n = run_sweep(probe, ",".join(dict.fromkeys(list(views) + ["outcome"])), doc_jobs(docs))
    log(f"generated: {n} documents rendered")
    for i, ml in enumerate(maxlens):
        r2, n2 = run_sweep(probe, ",".join(dict.fromkeys(list(views) + ["outcome"])), random_jobs(SEED + 100 * i, random, ml))
        recs += r2
        n += n2
        log(f"random up to {ml} fragments: {n2} documents rendered")
    c.traces += n
    for v in dict.fromkeys(list(views) + ["outcome"]):
        for b in accept(c, v, recs, "accept-" + v):
            if v == "outcome":
                c.violation("rendering did not return", src=b["doc"], outcome=b["r"])
            else:
                c.violation(f"view {v}: {b['why']}", src=b["doc"], record=b["r"], at=b["at"])
    c.violations.sort(key=lambda v: len(v.get("src", "")))
    assume(c, "arbitrary documents are sequences of the listed fragments")


def hostile_docs(c):
    out = os.path.join(newdir("gen"), "docs")
    m = model("Hostile", dict(Payloads=set(PAYLOADS), Before={"", "x", "\\", " "}, After={"", "y", "\\", " "}),
              invariants=["Placed", "Emit"])
    r = tlc("MC", m["cfg"], files=m["files"], env={"GEN_OUT": out}, coverage=False)
    c.add_tlc(r, "hostile")
    d = read_gen(out)
    log(f"hostile: {len(d)} documents")
    return d


def C01(c):
    sweep(c, ["markup"], 1_000_000 * S, [8, 20], hostile=True)


def C02(c):
    probe = build_gfm_probe()
    targets(c, probe, "spellings", {"link", "linkt", "image", "imaget", "auto"}, {"para", "cell", "bullet"}, SCHEME, 3)
    targets(c, probe, "deep", {"link", "image"}, {"para"}, SCHEME if THOROUGH else SCHEME[:12], 4)
    sweep(c, ["targets"], 1_000_000 * S, [8, 20], hostile=True)


def C03(c):
    sweep(c, ["outcome"], 2_000_000 * S, [10, 30], hostile=True)
    big(c)
    deep(c)


def C05(c):
    sweep(c, ["nesting"], 600_000 * S, [8, 16])


def C06(c):
    sweep(c, ["words"], 1_500_000 * S, [10, 24])


SCHEME = ["javascript", "JaVaScRiPt", ":", "x", "data", "Data", ":text/html,", "image/png", "java", "script", "//", "text/html",
          "\t", "\n", " ", "&#106;", "j", "ava", "%3a", "\u0001", "avascript:", "vbscript"]


def targets(c, probe, name, conts, hosts, pieces, n):
    d = generate(c, name, mdl=model("TargetsGen", dict(Mode="scheme", Containers=set(conts), Hosts=set(hosts),
                                                       Pieces=set(pieces), MaxPieces=n),
                                    invariants=["WellNested", "NeverScript", "Emit"]))
    conform(c, probe, name, [x for x in d if x["exp"] != ["?"]])
    recs, m = run_sweep(probe, "targets", doc_jobs([{"parts": [[x["src"], 1]]} for x in d]))
    c.traces += m
    for b in accept(c, "targets", recs, "accept-" + name):
        c.violation("a script target reached the output", src=b["doc"], record=b["r"])


OPENERS = ["<details>\n", "<details>\n<summary>", "<details>\n<summary>s</summary>\n", "[", "![", "[^a]: ", "[^", "[a](", "[a](b \"", "| ", "| a |\n|-|\n| ",
           "```", "```\n", "`", "> ", "- ", "1. ", "# ", "*", "**", "~~", "<", "{#", "    ", "\\"]


def big(c):
    """Documents of some tens of kilobytes: pairs of fragments repeated."""
    probe = build_gfm_probe()
    out = os.path.join(newdir("gen"), "docs")
    counts = [3000] if not THOROUGH else [3000, 8000]
    m = model("Fragments", dict(Frags={f for f in FRAGS if "\x00" not in f and "\u2028" not in f}, Counts=set(counts),
                                MaxLen=2), invariants=["EmitPairs"])
    r = tlc("MC", m["cfg"], files=m["files"], env={"GEN_OUT": out}, coverage=False)
    c.add_tlc(r, "big")
    docs = read_gen(out)
    # one opening fragment before many of another
    m = model("Fragments", dict(Frags={f for f in FRAGS if "\x00" not in f and "\u2028" not in f} | set(OPENERS), Counts={counts[0]},
                                MaxLen=2), invariants=["EmitTails"])
    r = tlc("MC", m["cfg"], files=m["files"], env={"GEN_OUT": out + "2"}, coverage=False)
    c.add_tlc(r, "tails")
    docs += [d for d in read_gen(out + "2") if d["parts"][0][0] in OPENERS]
    recs, n = run_sweep(probe, "outcome", doc_jobs(docs, shards=NPROC * 4))
    c.traces += n
    for b in accept(c, "outcome", recs, "accept-big"):
        c.violation("rendering did not return", src=b["doc"][:300], length=len(b["doc"]), outcome=b["r"])
    log(f"big: {n} documents")


def deep(c):
    """Nesting, with the program as it is delivered to its users (stack of
    the main thread): depths that work, and the listed ones that do not."""
    binary = build_smd()
    d = newdir("deep")
    kn = known("C03")
    todo = [(u, n, False) for u, n in [("- ", 1000), ("> ", 20000), (">", 20000), ("1. ", 1000), ("<details>\n<summary>s</summary>\n", 400),
                                       ("- > ", 400), ("[", 3000), ("*a ", 3000), ("![", 3000), ("`", 3000)]]
    todo += [(k["repeat"], k["count"], True) for k in kn]
    recs = []
    for i, (u, n, listed) in enumerate(todo):
        f = os.path.join(d, f"d{i}.md")
        with open(f, "w") as fh:
            fh.write(u * n)
        try:
            p = smd(binary, ["parse", "-o", "html", "-i", f], d, d, timeout=60)
            out = {"ok": p.returncode == 0 and os.path.exists(f[:-2] + "html"), "rc": p.returncode}
        except subprocess.TimeoutExpired:
            out = {"ok": False, "rc": "timeout"}
        recs.append(((u, n, listed), out))
        c.traces += 1
    for (u, n, listed), out in recs:
        if not out["ok"]:
            if listed:
                c.known_hit.append(next(k["entry"] for k in kn if k["repeat"] == u and k["count"] == n))
            else:
                c.violation("rendering did not return", src=f"{json.dumps(u)} repeated {n} times", outcome=out)
    log(f"deep: {len(todo)} documents with the program itself")


# ------------------------------------------------------------------ exact

HTAILS = [("", ""), (" {#my-id}", "my-id"), (" ##", ""), (" #", ""), (" ########", ""), (" ##  ", ""), ("{#i}", "i"), ("   ", ""),
          ("\t", ""), (" {#A_b.c-1}  ", "A_b.c-1"), (" # {#x}", "x"), ("\t#", "")]
HTAILS = frozenset(HTAILS[:3]), frozenset(HTAILS)
HSEPS = {" ", "\t", "   ", " \t", "     "}
NORULES = {"---+", "----+", "--", "++", "+++", "__", "**", "**__", "***_", "-=-", "=", "===", "--- x", "*** x", "---x", "--+", "**x", "--x", "+x", "-x"}
RULES = {"***", "---", "*****", "-----", "-" * 40, "*" * 40, "---  ", "***  ", "***\t", "----", "****"}
LEADS = {"", " ", "  ", "   "}
BLANKS = {"", " ", "   ", "\t", "  \t"}


def C07(c):
    probe = build_gfm_probe()
    md(c, probe, "blocks", Acts={"text", "blank", "heading", "noheading", "rule"}, Levels={1, 2, 6}, MaxLines=4,
       HTails=HTAILS[0], Rules={"***", "---", "*****", "-----"})
    md(c, probe, "spellings", Acts={"text", "blank", "heading", "noheading", "rule"}, Levels={1, 6}, MaxLines=2, HTails=HTAILS[1],
       HSeps=HSEPS, Rules=RULES, Leads={"", "  "})
    md(c, probe, "empty", Acts={"text", "blank", "heading", "emptyheading", "norule", "bullet", "quote"}, Levels={1, 3, 6}, MaxLines=3,
       HEmpty={"", " ", "\t", "   ", " #", " ##", "\t#", " \t"}, NoRules=NORULES)
    md(c, probe, "unmatched", Acts={"text", "heading", "rule", "bullet", "ordered", "quote", "fence", "table", "task"}, MaxLines=3,
       LineInl={"lone*", "lone`", "lone[", "lone]"})
    md(c, probe, "blanks", Acts={"text", "blank", "heading", "rule", "icode"}, MaxLines=5 if THOROUGH else 4, Leads={"", "  "},
       BlankLines=BLANKS)
    md(c, probe, "leads", Acts={"text", "blank", "heading", "rule", "bullet", "ordered", "quote", "fence"}, MaxLines=3, Leads=LEADS,
       BlankLines={"", " "})
    md(c, probe, "levels", Acts={"text", "blank", "heading", "rule"}, Levels=set(range(1, 7)), MaxLines=3)
    md(c, probe, "neighbours", Acts={"text", "blank", "heading", "rule", "bullet", "ordered", "quote", "icode", "fence",
                                      "table"}, MaxLines=4)
    para(c, probe, ["heading"])
    literal(c, probe, "headings", RawChars=set("#{}-1"), EscChars=set("#{"), Extra={"é"}, Hosts={"heading", "headid"}, MaxPieces=5)
    md(c, probe, "long", Acts={"text", "blank", "heading", "noheading", "rule", "bullet", "quote", "fence",
                                "icode", "task", "ordered"}, Levels={1, 3, 6}, LineInl={"word", "em*", "code", "link"},
       MaxLines=12, simulate=200 * S, depth=14, HTails=HTAILS[0], BlankLines={"", "  "})
    if THOROUGH:
        md(c, probe, "blocks5", Acts={"text", "blank", "heading", "noheading", "rule"}, Levels={1, 6}, MaxLines=6)
    scale(c, probe, "lines paras words letters wide blank heads head headid headend hashes rules rule")
    assume(c)


NUMBERS = {"1", "2", "9", "10", "007", "0", "100", "999999999", "1234567890", "12345678901234567890123"}

CONT = dict(Opens={"ul", "ol", "task", "quote"}, Leaves={"text", "heading", "fence", "table", "icode"}, Inl={"word"},
            Bodies=Raw('{<<"x = 1;">>, <<"a", "", "  *b*">>}'), Indents={"fit"}, Firsts={"1"}, Bullets={"- "}, Boxes={"x"},
            MaxDepth=3, MaxLeaves=2)
ANY = dict(Leaves={"text", "heading", "fence", "table", "icode", "rule"}, Indents={"fit", "four", "tab"},
           Firsts={"1", "10", "123456789012"}, Bullets={"- ", "* ", "+ "}, Boxes={" ", "x", "X"}, Inl={"word", "em*", "code", "link"})


def contain(c, probe, name, simulate=None, **kw):
    spec(c, probe, name, "ContainersGen", dict(CONT, **kw), ["WellNested", "Conserved", "NoEmptyItem"], ["AppendOnly"],
         simulate=simulate, depth=60 if simulate else None)


def C08(c):
    probe = build_gfm_probe()
    md(c, probe, "lists", Acts={"text", "blank", "bullet", "bullets", "nested", "ordered", "task", "heading"}, MaxLines=4)
    md(c, probe, "spellings", Acts={"text", "blank", "bullet", "bullets", "ordered", "task"}, MaxLines=3,
       MarkSeps={" ", "   ", "\t"}, Numbers={"1", "10"})
    md(c, probe, "empty", Acts={"text", "blank", "bullet", "bullets", "nested", "ordered", "emptyitem", "task", "heading"}, MaxLines=3,
       EmptyMarks={"-", "- ", "+", "+ ", "* ", "1. ", "7. ", "- [ ] ", "-\t"})
    md(c, probe, "numbers", Acts={"text", "blank", "ordered"}, MaxLines=5 if THOROUGH else 4, Numbers=NUMBERS, BlankLines={"", " ", "\t"})
    md(c, probe, "indented", Acts={"text", "blank", "bullet", "bullets", "ordered", "task"}, MaxLines=3, Leads=LEADS,
       BlankLines={"", "  "})
    contain(c, probe, "nesting", Leaves={"text"}, Opens={"ul", "ol", "task"}, MaxLeaves=6 if THOROUGH else 5)
    contain(c, probe, "styles", Leaves={"text", "fence"}, Indents={"fit", "four", "tab"}, Firsts={"1", "10", "123456789012"},
            Bullets={"- ", "* ", "+ "}, Boxes={" ", "x", "X"}, MaxDepth=2)
    contain(c, probe, "blocks-in-items", Opens={"ul", "ol", "task"}, MaxDepth=2, MaxLeaves=4 if THOROUGH else 3)
    contain(c, probe, "deeper", simulate=100 * S, MaxDepth=6, MaxLeaves=12, **ANY)
    md(c, probe, "neighbours", Acts={"blank", "bullet", "ordered", "task", "quote", "fence", "table", "rule", "text"},
       MaxLines=4)
    para(c, probe, ["bullet", "ordered", "task", "nested"])
    md(c, probe, "long", Acts={"text", "blank", "bullet", "bullets", "nested", "ordered", "task", "heading", "rule"},
       LineInl={"word", "em*", "code", "link"}, MaxLines=14, simulate=80 * S, depth=16)
    md(c, probe, "paragraphs", Acts={"text", "blank", "bullet", "bullets", "itempara", "nested", "ordered"}, MaxLines=6)
    md(c, probe, "deep", Acts={"bullet", "nested"}, MaxLines=7 if not THOROUGH else 9)
    if THOROUGH:
        md(c, probe, "lists5", Acts={"text", "blank", "bullet", "nested", "ordered", "task"}, MaxLines=6)
    scale(c, probe, "bullets ordered number tasks item sublists lists", "nest")
    assume(c)


def C09(c):
    probe = build_gfm_probe()
    md(c, probe, "quotes", Acts={"text", "blank", "quote", "quotetight", "quoteblank", "quoteblock", "heading"},
       QDepths={1, 2, 3}, MaxLines=4)
    md(c, probe, "depths", Acts={"quote", "text", "blank"}, QDepths={1, 2, 4, 7, 9}, MaxLines=5)
    md(c, probe, "spellings", Acts={"quote", "text", "blank", "heading"}, QDepths={1, 2, 3}, QForms={"tight", "spaced"},
       Leads={"", " ", "   "}, BlankLines={"", " "}, MaxLines=3)
    md(c, probe, "deepest", Acts={"quote", "text", "blank"}, QDepths={1, 20, 255, 256, 300}, QForms={"tight", "spaced"}, MaxLines=2,
       workers=1)  # lines of more than 8 KB, which several workers would mix
    contain(c, probe, "contents", Opens={"quote"}, MaxDepth=3, MaxLeaves=3 if THOROUGH else 2)
    contain(c, probe, "sequences", Opens={"quote"}, MaxDepth=2, MaxLeaves=3)
    contain(c, probe, "lists", Opens={"quote", "ul", "ol"}, Leaves={"text", "heading"})
    contain(c, probe, "mixed", simulate=100 * S, MaxDepth=6, MaxLeaves=12, **ANY)
    md(c, probe, "neighbours", Acts={"blank", "quote", "bullet", "ordered", "task", "fence", "table", "rule", "text",
                                      "heading"}, QDepths={1, 2}, MaxLines=4)
    para(c, probe, ["quote"])
    md(c, probe, "long", Acts={"text", "blank", "quote", "quoteblank", "quoteblock", "heading", "bullet"},
       QDepths={1, 2, 3, 5}, LineInl={"word", "em*", "code", "link"}, MaxLines=14, simulate=80 * S, depth=16)
    if THOROUGH:
        md(c, probe, "quotes5", Acts={"text", "blank", "quote", "quoteblank"}, QDepths={1, 2, 3}, MaxLines=6)
    scale(c, probe, "quotes depth quoted", "stairs")
    assume(c)


def C10(c):
    probe = build_gfm_probe()
    table(c, probe, "shapes", MaxCols=3, MaxRows=3, Aligns={"none", "right"})
    table(c, probe, "places", Styles={"spaced", "tight", "wide", "open"},
          Places={"alone", "afterpara", "direct", "between", "beforehead"}, Aligns={"none", "left", "center", "right"})
    table(c, probe, "delimiters", Styles={"spaced", "tight", "open"}, Dashes={1, 2, 3, 5, 12}, MaxRows=1,
          Aligns={"none", "left", "center", "right"})
    cell = Raw("(AllKinds \\ NotInCell)")
    table(c, probe, "contents", MaxCols=1, MaxRows=1, Contents=cell, HeadContents=cell)
    esc = {"word", "midpipe", "endpipe", "endslash"}
    table(c, probe, "pipes", Contents=esc | {"empty"}, HeadContents=esc, Styles={"spaced", "tight", "open"}, MaxCols=2, MaxRows=1)
    table(c, probe, "notables", Devs={"nodelim", "baddelim", "widedelim", "widehead", "widerow", "shortrow", "nobody"},
          Styles={"spaced", "tight"}, Places={"alone", "afterpara"}, Aligns={"none", "center"})
    para(c, probe, ["cell", "head"])
    md(c, probe, "neighbours", Acts={"text", "blank", "table", "bullet", "ordered", "quote", "task"}, MaxLines=4)
    near = {"text", "blank", "pipe", "heading", "bullet", "quote", "rule"}
    md(c, probe, "near", Acts=near, MaxLines=4)
    md(c, probe, "nearer", Acts={"text", "blank", "pipe", "table"}, MaxLines=4)
    table(c, probe, "large", simulate=80 * S, MaxCols=6, MaxRows=6, Contents=Raw("(AllKinds \\ NotInCell) \\cup {\"empty\"}"),
          HeadContents=cell, Aligns={"none", "left", "center", "right"}, Styles={"spaced", "tight", "wide"}, Dashes={1, 3, 4},
          Places={"alone", "afterpara", "between"})
    scale(c, probe, "cols rows cell dashes tables")
    assume(c)


FENCES = [("```", "", "```", ""), ("```", "rust", "```", "rust"), ("```", "c++", "```", "c++"), ("`````", "", "`````", ""),
          ("`````", "rust", "`````", "rust"), ("```", "rust linenos=1", "```", "rust"), ("```", "  rust  ", "```", "rust"),
          ("```", "", "`````", ""), ("````", "", "`````````", ""), ("```", "", "  ```", ""), ("```", "", "```   ", ""),
          ("```", "objective-c", "```", "objective-c"), ("```", "C#", "```", "C#"), ("`" * 12, "x", "`" * 12, "x"), ("```", "f{a}", "```", "f{a}"),
          ("```", "rust,ignore", "```", "rust,ignore"), ("```", "a/b.c:d", "```", "a/b.c:d"), ("```", "é木", "```", "é木")]
FENCES = frozenset(FENCES[:5]), frozenset(FENCES)


def C11(c):
    probe = build_gfm_probe()
    md(c, probe, "code", Acts={"text", "blank", "fence", "icode", "icodetab", "heading"}, CodeLines=set(CODE),
       FenceBodies=set(BODIES), MaxLines=2, Fences=FENCES[0])
    md(c, probe, "fences", Acts={"text", "blank", "fence", "openfence", "quote", "heading"}, FenceBodies={"x *y*", "", "a\n\nb", "`` ` ``"},
       MaxLines=2, Fences=FENCES[1])
    contain(c, probe, "contained", Leaves={"text", "fence", "icode"}, Bodies=Raw('{<<"x = 1;">>, <<"a", "", "  *b*">>, <<"- c", "> d">>, <<"\\tt">>}'),
            MaxDepth=2, MaxLeaves=3 if THOROUGH else 2, Indents={"fit", "four", "tab"})
    md(c, probe, "sequences", Acts={"text", "blank", "fence", "icode", "heading", "rule", "quote"}, CodeLines=set(CODE[:4]),
       FenceBodies=set(BODIES[:3]), MaxLines=4)
    md(c, probe, "tabs", Acts={"text", "blank", "icode", "icodetab", "heading"}, CodeLines={"x", "  y"}, MaxLines=4)
    for h in ("span", "fenced", "indented"):
        spec(c, probe, "verbatim-" + h, "VerbatimGen",
             dict(Hosts={h}, Pieces=set(VERB), MaxPieces=3, Ticks={1, 2} if h == "span" else {1}), ["Verbatim"])
    spec(c, probe, "ticks", "TicksGen", dict(Hosts={"para", "heading", "bullet", "quote", "cell"}, Words={"a", " ", " b", "<", "c "}, Lens={1, 2, 3},
                                             MaxPieces=5), ["WellNested"])
    spec(c, probe, "tickslong", "TicksGen", dict(Hosts={"para", "cell"}, Words={"a", " ", "'", "#", "&lt;"}, Lens={1, 2, 3, 4},
                                                 MaxPieces=12), ["WellNested"], simulate=200 * S, depth=14)
    spec(c, probe, "verbatim-cells", "VerbatimGen",
         dict(Hosts={"spanbullet", "spanquote", "spanheading", "spancell", "spanordered"}, Pieces=set(VERB), MaxPieces=2,
              Ticks={1, 2, 3}),
         ["Verbatim"])
    md(c, probe, "long", Acts={"text", "blank", "fence", "icode", "icodetab", "heading", "rule", "quote"},
       CodeLines=set(CODE), FenceBodies=set(BODIES), MaxLines=12, simulate=200 * S, depth=14, Fences=FENCES[0])
    scale(c, probe, "fence gaps indent ticks fences lang icode icodes codes code span")
    assume(c)


VERB = ["a", " ", "*", "**", "_", "~~", "[", "](", ")", "#", "- ", "1. ", ">", "<", "<b>", "</code>", "&", "&amp;", "\"", "'",
        "\\", "\\*", "|", "é", "木", "!", "{#i}", "http://x", "~", "\t", "  ", "$", "^", "[^a]", "```", "=", "@", ":", "`"]


def C12(c):
    probe = build_gfm_probe()
    schemes = ["http://h.example/", "https://h.example/", "ftp://h.example/", "mailto:a@b.example?s="]
    more = {"HTTPS://H.example/", "irc://h.example/", "ircs://h.example/", "git+ssh://h.example/", "x-y.z9:", "tel:", "file:///"}
    pieces = schemes + list("aZ9/?=&#.-_~:;,+!$'*@^`{}[") + ["%20", "%2F", "%c3%A9", "./", "../", "//", "www.x.org", "a.b", "&amp;", "&lt;q", "&copy=1", "&#65;", "_(x)", "(", "((a)b)"]
    inv = ["WellNested", "NeverScript"]
    spec(c, probe, "targets", "TargetsGen",
         dict(Mode="benign", Containers={"link", "linkt", "links", "linkw", "linkb", "image", "imaget", "imageb", "auto"},
              Hosts={"para", "bullet", "quote", "heading", "ordered", "cell"}, Pieces=set(pieces) | more, MaxPieces=2), inv)
    spec(c, probe, "targets3", "TargetsGen",
         dict(Mode="benign", Containers={"link", "image", "auto"}, Hosts={"para"}, Pieces=set(pieces), MaxPieces=3), inv)
    spec(c, probe, "targetslong", "TargetsGen",
         dict(Mode="benign", Containers={"link", "linkt", "linkw", "imageb", "image", "auto"}, Hosts={"para", "cell"}, Pieces=set(pieces),
              MaxPieces=10), inv, simulate=200 * S, depth=12)
    links = ["link", "linkrel", "linkfrag", "linkamp", "linkpct", "linkt", "link2", "mailto", "img", "imgabs", "auto",
             "automail", "word", "brack", "paren", "code", "em*", "lone!", "tag"]
    para(c, probe, ["para"], kinds=links, items=3)
    para(c, probe, ["heading", "bullet", "ordered", "task", "quote", "cell", "head", "nested"], kinds=links)
    texts(c, probe)
    scale(c, probe, "links link target query title images autos scheme relative")
    assume(c)


def texts(c, probe):
    spec(c, probe, "texts", "LinkTextGen", dict(Chars=set(LT), MaxChars=3 if THOROUGH else 2), ["Faithful"])


LT = list("aZ9 .,:;?#-+=&%$@^'/()") + ["é", "木", "<", "\"", "|", "\\*", "\\]", "\\[", "\\\"", "\\q", "{", "}"]


def C13(c):
    probe = build_gfm_probe()
    kinds = ["word", "words", "em*", "em_", "em2", "strong*", "strong_", "both*", "both_", "strike", "strike2", "code", "link",
             "lone*", "lone_", "lone**", "lone~", "strikelong", "lone`", "esc", "brack", "img", "amp"]
    para(c, probe, ["para"], kinds=kinds, items=3)
    para(c, probe, ["heading", "bullet", "ordered", "task", "quote", "cell", "head", "nested"], kinds=kinds)
    para(c, probe, ["para"], items=6, simulate=300 * S)
    spec(c, probe, "emphasised", "EmphasisGen", dict(Marks={(m, m) for m in ("*", "_", "**", "__", "***", "___", "~~")},
                                                     Pieces=set(EMP),
                                                     MaxPieces=3 if THOROUGH else 2, Hosts={"para", "bullet", "heading", "quote", "cell"}),
         ["Faithful"])
    md(c, probe, "blocks", Acts={"text", "blank", "heading", "rule", "bullet", "ordered", "quote", "fence", "table", "task", "details"},
       MaxLines=3, LineInl={"word", "lone*", "lone**", "lone~", "em*"})
    runs = {(m * i, m * j) for m in "*_~" for i in range(1, 6) for j in range(1, 6) if i != j or m * i in ("~", "~~~", "****", "____")}
    spec(c, probe, "unequal", "EmphasisGen", dict(Marks=runs, Pieces=set(EMP if THOROUGH else EMP[:6] + ["\\*", "[x]", "|"]), MaxPieces=2,
                                                  Hosts={"para", "bullet", "heading", "quote", "cell"}), ["Faithful"])
    scale(c, probe, "ems strongs boths strikes em strong lone")
    assume(c)


EMP = ["a", " b", ".", ",", "é", "木", "&", "<", ">", "\"", "'", "(", ")", "#", "-", "1.", "\\*", "\\_", "\\~", "\\[", "\\q", "!", "[x]", ":",
       "$", "%", "=", "|", "{", "}", "@", "^"]


def C14(c):
    probe = build_gfm_probe()
    forms = {"end", "mid", "start", "two", "adjacent", "em", "none"}
    blocks = {"bullet", "item", "task", "section", "ordered", "quote", "heading", "rule", "fence", "icode", "table"}
    inv, props = ["WellNested", "Distinct"], ["Stable"]
    spec(c, probe, "notes3", "FootnotesGen", dict(Labels={"a", "b", "c-d"}, MaxSteps=3, Forms=forms, Texts={"", "same"}, Inds={"", "    "}, Gaps={"\n"}, Blocks=set()), inv, props)
    spec(c, probe, "notes4", "FootnotesGen", dict(Labels={"a", "n2"}, MaxSteps=4,
                                                  Forms=forms if THOROUGH else {"end", "two"}, Texts={"", "same"}, Inds={"", "    "},
                                                  Gaps={"\n"}, Blocks=set()), inv, props)
    spec(c, probe, "spellings", "FootnotesGen", dict(Labels={"a", "b"}, MaxSteps=3, Forms={"end", "start"}, Texts={"", "x *y* `z`", "none"},
                                                     Inds={"", " ", "  ", "   ", "    ", "\t", "      ", "\t\t", " \t"},
                                                     Gaps={"\n", " \n", "\n\n"}, Blocks=set()), inv, props)
    spec(c, probe, "noteslong", "FootnotesGen", dict(Inds={"", "    ", " "}, Gaps={"\n"}, Blocks=blocks, Labels={"a", "b", "1", "x.y", "10", "A", "l-2", "a&b", "é"}, MaxSteps=14, Forms=forms, Texts={"", "same", "x *y* `z`"}), inv,
         props, simulate=200 * S, depth=16)
    spec(c, probe, "blocks", "FootnotesGen", dict(Labels={"a", "b"}, MaxSteps=4 if THOROUGH else 3, Forms={"end", "none"}, Texts={""}, Inds={"", "    "},
                                                  Gaps={"\n"}, Blocks=blocks), inv, props)
    md(c, probe, "near", Acts={"text", "blank", "nonote", "heading", "bullet", "quote", "fence"}, MaxLines=3)
    scale(c, probe, "notes refs note label")


# characters that case folding, trimming, normalising or "smart" typography would change, and wide ones
UNICODE = ["’", "“", "”", "–", "—", "…", "ß", "İ", "ﬁ", "ſ", "Å", "e\u0301", "x\u200bx", "x\u200dx", "x\u00adx", "x\u3000x", "x\u00a0x", "x\u2009x",
           "x\u202ex", "©", "→", "👩\u200d👩\u200d👧", "🇩🇪", "\ufffd", "\uffee", "\U0010fffd", "½", "²", "Σς", "ا", "ก", "가", "\u1100\u1161", "¡", "´"]


def C15(c):
    probe = build_gfm_probe()
    punct = set("!\"#$%&'()*+,-./:;<=>?@[\\]^_`{|}~")
    extra = {"é", "木", "𐍈", "\\q"}
    literal(c, probe, "pairs", RawChars=punct, EscChars=punct, Extra=extra,
            Hosts={"para", "heading", "bullet", "ordered", "quote", "cell"}, MaxPieces=2)
    literal(c, probe, "unicode", RawChars=set("'\"-."), EscChars=set(), Extra=set(UNICODE), Hosts={"para", "heading", "bullet", "quote", "cell"},
            MaxPieces=2)
    literal(c, probe, "triples", RawChars=punct, EscChars=punct, Extra=extra, Hosts={"para"}, MaxPieces=3)
    special = set("*_[]<>`~\\")
    literal(c, probe, "special", RawChars=special, EscChars=special, Extra={"é"}, Hosts={"para"}, MaxPieces=4)
    if THOROUGH:
        literal(c, probe, "triples-hosts", RawChars=punct, EscChars=punct, Extra=extra,
                Hosts={"heading", "bullet", "ordered", "quote", "cell"}, MaxPieces=3)
    literal(c, probe, "lines", RawChars=punct, EscChars=punct, Extra=extra,
            Hosts={"para", "heading", "bullet", "ordered", "quote", "cell"}, MaxPieces=10, simulate=40 * S)
    kinds = ["word", "words", "tag", "amp", "esc", "esc[]", "esc`", "esc\\", "brack", "paren", "lt", "gt", "hash", "quotes", "uni",
             "lone*", "lone~", "lone`", "lone[", "lone]", "lone!", "lone![", "em*", "code", "link"]
    para(c, probe, ["para"], kinds=kinds, items=3, joins=(" ", "\n"))
    para(c, probe, ["para", "bullet", "quote", "cell"], kinds=kinds, items=2, joins=("\t", "  "))
    scale(c, probe, "specials slashes escapes words letters wide")
    assume(c)


def C16(c):
    probe = build_gfm_probe()
    seps = {"\n\n", "\n\n\n", "\n \n", "\n\t\n", "\n\n   \n", "\r\n\r\n", "\n      \n\n"}
    locality(c, probe, "pairs", Starts=set(STARTS), Tokens=set(INL), Wholes=set(WHOLE), Codes=set(ICODES), Seps={"\n\n"},
             MaxTokens=2, MaxParts=2)
    locality(c, probe, "separators", Starts=set(STARTS), Tokens={"w"}, Wholes=set(WHOLE), Codes=set(ICODES), Seps=seps,
             MaxTokens=2, MaxParts=2)
    locality(c, probe, "longer", simulate=6000 * S, Starts=set(STARTS), Tokens=set(INL + [" ", "w "]), Wholes=set(WHOLE),
             Codes=set(ICODES), Seps=seps, MaxTokens=6, MaxParts=4)
    if THOROUGH:
        locality(c, probe, "triples", Starts={"w", "*", "- ", "> ", "[", "| w", "1. ", "`"},
                 Tokens={"w", "*", "`", "[", "](", "](u)", "~~", "<", "|", "_", " "}, Wholes=set(WHOLE[:3]), Codes=set(ICODES), Seps={"\n\n"}, MaxTokens=3, MaxParts=2)
    assume(c)


def C17(c):
    probe = build_gfm_probe()
    md(c, probe, "sections", Acts={"text", "blank", "details", "heading", "bullet", "quote", "icode", "fence", "table"},
       MaxLines=5)
    md(c, probe, "near", Acts={"text", "blank", "nosummary", "details", "heading", "bullet", "quote", "fence"},
       LineInl={"word", "em*"}, MaxLines=4)
    md(c, probe, "named", Acts={"text", "blank", "details", "bullet", "heading"}, LineInl={"word", "dtag", "dcode"}, MaxLines=4)
    md(c, probe, "sectionslong", Acts={"text", "blank", "details", "heading", "bullet", "quote", "icode", "fence", "table",
                                        "ordered", "task", "rule"}, LineInl={"word", "em*", "code", "link", "tag", "dtag", "dcode"}, MaxLines=14,
       simulate=200 * S, depth=16)
    scale(c, probe, "sections body summary baretag", "inside")
    assume(c)


def C04(c):
    probe = build_gfm_probe()
    levels = ["Off", "Trace"]
    purity(c, probe, "short", 2, HDOCS[3:7], levels, 2)
    purity(c, probe, "pairs", 1, HDOCS, levels, 2, repeat=2)
    purity(c, probe, "long", 4, HDOCS, ["Off", "Error", "Warn", "Info", "Debug", "Trace"], 30, simulate=30 * S)
    fam = families()
    purity(c, probe, "similar", 1, fam[:1] + fam[-15:], levels[:1], 2)
    purity(c, probe, "families", 3, fam, ["Off", "Info", "Trace"], 40, simulate=12 * S)
    purity(c, probe, "repeated", 2, HDOCS[:8], levels, 8, simulate=8, repeat=2000 * S)
    c.assumptions.append("schedules inside one rendering call are those the machine produces (calls are started together)")


PROPS = {f"C{i:02d}": f for i, f in [(1, C01), (2, C02), (3, C03), (4, C04), (5, C05), (6, C06), (7, C07), (8, C08), (9, C09),
                                      (10, C10), (11, C11), (12, C12), (13, C13), (14, C14), (15, C15), (16, C16), (17, C17)]}
