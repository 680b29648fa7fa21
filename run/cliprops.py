"""Properties of the program: files, exit status, configuration, PDFs."""
import itertools, random
from common import *
from docs import model, Raw
from browser import *
from pipe import *

PROPS, TECH, NOTE = {}, {}, {}


def prop(i, tech, note):
    def deco(f):
        PROPS[i], TECH[i], NOTE[i] = f, tech, note
        return f
    return deco


def pick(xs, n, salt=0):
    """A sample that keeps the order."""
    if THOROUGH or len(xs) <= n:
        return list(xs)
    r = random.Random(SEED * 1000 + salt)
    return [xs[i] for i in sorted(r.sample(range(len(xs)), n))]


def faulty(b):
    return next(((s[1], s[2]) for s in b["steps"] if s[2] != "ok"), None)


def behaviours(c, single=40, pairs=60, triples=16, thr=10, faults=FAULTS):
    out = []
    # a lone run: every failure and every directory
    bs = pipeline(c, "lone", 1, faults=faults, maxfaults=1, takens=[(), (1,)], olds=[(), (1,)], dirs=DIRS[:3], places=["here", "elsewhere"])
    groups = {}
    for b in bs:
        groups.setdefault((faulty(b), bool(b["world"]["taken"])), []).append(b)
    for i, k in enumerate(sorted(groups, key=str)):
        out += pick(groups[k], max(1, single // len(groups)), i)
    bs = pipeline(c, "places", 1, takens=[()], olds=[()], dirs=DIRS, places=["here", "elsewhere"])
    out += pick(bs, len(DIRS), 50) if not THOROUGH else bs
    # two at once: every interleaving, with at most one failure
    bs = pipeline(c, "pair", 2, faults=[f for f in FAST if f in faults and f[1] not in ("close", "garbage", "refuse")], maxfaults=1,
                  takens=[(), (1,), (1, 2)], olds=[(), (2,)])
    out += pick([b for b in bs if not faulty(b)], pairs // 2, 101)[:2000]
    out += pick([b for b in bs if faulty(b)], pairs // 2, 102)[:1500]
    # three
    bs = pipeline(c, "triple", 3, takens=[(), (2,)], olds=[()], simulate=4000 if not THOROUGH else 40000)
    out += pick(bs, triples, 103)[:600]
    # as threads of one process
    if thr:
        bs = pipeline(c, "threads", 3, faults=[("navigate", "error"), ("print", "error"), ("load", "destroy")], maxfaults=1,
                      takens=[(), (1,)], simulate=3000 if not THOROUGH else 20000)
        out += [dict(b, threads=True) for b in pick(bs, thr, 104)[:300]]
    return out


PIPE = ("TLA+ specification of concurrent conversions (Pipeline) explored with TLC; its behaviours are carried out with real runs of smd "
        "whose browser takes exactly the behaviour's steps")
PIPENOTE = ("every interleaving of two runs with at most one failure is explored in the specification, a seeded sample is carried out (all in "
            "thorough up to a cap); Chrome is a stand-in speaking its protocol. Steps of smd between two browser steps are not controlled "
            "(a third of the behaviours lets them run concurrently).")


@prop("C21", PIPE, PIPENOTE)
def c21(c):
    binary, core = build_smd(), build_core_probe()
    bs = behaviours(c, single=36, pairs=70, triples=20, thr=14)
    carry_out_all(c, binary, bs, {"own", "hang"}, core)
    bs = pick(program(c, "names", Names=NAMES, Spellings=SPELL, Dirs=PDIRS, Formats=["pdf"], Edits=["long"], MaxOps=2), 60, 7)
    carry_out_programs(c, binary, core, bs, {"denied-pdf", "content-pdf", "hang", "crash"})
    c.assumptions += ["the browser loads file URLs as the URL standard resolves them and prints deterministic bytes for a page",
                      "no Chrome is installed here: its protocol is spoken by run/fakechrome.py"]


@prop("C22", PIPE, PIPENOTE)
def c22(c):
    binary, core = build_smd(), build_core_probe()
    bs = behaviours(c, single=76, pairs=50, triples=12, thr=10)
    carry_out_all(c, binary, bs, {"left", "clobbered"}, core)
    c.assumptions += ["no Chrome is installed here: its protocol is spoken by run/fakechrome.py",
                      "a killed smd process is not required to clean up"]


# ------------------------------------------------------------------ the program
from prog import *

PROG = ("TLA+ specification of the program as seen by its user (Program) explored with TLC; its histories are carried out with the real binary "
        "and the whole directory tree compared after every run")
PROGNOTE = ("histories up to the bound over the listed names, spellings, contents, faults and permissions, sampled where there are too many; "
            "expected HTML is what gfm::Parser::render returns. Faults are those a scratch directory, file size limits, /dev/full and an "
            "unprivileged user can produce.")
PDFFAULTS = ["nochrome", "launch:root", "tab:error", "navigate:nav", "navigate:die", "print:error", "print:die", "load:destroy"]


@prop("C18", PROG, PROGNOTE)
def c18(c):
    binary, core = build_smd(), build_core_probe()
    bs = pick(program(c, "names", Names=NAMES, Spellings=SPELL, Dirs=PDIRS, MaxOps=2), 700, 1)
    bs += pick(program(c, "contents", Docs=range(1, 10), Edits=["edit", "long", "short", "empty"], MaxOps=3), 400, 2)
    bs += pick(program(c, "histories", Docs=[1, 2, 3], Edits=["edit", "long", "gone"], MaxOps=5), 500, 3)
    bs += pick(program(c, "long histories", Names=NAMES[:4], Docs=[1, 2, 4, 5, 8], Spellings=["rel", "abs", "tilde", "link"], Dirs=["d", "x.d"],
                       Edits=["edit", "long", "short", "gone", "missing"], MaxOps=12, simulate=300 * (8 if THOROUGH else 1)), 150, 4)
    carry_out_programs(c, binary, core, bs, {"denied-html", "content-html", "hang", "crash"})


@prop("C19", PROG, PROGNOTE)
def c19(c):
    binary, core = build_smd(), build_core_probe()
    bs = pick(program(c, "names", Names=NAMES + SELF, Spellings=["rel", "abs"], Dirs=["d", "x.d"], MaxOps=2), 200, 1)
    bs += pick(program(c, "own extension", Names=SELF, Spellings=SPELL, Formats=["html", "pdf"], MaxOps=2), 60, 2)
    bs += pick(program(c, "links", Names=[NAMES[0], NAMES[1], SELF[0]], Docs=[1, 2], Formats=["html", "pdf"], Spellings=["rel", "link"],
                       Edits=["edit", "hard", "soft", "long", "gone"], MaxOps=4), 250, 3)
    bs += pick(program(c, "faults", Docs=[1, 2], Limits=["any", "short", "zero"], Confs=["broken", "invalid", "absent"],
                       Edits=["edit", "missing", "binary", "directory", "block", "full", "noread", "noout", "nodir", "long"],
                       MaxOps=4), 450, 4)
    bs += pick(program(c, "mistakes", Docs=[1], Edits=["edit", "missing", "long", "initialize"], BadArgs=BAD, Asks=ASKS, MaxOps=3), 120, 14)
    bs += pick(program(c, "pdf", Docs=[1], Formats=["html", "pdf"], Faults=PDFFAULTS, Limits=["any", "short"], Edits=["edit", "long", "block", "full"],
                       MaxOps=3), 120, 5)
    bs += pick(program(c, "configuration", Docs=[1], Edits=["edit", "initialize", "both"], Confs=CONFS, MaxOps=4), 200, 6)
    carry_out_programs(c, binary, core, bs, {"stray"})


@prop("C20", PROG + "; browser failures also through Pipeline", PROGNOTE)
def c20(c):
    binary, core = build_smd(), build_core_probe()
    bs = pick(program(c, "faults", Docs=[1, 2], Limits=["any", "exact", "short", "zero"], Confs=["broken", "invalid", "absent", "isdir", "binary"],
                      Edits=["edit", "missing", "binary", "directory", "block", "full", "noread", "noout", "nodir", "long"], MaxOps=4), 800, 1)
    bs += pick(program(c, "limits", Docs=[1, 2, 4, 5, 7, 8], Limits=["any", "exact", "short", "zero"], Edits=["edit", "short", "long"], MaxOps=3), 120, 2)
    bs += program(c, "arguments", BadArgs=BAD, Asks=ASKS, MaxOps=2)
    bs += pick(program(c, "configuration", Edits=["edit", "initialize"], Confs=CONFS, MaxOps=4), 250, 3)
    bs += pick(program(c, "pdf", Docs=[1], Formats=["pdf"], Faults=PDFFAULTS, Limits=["any", "short"], Confs=["broken", "absent"],
                       Edits=["edit", "long", "block", "full", "missing", "noout", "nodir"], MaxOps=3), 120, 4)
    carry_out_programs(c, binary, core, bs, {"lied", "silent", "touched", "hang"})
    bs = pipeline(c, "lone", 1, faults=FAULTS, maxfaults=1, takens=[()], olds=[(), (1,)])
    carry_out_all(c, binary, bs, {"status", "untouched", "hang"})


@prop("C24", PROG, PROGNOTE)
def c24(c):
    binary, core = build_smd(), build_core_probe()
    bs = pick(program(c, "configuration", Edits=["edit", "initialize", "both"], Confs=CONFS, MaxOps=4), 900, 1)
    bs += pick(program(c, "long histories", Docs=[1, 8], Edits=["edit", "initialize", "both"], Confs=CONFS, MaxOps=10,
                       simulate=300 * (8 if THOROUGH else 1)), 150, 2)
    carry_out_programs(c, binary, core, bs, {"config", "denied-initialize", "denied-both", "denied-html", "lied"})


# ------------------------------------------------------------------ the library
from core import *


@prop("C23", "TLA+ specification of the configuration's layers (Config) explored with TLC; every combination and histories of loads replayed "
             "through smd_core::config and the real binary",
      "all combinations of the listed values in both layers and forms of the file; values outside the lists (numbers or words taken for booleans) "
      "are left open")
def c23(c):
    binary, core = build_smd(), build_core_probe()
    K = dict(Forms=set(FORMS), Actions=set(ACTIONS), Keeps=set(KEEPS), EnvActions=set(ENVA), EnvKeeps=set(ENVK), Noises={"none"}, MaxLoads=1)
    inv = ["Independent", "Memoryless", "Sound"]
    bs = gen(c, "layers", "ConfigGen", K, inv)
    bs += gen(c, "malformed", "ConfigGen", dict(K, Forms=set(BADFORMS), Actions={"unset", "skip", "bogus"}, Keeps={"unset", "true"}), inv)
    bs += gen(c, "noise", "ConfigGen", dict(K, Noises=set(NOISES), Forms={"none", "table"}, Actions={"unset", "skip"}, Keeps={"unset", "true"}), inv)
    one = [b[0] for b in bs]
    bs += gen(c, "histories", "ConfigGen", dict(K, Forms=set(FORMS + BADFORMS), MaxLoads=5, Actions={"unset", "abort", "skip", "bogus"}, Keeps={"unset", "true", "false"}),
              inv, simulate=400 * (8 if THOROUGH else 1), depth=14)[:3000]
    load_all(c, core, bs)
    page = html_of(build_gfm_probe(), TEXTS[1])
    run_all(c, binary, pick(one, 500, 1), page)


@prop("C25", "TLA+ specification of the file functions (FileStore) explored with TLC; its histories replayed through smd_core::fs, comparing "
             "returned values and every file after each call",
      "all histories of three calls over the listed paths and contents, sampled longer ones, file size limits; contents outside the list are "
      "assumed to behave alike")
def c25(c):
    core = build_core_probe()
    user = unprivileged()
    bad = {"directory", "orphan", "under", "empty"} | ({"secret"} if user else set())
    inv = ["ReadBack", "Complete", "Framed"]

    def store(ids):
        return dict(Contents=Raw("{" + ", ".join(map(str, ids)) + "}"), Texts=Raw("{" + ", ".join(str(i) for i in ids if i in TEXTIDS) + "}"),
                    Lists=Raw("{" + ", ".join(str(i) for i in ids if i in LISTIDS) + "}"))
    bs = gen(c, "short", "FileStoreGen", dict(Paths={"p1", "p2"}, Bad={"directory", "orphan"}, MaxOps=3, **store([1, 2, 8])), inv)
    bs = pick(bs, 4000, 1)
    bs += pick(gen(c, "contents", "FileStoreGen", dict(Paths={"p1"}, Bad={"directory"}, MaxOps=2, **store(sorted(STORE))), inv), 3000, 2)
    bs += gen(c, "long", "FileStoreGen", dict(Paths={"p1", "p2", "p3"}, Bad=bad, MaxOps=14, **store(sorted(STORE))), inv,
              simulate=40 * (8 if THOROUGH else 1), depth=16)[:3000]
    file_histories(c, core, bs, bad, user)
    limited(c, core)
    if not user:
        c.assumptions.append("unreadable files were not exercised: the check could not run as an unprivileged user")


@prop("C26", "runs of the real binary recorded at every verbosity and checked with TLC against a TLA+ specification of what verbosity may change (Logging)",
      "commands with each kind of outcome, every level, odd values of RUST_LOG and an unwritable stderr; for PDF conversions only errors are "
      "compared, because the browser library logs from several threads")
def c26(c):
    binary = build_smd()
    check_logging(c, binary)
