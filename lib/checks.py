"""The checks, one per property."""
import json, os, re
from vlib import Broken, CORES

CHECKS = {}


def check(*ids, level="model_checking", technique="TLA+ specification, TLC trace validation", note=""):
    def deco(f):
        for i in ids:
            CHECKS[i] = {"run": f, "level": level, "technique": technique, "note": note}
        return f
    return deco


# ---- comparison, library level -------------------------------------------------------------------------------------

# random profiles and their share per property
PROFILES = {
    "C01": [("same", 6), ("mixed", 1)],
    "C02": [("breaking", 3), ("mixed", 2), ("ext", 1), ("large", 1)],
    "C03": [("mixed", 2), ("large", 1), ("additive", 1), ("breaking", 1)],
    "C04": [("mixed", 2), ("safe", 2), ("breaking", 1)],
    "C05": [("dangerous", 3), ("mixed", 2), ("large", 1)],
    "C06": [("additive", 4), ("mixed", 2)],
    "C07": [("mixed", 2), ("ext", 2), ("large", 2), ("breaking", 1)],
    "C08": [("safe", 3), ("dangerous", 2), ("additive", 2), ("ext", 1)],
    "C09": [("ext", 5), ("same", 1)],
    "C10": [("mixed", 3), ("ext", 2), ("large", 1)],
    "C11": [("mixed", 3), ("ext", 2), ("large", 1)],
}


def compare_models(x):
    """The design models whose states are cases for the comparison."""
    x.exhaustive.append("all versions reached from ten hand-made schemas by at most two edits (spec/MC_Edits.tla)")
    yield "MC_Edits", {"BASE": "all", "DEPTH": "2"}, "all bases, up to 2 edits"
    x.exhaustive.append("all pairs of near misses: sets of at most two of ten names, twenty odd names, 40 values, 24 texts, kinds, applications, root operations, references, locations, one odd member of up to 65, in every place (spec/MC_Names.tla)")
    yield "MC_Names", {"UNIVERSE": "all"}, "all universes"
    if x.prop in ("C03", "C08", "C10"):
        d = "3" if x.prop == "C03" or x.thorough else "2"
        x.exhaustive.append("all pairs of type references over two names, at most %s lists deep, in each place a type can stand (one at a time for C08) (spec/MC_Types.tla)" % d)
        yield "MC_Types", {"DEPTH": d, "PLACES": "each" if x.prop == "C08" else "all"}, "lists up to %s deep" % d
        x.exhaustive.append("all pairs of type references over twelve names, lists at most one deep, in each place (spec/MC_Types.tla)")
        yield "MC_Types", {"DEPTH": "1", "PLACES": "each" if x.prop == "C08" else "all"}, "twelve names"
        x.exhaustive.append("all pairs of type references five and six lists deep that differ in what may be null, alike on all but one level (spec/MC_Types.tla)")
        yield "MC_Types", {"DEPTH": "deep", "PLACES": "each" if x.prop == "C08" else "all"}, "five and six lists deep"
    if x.prop == "C08":
        yield from client_model(x)


def client_model(x):
    """C08 on the design level; its versions are cases too."""
    d = x.n(1, 2)
    x.exhaustive.append("all versions reached from three schemas by at most %d edits, against all client operations of spec/Client.tla" % d)
    yield "MC_Client", {"BASE": "all", "DEPTH": str(d)}, "up to %d edits, all operations" % d


@check("C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11")
def compare_lib(x):
    drv = x.build("drv-compare")
    for module, env, label in compare_models(x):
        t = module + "-" + label
        c = x.cases(x.model(module, env=env, label="%s (%s)" % (module, label)), t)
        p = x.path(t)
        x.drive([drv, "-cases", c], p)
        x.judge("TraceCompare", p, CORES, {"PROP": x.prop}, label="cases of " + t)
    if x.thorough:
        x.model("MC_Edits", "MC_EditsDeep", env={"BASE": "all", "DEPTH": "3"}, label="MC_Edits (all bases, up to 3 edits, no cases)")
    total = x.n(6000, 80000)
    shares = PROFILES[x.prop]
    whole = sum(s for _, s in shares)
    p = x.path("random")
    x.drive([drv, "-random", ",".join("%s:%d" % (prof, total * s // whole) for prof, s in shares)], p)
    x.judge("TraceCompare", p, CORES, {"PROP": x.prop})
    x.sample(p, 2)


@check("C15")
def history(x):
    drv = x.build("drv-compare")
    r = x.model("MC_History")
    x.exhaustive.append("all ways between three versions of one argument, input field, directive definition, field, enum, set of names, value, text, kind, list of applications, root (spec/MC_History.tla)")
    p = x.path("families")
    x.drive([drv, "-histories", x.cases(r)], p)
    x.judge("TraceHistory", p, CORES, label="families of MC_History")
    p = x.path("chains")
    x.drive([drv, "-chains", str(x.n(8000, 80000))], p)
    x.judge("TraceHistory", p, CORES)
    x.sample(p, 2)


@check("C16")
def pure_calls(x):
    x.env["CGO_ENABLED"] = "1"
    drv = x.build("drv-calls", "-race")
    x.env["GORACE"] = "halt_on_error=1 exitcode=66 atexit_sleep_ms=0"
    n = x.n(2, 3)
    r = x.model("MC_Calls", env={"LENGTH": str(n)}, label="MC_Calls (%d calls)" % n)
    x.exhaustive.append("all sequences of at most %d of 31 calls on two documents, and all pairs of them at the same time (spec/MC_Calls.tla)" % n)
    p = x.path("plans")
    x.drive([drv, "-cases", x.cases(r)], p)
    x.judge("TraceCalls", p, CORES, label="plans of MC_Calls")
    p = x.path("sessions")
    x.drive([drv, "-random", str(x.n(600, 10000))], p)
    x.judge("TraceCalls", p, CORES)
    x.sample(p, 1)


# ---- lint, library level ---------------------------------------------------------------------------------------------

@check("L01", "L02", "L03", "L04")
def lint_rules(x):
    u = {"L01": "desc", "L02": "names", "L03": "conn", "L04": "args"}[x.prop]
    rules(x, u)
    rules(x, "rows")
    rules(x, "", 16000, 160000)
    x.sample(x.path("rules"), 2)


def rules(x, u, quick=0, deep=0):
    """Runs the rules on the documents of a universe, or on random texts, and judges what they report."""
    drv = x.build("drv-lint")
    if u:
        r = x.model("MC_LintRules", "MC_LintRulesDeep" if x.thorough else None, env={"UNIVERSE": u}, label="MC_LintRules (%s)" % u)
        x.exhaustive.append("the universe '%s' of spec/MC_LintRules.tla" % u)
        p = x.path(u)
        x.drive([drv, "-mode", "rules", "-cases", x.cases(r)], p)
    else:
        p = x.path("rules")
        x.drive([drv, "-mode", "rules", "-random", "rules:%d" % x.n(quick, deep)], p)
    x.judge("TraceRules", p, CORES, {"PROP": x.prop}, label=u and "cases of MC_LintRules (%s)" % u)


@check("L06", "L07", "L08")
def lint_scan(x):
    drv = x.build("drv-lint")
    u, n = {"L06": ("block", x.n(4, 5)), "L07": ("line", x.n(4, 5)), "L08": ("strings", 2)}[x.prop]
    r = x.model("MC_LintScan", env={"UNIVERSE": u, "ITEMS": str(n)}, label="MC_LintScan (%s, %d items)" % (u, n))
    x.exhaustive.append("all texts of at most %d items of the universe '%s' of spec/MC_LintScan.tla" % (n, u))
    p = x.path(u)
    x.drive([drv, "-mode", "scan", "-cases", x.cases(r)], p)
    x.judge("TraceScan", p, CORES, label="cases of MC_LintScan")
    profiles = {"L06": [("block", 3), ("all", 1)], "L07": [("line", 3), ("all", 1)], "L08": [("strings", 2), ("ends", 1), ("all", 1)]}[x.prop]
    p = x.path("scan")
    x.drive([drv, "-mode", "scan", "-random", ",".join("%s:%d" % (a, x.n(900, 15000) * b) for a, b in profiles)], p)
    x.judge("TraceScan", p, CORES)
    x.sample(p, 2)


# ---- the tokenizer ---------------------------------------------------------------------------------------------------

LEX_QUICK = {"strings": 5, "blocks": 4, "numbers": 5, "lines": 4, "punct": 4, "escapes": 4, "codes": 3, "indents": 5, "layout": 4, "all": 2}
LEX_DEEP = {"strings": 7, "blocks": 6, "numbers": 7, "lines": 6, "punct": 6, "escapes": 6, "codes": 4, "indents": 7, "layout": 5, "all": 3}


@check("L12")
def tokenizer(x):
    drv = x.build("drv-lex")
    n = x.n(4, 5)
    x.model("MC_Lexer", env={"LENGTH": str(n)}, label="MC_Lexer (texts of %d units)" % n)
    p = x.path("lex")
    u = x.n(LEX_QUICK, LEX_DEEP)
    x.drive([drv, "-universes", ",".join("%s:%d" % i for i in u.items()), "-tables", "-random", str(x.n(4000, 100000)), "-schemas", str(x.n(1000, 10000))], p)
    x.judge("TraceLex", p, CORES)
    x.exhaustive.append("every character below U+0100 and some others in 31 contexts, and all pairs of ASCII characters")
    x.exhaustive += ["all texts of at most %d units from the alphabet '%s'" % (n, k) for k, n in u.items()]
    x.sample(p, 1)


# ---- the command line ------------------------------------------------------------------------------------------------

def cli(x, mode, n, trace, cases=None, **env):
    """Records runs of the built tool and judges them."""
    if not hasattr(x, "cli"):
        x.cli, x.gql = x.build("drv-cli"), x.build_gql()
    p = x.path(mode)
    cmd = [x.cli, "-mode", mode, "-out", p, "-shards", str(CORES), "-n", str(n), "-times", str(x.n(6, 16)), "-seed", str(x.seed),
           "-gql", x.gql, "-work", x.path("work"), *(["-cases", cases] if cases else [])]
    x.ended(*x.run(cmd, 800, ok=None), cmd)
    x.judge(trace, p, CORES, dict(env, PROP=x.prop))
    x.sample(p, 1)


@check("L05", "L09", "L10")
def lint_cli(x):
    if x.prop == "L05":
        d = x.n(2, 3)
        r = x.model("MC_Selection", env={"DEPTH": str(d)}, label="MC_Selection (%d names, and all sets of rules)" % d)
        x.exhaustive.append("all sets of rules in two orders, and all ways to type at most %d names (spec/MC_Selection.tla)" % d)
        cli(x, "selection", 0, "TraceLintCli", cases=x.cases(r))
    if x.prop == "L09":
        for u in ("desc", "names", "conn", "args"):
            rules(x, u)
        rules(x, "", 4000, 60000)
    if x.prop == "L10":
        lint_files(x)
    if x.prop != "L05":
        delivery(x)
    cli(x, "lint", x.n(1600, 24000), "TraceLintCli")
    cli(x, "many", x.n(500, 8000), "TraceLintCli")
    if x.prop == "L09":
        block_string_position(x)


PROBE = 'enum E {\n  A\n  """\n  about\n  the value\n  """\n  b_c\n}\n'


def block_string_position(x):
    """A recorded finding: elements with a description of several lines are located at its end, with a column of nothing."""
    os.makedirs(x.path("probe"))
    with open(x.path("probe", "p.graphql"), "w") as f:
        f.write(PROBE)
    out = x.run([x.gql, "lint", "-f", "p.graphql", "-r", "enum-caps"], 60, cwd=x.path("probe"), ok=None)[1]
    m = re.search(r"^p\.graphql:(\d+):(-?\d+) enum value E\.b_c", out, re.M)
    x.known("block-string-position", m and m.group(0), bool(m) and not (1 <= int(m.group(1)) <= 8 and int(m.group(2)) >= 1))


def lint_files(x):
    d = x.n(3, 4)
    r = x.model("MC_LintFiles", env={"FILES": str(d)}, label="MC_LintFiles (%d files)" % d)
    x.exhaustive.append("all choices of at most %d files out of ten kinds, with three selections of rules (spec/MC_LintFiles.tla)" % d)
    cli(x, "files", 0, "TraceLintCli", cases=x.cases(r))


def delivery(x):
    """Much input, and input in pieces."""
    s = "large" if x.thorough else "small"
    r = x.model("MC_Delivery", env={"SIZE": s}, label="MC_Delivery (%s)" % s)
    x.exhaustive.append("input in pieces through pipes and on standard input, many files, errors, lines, long lines, few file handles (spec/MC_Delivery.tla, %s)" % s)
    cli(x, "delivery", 0, "TraceDelivery", cases=x.cases(r))


@check("C12", "C13")
def compare_cli(x):
    d = x.n(3, 4)
    r = x.model("MC_Print", env={"DEPTH": str(d)}, label="MC_Print (lists of %d)" % d)
    x.exhaustive.append("all lists of at most %d changes over 3 criticalities, 2 files and 3 lines; all numbers of changes from {0, 1, 2, 10, 11} of each criticality (spec/MC_Print.tla)" % d)
    cli(x, "lists", 0, "TraceCompareCli", cases=x.cases(r))
    delivery(x)
    cli(x, "compare", x.n(4000, 24000), "TraceCompareCli")


@check("I01")
def many_files(x):
    delivery(x)
    lint_files(x)
    cli(x, "many", x.n(2000, 16000), "TraceLintCli")
    cli(x, "merge", x.n(3000, 20000), "TraceCompareCli")


@check("C14")
def repeatable(x):
    cli(x, "repeat", x.n(4000, 20000), "TraceRuns")


@check("L11")
def no_crash(x):
    cli(x, "crash", x.n(16000, 120000), "TraceRuns")


@check("I02")
def unusable(x):
    x.model("MC_Cli", "MC_CliLive", env={"FILES": "2"}, label="MC_CliLive (2 files)")
    r = x.model("MC_Cli", env={"FILES": "3"}, label="MC_Cli (3 files)")
    if x.thorough:
        r = x.model("MC_Cli", "MC_CliCases", env={"FILES": "4"}, label="MC_Cli (4 files, scenarios only)")
    x.exhaustive.append("all scenarios of at most %d files, each file in one of 11 conditions, and all combinations of option faults" % x.n(3, 4))
    cli(x, "faults", 0, "TraceFault", cases=x.cases(r))


@check("I03")
def command_line(x):
    d = x.n(3, 4)
    r = x.model("MC_CommandLine", env={"DEPTH": str(d)}, label="MC_CommandLine (%d words)" % d)
    x.exhaustive.append("all command lines of at most 3 words after the command, out of 21 (lint) or 24 (compare)%s; two more words after a complete one; 18 others (spec/MC_CommandLine.tla)" % x.n("", ", or of 4 out of 11 or 13"))
    cli(x, "words", 0, "TraceCommandLine", cases=x.cases(r))


@check("I04")
def untouched(x):
    x.model("MC_FileTree")
    r = x.model("MC_Cli", env={"FILES": "3"}, label="MC_Cli (3 files)")
    x.exhaustive.append("scenarios of at most 3 files, each file in one of 11 conditions, with files and directories that may be written or not")
    cli(x, "untouched", x.n(4000, 100000), "TraceFileTree", cases=x.cases(r))
