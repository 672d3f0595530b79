"""The checks of all properties: what is generated, replayed and judged."""
import json
import os
import random
import shutil

import execute
import lib
from lib import Machinery

CHECKS = {}


def check(prop):
    def register(f):
        CHECKS[prop] = f
        return f
    return register


def clip(x, n=700):
    s = x if isinstance(x, str) else repr(x)
    return s if len(s) <= n else s[:n] + "..."


def lines_of(cases):
    return list(dict.fromkeys(c["line"] for c in cases))


# ------------------------------------------------ command lines (C01 .. C11)

def random_words(rng, n):
    pool = ["sort", "grep", "-n", "--reverse", "-rn", "é ü", "a'b", 'say "hi"', "back\\slash", "", "-", "tab\there",
            "new\nline", "x" * 50, "$HOME", "*?[a]", "#no", "a;b|c&d", "日本", "-k", "=", "--", "(", "~"]
    return [rng.choice(pool) if rng.random() < .6 else
            "".join(rng.choice("ab-'\"\\ \t\n=$é#") for _ in range(rng.randint(0, 6))) for _ in range(n)]


def random_quote(rng, w):
    """Some way to write a word, using only what the specification covers."""
    out = []
    for ch in w:
        k = rng.random()
        if ch == "\n" or (ch in "$`" and k > .5):
            out.append("'" + ch + "'")
        elif ch in "'":
            out.append(rng.choice(["\\'", '"\'"']))
        elif ch in '"':
            out.append(rng.choice(['\\"', "'\"'", '"\\""']))
        elif ch == "\\":
            out.append(rng.choice(["\\\\", "'\\'", '"\\\\"']))
        elif ch in " \t":
            out.append(rng.choice(["\\" + ch, "'" + ch + "'", '"' + ch + '"']))
        elif k < .7:
            out.append(ch)
        else:
            out.append(rng.choice(["\\" + ch, "'" + ch + "'", '"' + ch + '"' if ch not in "$`" else "'" + ch + "'"]))
    if not out or rng.random() < .1:
        out.insert(rng.randint(0, len(out)), rng.choice(["''", '""']))
    return "".join(out)


def random_lines(rng, n):
    res = []
    for _ in range(n):
        words = ["sort" if rng.random() < .3 else rng.choice(["grep", "cat", "tr", "xyz", "uniq", "sed"])]
        words += random_words(rng, rng.randint(0, 6))
        line = rng.choice(["", " ", "\t"]) + rng.choice([" ", "  ", "\t", " \n"]).join(random_quote(rng, w) for w in words)
        if rng.random() < .15:
            line += rng.choice(["'", '"', "\\", " ", "\n"])
        res.append(line)
    return res


def judge_lines(run, lines, op="ann", built=()):
    """Command lines, and invocations built by hand."""
    cases = [{"op": op, "line": l} for l in lines] + [{"op": op, "inv": i} for i in built]
    results = run.drive(cases)
    records = []
    for c, r in zip(cases, results):
        name = c["line"] if "line" in c else "built by hand: " + json.dumps(c["inv"])
        if "crash" in r:
            run.violation("crash " + name, "%s: the code ends with %s" % (clip(name), r["crash"]),
                          {"line": name, "result": r})
        elif "line" in c:
            records.append({"line": name, "hand": False, "res": r})
        else:
            records.append({"line": name, "hand": True, "given": c["inv"], "res": r})
    fails = run.judge("AnnTrace", records)
    for f in fails:
        rec = records[f["id"]]
        run.violation(rec["line"], "%s: %s differ; expected %s; got %s" % (
            clip(rec["line"]), ", ".join(f["clauses"]), clip(f["expected"]), clip(str(interesting(run.prop, rec["res"])))),
            {"line": rec["line"], "clauses": f["clauses"], "expected": f["expected"], "result": rec["res"]})
    for rec in records[:: max(1, len(records) // 5)]:
        run.sample({"line": rec["line"], "answer": interesting(run.prop, rec["res"])})
    run.count("command lines", len(lines))
    if built:
        run.count("invocations built by hand", len(built))
    return fails


def interesting(prop, res):
    if prop in ("C01", "C02", "C19"):
        return res["inv"] if res["ok"] else res["exc"]
    if res.get("praised" if prop in ("C10", "C11") else "raised"):
        return "raised " + res["raised"] + res["praised"]
    return res["para"] if prop in ("C10", "C11") else res["io"]


@check("C01")
def c01(run):
    rng = random.Random(run.seed)
    lines = []
    for env in ([{"MAXLEN": "6", "ALPHA": "poor"}, {"MAXLEN": "4", "ALPHA": "rich"}] if run.thorough else
                [{"MAXLEN": "5", "ALPHA": "poor"}, {"MAXLEN": "3", "ALPHA": "rich"}]):
        lines += lines_of(run.tlc("LexMC", env)[0])
        run.exhaustive.append("lines over the %s alphabet after 3 prefixes up to %s characters" % (env["ALPHA"], env["MAXLEN"]))
    lines += lines_of(run.tlc("LexMC", {"MAXLEN": "12", "ALPHA": "rich"}, simulate=20000 if run.thorough else 150, depth=13)[0])
    lines += lines_of(run.tlc("WordsMC", {"MAXWORDS": "3" if run.thorough else "2", "RICH": "0"})[0])
    lines += lines_of(run.tlc("WordsMC", {"MAXWORDS": "9", "RICH": "1"}, simulate=10000 if run.thorough else 150, depth=9)[0])
    lines += lines_of(run.tlc("TextsMC", texts_env(run))[0])
    lines += long_lines(run)
    lines += random_lines(rng, 200000 if run.thorough else 6000)
    run.assumptions.append("backslash-newline, \\$ and \\` inside double quotes, carriage returns outside quotes, and NUL are not used")
    judge_lines(run, list(dict.fromkeys(lines)), "parse")


@check("C02")
def c02(run):
    lines = lines_of(run.tlc("WordsMC", {"MAXWORDS": "4" if run.thorough else "3", "RICH": "0"})[0])
    run.exhaustive.append("words of every command's table, its bundles of two and non-spellings; sequences up to %d words"
                          % (4 if run.thorough else 3))
    lines += lines_of(run.tlc("WordsMC", {"MAXWORDS": "9", "RICH": "1"}, simulate=30000 if run.thorough else 200, depth=9)[0])
    lines += lines_of(run.tlc("TextsMC", texts_env(run))[0])
    lines += long_lines(run)
    judge_lines(run, list(dict.fromkeys(lines)), "parse")


def texts_env(run):
    run.exhaustive.append("99 texts (spec/texts.json) as argument and as operand in every place, and up to %d operands, for every command" % (40 if run.thorough else 12))
    return {"MAXFOS": "1", "W0": "3", "W1": "2", "W2": "1", "RICH": "1" if run.thorough else "0", "ONLY": ""}


def long_lines(run):
    env = texts_env(run)
    run.exhaustive[-1] = "lists of flags, options, operands, bundles and words of %s entries or characters, for every command" % (
        "13 to 257" if run.thorough else "17, 40 and 129")
    return lines_of(run.tlc("SizesMC", env)[0])


def script_lines(run):
    env = dict(texts_env(run), MAXLEN="4" if run.thorough else "3")
    run.exhaustive[-1] = "sets of tr, scripts of sed, keys and orders of sort of up to %s characters" % env["MAXLEN"]
    return lines_of(run.tlc("ScriptsMC", env)[0])


def invocation_lines(run):
    quick = {"MAXFOS": "2", "W0": "3", "W1": "2", "W2": "1", "RICH": "0", "ONLY": ""}
    deep = {"MAXFOS": "2", "W0": "4", "W1": "3", "W2": "2", "RICH": "1", "ONLY": ""}
    env = deep if run.thorough else quick
    lines = lines_of(run.tlc("AnnMC", env)[0])
    run.exhaustive.append("invocations of all commands: %s" % env)
    lines += lines_of(run.tlc("AnnMC", {"MAXFOS": "9", "W0": "5", "W1": "5", "W2": "5", "RICH": "1", "ONLY": ""},
                              simulate=30000 if run.thorough else 1000, depth=9)[0])
    lines += lines_of(run.tlc("AnnMC", {"MAXFOS": "7", "W0": "2", "W1": "2", "W2": "2", "RICH": "1", "ONLY": "options"},
                              simulate=10000 if run.thorough else 600, depth=9)[0])
    lines += lines_of(run.tlc("AnnMC", {"MAXFOS": "5", "W0": "2", "W1": "2", "W2": "2", "RICH": "1", "ONLY": "matter"},
                              simulate=20000 if run.thorough else 1200, depth=7)[0])
    lines += lines_of(run.tlc("TextsMC", texts_env(run))[0])
    lines += long_lines(run)
    if run.prop == "C10":
        lines += script_lines(run)
    return list(dict.fromkeys(lines))


def built_by_hand(run):
    env = texts_env(run)
    run.exhaustive.pop()
    env.update({"MAXFOS": "2", "MAXOPS": "2", "RICH": "1"} if run.thorough else {"MAXFOS": "1", "MAXOPS": "2"})
    cases = thin(run, run.tlc("HandMC", env)[0], 300000 if run.thorough else 30000)
    run.exhaustive.append("invocations built by hand of up to %s flags and options and %s entries more%s" % (
        env["MAXFOS"], env["MAXOPS"], "" if cases[1] else " (all in the model, sampled for replay)"))
    cases = cases[0] + run.tlc("HandMC", dict(env, MAXFOS="6", MAXOPS="9", RICH="1"), simulate=20000 if run.thorough else 600, depth=14)[0]
    return list({json.dumps(c, sort_keys=True): c for c in cases}.values())


def line_check(prop):
    def f(run):
        judge_lines(run, invocation_lines(run), built=built_by_hand(run))
    CHECKS[prop] = f


for p in ("C04", "C05", "C06", "C07", "C08", "C10"):
    line_check(p)


@check("C11")
def c11(run):
    judge_lines(run, invocation_lines(run), built=built_by_hand(run))
    rules = run.tlc("RulesMC", {"PART": "commutative", "MAXFOS": "0", "MAXOPS": "0", "STEPS": "4" if run.thorough else "3"})[0]
    rules += run.tlc("RulesMC", {"PART": "commutative", "MAXFOS": "0", "MAXOPS": "0", "STEPS": "9"}, simulate=10000 if run.thorough else 600, depth=10)[0]
    run.exhaustive.append("commutative rules of up to %d plans" % (3 if run.thorough else 2))
    judge_rules(run, thin(run, [c for c in rules if c["kind"] == "plans"], 100000)[0], next(c["table"] for c in rules if c["kind"] == "table"))
    small = catalogue(run, 1)
    judge_plans(run, ask_plans(run, list(small)), 4 if run.thorough else 3)
    more = [l for l in catalogue(run, 2) if l not in small]
    judge_plans(run, ask_plans(run, more), 3 if run.thorough else 2)
    run.exhaustive.append("commutative marks: catalogue of command lines with up to 1 (2) flags or options, all permutations of all texts of up to %d (%d) lines"
                          % ((4, 3) if run.thorough else (3, 2)))


@check("C03")
def c03(run):
    groups = {}
    cases = run.tlc("SpellMC", {"MAXFOS": "2", "RICH": "1" if run.thorough else "0"})[0]
    run.exhaustive.append("all spellings, bundles and quotings of one or two flags or options")
    cases += run.tlc("SpellMC", {"MAXFOS": "6", "RICH": "1"}, simulate=200000 if run.thorough else 6000, depth=14)[0]
    for c in cases:
        g = groups.setdefault(c["base"], [c["base"]])
        if c["line"] not in g:
            g.append(c["line"])
    todo = []
    for g in groups.values():
        for i in range(1, len(g), 12):
            todo.append({"op": "anns", "lines": [g[0]] + g[i:i + 12]})
    results = run.drive(todo)
    records = []
    for c, r in zip(todo, results):
        if "crash" in r:
            run.violation("crash " + c["lines"][0], "%s: the code ends with %s" % (clip(c["lines"]), r["crash"]), c)
        else:
            records.append({"lines": c["lines"], "res": r})
    for f in run.judge("SpellTrace", records):
        rec = records[f["id"]]
        run.violation(rec["lines"][0], "%s of %s differ" % (", ".join(f["clauses"]), clip(rec["lines"])),
                      {"clauses": f["clauses"], "record": rec})
    for rec in records[:: max(1, len(records) // 5)]:
        run.sample(rec["lines"])
    run.count("groups of equivalent lines", len(records))
    run.count("lines", sum(len(r["lines"]) for r in records))


# -------------------------------- transformers and streams (C12 .. C15)

def run_cases(run, op, cases, env=None):
    """Drives cases through an operation; records of those that came back."""
    for c in cases:
        c["op"] = op
    records = []
    for c, r in zip(cases, run.drive(cases, env=env)):
        if "crash" in r:
            run.violation("crash " + key_of(c), "%s: the code ends with %s" % (clip(key_of(c)), r["crash"]), c)
        else:
            records.append(dict({k: v for k, v in c.items() if k != "op"}, res=r))
    return records


def key_of(c):
    return c["line"] if "line" in c and "acts" not in c else json.dumps({k: v for k, v in c.items() if k not in ("op", "id", "res", "tokens")}, sort_keys=True)


def judge_cases(run, module, records, name):
    for f in run.judge(module, records):
        rec = records[f["id"]]
        run.violation(key_of(rec), "%s: %s; expected %s" % (clip(key_of(rec)), ", ".join(f["clauses"]), clip(f["expected"])),
                      {"clauses": f["clauses"], "expected": f["expected"], "record": rec})
    for rec in records[:: max(1, len(records) // 4)]:
        run.sample(clip(key_of(rec), 400))
    run.count(name, len(records))


@check("C15")
def c15(run):
    env = {"MAXLEN": "3" if run.thorough else "2", "MAXPARTS": "2"}
    cases = run.tlc("TransMC", env)[0]
    run.exhaustive.append("lists and chains: %s" % env)
    cases += run.tlc("TransMC", {"MAXLEN": "6", "MAXPARTS": "4"}, simulate=100000 if run.thorough else 3000, depth=12)[0]
    judge_cases(run, "TransTrace", run_cases(run, "trans", unique(cases)), "lists with transformers")


def unique(cases):
    seen, res = set(), []
    for c in cases:
        k = key_of(c)
        if k not in seen:
            seen.add(k)
            res.append(c)
    return res


def thin(run, cases, limit):
    """All cases, or a sample chosen by the seed where they are too many."""
    if len(cases) <= limit:
        return cases, True
    return random.Random(run.seed).sample(cases, limit), False


def history_check(run, what, quick, deep, pieces, ops):
    """quick, deep: (PIECES, OPS) of the exhaustive part; pieces and ops: of the random part."""
    p, o = deep if run.thorough else quick
    env = {"WHAT": what, "PIECES": str(p), "OPS": str(o), "FULL": "0", "LEAST": "0"}
    cases, all_of_them = thin(run, run.tlc("IOVarsMC", env)[0], 400000 if run.thorough else 40000)
    run.exhaustive.append("histories %s%s" % (env, "" if all_of_them else " (all in the model, sampled for replay)"))
    for w in ([what, "all"] if run.thorough else [what]):
        cases += run.tlc("IOVarsMC", {"WHAT": w, "PIECES": str(pieces), "OPS": str(ops), "FULL": "1", "LEAST": "0"},
                         simulate=60000 if run.thorough else 3000, depth=pieces + ops + 4)[0]
    # long ones
    cases += run.tlc("IOVarsMC", {"WHAT": what, "PIECES": "36", "OPS": "3", "FULL": "1", "LEAST": "12"},
                     simulate=3000 if run.thorough else 200, depth=44)[0]
    records = run_cases(run, "iovars", unique(cases))
    for r in records:
        r["kind"] = "hand"
    judge_cases(run, "IOVarsTrace", records, "histories")
    run.assumptions.append("no stream is given two different roles at once")


def real_plans(run):
    """The plans of real command lines at work."""
    records = run_cases(run, "real", [{"line": l} for l in plan_lines(run)])
    for r in records:
        r["kind"] = "real"
    records = [r for r in records if r["res"]["some"] and r["res"]["plans"]]
    judge_cases(run, "IOVarsTrace", records, "command lines with plans")


def plan_lines(run):
    lines = lines_of(run.tlc("AnnMC", {"MAXFOS": "2", "W0": "3" if run.thorough else "2", "W1": "2", "W2": "1", "RICH": "0", "ONLY": "plans"})[0])
    return thin(run, list(dict.fromkeys(lines)), 200000 if run.thorough else 10000)[0]


@check("C12")
def c12(run):
    history_check(run, "map", (2, 1), (2, 2), 6, 4)
    real_plans(run)


@check("C13")
def c13(run):
    history_check(run, "agg", (1, 1), (1, 2), 6, 4)
    real_plans(run)


@check("C14")
def c14(run):
    history_check(run, "edit", (2, 2), (3, 2), 7, 6)


# ------------------------------------------------------------ dataflow (C09)

def ask_plans(run, lines):
    """line -> plans as in op df, for those lines the code has an answer for."""
    res = {}
    for l, r in zip(lines, run.drive([{"op": "df", "line": l} for l in lines])):
        if "crash" in r:
            run.violation("crash " + l, "%s: the code ends with %s" % (clip(l), r["crash"]), {"line": l, "result": r})
        else:
            res[l] = r
    return res


def catalogue(run, fos):
    cases = run.tlc("CatalogMC", {"MAXFOS": str(fos), "LINES": "0"})[0]
    return {c["line"]: c["cmd"] for c in cases}


def judge_plans(run, plans, lines_per_text):
    records = [{"line": l, "res": r} for l, r in plans.items() if r["plans"] or r["comm"]]
    for f in run.judge("DataflowTrace", records, env={"LINES": str(lines_per_text)}):
        rec = records[f["id"]]
        found = sorted(json.loads(f["expected"]), key=lambda x: x[0])
        kinds = ["%s+%s: %s" % (p["split"], p["kind"], what[0]) for p, what in
                 ((rec["res"]["plans"][k - 1] if run.prop == "C09" else {"split": "any", "kind": "commutative"}, w) for k, w in found)]
        run.violation("%s | %s" % (rec["line"], "; ".join(kinds)),
                      "%s: %s" % (clip(rec["line"]), "; ".join(
                          "%s (input %r, first part %r)" % (k, w[1], w[2]) for k, (_, w) in zip(kinds, found))),
                      {"line": rec["line"], "found": found, "plans": rec["res"]["plans"]})
    run.count("command lines with implemented plans", len(records))
    run.count("plans", sum(len(r["res"]["plans"]) for r in records))
    for rec in records[:: max(1, len(records) // 4)]:
        run.sample({"line": rec["line"], "plans": [[p["split"], p["kind"]] for p in rec["res"]["plans"]]})


def texts_of(cmd, rng, n, most):
    lines = {"sort": ["", "a", "B", "10", "9 a", "b 2"], "tr": ["", "a", "aa", "b a", "c"], "xargs": ["", "a", "b a", " "],
             "grep": ["", "a", "b", "A a", "ba"], "uniq": ["", "a", "A", "b a"], "cat": ["", "a", "b"]}.get(cmd, ["", "a", "b a", "ab c b"])
    res = {"", "a\n", "a"}
    for _ in range(n):
        ls = [rng.choice(lines) for _ in range(rng.randint(1, most))]
        res.add("\n".join(ls) + ("\n" if not ls[-1] or rng.random() < .7 else ""))
    return sorted(res)


def check_semantics(run, commands, n, most):
    """The meaning of the commands in the specification against the installed ones."""
    rng = random.Random(run.seed)
    jobs = [(l, texts_of(c, rng, n, most)) for l, c in commands.items() if c not in ("custom_sort", "set_diff", "col")]
    if len(jobs) > 2500 and not run.thorough:
        jobs = rng.sample(jobs, 2500)
    with lib.workers() as pool:
        done = list(pool.map(execute.outputs, jobs, chunksize=25))
    records = [{"line": l, "runs": runs} for (l, _), (runs, rc) in zip(jobs, done) if rc < 2]
    fails = run.judge("SemTrace", records)
    if fails:
        raise Machinery("the specification misrepresents %s: %s" % (records[fails[0]["id"]]["line"], fails[0]["expected"]))
    run.count("outputs of real commands equal to those specified", sum(len(r["runs"]) for r in records))


def replay_flows(run, cases):
    """Behaviours of DataflowMC with real plans and real commands."""
    plans = ask_plans(run, list(dict.fromkeys(c["line"] for c in cases)))
    jobs = []
    for c in cases:
        p = plans.get(c["line"], {"plans": []})["plans"]
        if c["plan"] <= len(p) and p[c["plan"] - 1]["mapper"]["ok"] and all(
                a["ok"] for i, a in enumerate(p[c["plan"] - 1]["aggs"]) if i == 1 or (i == 2 and 0 in c["order"])):
            jobs.append((c, p[c["plan"] - 1]))
    with lib.workers() as pool:
        done = list(pool.map(execute.replay, [(c["line"], p, c["text"], c["parts"], c["order"]) for c, p in jobs], chunksize=25))
    records = [dict(c, seq=r[0], got=r[1], split=p["split"], kind=p["kind"]) for (c, p), r in zip(jobs, done) if r]
    for f in run.judge("RunTrace", records):
        r = records[f["id"]]
        if "semantics" in f["clauses"]:
            raise Machinery("the specification misrepresents %s on %r: %r instead of %r" % (r["line"], r["text"], r["expected"], r["seq"]))
        run.violation("%s | %s+%s: run" % (r["line"], r["split"], r["kind"]), "%s on parts %r combined in order %s: %r instead of %r" % (
            clip(r["line"]), r["parts"], r["order"], r["got"], r["seq"]), r)
    run.count("parallel runs of real commands", len(records))


@check("C09")
def c09(run):
    commands = catalogue(run, 2)
    small = catalogue(run, 1)
    extra = ["bigrams_aux", "alt_bigrams_aux"]
    judge_plans(run, ask_plans(run, list(small) + extra), 4 if run.thorough else 3)
    judge_plans(run, ask_plans(run, [l for l in commands if l not in small]), 3 if run.thorough else 2)
    run.exhaustive.append("catalogue of command lines with up to 1 (2) flags or options: all texts of up to %d (%d) lines, all cuts"
                          % ((4, 3) if run.thorough else (3, 2)))
    check_semantics(run, commands if run.thorough else small, 12 if run.thorough else 8, 4)
    cases = []
    for env in [{"MAXFOS": "0", "LINES": "2", "PARTS": "3"}, {"MAXFOS": "1", "LINES": "2", "PARTS": "3"}] if run.thorough else \
            [{"MAXFOS": "0", "LINES": "2", "PARTS": "2"}, {"MAXFOS": "1", "LINES": "1", "PARTS": "2"}]:
        cases += run.tlc("DataflowMC", env)[0]
        run.exhaustive.append("all runs of the specified plans (any order of evaluation): %s" % env)
    cases = thin(run, cases, 60000 if run.thorough else 2500)[0]
    cases += run.tlc("DataflowMC", {"MAXFOS": "2", "LINES": "5", "PARTS": "3"}, simulate=60000 if run.thorough else 7000, depth=22)[0]
    replay_flows(run, cases)
    run.assumptions += ["the commands compute what Commands.tla says (checked against the installed ones; col, custom_sort, set_diff and the helpers of bigrams_aux are not installed)",
                        "locale C; texts over a few lines per command; uniq and tr with unimplemented aggregators are not run"]


# ------------------------------------------------------------ histories (C16)

@check("C16")
def c16(run):
    cases = run.tlc("SessionMC", {"LINESET": "all", "OPS": "4"})[0]
    run.exhaustive.append("histories of up to 4 operations over 15 pairs of lines")
    if run.thorough:
        for n in range(1, 16):
            cases += thin(run, run.tlc("SessionMC", {"LINESET": str(n), "OPS": "5"})[0], 4000)[0]
    else:
        cases = thin(run, cases, 6000)[0]
    cases += run.tlc("SessionMC", {"LINESET": "all", "OPS": "16"}, simulate=30000 if run.thorough else 1200, depth=16)[0]
    near = thin(run, run.tlc("NearMC", {"LINES": "2"})[0], 40000 if run.thorough else 3000)[0]
    run.exhaustive.append("histories of two lines that differ in one place" + ("" if run.thorough else " (all in the model, sampled for replay)"))
    cases += near + run.tlc("NearMC", {"LINES": "12"}, simulate=2000 if run.thorough else 100, depth=12)[0]
    records = run_cases(run, "session", unique(cases))
    judge_cases(run, "SessionTrace", records, "histories")


@check("C17")
def c17(run):
    cases = run.tlc("CliMC", {"PART": "forms", "ACTS": "0"})[0]
    run.exhaustive.append("all initial states, forms of paths and 32 command lines (of up to 702 words), without other processes")
    cases += run.tlc("CliMC", {"PART": "schedules", "ACTS": "2"})[0]
    run.exhaustive.append("all schedules of up to 2 actions of other processes, for one command line and path")
    cases += run.tlc("CliMC", {"PART": "mixed", "ACTS": "4"}, simulate=20000 if run.thorough else 400, depth=12)[0]
    cases += run.tlc("CliMC", {"PART": "real", "ACTS": "1"}, simulate=1500 if run.thorough else 120, depth=8)[0]
    tree, env = copy_of_code(run)
    before = snapshot(tree)
    records = run_cases(run, "cli", unique(cases), env=env)
    for r in [r for r in records if 99 in r["res"]["status"]]:
        raise Machinery("the tool could not be run: %s" % clip(str(r)))
    changed = sorted(p for p in set(before) ^ set(snapshot(tree)))
    if changed:
        run.violation("tree", "files beside the tool were changed: %s" % changed[:5])
    run.assumptions.append("another process does not remove what the tool has created")
    judge_cases(run, "CliTrace", records, "runs of the tool")


def copy_of_code(run):
    """A copy of the code, so that whatever it does hits nothing else, and a scratch directory, for any user."""
    os.chmod(run.tmp, 0o755)
    tree, scratch = run.path("tree"), run.path("scratch")
    os.mkdir(scratch)
    os.chmod(scratch, 0o777)
    os.mkdir(tree)
    shutil.copytree(os.path.join(lib.REPO, "pash_annotations"), os.path.join(tree, "pash_annotations"),
                    ignore=shutil.ignore_patterns("__pycache__", "tests", "old_annotations"))
    return tree, {"VERIF_REPO": tree, "PYTHONPATH": tree, "VERIF_SCRATCH": scratch}


def snapshot(tree):
    res = set()
    for base, _, files in os.walk(tree):
        for n in files:
            with open(os.path.join(base, n), "rb") as f:
                res.add((os.path.join(base, n), hash(f.read())))
    return res


@check("C18")
def c18(run):
    cases = []
    for lines, phrases, rich in ((4, 1, 0), (2, 3, 0), (1, 2, 1)) if run.thorough else ((3, 1, 0), (1, 3, 0), (1, 1, 1)):
        cases += run.tlc("TableGenMC", {"LINES": str(lines), "PHRASES": str(phrases), "RICH": str(rich)})[0]
        run.exhaustive.append("pages of up to %d lines of up to %d phrases over the %s alphabet" % (lines, phrases, ["poor", "rich"][rich]))
    cases = thin(run, cases, 400000 if run.thorough else 30000)[0]
    cases += run.tlc("TableGenMC", {"LINES": "14", "PHRASES": "4", "RICH": "1"}, simulate=20000 if run.thorough else 700, depth=15)[0]
    cases = unique(cases)
    rng = random.Random(run.seed)
    for n, c in enumerate(cases):
        c["newline"] = n % 5 != 0
        c["page"] = False
    real = [dict(c, page=True) for c in rng.sample([c for c in cases if all(t.startswith("-") for t in c["text"])], 1000 if run.thorough else 150)]
    _, env = copy_of_code(run)
    judge_cases(run, "TableGenTrace", run_cases(run, "convert", cases + real, env=env), "pages of option lines")


# the command of that name is another implementation here
OTHERS_INSTALLED = {"awk"}


@check("C19")
def c19(run):
    lines = lines_of(run.tlc("TableMC")[0])
    run.exhaustive.append("every spelling of every table with every command, alone and before five sequences of words")
    if run.thorough:
        lines += lines_of(run.tlc("WordsMC", {"MAXWORDS": "3", "RICH": "0"})[0])
    judge_lines(run, list(dict.fromkeys(lines)), "ann")
    data = os.path.join(lib.REPO, "pash_annotations", "parser", "command_flag_option_info", "data")
    names = sorted(n[:-5] for n in os.listdir(data) if n.endswith(".json") and not n.startswith("_"))
    cases = [{"cmd": c, "run": c not in OTHERS_INSTALLED} for c in names]
    records = run_cases(run, "table", cases, env={"VERIF_SCRATCH": run.tmp})
    for f in run.judge("TableTrace", records):
        rec = records[f["id"]]
        for clause in f["clauses"]:
            run.violation("table of %s, %s" % (rec["cmd"], clause), "table of %s: %s" % (rec["cmd"], clause), rec)
    run.count("tables", len(records))
    run.explored["commands asked"] = sorted(r["cmd"] for r in records if r["res"]["documented"])
    run.assumptions.append("what the installed versions of the commands document and accept; other commands against the specified tables")


# ------------------------------------------------------------ equality (C20)

@check("C20")
def c20(run):
    cases = run.tlc("ValuesMC", {"CROSS": "1", "STEPS": "0", "DEEP": "0"})[0]
    run.exhaustive.append("all pairs of small values of all data types")
    steps = "3" if run.thorough else "2"
    cases += run.tlc("ValuesMC", {"CROSS": "0", "STEPS": steps, "DEEP": "0"})[0]
    run.exhaustive.append("all pairs that arise from a value of each type by up to %s changes in single places" % steps)
    cases += run.tlc("ValuesMC", {"CROSS": "0", "STEPS": "14", "DEEP": "1"}, simulate=20000 if run.thorough else 800, depth=15)[0]
    cases = unique(cases)
    records = run_cases(run, "equal", cases)
    for f in run.judge("ValuesTrace", records):
        rec = records[f["id"]]
        run.violation(key_of(rec), "values %s and %s are %s: %s is wrong" % (
            clip(show_term(rec["x"]), 300), clip(show_term(rec["y"]), 300), "equal" if f["expected"] == "true" else "not equal", ", ".join(f["clauses"])),
            {"clauses": f["clauses"], "record": rec})
    for rec in records[:: max(1, len(records) // 4)]:
        run.sample([show_term(rec["x"]), show_term(rec["y"])])
    run.count("pairs of values", len(records))
    # answers for pairs of command lines
    rng = random.Random(run.seed)
    pairs = []
    for c in run.tlc("SpellMC", {"MAXFOS": "2", "RICH": "0"})[0]:
        pairs.append((c["base"], c["line"]))
    pairs = rng.sample(pairs, min(len(pairs), 20000 if run.thorough else 1500))
    lines = plan_lines(run)
    by_command = {}
    for l in lines:
        by_command.setdefault(l.split(" ")[0], []).append(l)
    for _ in range(40000 if run.thorough else 4000):
        own = by_command[rng.choice(sorted(by_command))]
        pairs.append((rng.choice(own), rng.choice(own if rng.random() < .9 else lines)))
    records = run_cases(run, "equals", [{"lines": list(p)} for p in dict.fromkeys(pairs)])
    judge_cases(run, "ValuesTrace", records, "pairs of command lines")


def show_term(t):
    if t["k"] in ("Str", "Num", "Bool"):
        return repr(t["s"])
    if not t["ps"]:
        return t["k"] + ("." + t["s"] if t["s"] else "()")
    return t["k"] + "(" + ", ".join(show_term(p) for p in t["ps"]) + ")"


# ------------------------------------------------ values about themselves (C22)

@check("C22")
def c22(run):
    cases = run.tlc("FactsMC", {"STEPS": "2"})[0]
    run.exhaustive.append("all calls of the modelled functions with arguments up to two changes of single places away from a small and a larger one")
    cases += run.tlc("FactsMC", {"STEPS": "12"}, simulate=60000 if run.thorough else 3000, depth=13)[0]
    cases = unique(cases)
    records = run_cases(run, "facts", cases)
    absent = {rec["c"]["k"] for rec in records if "absent" in rec["res"]}
    if absent:
        run.explored["functions that are not there"] = sorted(absent)
    records = [rec for rec in records if "absent" not in rec["res"]]
    for f in run.judge("FactsTrace", records):
        rec = records[f["id"]]
        run.violation(key_of(rec), "%s gives %s, then %s; expected %s (%s)" % (
            clip(show_term(rec["c"]), 300), clip(show_term(rec["res"]["answer"]), 200), clip(show_term(rec["res"]["again"]), 200),
            clip(f["expected"], 300), ", ".join(f["clauses"])), {"clauses": f["clauses"], "record": rec})
    for rec in records[:: max(1, len(records) // 4)]:
        run.sample(show_term(rec["c"]))
    run.count("calls", len(records))
    run.explored["functions asked"] = sorted({rec["c"]["k"] for rec in records})


# ---------------------------------------------------- rules of one's own (C21)

@check("C21")
def c21(run):
    big = run.thorough
    cases, table = [], []
    for what, env, limit in (("rules of one call for all small invocations", {"PART": "one", "MAXFOS": "1", "MAXOPS": "2", "STEPS": "1"}, 150000 if big else 12000),
                             ("rules of three unconditional calls", {"PART": "two", "MAXFOS": "1", "MAXOPS": "3", "STEPS": "3"}, 100000 if big else 8000),
                             ("one plan", {"PART": "plans", "MAXFOS": "0", "MAXOPS": "0", "STEPS": "1"}, 10000),
                             ("three plans" if big else "two plans", {"PART": "plans", "MAXFOS": "0", "MAXOPS": "0", "STEPS": "3" if big else "2"}, 60000)):
        got = run.tlc("RulesMC", env)[0]
        table = table or [c for c in got if c["kind"] == "table"]
        got, everything = thin(run, unique([c for c in got if c["kind"] != "table"]), limit)
        cases += got
        run.exhaustive.append(what + ("" if everything else " (all in the model, sampled for replay)"))
    for part, steps in (("one", "6"), ("two", "6"), ("plans", "8")):
        cases += [c for c in run.tlc("RulesMC", {"PART": part, "MAXFOS": "5", "MAXOPS": "6", "STEPS": steps},
                                     simulate=15000 if big else 800, depth=18)[0] if c["kind"] != "table"]
    run.assumptions.append("a rule does not decide about an operand or a stream twice")
    judge_rules(run, cases, table[0]["table"])


def judge_rules(run, cases, table):
    tree, env = copy_of_code(run)
    with open(os.path.join(tree, "pash_annotations", "parser", "command_flag_option_info", "data", "vcmd.json"), "w") as f:
        json.dump(table, f)
    judge_cases(run, "RulesTrace", run_cases(run, "rules", unique(cases), env=env), "rules")
