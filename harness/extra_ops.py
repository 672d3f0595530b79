"""Operations of the driver beyond parsing and annotating."""
import copy
import io
import os
import re
import shutil
import subprocess
import sys
import tempfile

import driver as D
from driver import (AG, AK, AS, AggregatorKindEnum, ArgStringType, CommandInvocationWithIOVars, Flag, MS,
                    OptionWithIO, OptionWithIOVar, PZ, TR, parse, text, tf)

OPS = {}


def op(name):
    def register(f):
        OPS[name] = f
        return f
    return register


# --------------------------------------------- invocations over identifiers

def num(v):
    return int(v[1:])


def ident(x):
    return "v%d" % x if type(x) is int else "?" + text(str(x))


def entry(e):
    if e[0] == "F":
        return Flag(e[1])
    if e[0] == "O":
        return D.Option(e[1], e[2])
    if e[0] == "OV":
        return OptionWithIOVar(e[1], num(e[2]))
    return OptionWithIOVar(e[1], ArgStringType(e[2]))


def show_entry(x):
    if type(x) is Flag:
        return ["F", text(x.get_name())]
    if type(x) is D.Option:
        return ["O", text(x.get_name()), text(x.get_arg())]
    if type(x) is OptionWithIOVar:
        a = x.get_arg()
        if type(a) is ArgStringType:
            return ["OS", text(x.get_name()), text(a.get_name())]
        return ["OV", text(x.get_name()), ident(a)]
    return ["?", text(str(x))]


def show_op(x):
    return ["S", text(x.get_name())] if type(x) is ArgStringType else ["V", ident(x)]


def make_inv(d, times=1):
    """An invocation; or several, built from the very same lists."""
    acc = {num(i): AK.AccessKind(AK.AccessKindEnum[a]) for i, a in d["acc"]}
    fos = [entry(e) for e in d["fos"]]
    ops = [num(e[1]) if e[0] == "V" else ArgStringType(e[1]) for e in d["ops"]]
    made = [CommandInvocationWithIOVars(
        d["cmd"], fos, ops, None if d["si"] == "none" else num(d["si"]), None if d["so"] == "none" else num(d["so"]), acc)
        for _ in range(times)]
    return made[0] if times == 1 else made


def show_inv(i):
    return {"cmd": text(i.cmd_name), "fos": [show_entry(x) for x in i.flag_option_list],
            "ops": [show_op(x) for x in i.operand_list],
            "si": "none" if i.implicit_use_of_streaming_input is None else ident(i.implicit_use_of_streaming_input),
            "so": "none" if i.implicit_use_of_streaming_output is None else ident(i.implicit_use_of_streaming_output),
            "acc": sorted([ident(k), D.access(v)] for k, v in i.access_map.items())}


# ------------------------------------------------------------- transformers

def make_transformer(t):
    k = t["k"]
    if k == "same":
        return TR.make_transformer_same_as_seq()
    if k == "add":
        return TR.make_transformer_add([entry(e) for e in t["list"]])
    if k == "remove":
        return TR.make_transformer_remove(list(t["names"]))
    if k == "filter":
        return TR.make_transformer_filter(list(t["names"]))
    if k == "empty":
        return TR.make_transformer_empty()
    if k == "custom":
        return TR.make_transformer_custom([entry(e) for e in t["list"]])
    return TR.ChainTransformerFlagOptionList([make_transformer(p) for p in t["parts"]])


def show_transformer(t):
    r = {"k": "?" + type(t).__name__, "names": [], "list": [], "parts": []}
    if type(t) is TR.TransformerFlagOptionListSeq:
        r["k"] = "same"
    elif type(t) is TR.TransformerFlagOptionListAdd:
        r.update(k="add", list=[show_entry(x) for x in t.list_to_add])
    elif type(t) is TR.TransformerFlagOptionListRemove:
        r.update(k="remove", names=list(t.list_to_remove))
    elif type(t) is TR.TransformerFlagOptionListFilter:
        r.update(k="filter", names=list(t.list_filter))
    elif type(t) is TR.TransformerFlagOptionListEmpty:
        r["k"] = "empty"
    elif type(t) is TR.TransformerFlagOptionListCustom:
        r.update(k="custom", list=[show_entry(x) for x in t.list_custom])
    elif type(t) is TR.ChainTransformerFlagOptionList:
        r.update(k="chain", parts=[show_transformer(p) for p in t.list_transformers])
    return r


@op("trans")
def op_trans(c):
    fos = [entry(e) for e in c["fos"]]
    res = {"first": [], "second": [], "onresult": [], "after": c["fos"], "t": c["t"], "raised": ""}
    try:
        t = make_transformer(c["t"])
        kept = copy.deepcopy(t)
        first = t.get_flag_option_list_after_transformer_application(fos)
        res["first"] = [show_entry(x) for x in first]
        second = t.get_flag_option_list_after_transformer_application(fos)
        res["second"] = [show_entry(x) for x in second]
        res["onresult"] = [show_entry(x) for x in t.get_flag_option_list_after_transformer_application(second)]
        res["after"] = [show_entry(x) for x in fos]
        res["t"] = c["t"] if t == kept else {"k": "changed", "names": [], "list": [], "parts": []}
    except Exception as e:
        res["raised"] = type(e).__name__ + ": " + str(e)
    return res


# ---------------------------------------------------------------- histories

def make_plan(d):
    if d["mk"] == "SAME":
        m = MS.make_mapper_spec_seq() if d["mimpl"] else MS.MapperSpec(MS.MapperSpecKindEnum.SAME_AS_SEQ)
    elif d["mk"] == "CUSTOM":
        m = MS.make_mapper_spec_custom(d["mcmd"] or None, make_transformer(d["mt"]), is_implemented=d["mimpl"])
    else:
        m = MS.make_mapper_spec_custom_from_string_representation(d["mcmd"], is_implemented=d["mimpl"])
    k = d["ak"]
    if k == "CONCATENATE":
        a = AS.make_aggregator_spec_concatenate()
    elif k == "ADJ_LINES_MERGE":
        a = AS.make_aggregator_spec_adj_lines_merge()
    elif k == "ADJ_LINES_SEQ":
        a = AS.make_aggregator_spec_adj_lines_seq()
    else:
        low = {"ADJ_LINES_FUNC": "adj_lines_func", "CUSTOM_2_ARY": "custom_2_ary", "CUSTOM_N_ARY": "custom_n_ary"}[k]
        if d["ahow"] == "TR":
            a = getattr(AS, "make_aggregator_spec_%s_from_cmd_inv_with_transformers" % low)(
                make_transformer(d["at"]), is_implemented=d["aimpl"])
        else:
            a = getattr(AS, "make_aggregator_spec_%s_from_string_representation" % low)(
                d["acmd"], is_implemented=d["aimpl"])
    return PZ.make_parallelizer_consec_chunks(m, a, info_mapper_aggregator=d["naux"])


def history(regs, plans, ops, other=None):
    """Works through operations; what happened, step by step.  The other
    invocation is no argument of any of them."""
    steps = []
    other_before = other and show_inv(other)
    last = [show_inv(i) for i in regs]
    plans_before = copy.deepcopy(plans)
    for o in ops:
        if o["r"] > len(regs):          # made by an operation that did not succeed
            steps.append({"ok": False, "ret": ["missing"], "args": True, "changed": [], "plans": True})
            continue
        r = regs[o["r"] - 1]
        ids, ids2, ids3 = ([num(v) for v in o[k]] for k in ("ids", "ids2", "ids3"))
        x, y = (num(o[k]) if o[k] and k + o["op"] != "xselect" else None for k in ("x", "y"))
        kept = copy.deepcopy((ids, ids2, ids3))
        ok, ret = True, []
        made = NOTHING = object()
        k = o["op"]
        try:
            if k == "substin":
                r.substitute_inputs_in_cmd_invocation(ids)
            elif k == "substout":
                r.substitute_outputs_in_cmd_invocation(ids)
            elif k == "substboth":
                r.substitute_inputs_and_outputs_in_cmd_invocation(ids, ids2)
            elif k == "replace":
                r.replace_var(x, y)
            elif k == "removein":
                r.remove_streaming_inputs()
            elif k == "removeout":
                r.remove_streaming_outputs()
            elif k == "inputs":
                got = r.generate_inputs()
                ret = [ident(v) for v in got.get_streaming_inputs()]
                if got.get_config_inputs():
                    ret.append("?config")
            elif k == "outputs":
                ret = [ident(v) for v in r.generate_outputs()]
            elif k == "other":
                ret = [tf(r.has_other_outputs())]
            elif k == "select":
                f = getattr(r, "get_options_with_other_output" if o["x"] == "option" else "get_operands_with_" + o["x"], None)
                ret = ["absent"] if f is None else [" ".join(show_entry(e)[-2:] if o["x"] == "option" else show_op(e)) for e in f()]
            elif k == "map":
                made = plans[o["d"] - 1].get_actual_mapper(r, x, y, ids)
            elif k == "agg":
                made = plans[o["d"] - 1].get_actual_aggregator(r, ids, y)
            elif k == "agg2":
                made = plans[o["d"] - 1].get_actual_2_ary_aggregator_with_aux(
                    ids[0], ids[1:], ids2[0], ids2[1:], ids3[0], ids3[1:])
            else:
                raise SystemError("operation " + k)
        except Exception as e:
            ok, ret = False, [type(e).__name__]
        if made is not NOTHING and ok:
            if made is None:
                ret = ["nothing"]
            else:
                ret = ["mapper" if type(made).__name__ == "Mapper" else made.kind.name]
                regs.append(made)
        now = [show_inv(i) for i in regs]
        changed = [[k + 1, i] for k, i in enumerate(now) if k >= len(last) or i != last[k]]
        last = now
        steps.append({"ok": ok, "ret": ret, "args": kept == (ids, ids2, ids3) and (other and show_inv(other)) == other_before, "changed": changed,
                      "plans": plans == plans_before})
    return steps


@op("iovars")
def op_iovars(c):
    inv, other = make_inv(c["init"], 2)
    return {"init": show_inv(make_inv(c["init"])),
            "steps": history([inv], [make_plan(d) for d in c["ds"]], c["ops"], other)}


def with_vars(applied):
    """Names files and streams of an annotated invocation v0, v1, ..."""
    acc, count = {}, [-1]

    def var(x):
        count[0] += 1
        acc[count[0]] = x.get_access()
        return count[0]
    fos = []
    for fo in applied.flag_option_list:
        if type(fo) is OptionWithIO:
            a = fo.get_arg()
            fos.append(OptionWithIOVar(fo.get_name(), a if type(a) is ArgStringType else var(a)))
        else:
            fos.append(fo)
    ops = [x if type(x) is ArgStringType else var(x) for x in applied.operand_list]
    si, so = applied.implicit_use_of_streaming_input, applied.implicit_use_of_streaming_output
    return CommandInvocationWithIOVars(applied.cmd_name, fos, ops, None if si is None else var(si),
                                       None if so is None else var(so), acc)


@op("real")
def op_real(c):
    """All inferred plans of a command line at work: mappers, aggregators of
    1, 2 and 3 inputs, and two-input aggregators with auxiliary streams."""
    inv = parse(c["line"])
    io = AG.get_input_output_info_from_cmd_invocation(inv)
    para = AG.get_parallelizability_info_from_cmd_invocation(inv)
    if io is None or para is None:
        return {"some": False, "init": dict(EMPTY), "plans": []}
    original = with_vars(io.apply_input_output_info_to_command_invocation(inv))
    res = []
    for p in para.unpack_info()[0]:
        naux = p.get_info_mapper_aggregator()
        aux = lambda n: ["v%d" % (n + i) for i in range(naux)]
        ops = [dict(o, d=1, **{k: o.get(k, []) for k in ("ids", "ids2", "ids3")}, x=o.get("x", ""), y=o.get("y", "")) for o in [
            {"op": "map", "r": 1, "x": "v101", "y": "v119", "ids": aux(110)},
            {"op": "map", "r": 1, "x": "v219", "y": "v201", "ids": aux(210)},
            {"op": "agg", "r": 1, "ids": ["v301", "v302"], "y": "v303"},
            {"op": "agg", "r": 1, "ids": ["v312", "v311"], "y": "v313"},
            {"op": "agg", "r": 1, "ids": ["v402", "v403", "v401"], "y": "v404"},
            {"op": "agg", "r": 1, "ids": ["v501"], "y": "v502"},
            {"op": "map", "r": 1, "x": "v601", "y": "v602", "ids": aux(610) + ["v699"]},
            {"op": "agg2", "r": 1, "ids": ["v742"] + aux(710), "ids2": ["v702"] + aux(720), "ids3": ["v703"] + aux(730)}]]
        if p.get_aggregator_spec().is_implemented is not True:
            ops = [o for o in ops if o["op"] != "agg2"]
        res.append({"ops": ops, "steps": history([copy.deepcopy(original)], [p], ops)})
    return {"some": True, "init": show_inv(original), "plans": res}


EMPTY = {"cmd": "", "fos": [], "ops": [], "si": "none", "so": "none", "acc": []}


# ------------------------------------------------------------------- plans

def show_named(inv, names):
    """An invocation in which identifiers are shown by given names."""
    d = show_inv(inv)
    n = lambda v: names.get(v, v)
    return {"cmd": d["cmd"],
            "fos": [[e[0], e[1], n(e[2])] if e[0] == "OV" else e for e in d["fos"]],
            "ops": [["V", n(e[1])] if e[0] == "V" else e for e in d["ops"]],
            "si": n(d["si"]), "so": n(d["so"]), "acc": [[n(v), a] for v, a in d["acc"]]}


def file_names(applied, with_ids):
    """identifier -> "file:NAME" for the files of an annotated invocation."""
    res = {}
    for a, b in list(zip(applied.flag_option_list, with_ids.flag_option_list)):
        if type(b) is OptionWithIOVar and type(b.get_arg()) is int:
            res[ident(b.get_arg())] = "file:" + text(a.get_arg().get_name())
    for a, b in zip(applied.operand_list, with_ids.operand_list):
        if type(b) is int:
            res[ident(b)] = "file:" + (text(a.get_name()) if type(a) is D.FileNameWithIOInfo else "-")
    return res


@op("df")
def op_df(c):
    """The implemented plans of a command line: how they split, the mapper
    from stream in1 to out, and the aggregators of one, two and three streams."""
    inv = parse(c["line"])
    io = AG.get_input_output_info_from_cmd_invocation(inv)
    para = AG.get_parallelizability_info_from_cmd_invocation(inv)
    res = {"some": False, "comm": False, "plans": []}
    if io is None or para is None:
        return res
    applied = io.apply_input_output_info_to_command_invocation(inv)
    original = with_vars(applied)
    names = file_names(applied, original)
    inferred, _, comm = para.unpack_info()
    res.update(some=True, comm=comm is True)
    for p in inferred:
        if p.get_mapper_spec().is_implemented is not True or p.get_aggregator_spec().is_implemented is not True:
            continue
        naux = p.get_info_mapper_aggregator()
        streams = {"v%d" % (1000 + i): "in%d" % i for i in range(1, 4)}
        streams["v1100"] = "out"
        streams.update({"v%d" % (1200 + 10 * i + j): "aux%d%d" % (i, j) for i in range(4) for j in range(naux)})
        aux = lambda i: [1200 + 10 * i + j for j in range(naux)]
        show = dict(names, **streams)

        def made(f):
            try:
                x = f()
                return {"ok": x is not None, "inv": dict(EMPTY) if x is None else show_named(x, show)}
            except Exception as e:
                return {"ok": False, "inv": dict(EMPTY)}
        fresh = lambda: copy.deepcopy(original)
        if naux:
            aggs = [made(lambda: p.get_actual_2_ary_aggregator_with_aux(1001, aux(1), 1002, aux(2), 1100, aux(0)))]
        else:
            aggs = [made(lambda k=k: p.get_actual_aggregator(fresh(), [1000 + i for i in range(1, k + 1)], 1100)) for k in (1, 2, 3)]
        res["plans"].append({"split": p.get_splitter().kind.name, "kind": p.get_aggregator_spec().get_kind().name, "naux": naux,
                             "mapper": made(lambda: p.get_actual_mapper(fresh(), 1001, 1100, aux(0))), "aggs": aggs})
    return res


# ---------------------------------------------------------------- sessions

import enum
import json
import os


def dump(x, depth=0):
    """Everything in a value, as a string."""
    if x is None or isinstance(x, (bool, int, str)) and not isinstance(x, enum.Enum):
        return repr(x)
    if isinstance(x, enum.Enum):
        return type(x).__name__ + "." + x.name
    if depth > 30:
        return "..."
    if isinstance(x, (list, tuple)):
        return "%s[%s]" % (type(x).__name__[0], ", ".join(dump(e, depth + 1) for e in x))
    if isinstance(x, (set, frozenset)):
        return "{%s}" % ", ".join(sorted(dump(e, depth + 1) for e in x))
    if isinstance(x, dict):
        return "{%s}" % ", ".join(sorted(dump(k, depth + 1) + ": " + dump(v, depth + 1) for k, v in x.items()))
    if hasattr(x, "__dict__") and not isinstance(x, type) and not callable(x):
        return type(x).__name__ + dump({k: v for k, v in vars(x).items() if not k.startswith("_")}, depth + 1)
    return getattr(x, "__name__", type(x).__name__)


def overwrite_lists(x):
    """Overwrites the lists and dictionaries an answer consists of."""
    for y in ([x] + x if type(x) is list else [x]):
        for c in [y] if type(y) in (list, dict) else [v for v in vars(y).values() if type(v) in (list, dict)] if hasattr(y, "__dict__") else []:
            if type(c) is list:
                c[:] = c[1:] + ["scribbled"]
            else:
                c.clear()
                c["scribbled"] = "scribbled"


def overwrite_all(x, seen=None):
    """Overwrites everything in an answer."""
    seen = {} if seen is None else seen
    if id(x) in seen or isinstance(x, (enum.Enum, type)) or callable(x):
        return
    seen[id(x)] = x
    if type(x) in (list, tuple):
        for e in x:
            overwrite_all(e, seen)
        if type(x) is list:
            x[:] = ["scribbled"] + x[:1]
    elif type(x) is dict:
        for e in x.values():
            overwrite_all(e, seen)
        x.clear()
    elif hasattr(x, "__dict__"):
        for k, v in list(vars(x).items()):
            overwrite_all(v, seen)
            try:
                if type(v) is str:
                    setattr(x, k, "scribbled")
                elif type(v) is bool:
                    setattr(x, k, not v)
                elif type(v) is int:
                    setattr(x, k, v + 1)
                elif isinstance(v, enum.Enum):
                    setattr(x, k, next((e for e in type(v) if e is not v), v))
            except AttributeError:
                pass


def streams_of(inv, io):
    return with_vars(io.apply_input_output_info_to_command_invocation(inv))


def instantiate(para, inv, which):
    io = AG.get_input_output_info_from_cmd_invocation(inv)
    if para is None or io is None:
        return None
    original = streams_of(inv, io)
    res = []
    for p in para.unpack_info()[0]:
        try:
            aux = [120 + i for i in range(p.get_info_mapper_aggregator())]
            res.append(p.get_actual_mapper(copy.deepcopy(original), 101, 102, aux) if which == "mapper" else
                       p.get_actual_aggregator(copy.deepcopy(original), [111, 112], 113))
        except Exception as e:
            res.append("raised " + type(e).__name__)
    return res


MISSING = object()


def ask(q, inv, given=MISSING):
    """The answer to a question about an invocation, from the objects given."""
    try:
        if q == "io":
            return AG.get_input_output_info_from_cmd_invocation(inv)
        if q == "para":
            return AG.get_parallelizability_info_from_cmd_invocation(inv)
        if q == "applied":
            io = ask("io", inv) if given is MISSING else given
            return None if io is None else io.apply_input_output_info_to_command_invocation(inv)
        para = ask("para", inv) if given is MISSING else given
        if q == "list":
            return None if para is None else para.unpack_info()[0]
        return instantiate(para, inv, q)
    except Exception as e:
        return "raised " + type(e).__name__


def show_answer(q, x):
    if q == "io" and x is not None and not isinstance(x, str):
        return dump([x, x.has_other_outputs()])
    return dump(x)


def in_child(f):
    """What f returns, computed in a process of its own."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try:
                out = json.dumps({"value": f()})
            except Exception as e:
                out = json.dumps({"error": type(e).__name__ + ": " + str(e)})
            with os.fdopen(w, "w") as g:
                g.write(out)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r) as g:
        out = g.read()
    os.waitpid(pid, 0)
    res = json.loads(out) if out else {"error": "process ended"}
    if "error" in res:
        raise RuntimeError(res["error"])
    return res["value"]


FRESH = {}


def fresh(q, val):
    """The answer to a question asked by itself."""
    key = json.dumps([q, val])
    if key not in FRESH:
        def f():
            inv = D.make_invocation(val)
            return dump(inv) if q == "inv" else show_answer(q, ask(q, inv))
        FRESH[key] = in_child(f)
    return FRESH[key]


QUESTION = {"io": "io", "para": "para", "apply": "applied", "unpack": "list", "map": "mapper", "agg": "agg"}


def session(ops):
    objs, steps, asked = [], [], []    # objs: [kind, object, value when asked, number of its invocation]
    value = lambda k: D.invocation(objs[k - 1][1])

    def answer(kind, x, val, of):
        objs.append([kind, x, val, of])
        asked.append((kind, val))
        steps.append(dump(x) if kind == "inv" else show_answer(kind, x))
    for o in ops:
        k, s = o["op"], o["s"]
        if k == "parse":
            x = parse(s)
            answer("inv", x, D.invocation(x), len(objs) + 1)
            continue
        kind, x, val, of = objs[o["o"] - 1]
        if k in QUESTION:
            inv = objs[of - 1][1]
            val = D.invocation(inv) if kind == "inv" else val
            answer(QUESTION[k], ask(QUESTION[k], inv, MISSING if kind == "inv" else x), val, of)
        elif k == "look":
            asked.append((kind, value(o["o"]) if kind == "inv" else val))
            steps.append(dump(x) if kind == "inv" else show_answer(kind, x))
        else:
            if k == "addflag":
                x.flag_option_list.append(Flag(s))
            elif k == "addoperand":
                x.operand_list.append(D.Operand(s))
            elif k == "empty":
                x.flag_option_list.clear()
                x.operand_list.clear()
            elif k == "lists":
                overwrite_lists(x)
            else:
                overwrite_all(x)
            steps.append("")
    return steps, asked


@op("session")
def op_session(c):
    steps, asked = in_child(lambda: session(c["ops"]))
    res = []
    for q, val in asked:
        e = {"ask": {"q": q, "val": val}, "answer": fresh(q, val)}
        if e not in res:
            res.append(e)
    return {"steps": steps, "fresh": res}


@op("cli")
def op_cli(c):
    import cli_ops
    return cli_ops.op_cli(c)


# ------------------------------------------------- the man-page converter

CONVERTER = os.path.join(os.environ.get("VERIF_REPO", "/repo"), "pash_annotations", "parser", "command_flag_option_info")
COMPILED = []


def convert(lines, newline):
    """The converter's output for lines, in this process."""
    if not COMPILED:
        path = os.path.join(CONVERTER, "args-to-json.py")
        with open(path, encoding="utf-8") as f:
            COMPILED.append(compile(f.read(), path, "exec"))
    stdin, stdout = sys.stdin, sys.stdout
    sys.stdin, sys.stdout = io.StringIO("\n".join(lines) + ("\n" if newline else "")), io.StringIO()
    try:
        exec(COMPILED[0], {"__name__": "__main__", "__file__": os.path.join(CONVERTER, "args-to-json.py")})
    except BaseException as e:
        return "raised " + type(e).__name__
    finally:
        out, sys.stdin, sys.stdout = sys.stdout.getvalue(), stdin, stdout
    return out


def convert_page(lines, where):
    """The script's output for a page with the lines, in a copy of its directory with a stand-in for man."""
    page = ["CMD(1)", "", "NAME", "       cmd - do something, -q or not", "", "OPTIONS"]
    for n, l in enumerate(lines):
        page += ["       " + l] + (["              description of it, -w and --www=N"] if n % 2 == 0 else []) + [""]
    work = tempfile.mkdtemp(prefix="man", dir=where)
    try:
        for n in ("args-to-json.py", "manpage-to-json.sh"):
            shutil.copy(os.path.join(CONVERTER, n), work)
        os.mkdir(os.path.join(work, "bin"))
        with open(os.path.join(work, "page"), "w", encoding="utf-8") as f:
            f.write("\n".join(page) + "\n")
        with open(os.path.join(work, "bin", "man"), "w") as f:
            f.write('#!/bin/sh\n[ "$1" = cmd ] && exec cat "%s"\n' % os.path.join(work, "page"))
        os.chmod(os.path.join(work, "bin", "man"), 0o755)
        env = {"PATH": os.path.join(work, "bin") + ":" + os.environ.get("PATH", "/usr/bin:/bin"), "PYTHONDONTWRITEBYTECODE": "1"}
        p = subprocess.run(["bash", "manpage-to-json.sh", "cmd"], cwd=work, env=env, stdin=subprocess.DEVNULL,
                           stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=60)
        return p.stdout.decode()
    finally:
        shutil.rmtree(work, ignore_errors=True)


def is_table(t):
    return type(t) is dict and sorted(t) == ["flag", "option"] and \
        all(type(v) is list and all(type(e) is list and all(type(s) is str for s in e) for e in v) for v in t.values())


@op("convert")
def op_convert(c):
    """The table the converter makes of lines, and how the parser reads words with it."""
    out = convert_page(c["text"], os.environ["VERIF_SCRATCH"]) if c["page"] else convert(c["text"], c["newline"])
    try:
        table = json.loads(out)
    except ValueError:
        table = None
    if not is_table(table):
        return {"json": False, "table": {"flag": [], "option": []}, "read": []}
    read, name = [], "vtab%d" % c["id"]
    path = os.path.join(CONVERTER, "data", name + ".json")        # of the copy the driver works on
    with open(path, "w") as f:
        f.write(out)
    try:
        words = {p["name"] for l in c["lines"] for p in l} | {p["arg"] for l in c["lines"] for p in l}
        for s in sorted(w for w in words | {"a", "g", "--all"} if w and not set(w) & set(" \t")):
            # a word is read as one option or flag, not as a bundle of them
            if len(s) > 2 and s[1] != "-" and s[0] == "-" or s in ("-", "--"):
                continue
            try:
                inv = D.invocation(parse("%s %s w9" % (name, s)))
                read.append({"s": s, "fos": inv["fos"], "ops": inv["ops"]})
            except Exception as e:
                read.append({"s": s, "fos": [["?", type(e).__name__]], "ops": []})
    finally:
        os.remove(path)
    return {"json": True, "table": table, "read": read}


# ------------------------------------------------------------ option tables

def strings(x):
    if isinstance(x, str):
        return [x]
    return sum((strings(e) for e in (x.values() if isinstance(x, dict) else x)), []) if isinstance(x, (dict, list)) else []


def ask_command(args, work):
    try:
        p = subprocess.run(args, cwd=work, env={"PATH": os.environ.get("PATH", "/usr/bin:/bin"), "LC_ALL": "C", "HOME": work, "TMPDIR": work},
                           stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=1, start_new_session=True)
        return p.stdout.decode("utf-8", "replace"), p.stderr.decode("utf-8", "replace")
    except subprocess.TimeoutExpired:
        return "", ""


EXPANDED = {"-NUM": ["-%d" % d for d in range(10)],
            "--GTYPE-group-format": ["--%s-group-format" % t for t in ("old", "new", "unchanged", "changed")],
            "--LTYPE-line-format": ["--%s-line-format" % t for t in ("old", "new", "unchanged")]}


def documented(cmd, work):
    """The spellings in the help of a command."""
    res = set()
    for line in ask_command([cmd, "--help"], work)[0].split("\n"):
        m = re.match(r"\s+(-.*)", line)
        for phrase in re.split(r"\s\s+|\t", m.group(1))[0].split(", ") if m else []:
            s = re.match(r"--?[A-Za-z0-9][A-Za-z0-9-]*", phrase.strip())
            if s:
                res |= set(EXPANDED.get(s.group(), [s.group()]))
    return res


@op("table")
def op_table(c):
    cmd = c["cmd"]
    with open(os.path.join(CONVERTER, "data", cmd + ".json"), encoding="utf-8") as f:
        data = json.load(f)
    spellings = [s for s in strings(data) if s.startswith("-")]
    res = {"spellings": spellings, "documented": [], "accepted": []}
    if not c["run"] or not shutil.which(cmd):
        return res
    work = tempfile.mkdtemp(prefix="tab", dir=os.environ["VERIF_SCRATCH"])
    try:
        docs = documented(cmd, work)
        for s in sorted(docs | set(spellings)):
            err = ask_command([cmd, s], work)[1]
            kind = "?" if re.search(r"(unrecognized|invalid|unknown|ambiguous) option", err) else \
                "O" if re.search(r"requires an argument", err) else "F"
            if s in spellings:
                res["accepted"].append([s, kind])
            if s in docs and kind != "?":        # an example is no option
                res["documented"].append(s)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    return res


# ------------------------------------------------------------------ values

def classes():
    from pash_annotations.datatypes.CommandInvocationPrefix import CommandInvocationPrefix
    from pash_annotations.annotation_generation.datatypes.parallelizability.Aggregator import Aggregator
    from pash_annotations.annotation_generation.datatypes.parallelizability.Mapper import Mapper
    known = [D.FileName, D.StdDescriptor, ArgStringType, Flag, D.Option, D.Operand, AK.AccessKind, D.FileNameWithIOInfo, D.StdDescriptorWithIOInfo,
             OptionWithIO, OptionWithIOVar, D.CommandInvocationInitial, D.CommandInvocationWithIO, CommandInvocationPrefix,
             CommandInvocationWithIOVars, Mapper, Aggregator, D.SP.Splitter, PZ.Parallelizer, TR.TransformerFlagOptionListSeq,
             TR.TransformerFlagOptionListAdd, TR.TransformerFlagOptionListRemove, TR.TransformerFlagOptionListFilter,
             TR.TransformerFlagOptionListEmpty, TR.TransformerFlagOptionListCustom, TR.ChainTransformerFlagOptionList,
             AS.AggregatorSpecNonFunc, AS.AggregatorSpecFuncTransformer, AS.AggregatorSpecFuncStringRepresentation]
    return {c.__name__: c for c in known}


CLASSES = {}
ENUMS = {"AccessKindEnum": AK.AccessKindEnum, "StdDescriptorEnum": D.StdDescriptorEnum, "AggregatorKindEnum": AggregatorKindEnum,
         "SplitterKindEnum": D.SP.SplitterKindEnum, "AdditionalInfoSplitterToMapper": PZ.AdditionalInfoSplitterToMapper}


def value(t):
    """The value a term stands for."""
    k, s = t["k"], t["s"]
    if k == "Str":
        return "".join(list(s))          # a string of its own
    if k == "Num":
        return int(s)
    if k == "Bool":
        return s == "T"
    if k == "None":
        return None
    if k in ENUMS:
        return ENUMS[k][s]
    ps = [value(p) for p in t["ps"]]
    if k == "List":
        return ps
    if k in ("Pair", "Setting"):
        return tuple(ps)
    if k == "Map":
        return dict(ps)
    if k == "MapperSpecSame":
        return MS.MapperSpec(MS.MapperSpecKindEnum.SAME_AS_SEQ, is_implemented=ps[0])
    if k == "MapperSpecCustom":
        return MS.MapperSpec(MS.MapperSpecKindEnum.CUSTOM, *ps)
    if not CLASSES:
        CLASSES.update(classes())
    return CLASSES[k](*ps)


# attributes of the classes, in the order of the parts of their terms
PARTS = {"FileName": ["name"], "StdDescriptor": ["name"], "ArgStringType": ["name"], "Flag": ["flag_name"], "Option": ["option_name", "option_arg"],
         "Operand": ["name"], "AccessKind": ["kind"], "FileNameWithIOInfo": ["name", "access"], "StdDescriptorWithIOInfo": ["name", "access"],
         "OptionWithIO": ["option_name", "option_arg"], "OptionWithIOVar": ["option_name", "option_arg"], "Splitter": ["kind"],
         "Parallelizer": ["splitter", "core_mapper_spec", "core_aggregator_spec", "info_splitter_mapper", "info_mapper_aggregator"],
         "TransformerFlagOptionListSeq": [], "TransformerFlagOptionListEmpty": [], "TransformerFlagOptionListAdd": ["list_to_add"],
         "TransformerFlagOptionListRemove": ["list_to_remove"], "TransformerFlagOptionListFilter": ["list_filter"],
         "TransformerFlagOptionListCustom": ["list_custom"], "ChainTransformerFlagOptionList": ["list_transformers"],
         "AggregatorSpecNonFunc": ["kind", "is_implemented"], "AggregatorSpecFuncTransformer": ["kind", "flag_option_list_transformer", "is_implemented"],
         "AggregatorSpecFuncStringRepresentation": ["kind", "cmd_inv_as_str", "is_implemented"]}
VAR_PARTS = ["cmd_name", "flag_option_list", "operand_list", "implicit_use_of_streaming_input", "implicit_use_of_streaming_output", "access_map"]
PARTS["CommandInvocationWithIOVars"] = PARTS["Mapper"] = VAR_PARTS
PARTS["Aggregator"] = ["kind"] + VAR_PARTS


def term(v):
    """The term that stands for a value."""
    def leaf(k, s=""):
        return {"k": k, "s": s, "ps": []}

    def node(k, ps):
        return {"k": k, "s": "", "ps": [term(p) for p in ps]}
    if v is None:
        return leaf("None")
    if isinstance(v, enum.Enum):
        return leaf(type(v).__name__, v.name)
    if isinstance(v, bool):
        return leaf("Bool", tf(v))
    if isinstance(v, int):
        return leaf("Num", str(v))
    if isinstance(v, str):
        return leaf("Str", v)
    if isinstance(v, (list, tuple)):
        return node("List", v)
    if isinstance(v, dict):
        return {"k": "Map", "s": "", "ps": [node("Pair", e) for e in v.items()]}
    name = type(v).__name__
    if name == "MapperSpec":
        if v.kind == MS.MapperSpecKindEnum.SAME_AS_SEQ:
            return node("MapperSpecSame", [v.is_implemented])
        return node("MapperSpecCustom", [v.spec_mapper_cmd_name, v.flag_option_list_transformer, v.is_implemented])
    if name not in PARTS:
        return leaf("Other", name)
    parts = PARTS[name]
    if parts and not all(hasattr(v, p) for p in parts):      # names of attributes are not behaviour
        parts = list(vars(v))
    return node(name, [getattr(v, p) for p in parts])


def arg_char(t):
    return {"C": lambda p: ["C", ord(p["s"])], "E": lambda p: ["E", ord(p["s"])], "B": lambda p: ["B", p["s"]],
            "V": lambda p: ["V", ["Normal", False, p["s"], []]], "X": lambda p: ["X", p["s"]],
            "Q": lambda p: ["Q", [arg_char(e) for e in p["ps"]]]}[t["k"]](t["ps"][0])


def calls():
    """The functions asked in Facts: name -> function of the arguments (given by keyword where some may be left out)."""
    from pash_annotations import util, util_flag_option
    from pash_annotations.datatypes import BasicDatatypes as B, BasicDatatypesWithIO as BIO
    from pash_annotations.annotation_generation.datatypes import CommandProperties, Inputs, ParallelizabilityInfo
    from pash_annotations.annotation_generation.datatypes.parallelizability import Aggregator, Mapper, Splitter
    res = {}
    for module, names in [(AK, "make_config_input make_stream_input make_container_for_input make_excludes_from_input make_other_input "
                               "make_stream_output make_other_output get_access_from_string"),
                          (B, "get_stdin_fd get_stdout_fd get_stderr_fd format_arg_chars"),
                          (BIO, "make_stdin_with_access_stream_input make_stdout_with_access_output get_from_original_filename_with_ioinfo "
                                "get_from_original_stddescriptor_with_ioinfo"),
                          (Splitter, "make_splitter_indiv_files make_splitter_round_robin make_splitter_round_robin_with_unwrap make_splitter_consec_chunks"),
                          (AS, "make_aggregator_spec_concatenate make_aggregator_spec_adj_lines_merge make_aggregator_spec_adj_lines_seq "
                               "return_aggregator_conc_if_none_else_itself"),
                          (MS, "make_mapper_spec_seq return_mapper_spec_seq_if_none_else_itself"),
                          (TR, "make_transformer_same_as_seq make_transformer_empty make_transformer_add make_transformer_remove make_transformer_filter "
                               "make_transformer_custom return_transformer_flagoption_list_empty_if_none_else_itself "
                               "return_transformer_flagoption_list_same_as_seq_if_none_else_itself"),
                          (PZ, "make_parallelizer_round_robin_with_unwrap_from_other Parallelizer"),
                          (util, "compute_actual_el_for_input compute_actual_el_for_output list_deduplication return_default_if_none_else_itself "
                                 "return_empty_flag_option_list_if_none_else_itself return_empty_pos_config_list_if_none_else_itself "
                                 "return_empty_list_if_none_else_itself"),
                          (util_flag_option, "make_arg_simple"),
                          (Mapper.Mapper, "make_same_as_seq_mapper_from_command_invocation"),
                          (Aggregator.Aggregator, "make_aggregator_from_cmd_inv_with_io")]:
        for n in names.split():
            res[n] = (getattr(module, n, None), None)
    for kind in ["adj_lines_func", "custom_2_ary", "custom_n_ary"]:
        for suffix, first in [("from_cmd_inv_with_transformers", "flag_option_list_transformer"), ("from_string_representation", "cmd_inv_as_str")]:
            n = "make_aggregator_spec_%s_%s" % (kind, suffix)
            res[n] = (getattr(AS, n, None), [first, "is_implemented"])
    for n in ["make_parallelizer_indiv_files", "make_parallelizer_round_robin", "make_parallelizer_consec_chunks"]:
        res[n] = (getattr(PZ, n, None), ["mapper_spec", "aggregator_spec", "info_splitter_mapper", "info_mapper_aggregator"])
    res["make_mapper_spec_custom"] = (MS.make_mapper_spec_custom, ["spec_mapper_cmd_name", "flag_option_list_transformer", "num_outputs", "is_implemented"])
    res["MapperSpec"] = (MS.MapperSpec, ["kind", "spec_mapper_cmd_name", "flag_option_list_transformer", "is_implemented"])

    def info(plans, compatible, commutative):
        return ParallelizabilityInfo.ParallelizabilityInfo(plans, compatible, commutative).unpack_info()

    def grown(plans, more, commutative):
        i = ParallelizabilityInfo.ParallelizabilityInfo(list(plans) if plans else None)
        for p in more:
            i.unpack_info()[0].clear()  # what was answered before belongs to the caller
            i.append_to_parallelizer_list(p)
        i.unpack_info()
        if commutative:
            i.set_commutative()
        return i.unpack_info()

    def settings(first, more, name):
        p = CommandProperties.CommandProperties(dict(first) if first else None)
        for s in more:
            p.set_property(*s)
        return p.get_property_value(name)

    def of_inputs(method):
        return lambda kind, conf, streaming: getattr(Inputs.Inputs(kind, (conf, streaming)), method)()
    res["unpack_info"] = (info, None)
    res["grown_info"] = (grown, None)
    res["get_property_value"] = (settings, None)
    for n in ["is_streaming", "get_config_inputs", "get_streaming_inputs", "get_all_inputs"]:
        res[n] = (of_inputs(n), None)
    res["foldl"] = (lambda acc, l: util.foldl(lambda el, a: [el, a], acc, l), None)
    res["make_operand_a_filename_with_access"] = (lambda o, a: BIO.OperandWithIO.make_operand_a_filename_with_access(o, a).get_name(), None)
    for n in ["contains_new_line", "contains_null_char"]:
        res[n] = (lambda s, n=n: getattr(D.Operand(s), n)(), None)
    ENUMS.setdefault("MapperSpecKindEnum", MS.MapperSpecKindEnum)
    ENUMS.setdefault("InputsEnum", Inputs.InputsEnum)
    return res


CALLS = {}


def answer(c, kept):
    """The answer to a call, as a term; kept gets whether the arguments stayed as they were."""
    if not CALLS:
        CALLS.update(calls())
    k, ps = c["k"], c["ps"]
    f, names = CALLS.get(k) or (lambda x, *args: getattr(x, k)(*args), None)
    if f is None:                   # a function that is not there (any more) answers nothing
        return {"k": "Absent", "s": "", "ps": []}
    if k == "format_arg_chars":
        args = [[arg_char(p) for p in ps[0]["ps"]]]
    else:
        args = [value(p) if p["k"] != "Missing" else MISSING for p in ps]
    before = dump(args)
    try:
        res = f(*args) if names is None else f(**{n: a for n, a in zip(names, args) if a is not MISSING})
    except Exception:
        kept.append(dump(args) == before)
        return {"k": "Refused", "s": "", "ps": []}
    kept.append(dump(args) == before)
    shown = term(res)
    overwrite_all(res)
    return shown


@op("facts")
def op_facts(c):
    kept = []
    first = answer(c["c"], kept)
    if first["k"] == "Absent":
        return {"absent": True}
    return {"answer": first, "again": answer(c["c"], kept), "kept": tf(all(kept))}


def compare(x, y):
    kept = dump([x, y])
    res = {"eq": tf(x == y), "qe": tf(y == x), "ne": tf(x != y), "in": tf(x in [y]),
           "self": tf(x == x and y == y), "copy": tf(x == copy.deepcopy(x) and copy.deepcopy(y) == y), "cross": tf(copy.deepcopy(x) == copy.deepcopy(y))}
    res["kept"] = tf(dump([x, y]) == kept)
    return res


@op("equal")
def op_equal(c):
    return compare(value(c["x"]), value(c["y"]))


@op("equals")
def op_equals(c):
    """What the library answers for two command lines, compared."""
    res = {"inv": [], "applied": [], "plans": []}
    invs = [parse(l) for l in c["lines"]]
    res["inv"] = [compare(*invs)]
    ios = [AG.get_input_output_info_from_cmd_invocation(i) for i in invs]
    if None not in ios:
        res["applied"] = [compare(*(io.apply_input_output_info_to_command_invocation(i) for io, i in zip(ios, invs)))]
    paras = [AG.get_parallelizability_info_from_cmd_invocation(i) for i in invs]
    if None not in paras:
        first, second = (p.unpack_info()[0] for p in paras)
        res["plans"] = [[compare(p, q) for q in second] for p in first]
    return res


# ------------------------------------------------ rules for a new command

def condition(gen, s):
    g, names = s["g"], s["names"]
    if g == "always":
        return True
    if g == "has":
        return gen.does_flag_option_list_contain_at_least_one_of(names)
    if g == "hasnot":
        return not gen.does_flag_option_list_contain_at_least_one_of(names)
    if g == "none":
        return gen.get_operand_list_length() == 0
    if g == "many":
        return gen.get_operand_list_length() > 1
    if g == "starts":
        return any([gen.does_first_operand_start_with(t) for t in names])
    return any([gen.does_first_operand_contain(t) for t in names])


def given_roles(c):
    from pash_annotations.annotation_generation.annotation_generators.InputOutputInfoGenerator_Interface import InputOutputInfoGeneratorInterface

    class Rule(InputOutputInfoGeneratorInterface):
        def generate_info(self):
            for s in c["steps"]:
                if condition(self, s):
                    if s["c"] in ("set_implicit_use_of_stdin", "set_implicit_use_of_stdout"):
                        getattr(self, s["c"])(s["v"])
                    else:
                        getattr(self, s["c"])()

    res = {"some": False, "parsed": D.NO_INV, "io": dict(D.NO_INFO, cmd=""), "again": dict(D.NO_INFO, cmd=""),
           "lists": {k: [] for k in ("config", "stream_input", "other_input", "stream_output", "other_output", "options_other_output")},
           "length": 0, "filtered": [], "has": False, "unchanged": True}
    inv = D.make_invocation(c["inv"])
    try:
        words = [c["inv"]["cmd"]] + sum((e[1:] for e in c["inv"]["fos"]), []) + c["inv"]["ops"]
        res["parsed"] = D.invocation(parse(" ".join("'%s'" % w for w in words)))
    except Exception as e:
        res["parsed"] = {"cmd": "?" + type(e).__name__, "fos": [], "ops": []}
    try:
        gen = Rule(inv)
        gen.generate_info()
        io = gen.get_info()
        res["io"] = D.info(io, inv)
        again = gen.get_cmd_inv_with_io(inv)

        class Same:
            apply_input_output_info_to_command_invocation = lambda self, i: again
            has_other_outputs = lambda self: io.has_other_outputs()
        res["again"] = D.info(Same(), inv)
        ty = lambda xs: [D.typed(x) for x in xs]
        res["lists"] = {"config": ty(again.get_operands_with_config_input()), "stream_input": ty(again.get_operands_with_stream_input()),
                        "other_input": ty(again.get_operands_with_other_input()), "stream_output": ty(again.get_operands_with_stream_output()),
                        "other_output": ty(again.get_operands_with_other_output()),
                        "options_other_output": [D.typed_fo(x) for x in again.get_options_with_other_output()]}
        asked = ["-a", "-T", "--all", "b", "long", "--lon", "-", "n"]
        res["length"] = gen.get_operand_list_length()
        res["filtered"] = [D.flag_or_option(x) for x in gen.get_flag_option_list_filtered_with(asked)]
        res["has"] = gen.does_flag_option_list_contain_at_least_one_of(asked) is True
        res["unchanged"] = D.invocation(inv) == D.invocation(D.make_invocation(c["inv"]))
        res["some"] = True
    except Exception as e:
        res["raised"] = type(e).__name__
    return res


def given_plans(c):
    from pash_annotations.annotation_generation.annotation_generators.ParallelizabilityInfoGenerator_Interface import ParallelizabilityInfoGeneratorInterface

    def made(s):
        m, a = s["m"], s["a"]
        mapper = None if m == "" else MS.MapperSpec(MS.MapperSpecKindEnum.SAME_AS_SEQ, is_implemented=False) if m == "later" else \
            MS.make_mapper_spec_custom_from_string_representation(m, is_implemented=True)
        agg = None if a == "" else AS.make_aggregator_spec_adj_lines_seq() if a == "ADJ_LINES_SEQ" else \
            AS.make_aggregator_spec_custom_n_ary_from_cmd_inv_with_transformers(TR.make_transformer_empty(), is_implemented=False) if a == "CUSTOM_N_ARY" else \
            AS.make_aggregator_spec_custom_2_ary_from_string_representation(a, is_implemented=True)
        make = {"INDIV_FILES": PZ.make_parallelizer_indiv_files, "CONSEC_CHUNKS": PZ.make_parallelizer_consec_chunks,
                "ROUND_ROBIN_PLAIN": PZ.make_parallelizer_round_robin}[s["split"]]
        given = {"mapper_spec": mapper, "aggregator_spec": agg, "info_mapper_aggregator": int(s["naux"]),
                 "info_splitter_mapper": next(i for i in PZ.AdditionalInfoSplitterToMapper if i.value == s["info"]) if s["info"] else None}
        return make(**{k: v for k, v in given.items() if v is not None and v != 0})

    class Rule(ParallelizabilityInfoGeneratorInterface):
        def generate_info(self):
            for s in c["steps"]:
                if s["c"] == "append":
                    self.append_to_parallelizer_list(made(s))
                elif s["c"].endswith("_adjf"):
                    getattr(self, s["c"])("func", s["v"])
                else:
                    getattr(self, s["c"])()

    res = {"some": False, "para": dict(D.NO_PLANS), "implemented": [], "rrcat": False}
    try:
        gen = Rule(D.make_invocation(c["inv"]))
        gen.generate_info()
        para = gen.get_info()
        plans = D.plans(para)
        for p in plans["plans"] + plans["inferred"]:
            if p[4].startswith("ADJ_LINES"):
                p[5] = ""
        res.update(some=True, para=plans, implemented=[p.are_all_parts_implemented() is True for p in para.parallelizer_list],
                   rrcat=para.unpack_info()[1] is not False)
    except Exception as e:
        res["raised"] = type(e).__name__
    return res


@op("rules")
def op_rules(c):
    return given_plans(c) if c["kind"] == "plans" else given_roles(c)
