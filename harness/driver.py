"""Drives the real code (imported from /repo) through recorded cases.

usage: driver.py CASES.ndjson RESULTS.ndjson [FIRST]

Every case is a JSON object with an "op"; one result line is written per case:
the case's "id" and "res", a projection of what the library answered.  All
projections are total: whatever the code does ends up as strings, lists and
records which the TLA+ specification can compare, exceptions included.
"""
import copy
import json
import os
import signal
import sys

sys.path.insert(0, os.environ.get("VERIF_REPO", "/repo"))

from pash_annotations.parser.parser import parse
from pash_annotations.annotation_generation import AnnotationGeneration as AG
from pash_annotations.annotation_generation.datatypes.parallelizability import AggregatorSpec as AS
from pash_annotations.annotation_generation.datatypes.parallelizability import MapperSpec as MS
from pash_annotations.annotation_generation.datatypes.parallelizability import Parallelizer as PZ
from pash_annotations.annotation_generation.datatypes.parallelizability import Splitter as SP
from pash_annotations.annotation_generation.datatypes.parallelizability import TransformerFlagOptionList as TR
from pash_annotations.annotation_generation.datatypes.parallelizability.AggregatorKind import AggregatorKindEnum
from pash_annotations.annotation_generation.datatypes.ParallelizabilityInfo import ParallelizabilityInfo
from pash_annotations.datatypes import AccessKind as AK
from pash_annotations.datatypes.BasicDatatypes import (
    ArgStringType, FileName, Flag, Operand, Option, StdDescriptor, StdDescriptorEnum)
from pash_annotations.datatypes.BasicDatatypesWithIO import (
    FileNameWithIOInfo, OptionWithIO, StdDescriptorWithIOInfo)
from pash_annotations.datatypes.BasicDatatypesWithIOVar import OptionWithIOVar
from pash_annotations.datatypes.CommandInvocationInitial import CommandInvocationInitial
from pash_annotations.datatypes.CommandInvocationWithIO import CommandInvocationWithIO
from pash_annotations.datatypes.CommandInvocationWithIOVars import CommandInvocationWithIOVars


class Hang(BaseException):
    pass


def on_alarm(signum, frame):
    raise Hang()


# ---------------------------------------------------------------- projections

def text(x):
    """Strings as they are, anything else visibly not a string."""
    return str(x) if type(x) is str else "?" + type(x).__name__ + ":" + str(x)


def flag_or_option(x):
    if type(x) is Flag:
        return ["F", text(x.get_name())]
    if type(x) is Option:
        return ["O", text(x.get_name()), text(x.get_arg())]
    return ["?", text(str(x))]


def operand(x):
    return text(x.get_name()) if type(x) is Operand else "?" + str(x)


def invocation(inv):
    return {"cmd": text(inv.cmd_name),
            "fos": [flag_or_option(x) for x in inv.flag_option_list],
            "ops": [operand(x) for x in inv.operand_list]}


def access(a):
    return a.kind.name if type(a) is AK.AccessKind else "?" + str(a)


def typed(x):
    if type(x) is ArgStringType:
        return ["STR", text(x.get_name())]
    if type(x) is FileNameWithIOInfo:
        return ["FILE", text(x.get_name()), access(x.get_access())]
    if type(x) is StdDescriptorWithIOInfo:
        return ["STD", x.get_type().name, access(x.get_access())]
    return ["?", text(str(x))]


def typed_fo(x):
    if type(x) is Flag:
        return ["F", text(x.get_name())]
    if type(x) is OptionWithIO:
        return ["O", text(x.get_name())] + typed(x.get_arg())
    return ["?", text(str(x))]


def implicit(x, which):
    if x is None:
        return "none"
    t = typed(x)
    return t[2] if t[:2] == ["STD", which] else "?" + str(t)


NO_INFO = {"some": False, "fos": [], "ops": [], "si": "none", "so": "none", "other": False}


def info(io, inv):
    """The information about an invocation, applied to it."""
    if io is None:
        return dict(NO_INFO)
    applied = io.apply_input_output_info_to_command_invocation(inv)
    return {"some": True,
            "fos": [typed_fo(x) for x in applied.flag_option_list],
            "ops": [typed(x) for x in applied.operand_list],
            "si": implicit(applied.implicit_use_of_streaming_input, "STDIN"),
            "so": implicit(applied.implicit_use_of_streaming_output, "STDOUT"),
            "other": io.has_other_outputs() is True,
            "cmd": text(applied.cmd_name)}


def dummy_inv():
    return CommandInvocationWithIOVars("dummycmd", [], [], 1, 2, {1: AK.make_stream_input(), 2: AK.make_stream_output()})


def tf(b):
    return "T" if b is True else "F" if b is False else "?" + str(b)


def plan(p):
    """A parallelization plan; commands of mapper and aggregator as instantiated."""
    m, a = p.get_mapper_spec(), p.get_aggregator_spec()
    naux = p.get_info_mapper_aggregator()
    mcmd = acmd = ""
    if m.is_implemented is True:
        try:
            mapper = m.get_mapper(dummy_inv(), 11, 12, [20 + i for i in range(naux)])
            mcmd = "" if mapper.cmd_name == "dummycmd" else text(mapper.cmd_name)
        except Exception as e:
            mcmd = "?" + type(e).__name__
    if a.is_implemented is True:
        try:
            agg = a.get_aggregator(dummy_inv(), [11, 12], 13)
            acmd = "" if agg.cmd_name == "dummycmd" or (a.kind.name == "CONCATENATE" and agg.cmd_name == "cat") \
                else text(agg.cmd_name)
        except Exception as e:
            acmd = "?" + type(e).__name__
    return [p.get_splitter().kind.name, m.kind.name, mcmd, tf(m.is_implemented),
            a.get_kind().name, acmd, tf(a.is_implemented),
            text(p.info_splitter_mapper.value), str(naux)]


NO_PLANS = {"some": False, "plans": [], "inferred": [], "comm": False, "stable": True}


def plans(para):
    if para is None:
        return dict(NO_PLANS)
    stored = [plan(p) for p in para.parallelizer_list]
    asked = []
    for _ in range(3):
        inferred, _, comm = para.unpack_info()
        asked.append(([plan(p) for p in inferred], comm is True))
        inferred.reverse()  # what was answered belongs to the caller
        inferred.extend(inferred[:1])
    stable = all(a == asked[0] for a in asked) and [plan(p) for p in para.parallelizer_list] == stored
    return {"some": True, "plans": stored, "inferred": asked[0][0], "comm": asked[0][1], "stable": stable}


def make_invocation(d):
    return CommandInvocationInitial(
        d["cmd"], [Flag(e[1]) if e[0] == "F" else Option(e[1], e[2]) for e in d["fos"]],
        [Operand(o) for o in d["ops"]])


# ---------------------------------------------------------------- annotations

def annotate(inv):
    res = {"io": dict(NO_INFO), "para": dict(NO_PLANS), "raised": "", "praised": ""}
    before = invocation(inv)
    try:
        io = AG.get_input_output_info_from_cmd_invocation(inv)
        res["io"] = info(io, inv)
    except Exception as e:
        res["raised"] = type(e).__name__ + ": " + str(e)
    try:
        para = AG.get_parallelizability_info_from_cmd_invocation(inv)
        res["para"] = plans(para)
    except Exception as e:
        res["praised"] = type(e).__name__ + ": " + str(e)
    res["unchanged"] = invocation(inv) == before
    return res


NO_INV = {"cmd": "", "fos": [], "ops": []}


def op_parse(c):
    try:
        inv = parse(c["line"])
    except Exception as e:
        return {"ok": False, "inv": NO_INV, "exc": type(e).__name__}
    return {"ok": True, "inv": invocation(inv), "exc": ""}


def op_ann(c):
    if "line" in c:
        res = op_parse(c)
        if not res["ok"]:
            res.update({"io": NO_INFO, "para": NO_PLANS, "raised": "", "praised": "", "unchanged": True})
            return res
        inv = parse(c["line"])
    else:
        inv = make_invocation(c["inv"])
        res = {"ok": True, "inv": invocation(inv), "exc": ""}
    res.update(annotate(inv))
    return res


def op_anns(c):
    """Several lines, whose answers should be equal."""
    res = [op_ann({"line": l}) for l in c["lines"]]
    try:
        invs = [parse(l) for l in c["lines"]]
        eq = all(invs[0] == i and i == invs[0] for i in invs)
    except Exception:
        eq = False
    return {"res": res, "eq": eq}


OPS = {"parse": op_parse, "ann": op_ann, "anns": op_anns}


def main():
    cases, results = sys.argv[1], sys.argv[2]
    first = int(sys.argv[3]) if len(sys.argv) > 3 else 0
    import extra_ops
    OPS.update(extra_ops.OPS)
    signal.signal(signal.SIGALRM, on_alarm)
    with open(cases, encoding="utf-8") as f, open(results, "a", encoding="utf-8") as out:
        for n, row in enumerate(f):
            if n < first:
                continue
            case = json.loads(row)
            signal.setitimer(signal.ITIMER_REAL, 10)
            try:
                res = OPS[case["op"]](case)
            except Hang:
                res = {"crash": "hang"}
            except Exception as e:
                res = {"crash": type(e).__name__ + ": " + str(e)}
            signal.setitimer(signal.ITIMER_REAL, 0)
            out.write(json.dumps({"id": case["id"], "res": res}) + "\n")
            out.flush()


if __name__ == "__main__":
    sys.modules["driver"] = sys.modules["__main__"]
    main()
