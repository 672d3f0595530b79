"""Runs real commands on given texts, inside a scratch directory.

Only commands that read and write streams are run, and only if every word of
them is harmless: the code under test may hand over anything."""
import os
import re
import shutil
import subprocess
import tempfile

COMMANDS = {"grep", "cut", "tr", "sort", "uniq", "sed", "xargs", "cat", "head", "tail", "wc", "comm", "tee"}
FILES = {"f2": "a\nB\n", "f3": ""}
# scripts of sed which neither write files nor run commands
SED = re.compile(r"(\d+|\$|/[a-z]/)?(s/[a-z^$]*/[a-zA-Z]*/g?|y/[a-z]+/[a-z]+/|[pdq=GNnHxFh]|2q)(;[a-z0-9])?\Z")
ENV = {"PATH": "/usr/bin:/bin", "LC_ALL": "C", "LANG": "C", "TZ": "UTC"}


class Refused(Exception):
    pass


def directory():
    d = tempfile.mkdtemp(prefix="exec-")
    for name, content in FILES.items():
        with open(os.path.join(d, name), "w") as f:
            f.write(content)
    return d


def remove(d):
    shutil.rmtree(d, ignore_errors=True)


def harmless(words):
    cmd, args = words[0], words[1:]
    if cmd not in COMMANDS:
        raise Refused(cmd)
    for w in args:
        if cmd == "sed":
            if "/" in w and not SED.match(w) or re.match(r"(-i|--in-place|-s?f)", w) or re.search(r"[wWerR]\s*\S", w) and not SED.match(w):
                raise Refused(w)
        elif "/" in w or ".." in w or w.startswith(("-o", "--output=", "--compress", "-T", "--temp", "--files0", "-S")) \
                or (cmd == "xargs" and w.startswith(("-a", "--arg-file", "-p", "--interactive", "-P"))):
            if not (cmd == "grep" and w == "-o") and not (cmd == "tr"):
                raise Refused(w)
    if cmd == "xargs":
        rest = list(args)
        while rest and rest[0].startswith("-"):
            rest = rest[2:] if rest[0] in ("-n", "-L", "-I", "-s", "-d", "-E") else rest[1:]
        if rest and rest[0] != "echo":
            raise Refused(rest[0])
    if cmd == "tee" and any(not w.startswith("-") for w in args):
        raise Refused("tee")


OWN = re.compile(r"(f[2-5]|in[1-3]|out|part[1-9])\Z")


def own(words):
    """Words with which a command may name files of the scratch directory."""
    return [w for w in words if OWN.match(w)]


def read(path):
    with open(path, "rb") as f:
        return f.read().decode("latin-1")


def write(d, name, text):
    with open(os.path.join(d, name), "wb") as f:
        f.write(text.encode("latin-1"))


def run(words, text, d, out=None):
    """What a command writes to standard output and to the file out. It reads
    text from standard input, or None if that is empty."""
    plain = list(words)
    if out and words[0] == "sort" and "-o" in words and plain[plain.index("-o") + 1] == out:
        del plain[plain.index("-o"):plain.index("-o") + 2]
    harmless(plain)
    p = subprocess.run(words, input=(text or "").encode("latin-1"), stdout=subprocess.PIPE,
                       stderr=subprocess.DEVNULL, cwd=d, env=ENV, timeout=10)
    res = p.stdout.decode("latin-1")
    if plain != list(words) and os.path.exists(os.path.join(d, out)):
        res += read(os.path.join(d, out))
        os.remove(os.path.join(d, out))
    return res, p.returncode


def run_line(words, text, d):
    """A command line which reads text from standard input or the file f4, and
    writes to standard output or the file f5."""
    write(d, "f4", text)
    return run(words, text, d, out="f5")


def words_of(inv):
    res = [inv["cmd"]]
    for e in inv["fos"]:
        res += [e[1]] if e[0] == "F" else [e[1], plain_name(e[2])]
    return res + [plain_name(e[1]) if e[0] == "V" else e[1] for e in inv["ops"]]


def plain_name(n):
    return n[5:] if n.startswith("file:") else n


def run_named(inv, streams, d):
    """Runs an invocation over streams (name -> text); what it writes to "out"."""
    for name, text in streams.items():
        write(d, name, text)
    stdin = None if inv["si"] == "none" else streams[inv["si"]]
    if inv["so"] not in ("none", "out"):
        raise Refused("writes to " + inv["so"])
    return run(words_of(inv), stdin, d, out="out")[0]


INSTALLED = {"grep", "cut", "tr", "sort", "sed", "xargs"}


def run_plan(plan, parts, order, d):
    """Runs a plan (as in op df) on the parts, combining results in the given
    order: 0 is all at once, i is the i-th with the one after it."""
    slots = [run_named(plan["mapper"]["inv"], {"in1": p}, d) for p in parts]
    for i in order:
        if i == 0:
            slots = [run_named(plan["aggs"][2]["inv"], dict(zip(("in1", "in2", "in3"), slots)), d)]
        else:
            slots[i - 1:i + 1] = [run_named(plan["aggs"][1]["inv"], {"in1": slots[i - 1], "in2": slots[i]}, d)]
    return slots[0]


def replay(job):
    """(line, plan, case) -> [sequential output, output of the plan] of the real commands, or None."""
    import shlex
    line, plan, text, parts, order = job
    d = directory()
    try:
        words = shlex.split(line)
        if words[0] not in INSTALLED:
            return None
        seq = run_line(words, text, d)[0]
        return [seq, run_plan(plan, parts, order, d)]
    except Refused:
        return None
    finally:
        remove(d)


def outputs(job):
    """(line, texts) -> (outputs, largest exit status) of the real command."""
    import shlex
    line, texts = job
    d = directory()
    try:
        res = [run_line(shlex.split(line), t, d) for t in texts]
        return [[t, o.replace("\0", "\r")] for t, (o, _) in zip(texts, res)], max(rc for _, rc in res)
    finally:
        remove(d)
