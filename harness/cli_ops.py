"""Runs the command-line tool among other actors in a scratch directory."""
import importlib
import json
import os
import re
import resource
import runpy
import shutil
import stat
import subprocess
import sys
import tempfile

import driver as D
from driver import AG, parse

TREE = os.environ.get("VERIF_REPO", "/repo")
SCRIPT = os.path.join(TREE, "pash_annotations", "annotation_cli.py")
BEFORE, ADVERSARY, OTHER, LIMIT = "before\n", "adversary\n", "other\n", 60
HEADERS = [">>> READ COMMAND INVOCATION", ">>> PARSED COMMAND INVOCATION", ">>> INPUT-OUTPUT INFORMATION",
           ">>> PARALLELIZABILITY INFORMATION"]


# ------------------------------------------------------------ reports

def tidy(s):
    return re.sub(r"\bpash_annotations\.", "", s.strip())


def sections(text):
    """The four parts of a report, or nothing if it is not complete."""
    m = re.search(r"(?:^|\n)" + r"\n(.*)\n".join(re.escape(h) + "[^\n]*" for h in HEADERS) + r"\n(.*)", text, re.S)
    return [tidy(p) for p in m.groups()] if m and len(m.groups()) == 4 and "is_commutative" in m.group(4) else []


def library(line):
    """What the library says, for the same four parts: both answers and what they look like."""
    try:
        inv = parse(line)
        io, para = AG.get_input_output_info_from_cmd_invocation(inv), AG.get_parallelizability_info_from_cmd_invocation(inv)
        applied = "" if io is None else str(io.apply_input_output_info_to_command_invocation(inv))
        return [tidy(line), tidy(str(inv)), tidy(applied), tidy(str(D.ParallelizabilityInfo() if para is None else para))]
    except Exception as e:
        return ["", "", "", "raised " + type(e).__name__]


def found(tokens, part):
    """How many of the tokens are found in a part, one after the other."""
    at = 0
    for n, t in enumerate(tokens):
        k = part.find(t, at)
        if k < 0:
            return n
        at = k + len(t)
    return len(tokens)


# ------------------------------------------------------ the place to save to

NAMES = {"tilde": "~/out.txt", "home": "~", "dollar": "$HOME", "blanks": " out ", "accents": "cafe\u0301.txt", "lines": "o\nut", "pattern": "*",
         "braces": "{0}%s", "hidden": ".out", "longest": "y" * 255, "backslash": "a\\b", "doubled": "sub//out.txt", "url": "file:out.txt"}


def set_up(root, init, form):
    """Makes the initial files; the argument to save to, the place meant and the directory to start from."""
    work = os.path.join(root, "work")
    os.makedirs(os.path.join(work, "sub"))
    os.mkdir(os.path.join(work, "away"))
    if form == "tilde":
        os.mkdir(os.path.join(work, "~"))
        os.chmod(os.path.join(work, "~"), 0o777)
    for d in (root, work, os.path.join(work, "sub"), os.path.join(work, "away")):
        os.chmod(d, 0o777)
    with open(os.path.join(work, "other"), "w") as f:
        f.write(OTHER)
    os.mkdir(os.path.join(work, "otherdir"))
    os.symlink("away", os.path.join(work, "linked"))
    cwd, name = work, "out.txt"
    if form == "sub":
        name = "sub/out.txt"
    elif form == "up":
        cwd, name = os.path.join(work, "sub"), "../out.txt"
    elif form == "dot":
        name = "./sub/.././out.txt"
    elif form == "absolute":
        name = os.path.join(work, "out.txt")
    elif form == "elsewhere":
        cwd, name = os.path.join(work, "away"), os.path.join(work, "sub", "out.txt")
    elif form == "spaces":
        name = "o ut é.txt"
    elif form == "dash":
        name = "-out"
    elif form == "linked":
        name = "linked/out.txt"
    elif form == "bare":
        name = "report"
    elif form in NAMES:
        name = NAMES[form]
    place = os.path.normpath(os.path.join(cwd, name))
    if form == "linked":
        place = os.path.join(work, "away", "out.txt")
    if init == "noparent":
        name, place = os.path.join(os.path.dirname(name), "new", os.path.basename(name)), \
            os.path.join(os.path.dirname(place), "new", os.path.basename(place))
    elif init == "fileparent":
        name, place = "other/out.txt", os.path.join(cwd, "other", "out.txt")
        cwd = work
    elif init == "toolong":
        name = place = os.path.join(work, "x" * 300)
    elif init == "emptypath":
        name, place = "", cwd
    elif init == "slash":
        name += "/"
    elif init == "unwritable":
        os.mkdir(os.path.join(work, "locked"), 0o555)
        name = place = os.path.join(work, "locked", "out.txt")
    elif init != "absent":
        act({"file": "mkfile", "dir": "mkdir", "link": "mklink", "linkdir": "mklinkdir", "dangling": "mkdangling"}[init],
            place, work, BEFORE)
    return name, place, cwd, work


def act(what, place, work, content=ADVERSARY):
    """An action of another process; without effect where it is not possible."""
    try:
        if what == "mkfile":
            fd = os.open(place, os.O_WRONLY | os.O_CREAT | os.O_EXCL, 0o666)
            os.write(fd, content.encode())
            os.close(fd)
        elif what == "mkdir":
            os.mkdir(place)
        elif what == "mklink":
            os.symlink(os.path.join(work, "other"), place)
        elif what == "mklinkdir":
            os.symlink(os.path.join(work, "otherdir"), place)
        elif what == "mkdangling":
            os.symlink(os.path.join(work, "nowhere"), place)
        elif what == "mkparent":
            os.mkdir(os.path.dirname(place))
            os.chmod(os.path.dirname(place), 0o777)
        elif what == "remove":
            if os.path.islink(place) or open(place).read() in (BEFORE, ADVERSARY):
                os.unlink(place)
    except OSError:
        pass


def tree(work):
    res = {}
    for base, dirs, files in os.walk(work):
        for n in dirs + files:
            p = os.path.join(base, n)
            st = os.lstat(p)
            res[p] = [stat.S_IFMT(st.st_mode), os.readlink(p) if os.path.islink(p) else
                      open(p, encoding="utf-8", errors="surrogateescape").read() if os.path.isfile(p) else ""]
    return res


def state_of(place, init, work, decode):
    """Kind of what is at the place, whose it is, and the text in it."""
    if init in ("emptypath", "toolong", "fileparent"):
        return init, "init", ""
    try:
        st = os.lstat(place)
    except OSError:
        if not os.path.isdir(os.path.dirname(place)):
            return "noparent", "init", ""
        return (init if init in ("slash", "unwritable") else "absent"), "init", ""
    if stat.S_ISLNK(st.st_mode):
        to = os.path.basename(os.readlink(place))
        return {"other": "link", "otherdir": "linkdir", "nowhere": "dangling"}.get(to, "?" + to), "init", ""
    if stat.S_ISDIR(st.st_mode):
        return ("dir" if not os.listdir(place) else "?full directory"), "init", ""
    content = decode(open(place, "rb").read())
    own = "init" if content == BEFORE else "adv" if content == ADVERSARY else "?"
    return "file", own, content


# ---------------------------------------------------------------- the tool

FILE_CALLS = {"open", "stat", "lstat", "access", "rename", "replace", "link", "unlink", "remove", "mkdir", "symlink",
              "write", "writelines", "close", "truncate", "flush", "fsync", "open_code", "scandir", "listdir"}
QUIET = ("importlib", "util_parser", "encodings", "json", "linecache", "traceback", "argparse", "gettext", "locale")
CHANGES = {"os.remove": 1, "os.rename": 2, "os.mkdir": 1, "os.rmdir": 1, "os.link": 2, "os.symlink": 2, "os.truncate": 1,
           "os.chmod": 1, "os.chown": 1, "os.utime": 1}
LOADED = []


def load():
    if not LOADED:
        sys.path.insert(0, os.path.dirname(SCRIPT))
        for m in ("annotation_generation.AnnotationGeneration", "annotation_generation.datatypes.InputOutputInfo",
                  "annotation_generation.datatypes.ParallelizabilityInfo", "datatypes.CommandInvocationInitial", "parser.parser"):
            try:
                importlib.import_module(m)
            except ImportError:
                pass
        LOADED.append(True)


def tool(line, name, cwd, work, limited, user, at_moment):
    """Runs the tool in a process of its own; at_moment(n) is called before its n-th file operation.
    Returns what it printed, its exit status, what it tried to change elsewhere and what at_moment returned."""
    load()
    out_r, out_w = os.pipe()
    log_r, log_w = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        log = {"elsewhere": [], "moments": []}
        status = 0
        busy = [False]

        def changed(p):
            if isinstance(p, int):
                return
            p = os.path.realpath(os.path.join(os.getcwd(), os.fsdecode(p)))
            if p != work and not p.startswith(work + "/") and not p.startswith("/dev/") and not p.startswith("/proc/self/"):
                log["elsewhere"].append(p)
                raise PermissionError(13, "kept inside the scratch directory", p)

        def audit(event, args):
            if busy[0]:
                return
            if event == "open" and args[0] is not None:
                mode, flags = args[1], args[2]
                if (isinstance(mode, str) and set(mode) & set("wax+")) or \
                        (not isinstance(mode, str) and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC)):
                    changed(args[0])
            elif event in CHANGES:
                for p in args[:CHANGES[event]] if event != "os.symlink" else args[1:2]:
                    changed(p)
            elif event in ("subprocess.Popen", "os.system", "os.exec", "os.posix_spawn"):
                log["elsewhere"].append(event)
                raise PermissionError(1, "no other programs")

        def profile(frame, event, arg):
            if event != "c_call" or getattr(arg, "__name__", "") not in FILE_CALLS:
                return
            owner = getattr(arg, "__self__", None)
            if owner is sys.stdout or owner is sys.stderr:
                return
            f, inside = frame, False
            while f is not None:
                code = f.f_code.co_filename
                if any(q in code for q in QUIET):
                    return
                inside = inside or code == SCRIPT
                f = f.f_back
            if inside and len(log["moments"]) < 8:
                busy[0] = True
                sys.setprofile(None)
                log["moments"].append(at_moment(len(log["moments"]) + 1))
                sys.setprofile(profile)
                busy[0] = False
        try:
            os.close(out_r)
            os.close(log_r)
            os.dup2(out_w, 1)
            sys.stdout = open(1, "w", encoding="utf-8", errors="surrogateescape", closefd=False)
            sys.stderr = open(os.devnull, "w")
            os.chdir(cwd)
            os.environ["HOME"] = os.path.join(work, "away")
            os.umask(0o022)
            if user:
                os.setgid(65534)
                os.setuid(65534)
            if limited:
                resource.setrlimit(resource.RLIMIT_FSIZE, (LIMIT, LIMIT))
            sys.argv = [SCRIPT, "--command_invocation=" + line] + ([] if name is None else ["--save_to=" + name])
            sys.addaudithook(audit)
            sys.setprofile(profile)
            try:
                runpy.run_path(SCRIPT, run_name="__main__")
            except SystemExit as e:
                status = e.code if isinstance(e.code, int) else 0 if e.code is None else 1
            except BaseException:
                status = 1
            finally:
                sys.setprofile(None)
            busy[0] = True
            sys.stdout.flush()
            os.close(1)
            os.close(out_w)
        except BaseException as e:
            status, log["error"] = 99, type(e).__name__ + ": " + str(e)
        finally:
            with os.fdopen(log_w, "w") as f:
                f.write(json.dumps(dict(log, status=status)))
            os._exit(0)
    os.close(out_w)
    os.close(log_w)
    with os.fdopen(out_r, "rb") as f:
        printed = f.read()
    with os.fdopen(log_r) as f:
        text = f.read()
    os.waitpid(pid, 0)
    log = json.loads(text) if text else {"elsewhere": [], "moments": [], "status": 99, "error": "process ended"}
    return dict(log, printed=printed.decode("utf-8", "surrogateescape"))


def real_tool(line, name, cwd, enc):
    """Runs the tool as a user does, with one of the encodings."""
    env = {"PATH": os.environ.get("PATH", "/usr/bin:/bin"), "PYTHONPATH": TREE, "PYTHONDONTWRITEBYTECODE": "1", "HOME": cwd}
    if enc == "ascii":
        env.update(LC_ALL="C", PYTHONUTF8="0", PYTHONCOERCECLOCALE="0")
    elif enc in ("utf8", "raw"):
        env["LC_ALL"] = "C.UTF-8"
    else:
        env["LC_ALL"] = "C"
    code = "latin-1" if enc == "raw" else "utf-8"
    cmd = [sys.executable.encode(), SCRIPT.encode(), b"--command_invocation=" + line.encode(code)]
    if name is not None:
        cmd.append(b"--save_to=" + name.encode("utf-8"))
    p = subprocess.run(cmd, cwd=cwd, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=60)
    return {"elsewhere": [], "moments": [], "status": p.returncode, "printed": p.stdout.decode(code, "replace")}


def op_cli(c):
    root = os.path.realpath(tempfile.mkdtemp(prefix="cli", dir=os.environ["VERIF_SCRATCH"]))
    try:
        return replay(c, root)
    finally:
        shutil.rmtree(root, ignore_errors=True)


def replay(c, root):
    name, place, cwd, work = set_up(root, c["init"], c["form"])
    if c["form"] == "nowhere":
        name = None
    before = tree(work)
    code = "latin-1" if c["enc"] == "raw" else "utf-8"
    acts, done = c["acts"], [False] * len(c["acts"])
    others = []

    def moment(n):
        """The actions at a moment; results of other tools and which actions were done."""
        res = []
        for k, a in enumerate(acts):
            if a["at"] == n:
                done[k] = True
                if a["act"] == "tool":
                    r = tool(c["line2"], name, cwd, work, c["limited"], False, lambda m: None)
                    res.append([k, r])
                else:
                    act(a["act"], place, work)
                    res.append([k, None])
        return res

    res = moment(0)
    if c["real"]:
        t = real_tool(c["line"], name, cwd, c["enc"])
    else:
        t = tool(c["line"], name, cwd, work, c["limited"], c["init"] == "unwritable", moment)
    for m in t["moments"]:
        res += m
    for k, r in res:
        done[k] = True
        if r is not None:
            others.append(r)
    kind, own, content = state_of(place, c["init"], work, lambda b: b.decode(code, "replace"))
    reports = [sections(t["printed"])] + [sections(r["printed"]) for r in others]
    outs = ["printed" if r else "lost" for r in reports]
    if own == "?" and kind == "file":
        rep = sections(content)
        for k, l in enumerate([c["line"], c["line2"]]):
            if k < len(outs) and outs[k] == "lost" and rep and rep[0] == tidy(l):
                own, reports[k], outs[k] = "t%d" % (k + 1), rep, "stored"
                break
        else:
            for k, l in enumerate([c["line"], c["line2"]]):
                if k < len(outs) and not rep and len(content) <= LIMIT and content.startswith(HEADERS[0]) \
                        and (content + "\n").split("\n", 2)[1].startswith(l.split("\n")[0][:20]):
                    own, kind = "t%d" % (k + 1), "partial"
                    break
    after = tree(work)
    touched = sorted(os.path.relpath(p, work) for p in set(before) | set(after)
                     if before.get(p) != after.get(p) and p != place
                     and not (c["init"] == "noparent" and p == os.path.dirname(place)))
    elsewhere = touched + sum((r["elsewhere"] for r in [t] + others), [])
    tool2 = len(outs) > 1
    return {"done": done, "kind": kind, "own": own, "out1": outs[0], "out2": outs[1] if tool2 else "none",
            "status": [r["status"] for r in [t] + others], "elsewhere": elsewhere,
            "rep1": reports[0], "rep2": reports[1] if tool2 else [],
            "lib1": library(c["line"]), "lib2": library(c["line2"]) if tool2 else [],
            "found": [[found(tok, p) for tok, p in zip(c["tokens"], r)] for r, l in ((reports[0], c["line"]),)]}
