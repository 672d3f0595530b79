"""Common machinery of the checks: running TLC, running the real code, verdicts."""
import concurrent.futures
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
REPO = os.environ.get("VERIF_REPO", "/repo")
PYTHON = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
KNOWN = os.path.join(VERIF, "known_findings.txt")
CORES = min(8, os.cpu_count() or 8)


class Machinery(Exception):
    """The check itself does not work; never a verdict on the code."""


class Run:
    """One run of the check of one property."""

    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.thorough = tier == "thorough"
        self.started = time.time()
        self.states = self.transitions = self.traces = 0
        self.samples = []
        self.violations = []          # (key, what, details)
        self.assumptions = []
        self.explored = {}
        self.exhaustive = []
        self.tmp = tempfile.mkdtemp(prefix="verif-%s-" % prop)

    def close(self):
        shutil.rmtree(self.tmp, ignore_errors=True)

    def path(self, name):
        return os.path.join(self.tmp, name)

    # ------------------------------------------------------------------ TLC
    def log(self, *what):
        if os.environ.get("VERIF_VERBOSE"):
            print("[%6.1f]" % (time.time() - self.started), *what, flush=True)

    def tlc(self, module, env=None, cfg=None, simulate=None, depth=None, workers=CORES, timeout=3000, heap="8g"):
        """Runs TLC; returns the CASE and FAIL records it printed.

        An invariant violation or error of the specification itself is a
        failure of the machinery (the specification does not depend on the
        code), never a verdict on the code."""
        self.log("tlc", module, env, simulate or "")
        meta = tempfile.mkdtemp(prefix="tlc", dir=self.tmp)
        cmd = ["java", "-Dfile.encoding=UTF-8", "-Xss64m", "-Xmx" + heap, "-XX:+UseParallelGC", "-cp", JARS,
               "-Djava.io.tmpdir=" + meta, "tlc2.TLC",
               "-workers", str(workers), "-deadlock", "-noGenerateSpecTE", "-metadir", meta]
        if cfg:
            cmd += ["-config", cfg]
        if simulate:
            cmd[cmd.index("-workers") + 1] = "1"
            cmd += ["-simulate", "num=%d" % simulate, "-depth", str(depth or 20), "-seed", str(self.seed)]
        cmd.append(module + ".tla")
        out_path = tempfile.mktemp(prefix="out", dir=self.tmp)
        with open(out_path, "w") as out:
            try:
                rc = subprocess.run(cmd, cwd=SPEC, env=dict(os.environ, SIM="1" if simulate else "0", **(env or {})), stdout=out,
                                    stderr=subprocess.STDOUT, timeout=timeout).returncode
            except subprocess.TimeoutExpired:
                raise Machinery("TLC did not finish on %s within %d s" % (module, timeout))
        cases, fails, rest = [], [], []
        with open(out_path, encoding="utf-8") as f:
            for line in f:
                if line.startswith('"CASE '):
                    cases.append(json.loads(json.loads(line, strict=False)[5:]))
                elif line.startswith('"FAIL '):
                    fails.append(json.loads(json.loads(line, strict=False)[5:], strict=False))
                else:
                    rest.append(line)
        log = "".join(rest)
        m = re.findall(r"([\d,]+) states generated(?:[^\n]*?, ([\d,]+) distinct)?", log)
        ok = rc == 0 and ("No error has been found" in log or simulate)
        if simulate and re.search(r"Error:|is violated", log):
            ok = False
        if not ok:
            raise Machinery("TLC failed on %s (exit %d):\n%s" % (module, rc, log[-4000:]))
        if m:
            gen = int(m[-1][0].replace(",", ""))
            dist = int(m[-1][1].replace(",", "")) if m[-1][1] else gen
        else:
            sims = re.findall(r"Progress: ([\d,]+) states checked", log) or \
                re.findall(r"number of states generated: ([\d,]+)", log) or ["0"]
            gen = dist = int(sims[-1].replace(",", ""))
        self.states += dist
        self.transitions += gen
        shutil.rmtree(meta, ignore_errors=True)
        os.remove(out_path)
        return cases, fails

    # ------------------------------------------------------- the real code
    def drive(self, cases, procs=CORES, timeout=600, env=None):
        """Runs the cases through the real code; list of results by position."""
        if not cases:
            return []
        self.log("drive", len(cases))
        for n, c in enumerate(cases):
            c["id"] = n
        procs = max(1, min(procs, (len(cases) + 199) // 200))
        jobs = []
        work = tempfile.mkdtemp(prefix="drive", dir=self.tmp)
        env = dict(dict(os.environ, PYTHONDONTWRITEBYTECODE="1", VERIF_REPO=REPO, PYTHONHASHSEED="0",
                        PYTHONPATH=REPO), **(env or {}))
        for p in range(procs):
            part = cases[p::procs]
            src, dst = os.path.join(work, "c%d" % p), os.path.join(work, "r%d" % p)
            with open(src, "w", encoding="utf-8") as f:
                for c in part:
                    f.write(json.dumps(c) + "\n")
            open(dst, "w").close()
            jobs.append([part, src, dst, None])
        driver = os.path.join(VERIF, "harness", "driver.py")

        def start(job, first):
            job[3] = subprocess.Popen([PYTHON, driver, job[1], job[2], str(first)], cwd=work, env=env,
                                      stdout=subprocess.DEVNULL, stderr=open(job[2] + ".err", "w"))
        for j in jobs:
            start(j, 0)
        results = {}
        deadline = time.time() + timeout
        for j in jobs:
            while True:
                try:
                    rc = j[3].wait(max(1, deadline - time.time()))
                except subprocess.TimeoutExpired:
                    j[3].kill()
                    j[3].wait()
                    raise Machinery("the driver did not finish")
                done = 0
                with open(j[2], encoding="utf-8") as f:
                    for row in f:
                        r = json.loads(row)
                        results[r["id"]] = r["res"]
                        done += 1
                if rc == 0 and done == len(j[0]):
                    break
                if done >= len(j[0]):
                    break
                err = open(j[2] + ".err").read()[-2000:]
                if done == 0 and "Traceback" in err and "OPS[" not in err:
                    raise Machinery("the driver does not start:\n" + err)
                # the code ended the process on case number `done`
                with open(j[2], "a") as f:
                    f.write(json.dumps({"id": j[0][done]["id"], "res": {"crash": "process ended (%d)" % rc}}) + "\n")
                start(j, done + 1)
        shutil.rmtree(work, ignore_errors=True)
        return [results[n] for n in range(len(cases))]

    def fork_drive(self, cases, **kw):
        return self.drive(cases, **kw)

    # ------------------------------------------------------------ verdicts
    def judge(self, module, records, prop=None, env=None, cfg=None):
        """Validates records against the specification; returns the failures."""
        if not records:
            return []
        self.log("judge", module, len(records))
        size, files, out = 0, [], None
        per_file = max(2000, (len(records) + 3) // 4)
        for n, r in enumerate(records):
            r["id"] = n
            row = json.dumps(r, ensure_ascii=False) + "\n"
            if out is None or size + len(row) > 40000000 or count >= per_file:
                if out:
                    out.close()
                files.append(self.path("trace-%s-%d.ndjson" % (module, len(files))))
                out, size, count = open(files[-1], "w", encoding="utf-8"), 0, 0
            out.write(row)
            size += len(row)
            count += 1
        out.close()

        def one(path):
            e = {"TRACE": path, "PROP": prop or self.prop}
            e.update(env or {})
            _, fails = self.tlc(module, e, cfg, workers=2 if len(files) > 1 else CORES, heap="4g")
            os.remove(path)
            return fails
        with concurrent.futures.ThreadPoolExecutor(4) as pool:
            fails = sum(pool.map(one, files), [])
        self.traces += len(records)
        return fails

    def violation(self, key, what, details=None):
        self.violations.append((key, what, details or {}))

    def sample(self, x):
        if len(self.samples) < 8:
            self.samples.append(x)

    def count(self, name, n):
        self.explored[name] = self.explored.get(name, 0) + n


def workers():
    import multiprocessing
    return concurrent.futures.ProcessPoolExecutor(CORES, multiprocessing.get_context("fork"))


def known_findings(prop):
    """key -> description of the recorded findings of a property."""
    res = {}
    if os.path.exists(KNOWN):
        with open(KNOWN, encoding="utf-8") as f:
            for line in f:
                m = re.match(r"finding: property=(\S+) key=(\"(?:[^\"\\]|\\.)*\") (.*)", line)
                if m and m.group(1) == prop:
                    res[json.loads(m.group(2))] = m.group(3).strip()
    return res


def finish(run):
    """Prints the verdict, writes the evidence, returns the exit status."""
    known = known_findings(run.prop)
    seen_known, fresh = {}, {}
    for key, what, details in run.violations:
        if key in known:
            seen_known[key] = known[key]
        else:
            fresh.setdefault(key, (what, details))
    for key in sorted(seen_known):
        print("KNOWN-FINDING: property=%s %s: %s" % (run.prop, key.replace("\n", "\\n"), seen_known[key]))
    replays = os.path.join(VERIF, "replays")
    shown = 0
    if fresh:
        os.makedirs(replays, exist_ok=True)
    for key in fresh:
        what, details = fresh[key]
        if shown >= 5:
            break
        shown += 1
        name = "%s-%s.json" % (run.prop, hashlib.sha1(key.encode()).hexdigest()[:12])
        path = os.path.join(replays, name)
        with open(path, "w") as f:
            json.dump({"property": run.prop, "key": key, "what": what, "details": details}, f, indent=1, default=str)
        print("  %s" % what.replace("\n", "\\n"))
        print("VIOLATION property=%s replay=%s" % (run.prop, path))
    if len(fresh) > shown:
        print("  ... and %d more" % (len(fresh) - shown))
    evidence = {
        "property": run.prop, "tier": run.tier, "seed": run.seed, "level": "model_checking",
        "coverage": {
            "states": run.states, "transitions": run.transitions, "traces_validated_against_impl": run.traces,
            "samples": run.samples or ["none"], "explored": run.explored, "exhaustive_parts": run.exhaustive,
            "known_findings_seen": len(seen_known)},
        "assumptions": run.assumptions, "wall_s": round(time.time() - run.started, 2), "violations": len(fresh)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", run.prop + ".json"), "w") as f:
        json.dump(evidence, f, indent=1, default=str)
        f.write("\n")
    print("%s %s: %d states, %d transitions, %d traces validated, %d violations, %d known, %.1f s" % (
        run.prop, run.tier, run.states, run.transitions, run.traces, len(fresh), len(seen_known),
        time.time() - run.started))
    return 1 if fresh else 0
