"""Paths, TLC, evidence and verdicts: what every check shares."""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

for _v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ[_v] = "1"        # the checks use one process per core

VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REPO = os.environ.get("MIMOSA_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
BUILD = os.path.join(VERIF, "build")
EVIDENCE = os.path.join(VERIF, "evidence")
TLA = "/opt/veriftools/tla"
JARS = f"{TLA}/tla2tools.jar:{TLA}/CommunityModules-deps.jar"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
CORES = max(1, min(8, os.cpu_count() or 1))


class SpecError(Exception):
    """The specification or the harness is at fault, not the code under test."""


def compile_java():
    """Compile the real-number and JSON operators of the specification."""
    src = os.path.join(SPEC, "java", "mimosaverif")
    files = sorted(os.path.join(src, f) for f in os.listdir(src) if f.endswith(".java"))
    classes = os.path.join(BUILD, "classes")
    stamp = os.path.join(classes, "stamp")
    newest = max(os.path.getmtime(f) for f in files)
    if os.path.exists(stamp) and os.path.getmtime(stamp) >= newest:
        return classes
    tmp = tempfile.mkdtemp(prefix="mvjava")
    try:
        subprocess.run(["javac", "-nowarn", "-d", tmp, "-cp", JARS] + files, check=True,
                       stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        os.makedirs(classes, exist_ok=True)
        shutil.copytree(tmp, classes, dirs_exist_ok=True)
        with open(stamp, "w") as fh:
            fh.write("ok\n")
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return classes


class TlcResult:
    def __init__(self, rc, out, wall):
        self.rc, self.out, self.wall = rc, out, wall
        m = re.search(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
        self.generated = int(m.group(1).replace(",", "")) if m else 0
        self.distinct = int(m.group(2).replace(",", "")) if m else 0
        m = re.search(r"depth of the complete state graph search is (\d+)", out)
        self.depth = int(m.group(1)) if m else 0
        self.violated = re.findall(r"(?:Invariant|Action property|Temporal property|property) (\w+) (?:is|was) violated", out)
        self.ok = rc == 0 and "Error:" not in out

    def tail(self, n=40):
        return "\n".join(line for line in self.out.splitlines()
                         if not line.startswith(("Parsing", "Semantic processing")))[-4000:]


def tlc(module, env=None, workers=None, timeout=800, scratch=None, heap="6g", config=None, args=()):
    classes = compile_java()
    meta = tempfile.mkdtemp(prefix="mvtlc", dir=scratch)
    cfg = config or os.path.join(SPEC, module + ".cfg")
    if not os.path.exists(cfg):
        cfg = os.path.join(meta, "empty.cfg")
        open(cfg, "w").close()
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m",
           "-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:mimosaverif.Overrides",
           "-DTLA-Library=" + SPEC, "-Djava.io.tmpdir=" + meta, "-cp", classes + ":" + JARS, "tlc2.TLC", "-metadir",
           os.path.join(meta, "meta"), "-nowarning", "-noGenerateSpecTE", "-workers", str(workers or CORES),
           "-config", cfg] + list(args) + [os.path.join(SPEC, module + ".tla")]
    full = dict(os.environ)
    full.update({k: str(v) for k, v in (env or {}).items()})
    t0 = time.time()
    try:
        r = subprocess.run(cmd, env=full, cwd=meta, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True, timeout=timeout)
        return TlcResult(r.returncode, r.stdout, time.time() - t0)
    finally:
        shutil.rmtree(meta, ignore_errors=True)


def tlc_ok(module, **kw):
    """A TLC run that has to succeed whatever the code under test does."""
    r = tlc(module, **kw)
    if not r.ok:
        raise SpecError(f"TLC failed on {module}:\n{r.tail()}")
    return r


def write_json(path, value):
    with open(path, "w") as fh:
        json.dump(value, fh)
        fh.write("\n")


def read_json(path):
    with open(path) as fh:
        return json.load(fh)


class Check:
    """One run of the check of one property: collects violations, writes the evidence."""

    def __init__(self, pid, tier, level):
        self.pid, self.tier, self.level = pid, tier, level
        self.t0 = time.time()
        self.violations = []
        self.known = []
        self.scratch = tempfile.mkdtemp(prefix=f"mv-{pid}-")
        self.coverage = {}
        self.findings = load_findings(pid)

    def violation(self, what, data=None, key=None):
        """Record a violation; `key` identifies it for the known-findings file."""
        for f in self.findings:
            if key is not None and f.get("key") == key:
                if f not in self.known:
                    self.known.append(f)
                return
        self.violations.append({"what": what, "key": key, "data": data})

    def finish(self):
        os.makedirs(EVIDENCE, exist_ok=True)
        replay_dir = os.path.join(EVIDENCE, "replay")
        evidence = {"property": self.pid, "tier": self.tier, "seed": SEED, "level": self.level,
                    "coverage": self.coverage, "wall_s": round(time.time() - self.t0, 2)}
        rc = 0
        for f in self.known:
            print(f"KNOWN-FINDING: property={self.pid} {f['what']}")
        if self.violations:
            os.makedirs(replay_dir, exist_ok=True)
            path = os.path.join(replay_dir, f"{self.pid}.json")
            write_json(path, {"property": self.pid, "seed": SEED, "tier": self.tier,
                              "violations": self.violations[:50]})
            for v in self.violations[:20]:
                print(f"  {v['what']}"[:400])
            print(f"VIOLATION property={self.pid} replay={path}")
            rc = 1
        evidence["violations"] = len(self.violations)
        write_json(os.path.join(EVIDENCE, f"{self.pid}.json"), evidence)
        shutil.rmtree(self.scratch, ignore_errors=True)
        print(f"{self.pid} {self.tier}: {'violated' if rc else 'ok'} "
              f"({json.dumps({k: v for k, v in self.coverage.items() if not isinstance(v, (list, dict))})[:300]}, "
              f"{evidence['wall_s']} s)")
        return rc


def load_findings(pid):
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    return [f for f in read_json(path).get("open", []) if f["property"] == pid]
