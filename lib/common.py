"""Shared plumbing of the checks: running tools, building harnesses against
/repo's working tree, running TLC, and reporting."""
import concurrent.futures as cf
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
SPEC = os.path.join(ROOT, "spec")
TARGET = os.path.join(ROOT, "target")
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
CORES = os.cpu_count() or 4
START = time.time()
# a check is given 900 s by its caller; thorough runs have no such limit
DEADLINE = START + (840 if TIER == "quick" else 6 * 3600)
JAVA = ["java", "-XX:+UseSerialGC", "-XX:TieredStopAtLevel=4", "-Xss16m",
        "-cp", "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"]


class ToolError(Exception):
    """The check itself could not be carried out: exit 2, never a verdict."""


def log(*a):
    print("[%6.1fs]" % (time.time() - START), *a, flush=True)


def env_for(width=None, **more):
    e = dict(os.environ)
    for k in list(e):
        if k.startswith("CARGO_") or k in ("RUSTC_WRAPPER", "RUSTFLAGS", "TAGGED_BOX_RESERVED_WIDTH",
                                            "JAVA_TOOL_OPTIONS", "RUST_BACKTRACE"):
            if k != "CARGO_HOME":
                del e[k]
    e["PATH"] = "/usr/local/bin:/usr/bin:/bin:/usr/local/sbin:/usr/sbin:/sbin:" + e.get("PATH", "") + ":/root/.cargo/bin"
    e.update(RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never",
             RUSTFLAGS="-A semicolon_in_expressions_from_macros --cap-lints=warn -A warnings", RUST_BACKTRACE="0")
    if width is not None:
        e["TAGGED_BOX_RESERVED_WIDTH"] = width
    e.update(more)
    return e


def run(cmd, timeout=600, cwd=None, env=None, inp=None, hang=False):
    """-> (returncode, stdout, stderr); a timeout raises ToolError, or is a
    result (status -99) where a hang says something about the code."""
    left = DEADLINE - time.time()
    if left <= 1:
        raise ToolError("out of time before %s" % cmd[0])
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env, input=inp, stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, timeout=min(timeout, left))
    except subprocess.TimeoutExpired:
        if hang and timeout < left:
            return -99, "", "did not come to an end within %d s" % timeout
        raise ToolError("timeout: %s" % " ".join(map(str, cmd))[:300])
    return p.returncode, p.stdout.decode("utf-8", "replace"), p.stderr.decode("utf-8", "replace")


def parallel(fn, items, workers=None):
    items = list(items)
    with cf.ThreadPoolExecutor(workers or CORES) as ex:
        return list(ex.map(fn, items))


_hash = None


def tree_hash():
    """Of everything in /repo that can influence what is built."""
    global _hash
    if _hash is None:
        h = hashlib.sha256()
        for base, dirs, files in os.walk(REPO):
            dirs[:] = sorted(d for d in dirs if d not in (".git", "target"))
            for f in sorted(files):
                p = os.path.join(base, f)
                if os.path.islink(p) or not os.path.isfile(p):
                    continue
                h.update(os.path.relpath(p, REPO).encode() + b"\0")
                with open(p, "rb") as fh:
                    h.update(fh.read())
        _hash = h.hexdigest()[:16]
    return _hash


def build_dir(name):
    """Build output for the current contents of /repo; nothing is ever reused
    across different contents. Old ones are removed."""
    base = os.path.join(TARGET, "build")
    mine = os.path.join(base, tree_hash())
    if os.path.isdir(base):
        for d in os.listdir(base):
            if d != tree_hash():
                shutil.rmtree(os.path.join(base, d), ignore_errors=True)
    p = os.path.join(mine, name)
    os.makedirs(p, exist_ok=True)
    return p


def work_dir(name):
    p = os.path.join(TARGET, "work", name)
    shutil.rmtree(p, ignore_errors=True)
    os.makedirs(p)
    return p


def repo_builds():
    """Does /repo itself build with the default setting? (Decides whether a
    harness that does not compile says something about the property.)"""
    d = build_dir("repo")
    rc, out, err = run(["cargo", "build", "--offline", "--manifest-path", os.path.join(REPO, "Cargo.toml"),
                        "--target-dir", d], env=env_for())
    return rc == 0, err


class BuildFailed(Exception):
    def __init__(self, what, err):
        Exception.__init__(self, what)
        self.what, self.err = what, err

    def errors(self):
        e = [l for l in self.err.splitlines() if re.match(r"^(error|thread '.*panicked)", l)]
        return "; ".join(e[:4]) or self.err.strip()[-300:]


def cargo_build(crate, target, profile="debug", width=None, bin=None, timeout=600):
    """Builds the crate and returns the path of its binary."""
    cmd = ["cargo", "build", "--offline", "--quiet", "--manifest-path", os.path.join(crate, "Cargo.toml"),
           "--target-dir", target]
    if profile == "release":
        cmd.append("--release")
    rc, out, err = run(cmd, env=env_for(width), timeout=timeout)
    if rc != 0:
        raise BuildFailed("%s (%s, width setting %s)" % (os.path.basename(crate), profile, width), err)
    return os.path.join(target, profile, bin or os.path.basename(crate))


# ---------------------------------------------------------------------------
# TLC


class Tlc:
    def __init__(self, module, rc, out):
        self.module, self.rc, self.out = module, rc, out
        m = None
        for m in re.finditer(r"([\d,]+) states generated.*?, ([\d,]+) distinct states found", out):
            pass  # the last one is the total
        self.transitions = int(m.group(1).replace(",", "")) if m else 0
        self.states = int(m.group(2).replace(",", "")) if m else 0
        m = re.search(r"The depth of the complete state graph search is (\d+)", out)
        self.depth = int(m.group(1)) if m else 0

    def ok(self):
        return self.rc == 0

    def printed(self, tag):
        """JSON payloads of the lines printed as "TAG {...}"."""
        res = []
        for line in self.out.splitlines():
            if line.startswith('"' + tag + " "):
                s = json.loads(line)  # TLC escapes like JSON
                res.append(json.loads(s[len(tag) + 1:]))
            elif line.startswith(tag + " "):
                res.append(json.loads(line[len(tag) + 1:]))
        return res


def tlc(module, cfg=None, workers=1, env=None, timeout=800, heap="3g", extra=(), cwd=SPEC):
    md = os.path.join(TARGET, "tlc", "%s-%d-%d" % (module, os.getpid(), time.time_ns()))
    os.makedirs(md)
    tmp = os.path.join(md, "tmp")
    os.makedirs(tmp)
    e = env_for()
    e.update(env or {})
    java = list(JAVA)
    if workers > 1:
        java[1] = "-XX:+UseParallelGC"
    cmd = java[:1] + ["-Xmx" + heap, "-Djava.io.tmpdir=" + tmp] + java[1:] + [
        "tlc2.TLC", "-workers", str(workers), "-metadir", md, "-noGenerateSpecTE",
        "-config", (cfg or module) + ".cfg"] + list(extra) + [module + ".tla"]
    try:
        rc, out, err = run(cmd, cwd=cwd, env=e, timeout=timeout)
    finally:
        shutil.rmtree(md, ignore_errors=True)
    return Tlc(module, rc, out + err)


def design(module, cfg=None, workers=4, **kw):
    """An exhaustive design check that has to pass: the specification is ours,
    so a failure is an error of the check and not a verdict on the code."""
    r = tlc(module, cfg, workers=workers, **kw)
    if not r.ok():
        raise ToolError("design model %s/%s fails:\n%s" % (module, cfg or module, r.out[-3000:]))
    log("design %s: %d states, %d transitions, depth %d" % (cfg or module, r.states, r.transitions, r.depth))
    return r


def apalache(module, inv, length=0, timeout=300, init=None, next_=None):
    out = os.path.join(TARGET, "apalache", "%s-%s-%d" % (module, inv, time.time_ns()))
    os.makedirs(out)
    cmd = ["apalache-mc", "check", "--length=%d" % length, "--inv=" + inv, "--out-dir=" + out]
    if init:
        cmd.append("--init=" + init)
    if next_:
        cmd.append("--next=" + next_)
    cmd.append(module + ".tla")
    try:
        rc, o, e = run(cmd, cwd=SPEC, env=env_for(JVM_ARGS="-Xmx3g"), timeout=timeout)
    finally:
        shutil.rmtree(out, ignore_errors=True)
    if rc != 0 or "The outcome is: NoError" not in o:
        raise ToolError("apalache %s %s: %s" % (module, inv, (o + e)[-2000:]))
    log("proved %s (%s) with Apalache" % (inv, module))


# ---------------------------------------------------------------------------
# Verdicts


class Report:
    def __init__(self, prop, level):
        self.prop, self.level = prop, level
        self.violations = []      # (what, replay contents)
        self.known = []           # text of the known findings met
        self.states = self.transitions = 0
        self.traces = 0
        self.samples = []
        self.cov = {}
        self.assumptions = []
        self.findings = load_findings(prop)

    def add_tlc(self, r):
        self.states += r.states
        self.transitions += r.transitions

    def violation(self, what, replay):
        for f in self.findings:
            if f["match"] and re.search(f["match"], what):
                f["seen"] = f.get("seen", 0) + 1
                return
        self.violations.append((what, replay))

    def finish(self):
        replay = None
        if self.violations:
            d = os.path.join(TARGET, "replay")
            os.makedirs(d, exist_ok=True)
            replay = os.path.join(d, self.prop + ".txt")
            with open(replay, "w") as f:
                for what, r in self.violations[:40]:
                    f.write("## %s\n%s\n\n" % (what, r))
            for what, _ in self.violations[:12]:
                log("violated:", what[:600])
            log("%d violations in all" % len(self.violations))
        cov = dict(states=self.states, transitions=self.transitions,
                   traces_validated_against_impl=self.traces, samples=self.samples[:5])
        cov.update(self.cov)
        ev = dict(property=self.prop, tier=TIER, seed=SEED, level=self.level, coverage=cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - START, 1),
                  violations=len(self.violations))
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        # a listed finding is announced on every run, met or not
        for f in self.findings:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, f["what"]))
        if replay:
            print("VIOLATION property=%s replay=%s" % (self.prop, replay))
            return 1
        log("property %s held on everything explored: %s" % (self.prop, json.dumps({k: v for k, v in cov.items() if k != "samples"})[:600]))
        return 0


def load_findings(prop):
    """known_findings.txt: `known: property=<id> match=/<regexp>/ <what fails>`;
    `fixed:` lines suppress nothing."""
    res = []
    p = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) match=/(.*?)/ (.*)", line)
            if m and m.group(1) == prop:
                res.append(dict(match=m.group(2), what=m.group(3).strip()))
    return res
