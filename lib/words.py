"""The word pipeline (C01, C02, C03, C14 and the number formats of C11):
inputs from spec/WordGen.tla, executions of the real TaggedPointer/TaggedBox by
harness/words at every width and in both profiles, judged by
spec/PointerTrace.tla."""
import json
import os

from common import *

WIDTHS = list(range(48, 64))
ALIGNS_BOX = {"quick": (0, 3, 6, 12), "thorough": tuple(range(13))}


def num(b):
    return sum(1 << x for x in b)


def generate(work, dense):
    out = os.path.join(work, "gen.json")
    r = tlc("WordGen", env={"OUT": out, "DENSE": "1" if dense else "0"})
    if not r.ok() or not os.path.exists(out):
        raise ToolError("WordGen: " + r.out[-1500:])
    with open(out) as f:
        return {c["w"]: c for c in json.load(f)}


def case_lines(c, kinds):
    L = []
    if "new" in kinds:
        L += ["new %x %x" % (num(p), num(t)) for p, t in c["pairs"]]
    if "raw" in kinds:
        L += ["raw %x" % num(x) for x in c["raws"]]
    if "dang" in kinds:
        L += ["dang %d %x" % (k, num(t)) for k, t in c["dangs"]]
    if "box" in kinds:
        L += ["box %d %x" % (k, num(t)) for t in c["boxtags"] for k in ALIGNS_BOX[TIER]]
    if "cmp" in kinds:
        L += ["cmp %x %x" % (num(a), num(b)) for a, b in c["cmps"]]
    if "fmt" in kinds:
        L += ["fmt %x" % num(x) for x in c["fmts"]]
    return L


def build(width, profile):
    """One target directory per width: the two profiles share nothing anyway."""
    return cargo_build(os.path.join(ROOT, "harness", "words"), build_dir("words-%s" % width), profile,
                       width, bin="words")


def execute(work, rep, kinds, widths=WIDTHS, profiles=("debug", "release"), dense=False, extra=None):
    """Runs everything and returns the list of judged violations
    [(aspect, text, replay)]."""
    gen = generate(work, dense)
    jobs = [(w, p) for w in widths for p in profiles]
    res = []

    def one(job):
        w, p = job
        setting = "%dbits" % w
        try:
            exe = build(setting, p)
        except BuildFailed as b:
            return job, b, None
        lines = case_lines(gen[w], kinds)
        cases = os.path.join(work, "cases-%d" % w)
        if p == profiles[0]:
            with open(cases, "w") as f:
                f.write("\n".join(lines) + "\n")
        else:
            cases += "-" + p
            with open(cases, "w") as f:
                f.write("\n".join(lines) + "\n")
        trace = os.path.join(work, "trace-%d-%s" % (w, p))
        rc, out, err = run([exe, cases, trace, setting], env=env_for(), timeout=300)
        return job, rc, err

    traces = []
    calls = 0
    for job, rc, err in parallel(one, jobs):
        name = "width %d, %s" % job
        if isinstance(rc, BuildFailed):
            ok, e = repo_builds()
            if not ok:
                raise ToolError("/repo does not build: " + e[-1500:])
            res.append(("build", "%s: a program using the public interface does not compile: %s" % (name, rc.errors()), rc.err[-3000:]))
            continue
        trace = os.path.join(work, "trace-%d-%s" % job)
        lines = [l for l in open(trace).read().split("\n") if l]
        if rc != 0:
            # the trace up to the last complete line tells where
            res.append(("crash", "%s: the process died (status %s) after %d recorded calls: %s" % (name, rc, len(lines), err[-200:]), err[-2000:]))
            good = []
            for l in lines:
                try:
                    json.loads(l)
                    good.append(l)
                except ValueError:
                    break
            lines = good
        if extra:
            lines += extra.get(job, [])
        calls += len(lines)
        traces.append((name, lines))

    # a few processes of TLC, each judging several widths
    n = min(CORES, len(traces))
    groups = [traces[i::n] for i in range(n)] if n else []

    def judge(g):
        i, group = g
        path = os.path.join(work, "judge-%d.ndjson" % i)
        where = []
        with open(path, "w") as f:
            for name, lines in group:
                for l in lines:
                    f.write(l + "\n")
                    where.append((name, l))
        r = tlc("PointerTrace", env={"TRACE": path})
        if not r.ok():
            raise ToolError("PointerTrace: " + r.out[-3000:])
        return r, [(v[0], "%s: %s" % (where[v[1] - 1][0], json.dumps(v[2])), where[v[1] - 1][1]) for v in r.printed("VIOL")]

    for r, v in parallel(judge, enumerate(groups)):
        rep.add_tlc(r)
        res += v
    rep.traces += len(traces)
    rep.cov["calls_judged"] = rep.cov.get("calls_judged", 0) + calls
    rep.cov["widths"] = len(set(j[0] for j in jobs))
    for name, lines in traces[:1]:
        for l in lines[2:2 + 1500:700]:
            rep.samples.append({"run": name, "call": json.loads(l)})
    log("%d traces, %d calls judged" % (len(traces), calls))
    return res
