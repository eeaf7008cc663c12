"""The properties decided on histories of whole values (C04 to C13, and what
C03 says about macro-made enums): which histories are run, in which builds, and
which mismatches with the specification concern which property."""
import os
import random

from common import *
import families as fm
import hist
import sweeps

PAY = {"paynew", "payref", "poke", "payinner", "intoraw", "fromraw", "intostd", "stdread", "stdnew", "stdraw", "rawstd", "relocate"}
CONV = {"make", "tobox", "tocont", "contpay", "frombox", "continner", "wrap", "unwrap", "move"}
CLONE = {"clone", "clonefrom", "copy"}
VIEWS = {"view", "view2", "vpoke", "vin", "viewd"}
RAWS = {"raw", "bigraw", "sizesr"}
FAULTS = {"fview", "fview2", "fclone", "fclonefrom", "fcmp", "ffmt", "fwrite"}


def strip(op):
    """-> (operation, is it one that is made to fail)"""
    if op.startswith("falloc") and op != "falloc":
        return op[6:], True
    if op in FAULTS:
        return op[1:] if op != "fwrite" else "fmt", True
    if op in ("hview", "hclone", "hcmp", "hfmt", "hconv"):
        return op[1:] if op != "hconv" else "tobox", False
    return op, False


def concerns(aspect, op, raw):
    """The properties a mismatch is a violation of."""
    if aspect == "lost":
        return {"C13"}
    if aspect == "refuse":
        return {"C02"}
    if aspect == "bad":
        return {"C05"}
    base, faulty = strip(op)
    P = set()
    if faulty:
        P.add("C12")
    if aspect == "leak":
        return P | {"C08"}
    if base == "cmp":
        P.add("C10")
    elif base == "fmt":
        P.add("C11")
    elif base in VIEWS:
        P.add("C13")
    elif base in CLONE:
        P.add("C09")
    elif base in PAY or raw:
        P.add("C06")
    elif base in CONV:
        P.add("C04")
    if aspect == "tag" and not raw:
        P.add("C05")
    if aspect in ("twice", "early", "layout", "storage", "objects", "object"):
        P.add("C07")
    if aspect in ("addr", "pay", "layout"):
        P.add("C06")
    if aspect == "frame":
        P.add("C09")
    if aspect in ("seen", "object"):
        P.add("C13")
        if not raw:
            P.add("C04")
    if base == "drop" and aspect in ("result", "kind"):
        P.add("C07")
    return P


def text(aspect, op, what, name, fam, case):
    if aspect == "leak":
        res, kind, parts = what
        return "leak: %s %s %s leaves %s [%s, family %s, case %s]" % (op, kind, res, "+".join(parts), name, fam, case)
    return "%s: %s: %s [%s, family %s, case %s]" % (aspect, op, json.dumps(what), name, fam, case)


# ---------------------------------------------------------------------------
# What is run


SWEEPS = {
    "C04": lambda s, k: s.multitudes(int(2 * k)) + s.paths(int(5 * k)) + s.crowds(int(12 * k)) + s.marathons("conv"),
    "C05": lambda s, k: s.foreign() + s.paths(int(2 * k) or 1) + s.clones(1),
    "C06": lambda s, k: s.multitudes(int(2 * k)) + s.payloads(int(4 * k) or 1) + s.neighbours(int(12 * k)),
    "C07": lambda s, k: s.multitudes(int(2 * k)) + s.paths(int(2 * k) or 1) + s.payloads(int(2 * k) or 1) + s.clones(int(2 * k) or 1) + s.crowds(int(8 * k)) + s.views(1) + s.marathons("clone", 2) + s.marathons("conv", 2),
    "C08": lambda s, k: s.multitudes(int(2 * k)) + s.paths(int(2 * k) or 1) + s.payloads(int(2 * k) or 1) + s.clones(1) + s.crowds(int(8 * k)) + s.faults(1),
    "C09": lambda s, k: s.multitudes(int(2 * k)) + s.clones(int(5 * k) or 1) + s.neighbours(int(10 * k)) + s.marathons("clone"),
    "C10": lambda s, k: s.pairs(int(9 * k)) + s.marathons("cmp"),
    "C11": lambda s, k: s.formats(int(3 * k) or 1) + s.marathons("fmt"),
    "C12": lambda s, k: s.faults(int(2 * k) or 1),
    "C13": lambda s, k: s.multitudes(int(2 * k)) + s.views(int(4 * k) or 1) + s.marathons("view"),
    "C03": lambda s, k: s.paths(1) + s.crowds(int(4 * k)),
}

# which families have something to say about a property
NEEDS = {"C09": {"clone", "copy"}, "C10": {"cmp"}, "C11": {"fmt"}}


class Config:
    def __init__(self, name, fams, width, profile, cover=1.0, k=1.0, walks=1.0):
        self.name, self.fams, self.width, self.profile = name, fams, width, profile
        self.cover, self.k, self.walks = cover, k, walks


def configs(prop):
    """The builds: the default setting in both profiles, the widest tags, and
    the narrowest."""
    thorough = TIER != "quick"
    fixed = fm.fixed()
    rng = random.Random(SEED * 1000 + 17)
    C = [Config("default, debug", fixed, 60, "debug", 1.0 if thorough else 0.5),
         Config("default, release", [f for f in fixed if f["name"] in ("mixed", "bare", "copy", "part", "heap", "layout", "same", "raw", "cells", "arity1", "hand", "whole", "manual")],
                60, "release", 1.0 if thorough else 0.12, 1.0 if thorough else 0.5, 0.5),
         Config("random families, debug", [fm.rnd(rng, i) for i in range(8 if thorough else 2)], 60, "debug", 0.5 if thorough else 0.1, 0.5, 0.3),
         Config("63 bits, debug", fm.narrow(63), 63, "debug", 0.5 if thorough else 0.1, 1.0, 0.3),
         Config("62 bits, release", fm.narrow(62), 62, "release", 0.5 if thorough else 0.1, 1.0, 0.3),
         Config("48 bits, release", [f for f in fixed if f["name"] in ("mixed", "raw", "same", "copy")] + [fm.wide(300)],
                48, "release", 0.3 if thorough else 0.05, 0.5, 0.3),
         Config("big payloads, release", fm.big(), 60, "release", 0.3 if thorough else 0.03, 0.3, 0.1),
         Config("55 bits, all sizes, " + ("debug" if int(prop[1:]) % 2 else "release"), fm.sizes(), 55, "debug" if int(prop[1:]) % 2 else "release",
                0.1 if thorough else 0.01, 0.2, 0.1)]
    if prop in ("C04", "C05") and not thorough:
        C.append(Config("56 bits, debug", [fm.wide(256)], 56, "debug", 0.2, 1.0, 0.3))
    if thorough:
        for w, n in ((49, 1100), (50, 300), (51, 300), (52, 300), (53, 300), (54, 300), (55, 300), (56, 256), (57, 128), (58, 64), (59, 32), (61, 8)):
            fams = ([f for f in fixed if f["name"] in ("mixed", "raw", "copy")] if w < 61 else fm.narrow(w)) + ([fm.wide(n)] if n >= 32 else [])
            C.append(Config("%d bits" % w, fams, w, "debug" if w % 2 else "release", 0.3, 1.0, 0.5))
        C.append(Config("random families, release", [fm.rnd(rng, 100 + i) for i in range(8)], 57, "release", 0.5, 1.0, 0.5))
    for c in C:
        c.fams = [f for f in c.fams if not prop in NEEDS or NEEDS[prop] & fm.caps(f)]
    return [c for c in C if c.fams]


def settings():
    """C03: macro-made enums under every setting, with as many variants as fit."""
    fixed = {f["name"]: f for f in fm.fixed()}
    C = []
    for w in range(48, 64):
        room = 1 << (64 - w)
        fams = fm.narrow(w) if w >= 61 else [fixed["mixed"], fixed["copy"], fixed["raw"]] + ([fm.wide(min(300, room))] if room >= 32 else [])
        for p in ("debug", "release") if TIER != "quick" else (("release", "debug")[w % 2],):
            C.append(Config("%d bits, %s" % (w, p), fams, w, p, 0.3 if TIER != "quick" else 0.03, 1.0, 0.5 if TIER != "quick" else 0.1))
    return C


def under_every_setting(rep, work):
    found, crashes, failures, _ = run_histories("C03", rep, work, settings(), 12 if TIER == "quick" else 60)
    for cfg, b in failures:
        rep.violation("build: enums of the supported kinds do not compile: %s: %s" % (cfg.name, b.errors()), b.err[-4000:])
    for cfg, fam, op, why, replay in crashes:
        if strip(op[0])[0] in CONV:
            rep.violation("crash: %s: the process died (%s) [%s, family %s]" % (" ".join(op), why, cfg.name, fam), replay)
    for aspect, op, what, name, fam, case, replay in found:
        if strip(op)[0] in CONV and aspect in ("result", "kind", "value", "tag", "object", "seen", "addr"):
            rep.violation(text(aspect, op, what, name, fam, case), "%s\n%s" % (name, replay()))


def cases(prop, cfg, D, graphs, rng):
    res = []
    for f in cfg.fams:
        c = hist.Concretizer(f, D[f["name"]], cfg.width, rng)
        E, W = graphs[c.graph()]
        n = 0
        if cfg.cover > 0:
            ws = hist.cover(c.edges(E), rng)
            if cfg.cover < 1:
                rng.shuffle(ws)
                ws = ws[:max(2, int(len(ws) * cfg.cover))]
            for i, w in enumerate(ws):
                res.append((f["name"], "edges%d" % i, c.concrete(w)))
            W2 = [w for w in W if rng.random() < cfg.walks]
            for i, w in enumerate(W2):
                res.append((f["name"], "walk%d" % i, c.concrete(w)))
        s = sweeps.Sweeper(c, rng, TIER != "quick")
        S = SWEEPS[prop](s, cfg.k)
        # short scenarios share a case
        for i, L in enumerate(S):
            res.append((f["name"], "sweep%d" % i, L))
    return res


def run_histories(prop, rep, work, cfgs, walks):
    """-> found mismatches, crashes, build failures, and per configuration what
    is needed to run more"""
    jobs = {}

    def build(cfg):
        try:
            exe = hist.build(work, cfg.name.replace(" ", "").replace(",", "-"), cfg.fams, cfg.width, cfg.profile)
            return exe, hist.decls(exe)
        except BuildFailed as b:
            return b, None

    parts = parallel(lambda j: j(), [lambda: hist.graphs(walks=walks)] + [lambda c=c: build(c) for c in cfgs])
    graphs, built = parts[0], parts[1:]
    log("%d builds, graphs %s" % (len(cfgs), {n: (len(a), len(b)) for n, (a, b) in graphs.items()}))
    failures = []
    todo = []
    for i, (cfg, (exe, D)) in enumerate(zip(cfgs, built)):
        if isinstance(exe, BuildFailed):
            ok, e = repo_builds()
            if not ok:
                raise ToolError("/repo does not build: " + e[-1500:])
            failures.append((cfg, exe))
            continue
        rng = random.Random(SEED * 7919 + i)
        todo.append((cfg, exe, cases(prop, cfg, D, graphs, rng)))

    # the cases of a build are spread over processes
    chunks = []
    for i, (cfg, exe, cs) in enumerate(todo):
        n = max(1, min(CORES, len(cs) // 60))
        for j in range(n):
            chunks.append((cfg, exe, "run-%d-%d" % (i, j), cs[j::n]))

    def go(ch):
        cfg, exe, name, cs = ch
        lines, crashes = hist.execute(work, name, exe, cs)
        return (cfg.name, cfg.width, lines), [(cfg,) + c for c in crashes]

    runs, crashes = [], []
    for r, c in parallel(go, chunks):
        runs.append(r)
        crashes += c
    ops = sum(len(r[2]) for r in runs)
    log("%d histories, %d operations executed" % (sum(len(c[2]) for c in todo), ops))
    rep.traces += sum(len(c[2]) for c in todo)
    rep.cov["operations_judged"] = rep.cov.get("operations_judged", 0) + ops
    rep.cov["builds"] = [c.name for c in cfgs]
    rep.cov["enums"] = sum(len(c.fams) for c in cfgs)
    for _, _, cs in todo[:2]:
        for c in cs[:1] + cs[-1:]:
            rep.samples.append({"family": c[0], "history": c[2][:14]})
    found = hist.judge(work, runs, rep)
    log("judged: %d mismatches, %d crashes, %d misfits" % (len(found), len(crashes), len(hist.MISFITS)))
    return found, crashes, failures, {cfg.name: (cfg, exe, {(c[0], c[1]): c[2] for c in cs}) for cfg, exe, cs in todo}


def check(prop, rep, models, extra=None):
    """models: [(design configuration, [bugs it has to notice])]"""
    work = work_dir(prop)
    cfgs = configs(prop)
    out = beside(lambda: run_histories(prop, rep, work, cfgs, 12 if TIER == "quick" else 150),
                 lambda: design_models(rep, work, models),
                 *([extra] if extra else []))
    found, crashes, failures, built = out[0]
    report(prop, rep, found, crashes, failures)
    if prop == "C12":
        afterwards(rep, work, found, built)


def beside(*fns):
    return parallel(lambda f: f(), fns, len(fns))


def report(prop, rep, found, crashes, failures):
    for cfg, b in failures:
        rep.violation("build: enums of the supported kinds do not compile: %s: %s" % (cfg.name, b.errors()), b.err[-4000:])
    for cfg, fam, op, why, replay in crashes:
        raw = fam in RAWS
        P = ({"C07"} if op[0] != "falloc" else {"C12"}) | concerns("result", ("falloc" + op[2]) if op[0] == "falloc" else op[0], raw)
        if prop in P:
            rep.violation("crash: %s: the process died (%s) [%s, family %s]" % (" ".join(op), why, cfg.name, fam), replay)
    for aspect, op, what, name, fam, case, replay in found:
        if prop in concerns(aspect, op, fam in RAWS):
            rep.violation(text(aspect, op, what, name, fam, case), "%s\n%s" % (name, replay()))


def failing(line):
    w = line.split()
    while w[0] == "vin":
        w = w[2:]
    return w if w[0] in FAULTS or w[0] == "falloc" else None


def without(line):
    """The operation, or what is to be done if it is not made to fail."""
    w = failing(line)
    if w is None:
        return line
    # a refused store has used up its value
    return "drop " + w[3] if w[0] == "falloc" and w[2] in ("tobox", "tocont") else None


def afterwards(rep, work, found, built):
    """C12: what goes wrong after a failed operation, and does not when the
    failed operation is left out, is its doing."""
    groups = {}
    for aspect, op, what, name, fam, case, replay in found:
        if aspect in ("leak", "lost") or strip(op)[1]:
            continue
        lines = built[name][2].get((fam, case))
        if lines and any(failing(l) for l in lines):
            groups.setdefault((name, fam, case), []).append((aspect, op, what, replay))
    todo = list(groups)[:40]
    for name in {t[0] for t in todo}:
        cfg, exe, cs = built[name]
        twins = []
        for n, fam, case in todo:
            if n == name:
                keep = [without(l) for l in cs[(fam, case)]]
                twins.append((fam, case, [l for l in keep if l]))
        lines, crashes = hist.execute(work, "twins", exe, twins)
        again = {(f[4], f[5], f[0], f[1]) for f in hist.judge(work, [(name, cfg.width, lines)], rep)}
        for n, fam, case in todo:
            if n != name:
                continue
            for aspect, op, what, replay in groups[(n, fam, case)]:
                if (fam, case, aspect, op) not in again:
                    rep.violation("after a failed operation: " + text(aspect, op, what, name, fam, case), "%s\n%s" % (name, replay()))


def mutant(work, cfg, bug):
    """The design model with a fault built in has to be rejected."""
    with open(os.path.join(SPEC, cfg + ".cfg")) as f:
        s = f.read()
    assert 'Bug = "none"' in s
    path = os.path.join(work, cfg + "-" + bug)
    with open(path + ".cfg", "w") as f:
        f.write(s.replace('Bug = "none"', 'Bug = "%s"' % bug))
    r = tlc("TaggedBoxMC", path)
    if r.ok() or not re.search(r"Invariant \w+ is violated|Action property|is violated", r.out):
        raise ToolError("%s does not notice the fault %s: %s" % (cfg, bug, r.out[-600:]))
    log("design %s rejects the fault %s" % (cfg, bug))
    return r


def design_models(rep, work, models):
    for cfg, bugs in models:
        rep.add_tlc(design("TaggedBoxMC", cfg, workers=4 if TIER == "quick" else 6))
        for b in bugs:
            mutant(work, cfg, b)
            rep.cov.setdefault("design_faults_noticed", []).append("%s/%s" % (cfg, b))
