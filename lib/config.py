"""C03: build directories that live through changes of the setting. The walks
come from spec/Config.tla; every build's program reports its constants, which
PointerTrace judges against the setting in force."""
import os

from common import *


ENV = {"unset": None, "@nonutf8": "\udcff\udcfe48bits"}


def walks(work, rep):
    n = 7 if TIER == "quick" else 40
    r = tlc("ConfigMC", "ConfigGen", extra=["-simulate", "num=%d" % (n + 2), "-depth", "40", "-seed", str(SEED)])
    ws = []
    for w in r.printed("WALK"):
        if w not in ws:
            ws.append(w)
    ws = ws[:n]
    if len(ws) < n // 2:
        raise ToolError("no walks: " + r.out[-1000:])
    # the settings the property is about always occur: default after a width, width after default
    ws.append(["unset", "48bits", "unset", "60bits", "bogus"])
    # every value that is no setting, each after one that is
    odd = sorted(r.printed("ODD")[0])
    ws += [["48bits" if i % 4 == 0 else "63bits"] + odd[i::4] for i in range(4)]
    empty = os.path.join(work, "empty")
    open(empty, "w").close()
    crate = os.path.join(ROOT, "harness", "words")
    res = []

    def one(iw):
        i, w = iw
        out = []
        for j, s in enumerate(w):
            profile = "debug" if i % 2 == 0 else "release"
            name = "walk %s, build %d (%s, %s)" % (w, j, s, profile)
            try:
                exe = cargo_build(crate, os.path.join(work, "walk-%d" % i), profile, ENV.get(s, s), bin="words")
            except BuildFailed as b:
                out.append((name, None, b))
                continue
            trace = os.path.join(work, "wt-%d-%d" % (i, j))
            rc, o, e = run([exe, empty, trace, s], env=env_for(), timeout=60)
            out.append((name, open(trace).read().split("\n") if rc == 0 else None, e))
        return out

    path = os.path.join(work, "config.ndjson")
    where = []
    with open(path, "w") as f:
        for seq in parallel(one, enumerate(ws)):
            for name, lines, err in seq:
                if lines is None:
                    if isinstance(err, BuildFailed):
                        if not repo_builds()[0]:
                            raise ToolError("/repo does not build")
                        res.append(("build", "%s: %s" % (name, err.errors()), err.err[-2000:]))
                    else:
                        res.append(("crash", name, err))
                    continue
                for l in lines:
                    if l:
                        f.write(l + "\n")
                        where.append((name, l))
    r = tlc("PointerTrace", env={"TRACE": path})
    if not r.ok():
        raise ToolError("PointerTrace: " + r.out[-2000:])
    rep.add_tlc(r)
    rep.traces += len(ws)
    rep.cov["build_histories"] = len(ws)
    rep.samples.append({"build history": ws[0]})
    for v in r.printed("VIOL"):
        res.append((v[0], "%s: %s" % (where[v[1] - 1][0], v[2]), where[v[1] - 1][1]))
    return res
