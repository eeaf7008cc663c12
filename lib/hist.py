"""The history pipeline (C04 to C13): histories generated from
spec/TaggedBox.tla (every edge of its abstract state graph, and random walks),
executed on families of real enums by harness/hist, judged by
spec/HistTrace.tla."""
import json
import os
import random
import shutil

from common import *
import families as fm
import wide

GRAPHS = ("Bare", "Clone", "Copy", "Raw")
FAULTY = ("fview", "fview2", "fclone", "fclonefrom", "fcmp", "ffmt", "fwrite")
SELF = ("view", "fview", "view2", "fview2", "cmp", "fcmp", "fmt", "ffmt", "fwrite", "payref", "fclone", "fclonefrom", "fallocclonefrom",
        "fallocclone", "falloccontpay", "fallocpaynew", "paynewbad", "fromrawbad", "vpoke", "viewd")
# what can be done with a handle that is borrowed
READS = ("view", "view2", "viewd", "fview", "fview2", "cmp", "fcmp", "fmt", "ffmt", "fwrite", "clone", "fclone")


def faulty(op):
    return op in FAULTY or op.startswith("falloc")


# ---------------------------------------------------------------------------
# Abstract histories, from TLC


def graphs(names=GRAPHS, walks=0):
    """-> {name: (edges [(from, op, to)], walks [[op]])}"""
    def one(job):
        n, what = job
        if what == "edges":
            r = tlc("HistGen", "HistGen" + n, timeout=200)
            if not r.ok():
                raise ToolError("HistGen%s: %s" % (n, r.out[-1500:]))
            E = []
            for e in r.printed("EDGE"):
                E.append((json.dumps(e["f"]), tuple(e["o"]), json.dumps(e["t"])))
            return n, what, sorted(set(E)), r
        r = tlc("HistGen", "HistWalk" + n, timeout=300,
                extra=["-simulate", "num=%d" % walks, "-depth", "61", "-seed", str(SEED), "-aril", "0"])
        W = []
        for w in r.printed("WALK"):
            w = [tuple(o) for o in w[:-1]]
            if w not in W[-1:]:
                W.append(w)
        if not W:
            raise ToolError("HistWalk%s: %s" % (n, r.out[-1500:]))
        return n, what, W, r

    jobs = [(n, "edges") for n in names] + ([(n, "walks") for n in names] if walks else [])
    res = {n: [[], []] for n in names}
    for n, what, x, r in parallel(one, jobs):
        res[n][0 if what == "edges" else 1] = x
    return res


def cover(edges, rng, maxlen=50):
    """Walks from the initial state that together take every edge."""
    out = {}
    for f, o, t in edges:
        out.setdefault(f, []).append((o, t))
    starts = [f for f in out if all(x[0] == "none" for x in json.loads(f)[0].values())]
    if not starts:
        return []
    start = starts[0]
    left = {f: list(v) for f, v in out.items()}
    for v in left.values():
        rng.shuffle(v)
    remaining = sum(len(v) for v in left.values())
    walks, cur, walk = [], start, []
    # shortest way from every state to one with work left, recomputed when needed
    while remaining:
        if left.get(cur) and len(walk) < maxlen:
            o, t = left[cur].pop()
            remaining -= 1
            walk.append(o)
            cur = t
            continue
        path = None
        if len(walk) < maxlen:
            path = way(out, left, cur, maxlen - len(walk))
        if path is None:
            if walk:
                walks.append(walk)
            walk, cur = [], start
            if not left.get(start):
                path = way(out, left, start, maxlen)
                if path is None:
                    # what is left cannot be reached
                    break
                for o, t in path:
                    walk.append(o)
                    cur = t
        else:
            for o, t in path:
                walk.append(o)
                cur = t
    if walk:
        walks.append(walk)
    return walks


def way(out, left, cur, limit):
    seen = {cur: None}
    todo = [cur]
    for d in range(limit):
        nxt = []
        for x in todo:
            for o, t in out.get(x, ()):
                if t not in seen:
                    seen[t] = (x, o)
                    if left.get(t):
                        path = []
                        while seen[t] is not None:
                            x2, o2 = seen[t]
                            path.append((o2, t))
                            t = x2
                        return path[::-1]
                    nxt.append(t)
        todo = nxt
        if not todo:
            return None
    return None


# ---------------------------------------------------------------------------
# Concrete histories for a family


class Concretizer:
    def __init__(self, fam, decl, width, rng):
        self.f, self.decl, self.rng, self.width = fam, decl, rng, width
        self.maxtag = (1 << (64 - width)) - 1
        self.typemax = 255 if width >= 56 else 65535
        self.raw = fam["raw"]
        self.caps = fm.caps(fam)
        n = len(fam["variants"])
        self.n = n
        self.by = {"u": [], "s": [], "m": []}
        for i, v in enumerate(fam["variants"]):
            self.by["s" if fm.single(v) else "m" if v[1] else "u"].append(i)
        self.conv = [i for i, v in enumerate(fam["variants"]) if v[0] == "empty" or (v[0] == "tuple" and len(v[1]) <= 32)]
        self.known = set(fam["tags"])
        # the tags no variant has, the ends of their ranges foremost
        self.foreign = [] if self.raw else [t for t in range(self.maxtag + 1) if t not in self.known]
        self.edgetags = [t for t in self.foreign if t in (0, self.maxtag) or t - 1 in self.known or t + 1 in self.known]
        self.hasbad = bool(self.foreign)
        self.over = self.maxtag < self.typemax
        self.cmps = 10 if "Ord" in fam["derives"] else 7 if "PartialOrd" in fam["derives"] else 2
        self.specs = fm.nspecs(fam)
        # how often an operation is done from within a view
        self.nest = 0.1

    def graph(self):
        return "Raw" if self.raw else "Copy" if "copy" in self.caps else "Clone" if "clone" in self.caps else "Bare"

    def permitted(self, op, f=None):
        """Is this abstract operation one the family has?"""
        o = op[0]
        if o in ("cmp", "fcmp"):
            return "cmp" in self.caps
        if o in ("fmt", "ffmt", "fwrite"):
            return "fmt" in self.caps
        if len(op) > 2 and op[2] in self.by and not self.by[op[2]]:
            return False
        if o in ("fromrawbad", "paynewbad", "toboxbad"):
            return self.over
        if o == "mkbad":
            return self.hasbad
        return True

    def edges(self, edges):
        """The part of the graph the family can show."""
        res = []
        for f, o, t in edges:
            if not self.permitted(o):
                continue
            if any('"%s"]' % c in f or '"%s"]' % c in t for c in ("u", "s", "m") if not self.by[c]):
                continue
            if '"bad"' in f + t and not self.hasbad:
                continue
            res.append((f, o, t))
        return res

    def toks(self, v):
        return [self.rng.randrange(k) for k in self.decl[v]["toks"]]

    def heapy(self, v):
        return any(t in fm.OWNS for t in self.f["variants"][v][1])

    def trips(self, v):
        return sum(t.startswith("Trk") or t.startswith("Tz") for t in self.f["variants"][v][1])

    def tagof(self, v):
        """the tag a box of this variant's payload has to have"""
        return self.tag() if self.raw else self.f["tags"][v]

    def tag(self):
        m = self.maxtag
        return self.rng.choice([0, 1, m // 2, m, self.rng.randrange(m + 1)])

    def relocate(self, s, v):
        """A raw pointer to a value without a size may point anywhere."""
        if self.decl[v]["min"] > 0 or self.rng.random() < 0.3:
            return []
        top = (1 << min(47, self.width) - 1) - 1 >> self.decl[v]["al"]
        return ["relocate %d %d %d" % (s, v, self.rng.choice([1, 2, 3, 5, top, self.rng.randint(1, top), 1 << self.rng.randrange(top.bit_length())]))]

    def overtag(self):
        lo, hi = self.maxtag + 1, self.typemax
        return self.rng.choice([lo, hi, self.rng.randint(lo, hi), min(hi, lo + self.rng.randrange(8))])

    def concrete(self, walk, pick=None, every=()):
        """A list of operation lines. `pick(class, slot)` chooses the variant;
        `every`: operations of which all arguments are wanted. Some operations
        are done while a handle is borrowed."""
        rng = self.rng
        pick = pick or (lambda c, s: rng.choice(self.by[c]))
        var = {}   # slot -> variant (or -1)
        kind = {}
        L = []

        def inside(line):
            """the operation, perhaps from within a view"""
            if rng.random() >= self.nest:
                return line
            w = line.split()
            base = w[2] if w[0] == "falloc" else w[0]
            at = w[3:] if w[0] == "falloc" else w[1:]
            two = base in ("view2", "fview2", "cmp", "fcmp", "viewd", "move", "clone", "fclone", "clonefrom", "fclonefrom", "copy")
            used = {int(x) for x in at[:2 if two else 1]}
            if "copy" in self.caps and base not in READS + ("make", "contpay", "paynew", "stdnew"):
                return line
            hs = [h for h in var if kind.get(h) in ("box", "cont") and var[h] >= 0 and (h not in used or base in READS)]
            return "vin %d %s" % (rng.choice(hs), line) if hs else line

        for op in walk:
            o, s = op[0], op[1]
            if not self.permitted(op):
                if o in SELF:
                    continue
                return L
            t = op[2] if len(op) > 2 and isinstance(op[2], int) else None
            emit = lambda *a: L.append(inside(" ".join(map(str, a))))
            if o == "make":
                v = pick(op[2], s)
                emit("make", s, v, *self.toks(v))
                var[s], kind[s] = v, "val"
            elif o in ("contpay", "falloccontpay"):
                v = pick(op[2], s)
                if v not in self.conv:
                    c = [x for x in self.by[op[2]] if x in self.conv]
                    if c:
                        v = rng.choice(c)
                    elif o == "contpay":
                        emit("make", s, v, *self.toks(v))
                        emit("tocont", s)
                        var[s], kind[s] = v, "cont"
                        continue
                    else:
                        continue
                if o == "contpay":
                    emit("contpay", s, v, *self.toks(v))
                    var[s], kind[s] = v, "cont"
                elif not self.heapy(v) and self.decl[v]["min"] > 0:
                    emit("falloc", 1, "contpay", s, v, *self.toks(v))
            elif o in ("paynew", "fallocpaynew", "paynewbad"):
                v = pick("s", s)
                tag = self.tagof(v)
                if o == "paynewbad":
                    emit("paynew", s, v, self.toks(v)[0], self.overtag(), 0)
                elif o == "fallocpaynew":
                    if not self.heapy(v) and self.decl[v]["min"] > 0:
                        emit("falloc", 1, "paynew", s, v, self.toks(v)[0], tag, rng.randrange(2))
                else:
                    emit("paynew", s, v, self.toks(v)[0], tag, rng.randrange(2))
                    var[s], kind[s] = v, "box"
            elif o == "stdnew":
                v = pick("s", s)
                emit(o, s, v, self.toks(v)[0])
                var[s], kind[s] = v, "std"
            elif o in ("tobox", "tocont"):
                emit(o, s, *([self.tag()] if self.raw else []))
                kind[s] = "box" if o == "tobox" else "cont"
            elif o == "toboxbad":
                emit("tobox", s, self.overtag())
                var.pop(s)
            elif o in ("falloctobox", "falloctocont"):
                if self.decl[var[s]]["min"] > 0:
                    emit("falloc", 1, o[6:], s, *([self.tag()] if self.raw else []))
                else:
                    # nothing to allocate: the value is discarded as the model has it
                    emit("drop", s)
                var.pop(s)
            elif o in ("frombox", "continner", "stdread"):
                emit(o, s)
                kind[s] = "val"
                if var[s] < 0:
                    del var[s]
            elif o in ("wrap", "unwrap", "stdraw", "rawstd"):
                emit(o, s)
                kind[s] = {"wrap": "cont", "unwrap": "box", "stdraw": "ptr", "rawstd": "std"}[o]
                if o == "stdraw":
                    L += self.relocate(s, var[s])
            elif o in ("payinner", "intoraw", "intostd"):
                emit(o, s, var[s])
                kind[s] = {"payinner": "val", "intoraw": "ptr", "intostd": "std"}[o]
                if o == "intoraw":
                    L += self.relocate(s, var[s])
            elif o == "fromraw":
                emit(o, s, self.tagof(var[s]))
                kind[s] = "box"
            elif o == "relocate":
                L += self.relocate(s, var[s])
            elif o == "fromrawbad":
                emit("fromraw", s, self.overtag())
            elif o == "mkbad":
                emit(o, s, rng.choice(self.edgetags if rng.random() < 0.6 else self.foreign))
                var[s], kind[s] = -1, "box"
            elif o == "drop":
                emit(o, s)
                var.pop(s, None)
            elif o == "move":
                emit(o, s, t)
                var[t], kind[t] = var.pop(s), kind[s]
            elif o in ("copy", "clone", "clonefrom"):
                emit(o, s, t)
                var[t], kind[t] = var[s], kind[s]
            elif o == "viewd":
                emit(o, s, t, rng.choice([1, 2, 3, 4, 5, 9, 33]))
            elif o == "fclone":
                k = self.trips(var[s]) if var[s] >= 0 else 0
                free = [x for x in range(4) if x not in var] or [x for x in range(4) if x != s]
                ks = range(1, k + 1) if "fclone" in every else [rng.randint(1, k)] if k else []
                for i in ks:
                    emit(o, s, rng.choice(free), i)
            elif o == "fclonefrom":
                k = self.trips(var[s]) if var[s] >= 0 else 0
                if k:
                    emit(o, s, t, rng.randint(1, k))
            elif o == "fallocclonefrom":
                if var[s] >= 0 and not self.heapy(var[s]) and self.decl[var[s]]["min"] > 0:
                    emit("falloc", 1, "clonefrom", s, t)
            elif o == "fallocclone":
                if var[s] >= 0 and not self.heapy(var[s]) and self.decl[var[s]]["min"] > 0:
                    free = [x for x in range(4) if x not in var] or [x for x in range(4) if x != s]
                    emit("falloc", 1, "clone", s, rng.choice(free))
            elif o == "vpoke":
                cells = [j for j, ty in enumerate(self.f["variants"][var[s]][1]) if ty in fm.CELLS]
                if cells:
                    j = rng.choice(cells)
                    emit(o, s, var[s], j, rng.randrange(self.decl[var[s]]["toks"][j]))
            elif o in ("view", "fview"):
                emit(o, s)
            elif o in ("view2", "fview2", "cmp"):
                emit(o, s, t)
            elif o == "fcmp":
                a, b = var[s], var[t]
                if a >= 0 and b >= 0:
                    # the faults of a comparison that is over earlier change nothing
                    k = max(self.trips(a), 1) + 1
                    for w in (range(self.cmps) if "fcmp" in every else [rng.randrange(self.cmps)]):
                        for i in (range(1, k + 1) if "fcmp" in every else [rng.randint(1, k)]):
                            emit(o, s, t, i, w)
            elif o == "fmt":
                for sp in (rng.sample(range(self.specs), min(self.specs, 18)) if "fmt" in every else [rng.randrange(self.specs)]):
                    emit(o, s, sp)
            elif o == "ffmt":
                k = self.trips(var[s]) + 1 if var[s] >= 0 else 1
                for sp in (rng.sample(range(self.specs), min(self.specs, 8)) if "ffmt" in every else [rng.randrange(self.specs)]):
                    for i in (range(1, k + 1) if "ffmt" in every else [rng.randint(1, k)]):
                        emit(o, s, sp, i, rng.randrange(2))
            elif o == "fwrite":
                for sp in (rng.sample(range(self.specs), min(self.specs, 6)) if "fwrite" in every else [rng.randrange(self.specs)]):
                    for b in ((0, 1, 4, 9, 30) if "fwrite" in every else [rng.choice([0, 1, 2, 5, 11, 60])]):
                        emit(o, s, sp, b, rng.randrange(2))
            elif o == "payref":
                for how in (range(4) if "payref" in every or rng.random() < 0.3 else [rng.randrange(4)]):
                    emit(o, s, var[s], how)
            elif o == "poke":
                emit(o, s, var[s], self.toks(var[s])[0], rng.randrange(2))
            else:
                raise ToolError("operation %r" % (op,))
        return L


# ---------------------------------------------------------------------------
# Building, running, judging


def build(work, name, fams, width, profile):
    """Generates and compiles the harness for these families."""
    crate = os.path.join(work, "crate-" + name)
    os.makedirs(os.path.join(crate, "src"), exist_ok=True)
    write(os.path.join(crate, "src", "main.rs"), fm.program(fams))
    shutil.copy(os.path.join(ROOT, "harness", "hist", "rt.rs"), os.path.join(crate, "src", "rt.rs"))
    write(os.path.join(crate, "Cargo.toml"), wide.CARGO.replace('"wide"', '"hist"'))
    return cargo_build(crate, build_dir("hist-%s-%s" % (name, width)), profile, None if width is None else "%dbits" % width, bin="hist")


def write(path, text):
    old = None
    if os.path.exists(path):
        with open(path) as f:
            old = f.read()
    if old != text:
        with open(path, "w") as f:
            f.write(text)


def decls(exe):
    rc, out, err = run([exe, "decl"], env=env_for())
    if rc != 0:
        raise ToolError("harness: " + err[-500:])
    return {d["fam"]: d["decl"] for d in map(json.loads, out.splitlines())}


MISFITS = []  # (family, case, operation) that did not apply to what was there
EXPLAINED = set()  # (family, case) in which the code did not do what the history expects


def unexplained():
    """Histories that are wrong themselves: an error of the machinery."""
    return [m for m in MISFITS if m[:2] not in EXPLAINED]


def execute(work, name, exe, cases):
    """cases: [(family, id, [op lines])]. -> (trace lines, crashes)"""
    hist = os.path.join(work, name + ".hist")
    trace = os.path.join(work, name + ".trace")
    if os.path.exists(trace):
        os.remove(trace)
    with open(hist, "w") as f:
        for fam, i, ops in cases:
            f.write("case %s %s\n%s\n" % (fam, i, "\n".join(ops)))
    first, crashes, restarts = 0, [], 0
    lines = []
    while True:
        rc, out, err = run([exe, hist, trace, str(first)], env=env_for(), timeout=90 if TIER == "quick" else 600, hang=True)
        with open(trace) as f:
            raw = f.read().split("\n")
        good = []
        for l in raw:
            if not l:
                continue
            if l.endswith("}"):
                try:
                    if len(raw) < 50 or l is raw[-1]:
                        json.loads(l)
                    good.append(l)
                except ValueError:
                    pass
        os.remove(trace)
        lines += good
        if rc == 0 and good and good[-1] == '{"op":"end"}':
            lines.pop()
            break
        if rc == 3:
            raise ToolError("harness: " + err[-500:])
        # it died: which case, which operation?
        at = max((j for j in range(len(good)) if good[j].startswith('{"op":"case"')), default=None)
        if at is None:
            raise ToolError("harness died before the first case (status %s): %s" % (rc, err[-500:]))
        i = json.loads(good[at])["i"]
        # an operation within a view has a line of its own
        n = len(good) - at - 1 - sum(l.startswith('{"op":"vin"') for l in good[at:])
        ops = cases[i][2]
        if ops and ops[0].startswith("slots"):
            n += 1
        if rc == 4:
            if name != "twins":
                MISFITS.append((cases[i][0], cases[i][1], ops[n] if n < len(ops) else "end"))
            first = i + 1
            restarts += 1
            if first >= len(cases) or restarts > 300:
                break
            continue
        crashes.append((cases[i][0], ops[n].split() if n < len(ops) else ["end"], "status %s: %s" % (rc, err[-300:]),
                        "case %s %s\n%s" % (cases[i][0], cases[i][1], "\n".join(ops[:n + 1]))))
        first = i + 1
        if first >= len(cases) or len(crashes) >= 25 or rc == -99 and sum("did not come to an end" in c[2] for c in crashes) > 1:
            break
    return lines, crashes


def judge(work, runs, rep, cfg=None):
    """runs: [(name, width, lines)]. Splits at cases, judges in parallel.
    -> [(aspect, op, what, run name, family, case id, replay)]"""
    if cfg is None:
        # histories with many slots are judged by themselves
        few, many = [], []
        for name, w, lines in runs:
            groups = ([], [])
            cur = groups[0]
            for l in lines:
                if l.startswith('{"op":"case"'):
                    cur = groups['"slots":40,' in l]
                cur.append(l)
            few.append((name, w, groups[0]))
            many.append((name, w, groups[1]))
        return judge(work, few, rep, "HistTrace") + judge(work, many, rep, "HistTrace40")
    chunks = []
    total = sum(len(r[2]) for r in runs)
    size = max(400, min(6000, total // (CORES * 2) + 1))
    for name, w, lines in runs:
        cur = []
        for l in lines:
            if l.startswith('{"op":"case"') and len(cur) >= size:
                chunks.append((name, w, cur))
                cur = []
            cur.append(l)
        if cur:
            chunks.append((name, w, cur))
    if not chunks:
        return []
    # pack the chunks into one judge per core
    n = max(1, min(CORES, len(chunks)))
    bins = [[] for _ in range(n)]
    load = [0] * n
    for c in sorted(chunks, key=lambda c: -len(c[2])):
        i = load.index(min(load))
        bins[i].append(c)
        load[i] += len(c[2])

    def one(job):
        i, chunk = job
        path = os.path.join(work, "judge-%d.ndjson" % i)
        where = []
        for name, w, lines in chunk:
            where.append((name, None, json.dumps({"op": "run", "w": w})))
            run_at = len(where) - 1
            case = None
            for l in lines:
                if l.startswith('{"op":"case"'):
                    case = len(where)
                where.append((name, case, l, run_at))
        res = []
        seen = set()

        def add(aspect, line, op, what):
            name, case = where[line][:2]
            if aspect not in ("leak", "lost"):
                head = json.loads(where[case][2])
                EXPLAINED.add((head["fam"], head["id"]))
            key = (case, aspect, op, json.dumps(what) if aspect == "leak" else "")
            if key not in seen:
                seen.add(key)
                head = json.loads(where[case][2])
                res.append((aspect, op, what, name, head["fam"], head["id"], lambda a=case, b=line + 1: replay(where, a, b)))

        todo = list(range(len(where)))
        total = None
        for attempt in range(6):
            with open(path, "w") as f:
                f.writelines(where[j][2] + "\n" for j in todo)
            r = tlc("HistTrace", cfg, env={"TRACE": path}, timeout=700)
            for aspect, line, op, what in r.printed("VIOL"):
                add(aspect, todo[line - 1], op, what)
            if total is None:
                total = r
            else:
                total.states += r.states
                total.transitions += r.transitions
            if r.ok():
                break
            if "Postcondition Accepted" not in r.out or not 1 <= r.depth <= len(todo):
                raise ToolError("HistTrace: " + r.out[:200] + "..." + r.out[-2500:])
            # no step of the specification explains this line: the code led
            # the history where this operation is not permitted
            at = todo[r.depth - 1]
            if where[at][1] is None:
                raise ToolError("HistTrace: " + r.out[-2500:])
            e = json.loads(where[at][2])
            add("kind", at, e["op"], "not an operation of the specification here")
            rest = [j for j in todo if j > at and where[j][1] != where[at][1]]
            if not rest:
                break
            todo = ([where[rest[0]][3]] if where[rest[0]][1] is not None else []) + rest
        os.remove(path)
        r = total
        return r, res

    found = []
    for r, res in parallel(one, enumerate(bins)):
        rep.add_tlc(r)
        found += res
    return found


def replay(where, case, line):
    out = []
    for j in range(case, line):
        l = where[j][2]
        e = json.loads(l)
        if e["op"] == "case":
            out.append("case %s %s" % (e["fam"], e["id"]))
        elif e["op"] == "vin":
            # its operation was listed before it
            out[-1] = "%s %s" % (e["op"], " ".join(map(str, e["a"])))
        else:
            out.append("%s %s" % (e["op"], " ".join(map(str, e["a"]))))
    return "\n".join(out) + "\nlast: " + where[line - 1][2]
