"""C15: schedules found by TLC in spec/Threads.tla replayed with the real code,
free runs on all cores, and what may be sent and shared."""
import random

from common import *
import enumprops
import families as fm
import hist
import wide

# type, kind (spec/AutoTrait.tla)
AUTO = [("u32", "plain"), ("String", "plain"), ("fn() -> u8", "plain"), ("std::sync::Arc<std::sync::Mutex<u8>>", "plain"), ("std::sync::Mutex<u16>", "plain"),
        ("std::sync::atomic::AtomicU8", "plain"), ("&'static str", "plain"),
        ("std::cell::Cell<u8>", "cell"), ("std::cell::RefCell<String>", "cell"), ("Box<dyn Fn() + Send>", "cell"), ("std::sync::mpsc::Receiver<u8>", "cell"),
        ("std::sync::MutexGuard<'static, u8>", "guard"), ("OnlySync", "guard"), ("ZOnlySync", "guard"),
        ("std::rc::Rc<u8>", "rc"), ("*const u8", "rc"), ("*mut String", "rc"), ("std::ptr::NonNull<u8>", "rc"), ("&'static std::cell::Cell<u8>", "cell2"),
        ("Box<dyn Fn()>", "rc"), ("std::marker::PhantomData<*const u8>", "rc"), ("std::rc::Weak<u64>", "rc")]
AUTO = [(t, "rc" if k == "cell2" else k) for t, k in AUTO]

AUTO_MAIN = """#![recursion_limit = "512"]
#![allow(warnings, clippy::all)]
use std::marker::PhantomData;
use tagged_box::{tagged_box, TaggedBox};
pub struct OnlySync(*const u8);
unsafe impl Sync for OnlySync {}
pub struct ZOnlySync(PhantomData<*const u8>);
unsafe impl Sync for ZOnlySync {}
struct P<T: ?Sized>(PhantomData<T>);
trait No { const SEND: bool = false; const SYNC: bool = false; }
impl<T: ?Sized> No for P<T> {}
struct Q<T: ?Sized>(PhantomData<T>);
trait No2 { const SYNC: bool = false; }
impl<T: ?Sized> No2 for Q<T> {}
impl<T: ?Sized + Send> P<T> { const SEND: bool = true; }
impl<T: ?Sized + Sync> Q<T> { const SYNC: bool = true; }
macro_rules! both { ($t:ty) => { format!("[{},{}]", P::<$t>::SEND, Q::<$t>::SYNC) } }
%s
fn main() {
%s
}
"""


def auto(work, rep):
    rng = random.Random(SEED + 5)
    enums = []
    for i, (t, k) in enumerate(AUTO):
        enums.append([(t, k)])
    for _ in range(40 if TIER == "quick" else 200):
        enums.append([rng.choice(AUTO) for _ in range(rng.randint(2, 5))])
    # the same kind in every place
    mods, mains = [], []
    for i, ts in enumerate(enums):
        vs, used = [], set()
        shape = rng.choice(["tuple", "named", "spread"]) if i >= len(AUTO) else ("tuple", "named")[i % 2]
        if shape == "spread":
            for j, (t, k) in enumerate(ts):
                if t in used:
                    vs.append("V%d { m: %s, n: u8 }," % (j, t))
                else:
                    vs.append("V%d(%s)," % (j, t))
                used.add(t)
        elif shape == "tuple":
            vs.append("V(%s)," % ", ".join(t for t, k in ts))
        else:
            vs.append("V { %s }," % ", ".join("m%d: %s" % (j, t) for j, (t, k) in enumerate(ts)))
        vs.insert(rng.randrange(len(vs) + 1), "U,")
        mods.append("mod m%d { use super::*; tagged_box! { pub struct C, pub enum E { %s } } }" % (i, " ".join(vs)))
        mains.append("    println!(\"{{\\\"kinds\\\":%s,\\\"enum\\\":{},\\\"box\\\":{},\\\"cont\\\":{}}}\", both!(m%d::E), both!(TaggedBox<m%d::E>), both!(m%d::C));"
                     % (json.dumps([k for t, k in ts]).replace('"', '\\"'), i, i, i))
    crate = os.path.join(work, "crate-auto")
    os.makedirs(os.path.join(crate, "src"))
    with open(os.path.join(crate, "src", "main.rs"), "w") as f:
        f.write(AUTO_MAIN % ("\n".join(mods), "\n".join(mains)))
    with open(os.path.join(crate, "Cargo.toml"), "w") as f:
        f.write(wide.CARGO.replace('"wide"', '"auto"'))
    exe = cargo_build(crate, build_dir("auto"), "debug", "60bits", bin="auto")
    rc, out, err = run([exe], env=env_for())
    if rc != 0:
        raise ToolError("auto: " + err[-500:])
    path = os.path.join(work, "auto.ndjson")
    with open(path, "w") as f:
        f.write(out)
    r = tlc("AutoTrait", env={"TRACE": path})
    if not r.ok():
        raise ToolError("AutoTrait: " + r.out[-1500:])
    rep.add_tlc(r)
    rep.traces += len(enums)
    rep.cov["enums_send_sync"] = len(enums)
    lines = out.splitlines()
    return [("auto: " + json.dumps(what), "%s\n%s" % (mods[l - 1], lines[l - 1])) for _, l, what in r.printed("VIOL")]


# ---------------------------------------------------------------------------


def design_threads(rep):
    # (the exhaustive models also run with faults built in, which they have to notice)
    for c in ("ThreadsFine", "ThreadsThree") + (("ThreadsLong",) if TIER != "quick" else ()):
        rep.add_tlc(design("Threads", c, workers=2))
    work = work_dir("C15d")
    with open(os.path.join(SPEC, "ThreadsFine.cfg")) as f:
        s = f.read()
    for b in ("scratch", "lastword", "takeout", "racyalloc"):
        path = os.path.join(work, b)
        with open(path + ".cfg", "w") as f:
            f.write(s.replace('Bug = "none"', 'Bug = "%s"' % b))
        r = tlc("Threads", path)
        if "Invariant Sequential is violated" not in r.out:
            raise ToolError("Threads does not notice the fault %s: %s" % (b, r.out[-600:]))
        rep.cov.setdefault("design_faults_noticed", []).append("Threads/" + b)


def schedules():
    r = tlc("Threads", "ThreadsGen")
    if not r.ok():
        raise ToolError("ThreadsGen: " + r.out[-1500:])
    S = r.printed("SCHED")
    r = tlc("Threads", "ThreadsWalk", extra=["-simulate", "num=%d" % (60 if TIER == "quick" else 1500), "-depth", "140", "-seed", str(SEED), "-aril", "0"])
    W = r.printed("SCHED")
    if not W:
        raise ToolError("ThreadsWalk: " + r.out[-1500:])
    seen, W2 = set(), []
    for w in W:
        k = json.dumps(w)
        if k not in seen:
            seen.add(k)
            W2.append(w)
    return S, W2


class Threader:
    def __init__(self, fam, decl, width, rng):
        self.c = hist.Concretizer(fam, decl, width, rng)
        self.rng = rng
        self.f = fam

    def setup(self, plain=False, same=None):
        c, rng = self.c, self.rng
        vs = [v for v in range(c.n) if not plain or self.plain(v)]
        L, self.kind, self.var = ["slots 8"], {}, {}
        a = rng.choice([v for v in vs if self.c.decl[v]["n"]] or vs)
        b = a if (same if same is not None else rng.random() < 0.5) else rng.choice(vs)
        for s, v in ((0, a), (1, b)):
            k = rng.choice(["box", "cont"])
            L += ["make %s" % " ".join(map(str, [s, v] + c.toks(v))), "to%s %d" % (k, s)]
            self.kind[s], self.var[s] = k, v
        return L

    def plain(self, v):
        return all(t in fm.COPY + fm.COPYZ + fm.FLOAT for t in self.f["variants"][v][1])

    def op(self, t, o):
        """The lines of one operation of the model, for thread t."""
        c, rng = self.c, self.rng
        a, b = 2 + 2 * t, 3 + 2 * t
        name, s, u = o[0], o[1] - 1, o[2] - 1
        if name == "cmp" and "cmp" in c.caps:
            return ["cmp %d %d" % (s, u)]
        if name == "fmt" and "fmt" in c.caps:
            return ["fmt %d %d" % (s, rng.randrange(c.specs))]
        if name == "clone" and "clone" in c.caps:
            back = "frombox" if self.kind[s] == "box" else "continner"
            return ["clone %d %d" % (s, b), rng.choice(["view %d" % b, "drop %d" % b, "%s %d" % (back, b), "%s %d" % (back, b)])]
        if name in ("conv", "clone"):
            v = rng.randrange(c.n)
            if v in c.conv and rng.random() < 0.4:
                L = ["contpay %s" % " ".join(map(str, [a, v] + c.toks(v)))]
                k = "cont"
            else:
                k = rng.choice(["box", "cont"])
                L = ["make %s" % " ".join(map(str, [a, v] + c.toks(v))), "to%s %d" % (k, a)]
            if rng.random() < 0.3:
                L.append("view %d" % a)
            if rng.random() < 0.3:
                L.append("unwrap %d" % a if k == "cont" else "wrap %d" % a)
                k = "box" if k == "cont" else "cont"
            L.append("frombox %d" % a if k == "box" else "continner %d" % a)
            return L
        if s < 0:
            s = 0
        return ["view %d" % s] if rng.random() < 0.6 else ["view2 %d %d" % (s, rng.choice([0, 1]))]

    def tidy(self, L):
        """Frees the own slots before they are used again."""
        res, used = [], {}
        for l in L:
            w = l.split()
            d = int(w[2]) if w[0] == "clone" else int(w[1])
            if w[0] in ("make", "contpay", "clone"):
                if used.get(d):
                    res.append("drop %d" % d)
                used[d] = True
            elif w[0] == "drop":
                used[d] = False
            res.append(l)
        return res

    def threads(self, prog):
        out = []
        for t, ops in enumerate(prog):
            L = []
            for o in ops:
                L += self.op(t, o)
            out += ["t %d %s" % (t, l) for l in self.tidy(L)]
        return out

    def end(self):
        rng, c = self.rng, self.c
        L = ["view 0", "view 1"]
        if "cmp" in c.caps:
            L.append("cmp 0 1")
        for s in (0, 1):
            L.append("%s %d" % ("frombox" if self.kind[s] == "box" else "continner", s))
        return L

    def scheduled(self, sc):
        L = self.setup()
        return L + ["par " + " ".join(map(str, sc["s"]))] + self.threads(sc["p"]) + ["join"] + self.end()

    def free(self, sc):
        L = self.setup()
        prog = [p * 3 for p in sc["p"]]
        return L + ["par free"] + self.threads(prog) + ["join"] + self.end()

    def hammer(self, n):
        c, rng = self.c, self.rng
        if not any(self.plain(v) for v in range(c.n)):
            return None
        L = self.setup(plain=True)
        L.append("par free")
        can = ["hview", "hview"] + (["hcmp"] if "cmp" in c.caps else []) + (["hfmt"] if "fmt" in c.caps else []) + (["hclone"] if "clone" in c.caps else [])
        for t in range(7):
            s, u = rng.randrange(2), rng.randrange(2)
            o = rng.choice(can + (["hconv"] if c.n else []))
            if o == "hconv":
                vs = [v for v in range(c.n) if self.plain(v)]
                v = rng.choice(vs)
                L.append("t %d hconv %s" % (t, " ".join(map(str, [s, n, v] + c.toks(v)))))
            elif o == "hcmp":
                L.append("t %d hcmp %d %d %d" % (t, s, max(1, n // 8), u))
            elif o == "hfmt":
                L.append("t %d hfmt %d %d %d" % (t, s, max(1, n // 8), rng.randrange(min(fm.DBG, c.specs))))
            else:
                L.append("t %d %s %d %d" % (t, o, s, n))
        return L + ["join", "view 0", "view 1"]


def C15(rep):
    work = work_dir("C15")
    out = enumprops.beside(lambda: concurrent(work, rep), lambda: design_threads(rep), lambda: auto_or_failed(work, rep))
    for what, replay in out[0] + out[2]:
        rep.violation(what, replay)


def auto_or_failed(work, rep):
    try:
        return auto(work, rep)
    except BuildFailed as b:
        ok, e = repo_builds()
        if not ok:
            raise ToolError("/repo does not build: " + e[-1500:])
        return [("build: enums whose payloads cannot be shared do not compile: " + b.errors(), b.err[-4000:])]


def concurrent(work, rep):
    thorough = TIER != "quick"
    fixed = [f for f in fm.fixed() if f["name"] in ("mixed", "copy", "same", "part", "heap", "layout", "bare")]
    builds = [("default-debug", fixed, 60, "debug", 1.0), ("default-release", [f for f in fixed if f["name"] in ("mixed", "copy", "same", "heap")], 60, "release", 0.6),
              ("63", fm.narrow(63)[:1] + fm.narrow(63)[2:], 63, "release", 0.15), ("48", [f for f in fixed if f["name"] in ("mixed", "copy")], 48, "release", 0.15)]
    if thorough:
        builds += [("57", [f for f in fixed if f["name"] in ("mixed", "copy")], 57, "release", 0.5), ("55", [f for f in fixed if f["name"] in ("mixed", "part")], 55, "debug", 0.5)]

    def build(b):
        try:
            exe = hist.build(work, "thr-" + b[0], b[1], b[2], b[3])
            return exe, hist.decls(exe)
        except BuildFailed as e:
            return e, None
    parts = parallel(lambda j: j(), [schedules] + [lambda b=b: build(b) for b in builds])
    (S, W), built = parts[0], parts[1:]
    log("schedules: %d + %d" % (len(S), len(W)))
    rep.cov["schedules"] = len(S) + len(W)
    found, runs, crashes, cases_of, exes = [], [], [], {}, {}
    for i, (b, (exe, D)) in enumerate(zip(builds, built)):
        if isinstance(exe, BuildFailed):
            ok, e = repo_builds()
            if not ok:
                raise ToolError("/repo does not build: " + e[-1500:])
            found.append(("build: enums of the supported kinds do not compile: %s: %s" % (b[0], exe.errors()), exe.err[-4000:]))
            continue
        rng = random.Random(SEED * 31337 + i)
        th = [Threader(f, D[f["name"]], b[2], rng) for f in b[1]]
        cases = []
        for j, sc in enumerate(S):
            for rep_ in range(3 if thorough else 1):
                if thorough or rng.random() < b[4]:
                    t = rng.choice(th)
                    cases.append((t.f["name"], "sched%d-%d" % (j, rep_), t.scheduled(sc)))
        for j, sc in enumerate(W):
            t = rng.choice(th)
            cases.append((t.f["name"], "walk%d" % j, t.scheduled(sc)))
            t = rng.choice(th)
            cases.append((t.f["name"], "free%d" % j, t.free(sc)))
        hc = []
        for j in range(300 if thorough else int(60 * b[4])):
            t = rng.choice(th)
            L = t.hammer(20000 if thorough else 5000)
            if L:
                hc.append((t.f["name"], "hammer%d" % j, L))
        exes[b[0]] = exe
        cases_of[b[0]] = {(c[0], c[1]): c[2] for c in cases + hc}
        # the scheduled ones run one thread at a time and share the cores; the free ones get all of them
        n = max(1, min(4, len(cases) // 150))
        for k in range(n):
            runs.append((b, exe, "s%d-%d" % (i, k), cases[k::n]))
        if hc:
            runs.append((b, exe, "h%d" % i, hc))

    def go(r):
        b, exe, name, cs = r
        lines, cr = hist.execute(work, name, exe, cs)
        return (b[0], b[2], lines), [(b[0],) + c for c in cr]
    res = parallel(go, [r for r in runs if r[2][0] == "s"])
    for r in runs:
        if r[2][0] == "h":
            res.append(go(r))
    traces = []
    for t, c in res:
        traces.append(t)
        crashes += c
    rep.traces += sum(len(r[3]) for r in runs)
    rep.cov["operations_judged"] = sum(len(t[2]) for t in traces)
    rep.samples += [{"history": runs[0][3][0][2][:14]}, {"history": runs[0][3][-1][2][:14]}]
    log("%d concurrent histories, %d operations" % (sum(len(r[3]) for r in runs), rep.cov["operations_judged"]))
    bad = hist.judge(work, traces, rep, "HistTrace8")
    log("judged: %d mismatches" % len(bad))
    # the same operations one after the other
    order = {}
    for name, w, lines in traces:
        key = None
        for l in lines:
            e = json.loads(l)
            if e["op"] == "case":
                key = (name, e["fam"], e["id"])
                order[key] = ["slots 8"]
            elif e["op"] != "end":
                order[key].append(" ".join([e["op"]] + [str(x) for x in e["a"]]))
    groups = {}
    known = load_findings("C08")
    for aspect, op, what, name, fam, case, replay in bad:
        # what is never given back is C08's concern
        if aspect == "leak" and any(re.search(f["match"], enumprops.text(aspect, op, what, name, fam, case)) for f in known):
            continue
        groups.setdefault((name, fam, case), []).append((aspect, op, what, replay))
    suspects = [k for k in groups if any(x[0] != "leak" for x in groups[k])] + [k for k in groups if all(x[0] == "leak" for x in groups[k])]
    suspects = suspects[:400 if not thorough else 4000]
    for b in builds:
        mine = [k for k in suspects if k[0] == b[0]]
        cr = [c for c in crashes if c[0] == b[0]]
        if not mine and not cr:
            continue
        twins = [(k[1], k[2], order[k]) for k in mine]
        # a history that killed the process, without its threads
        for c in cr:
            case = c[4].split("\n")[0].split()[2]
            ops = cases_of[b[0]][(c[1], case)]
            twins.append((c[1], case + "-crash", [" ".join(l.split()[2:]) if l.startswith("t ") else l for l in ops if not l.startswith(("par", "join"))]))
        lines, cr2 = hist.execute(work, "twins", exes[b[0]], twins)
        died = {c[3].split("\n")[0].split()[2] for c in cr2}
        again = {}
        for f in hist.judge(work, [(b[0], b[2], lines)], rep, "HistTrace8"):
            again.setdefault((b[0], f[4], f[5]), []).append((f[0], f[1], f[2]))
        for k in mine:
            if k[2] in died:
                continue
            tw = again.get(k, [])
            # what goes wrong without threads as well is another property's concern
            if any(x[0] != "leak" for x in tw):
                continue
            leaks = {json.dumps(x) for x in tw}
            for aspect, op, what, replay in groups[k]:
                if aspect == "leak" and json.dumps((aspect, op, what)) in leaks:
                    continue
                found.append(("%s: %s: %s [%s, family %s, case %s]" % (aspect, op, json.dumps(what), k[0], k[1], k[2]),
                              "\n".join(cases_of[k[0]][(k[1], k[2])]) + "\nin the order of completion:\n" + replay()))
        for c in cr:
            case = c[4].split("\n")[0].split()[2]
            if case + "-crash" not in died:
                found.append(("crash: the process died in a concurrent history (%s) [%s, family %s, case %s]" % (c[3], c[0], c[1], case),
                              "\n".join(cases_of[c[0]][(c[1], case)])))
    return found
