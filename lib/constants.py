"""C18: expressions over the functions that may be used in constants are written
into every context that wants a constant (spec/Constants.tla says which go
together), with the boundary words of spec/WordGen.tla; what the compiler
accepts, the constants it computes and what the same expressions give when the
program runs are judged by ConstTrace.tla."""
import random

from common import *
import borrow
import scope
import words

HEAD = """#![allow(warnings, clippy::all)]
extern crate std;
use tagged_box::{Discriminant, TaggedBox, TaggedPointer};
pub enum E {}
pub struct Of<T>(T);
pub struct Num<const V: u64>;
impl<const V: u64> Num<V> { pub fn get() -> u64 { V } }
pub fn bb<T>(t: T) -> T { std::hint::black_box(t) }
pub fn ran(f: impl FnOnce() -> u64 + std::panic::UnwindSafe) -> Option<u64> { std::panic::catch_unwind(f).ok() }
""" + "".join("#[repr(align(%d))] pub struct A%d(u8);\n" % (2 ** k, k) for k in range(30))


def num(b):
    return sum(1 << x for x in b)


def bits(x):
    return [b for b in range(64) if x >> b & 1]


# the value as u64, of a handle h
OF = {"placeholder": ("TaggedPointer", "%s.as_raw_u64()"), "placeholdertag": ("TaggedPointer", "%s.discriminant() as u64"),
      "placeholderaddr": ("TaggedPointer", "%s.as_u64()"), "boxtag": ("TaggedBox<E>", "%s.discriminant() as u64"),
      # raw pointers are not turned into numbers in constants
      "pointer": ("TaggedPointer", "%s.as_ptr::<[u16; 3]>() as u64"), "boxpointer": ("TaggedBox<E>", "%s.as_ptr::<String>() as u64")}
POINTERS = ("pointer", "boxpointer")


def expression(c, t=None, wrap="%s", d=None):
    f = c["f"]
    d = d or wrap % ("0x%x" % c["d"])
    x = wrap % ("0x%xu64" % c["x"])
    if f in OF:
        return OF[f][1] % ("%s::dangling::<%s>(%s)" % (OF[f][0].replace("<", "::<"), t or "A%d" % c["k"], d))
    return {"store": "TaggedPointer::store_discriminant(%s, %s)" % (wrap % ("0x%xu64" % c["p"]), d),
            "fetch": "TaggedPointer::fetch_discriminant(%s) as u64" % x,
            "strip": "TaggedPointer::strip_discriminant(%s)" % x,
            "rebuilt": "TaggedPointer::store_discriminant(TaggedPointer::strip_discriminant(%s), TaggedPointer::fetch_discriminant(%s))" % (x, x)}[f]


def program(i, c):
    """-> one line: a module with `con`, the constant, and `run`, the same when the program runs"""
    e, A, ctx = expression(c), "A%d" % c["k"], c["ctx"]
    run_ = expression(c, wrap="bb(%s)")
    con = {
        "const": "const N: u64 = %s; pub fn con() -> u64 { N }" % e,
        "static": "static N: u64 = %s; pub fn con() -> u64 { N }" % e,
        "assoc": "impl Of<[%s; %d]> { const V%d: u64 = %s; } const N: u64 = <Of<[%s; %d]>>::V%d; pub fn con() -> u64 { N }" % (A, i, i, e, A, i, i),
        "trait": "trait W { const V: u64; } impl<T> W for Of<T> { const V: u64 = %s; } const N: u64 = <Of<%s> as W>::V; pub fn con() -> u64 { N }" % (expression(c, "T"), A),
        "length": "pub fn con() -> u64 { const L: [(); (%s) as usize] = [(); (%s) as usize]; L.len() as u64 }" % (e, e),
        "argument": "pub fn con() -> u64 { Num::<{ %s }>::get() }" % e,
        "variant": "#[repr(u64)] enum X { V = %s } pub fn con() -> u64 { X::V as u64 }" % e,
        "pattern": "const N: u64 = %s; pub fn con() -> u64 { match bb(%s) { N => N, other => !other } }" % (e, expression(c, wrap="bb(%s)")),
        "constfn": "const fn f(d: Discriminant) -> u64 { %s } const N: u64 = f(0x%x); pub fn con() -> u64 { N }" % (expression(c, d="d"), c["d"]),
        "inline": "pub fn con() -> u64 { const { %s } }" % e,
    }.get(ctx)
    if con is None:
        T, get = OF[c["f"]]
        made = "%s::dangling::<%s>(0x%x)" % (T.replace("<", "::<"), A, c["d"])
        if c["f"] in POINTERS:
            T, made, get = get[len("%s.as_ptr::<"):-len(">() as u64")], made + get[2:-len(" as u64")], "%s as u64"
            T = "*const " + T
            con = {"held": "const H: %s = %s; pub fn con() -> u64 { %s }" % (T, made, get % "H"),
                   "heldstatic": "struct Y(%s); unsafe impl Sync for Y {} static H: [Y; 2] = [Y(%s), Y(%s)]; pub fn con() -> u64 { %s }" % (T, made, made, get % "H[1].0")}[ctx]
        else:
            con = {"held": "const H: %s = %s; pub fn con() -> u64 { %s }" % (T, made, get % "H"),
                   "heldstatic": "static H: [%s; 2] = [%s, %s]; pub fn con() -> u64 { %s }" % (T, made, made, get % "H[1]")}[ctx]
    return "pub mod c%d { use crate::*; %s pub fn run() -> Option<u64> { ran(|| %s) } }" % (i, con, run_)


def chosen(asks, g, w, profile):
    rng = random.Random("%s-%d-%s" % (SEED, w, profile))
    cases = []
    dangs = [(k, num(t)) for k, t in g["dangs"]]
    room = 1 << (64 - w)
    fits = [x for x in dangs if x[1] < room]
    misfits = [x for x in dangs if x[1] >= room]
    raws = [num(x) for x in g["raws"]]
    pairs = [(num(p), num(t)) for p, t in g["pairs"] if num(p) < 1 << w and num(t) < room]
    n = 3 if TIER == "quick" else 24
    for a in asks:
        for j in range(n):
            c = dict(f=a["f"], ctx=a["ctx"], k=0, p=0, d=0, x=0)
            if c["f"] == "store":
                c["p"], c["d"] = rng.choice(pairs)
            elif c["f"] in OF:
                # an inline constant is looked at only when code is made of it
                L = misfits if misfits and j % 3 == 2 and c["ctx"] != "inline" else fits
                # the last tag that fits and the first that does not
                edge = [x for x in L if x[1] in (room - 1, room)]
                c["k"], c["d"] = rng.choice(edge if edge and j % 2 == 0 else L)
                if c["ctx"] in ("heldstatic", "assoc", "trait", "constfn"):
                    c["k"] = c["k"] % 13
            else:
                c["x"] = rng.choice(raws)
            cases.append(c)
    return cases


def one(work, job, asks, g):
    w, profile = job
    name = "const-%d-%s" % job
    cases = chosen(asks, g, w, profile)
    text = [program(i, c) for i, c in enumerate(cases)]
    crate = os.path.join(work, "crate-" + name)
    target = build_dir("const-%d" % w)
    first = HEAD.count("\n") + 1
    refused = {}
    setting = "%dbits" % w
    for attempt in range(6):
        body = [t if i not in refused else "" for i, t in enumerate(text)]
        tail = "pub fn all() -> Vec<(usize, fn() -> u64, fn() -> Option<u64>)> { vec![%s] }\n" % ", ".join(
            "(%d, c%d::con, c%d::run)" % (i, i, i) for i in range(len(text)) if i not in refused)
        scope.write(crate, {"src/lib.rs": HEAD + "\n".join(body) + "\n" + tail,
                            "src/run.rs": "fn main() { std::panic::set_hook(Box::new(|_| {})); for (i, c, r) in consts::all() { println!(\"{{\\\"i\\\":{},\\\"v\\\":\\\"{:x}\\\",\\\"r\\\":\\\"{}\\\"}}\", i, c(), r().map_or(String::from(\"panic\"), |v| format!(\"{:x}\", v))); } }\n",
                            "Cargo.toml": scope.CARGO % ("consts", "2021", '"rlib"', "[[bin]]\nname = \"consts_run\"\npath = \"src/run.rs\"\n", 'tagged-box = { path = "/repo" }', "unwind")
                            + "[profile.release]\npanic = \"unwind\"\n"})
        cmd = ["cargo", "check", "--offline", "--quiet", "--lib", "--message-format=json", "--manifest-path", os.path.join(crate, "Cargo.toml"), "--target-dir", target]
        rc, out, err = run(cmd + (["--release"] if profile == "release" else []), env=env_for(setting), timeout=500)
        new, stray = {}, ""
        for l in out.splitlines():
            if not l.startswith("{"):
                continue
            m = json.loads(l)
            if m.get("reason") != "compiler-message" or m["message"]["level"] != "error":
                continue
            m = m["message"]
            if m["message"].startswith("aborting due to"):
                continue
            at = {k - first for k in places_of(m) if first <= k < first + len(text)}
            if not at:
                stray = stray or m.get("rendered") or m["message"]
            for k in at:
                new.setdefault(k, m["message"])
        if rc == 0:
            break
        if not new:
            raise BuildFailed(name, stray and "error: " + stray or err)
        refused.update(new)
    recs = []
    vals = {}
    if rc == 0:
        exe = cargo_build(crate, target, profile, setting, bin="consts_run")
        rc, out, err = run([exe], env=env_for(), timeout=60)
        if rc != 0:
            raise BuildFailed(name, "error: the program ended with %s: %s" % (rc, err[-300:]))
        for l in out.splitlines():
            v = json.loads(l)
            vals[v["i"]] = v
    for i, c in enumerate(cases):
        rec = dict(f=c["f"], ctx=c["ctx"], k=c["k"], p=bits(c["p"]), d=bits(c["d"]), x=bits(c["x"]), w=w, profile=profile, accepted=i not in refused, ran=i in vals,
                   value=[], run=dict(ok=False, v=[]))
        if i in vals:
            v = vals[i]
            rec["value"] = bits(int(v["v"], 16))
            if v["r"] != "panic":
                rec["run"] = dict(ok=True, v=bits(int(v["r"], 16)))
        recs.append((rec, "width %d, %s: %s   // %s %s" % (w, profile, text[i], refused.get(i, "accepted"), vals.get(i, ""))))
    return recs


def places_of(m):
    at = set(borrow.lines_of(m, {}))
    for ch in m.get("children", []):
        at |= set(borrow.lines_of(ch, {}))
    return at


def check(rep):
    work = work_dir("C18")
    r = tlc("ConstGen")
    if not r.ok():
        raise ToolError("ConstGen: " + r.out[-1500:])
    rep.add_tlc(r)
    with open(os.path.join(SPEC, "ConstGen.cfg")) as f:
        cfg = f.read()
    for bug in ("wraps", "moves", "later"):
        path = os.path.join(work, "Const-" + bug)
        with open(path + ".cfg", "w") as f:
            f.write(cfg.replace('"none"', '"%s"' % bug).replace("ACTION_CONSTRAINT Emit\n", ""))
        m = tlc("ConstGen", path)
        if m.ok() or "is violated" not in m.out:
            raise ToolError("ConstGen does not notice the fault %s" % bug)
        rep.cov.setdefault("design_faults_noticed", []).append("Constants/" + bug)
    asks = []
    for a in r.printed("ASK"):
        if a not in asks:
            asks.append(a)
    asks.sort(key=lambda a: (a["ctx"], a["f"]))
    gen = words.generate(work, TIER != "quick")
    widths = [48, 52, 53, 56, 60, 63] if TIER == "quick" else words.WIDTHS
    jobs = [(w, p) for w in widths for p in ("debug", "release")]

    def guarded(w):
        recs = []
        # the two profiles of a width share a build directory
        for p in ("debug", "release"):
            try:
                recs += one(work, (w, p), asks, gen[w])
            except BuildFailed as b:
                ok, e = repo_builds()
                if not ok:
                    raise ToolError("/repo does not build: " + e[-1500:])
                rep.violation("constants do not compile or run (width %d, %s): %s" % (w, p, b.errors()), b.err[-3000:])
        return recs

    parts = []
    for x in parallel(guarded, widths):
        parts += x
    path = os.path.join(work, "const.ndjson")
    with open(path, "w") as f:
        for rec, _ in parts:
            f.write(json.dumps(rec) + "\n")
    j = tlc("ConstTrace", env={"TRACE": path})
    if not j.ok():
        raise ToolError("ConstTrace: " + j.out[-1500:])
    rep.add_tlc(j)
    rep.traces += len(parts)
    rep.cov.update(questions=len(asks), widths=len(widths), constants=len(parts), refused=sum(not a["accepted"] for a, _ in parts), run=sum(a["ran"] for a, _ in parts))
    rep.samples += [rec for rec, _ in parts[:2000:900]]
    for _, l, what in j.printed("VIOL"):
        rep.violation(json.dumps(what), parts[l - 1][1])
