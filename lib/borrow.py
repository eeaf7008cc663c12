"""C16: programs generated from spec/Borrow.tla are given to the compiler with
the real library; what it accepts and refuses is judged by BorrowTrace.tla.
The traits of boxes and containers are read off compiled programs (Traits.tla)."""
import random

from common import *
import wide

KINDS = ("box", "boxcopy", "cont", "contcopy", "ptr")

PRELUDE = """#![recursion_limit = "512"]
#![allow(warnings, clippy::all)]
use tagged_box::{tagged_box, Discriminant, TaggableContainer, TaggableInner, TaggedBox, TaggedPointer};
pub mod plain {
    use super::*;
    tagged_box! { #[derive(Debug, Clone, PartialEq, PartialOrd)] pub struct C, pub enum E { A(u32), S(String), U, N { x: u8, y: String, }, P(u8, u16), } }
}
pub mod copied {
    use super::*;
    tagged_box! { #[derive(Debug, Clone, Copy, PartialEq, PartialOrd)] pub struct C, pub enum E { A(u32), S(&'static str), U, N { x: u8, y: u16, }, P(u8, u16), } }
}
fn look<T: ?Sized>(_: &T) {}
fn ask() -> bool { std::env::args().count() > 1 }
"""
SETTING = {
    "box": ("type E = plain::E; type H = TaggedBox<E>; fn mk() -> H { TaggedBox::new::<u32>(7, 0) }"),
    "boxcopy": ("type E = copied::E; type H = TaggedBox<E>; fn mk() -> H { E::A(7).into_tagged_box() }"),
    "cont": ("type E = plain::E; type H = plain::C; fn mk() -> H { H::from(7u32) }"),
    "contcopy": ("type E = copied::E; type H = copied::C; fn mk() -> H { H::from(E::U) }"),
    "ptr": ("type H = TaggedPointer; fn mk() -> H { TaggedPointer::new(64, 1) }"),
}
BOX = {
    "read": ["let _t: Discriminant = {x}.discriminant();", "let _p = {x}.as_ptr::<u32>();", "let _s = format!(\"{:?}\", {x});", "let _e = {x} == {x};",
             "let _o = {x}.partial_cmp(&{x});", "let _c = {x}.clone();", "let _s = format!(\"{:x}\", {x});", "let _q = &{x};", "let _e = {x} <= {x};"],
    "both": ["let _e = {x} == {y};", "let _e = {x} < {y};", "let _o = {x}.partial_cmp(&{y});", "look(&({x} != {y}));"],
    "take": ["drop({x});", "let _v: u32 = unsafe { TaggedBox::into_inner({x}) };", "let _p: *mut u32 = TaggedBox::into_raw({x});",
             "let _b: Box<u32> = unsafe { TaggedBox::into_box({x}) };", "let _e = E::from_tagged_box({x});",
             "std::thread::spawn(move || { look(&{x}); });", "let _v = vec![{x}];"],
    "change": ["let _p = {x}.as_mut_ptr::<u32>();", "unsafe { *{x}.as_mut_ref::<u32>() = 1; }", "let _o = std::mem::replace(&mut {x}, mk());", "{x}.clone_from(&mk());"],
    "view": ["unsafe { E::ref_from_tagged_box(&{x}, |v| look(v)) };", "let mut n = 0; unsafe { E::ref_from_tagged_box(&{x}, |_v| n += 1) }; look(&n);",
             "let s = String::new(); unsafe { E::ref_from_tagged_box(&{x}, |_v| drop(s)) };"],
    "escape": ["let mut out: Option<&E> = None; unsafe { E::ref_from_tagged_box(&{x}, |v| out = Some(v)) }; look(&out);",
               "let mut out: Vec<&E> = Vec::new(); unsafe { E::ref_from_tagged_box(&{x}, |v| out.push(v)) };",
               "unsafe { E::ref_from_tagged_box(&{x}, |v| { std::thread::spawn(move || look(v)); }) };"],
    "viewtake": ["unsafe { E::ref_from_tagged_box(&{x}, |v| { look(v); drop({y}); }) };", "unsafe { E::ref_from_tagged_box(&{x}, |_v| { let _w = E::from_tagged_box({y}); }) };"],
    "viewchange": ["unsafe { E::ref_from_tagged_box(&{x}, |v| { *{y}.as_mut_ref::<u32>() = 1; look(v); }) };", "unsafe { E::ref_from_tagged_box(&{x}, |_v| { let _p = {y}.as_mut_ptr::<u32>(); }) };"],
}
CONT = {
    "read": ["let _s = format!(\"{:?}\", {x});", "let _e = {x} == {x};", "let _o = {x}.partial_cmp(&{x});", "let _c = {x}.clone();", "let _q = &{x};"],
    "both": ["let _e = {x} == {y};", "let _e = {x} < {y};"],
    "take": ["drop({x});", "let _v = {x}.into_inner();", "std::thread::spawn(move || { look(&{x}); });", "let _v = vec![{x}];"],
    "change": ["let _o = std::mem::replace(&mut {x}, mk());", "{x}.clone_from(&mk());"],
}
PTR = {
    "read": ["let _t = {x}.discriminant();", "let _p = {x}.as_ptr::<u32>();", "let _p = {x}.as_mut_ptr::<u32>();", "let _u = {x}.as_u64();", "let _u = {x}.as_raw_u64();",
             "let _s = format!(\"{:?} {:p} {:x}\", {x}, {x}, {x});", "let _e = {x} == {x};", "let _o = {x}.cmp(&{x});", "let _q = &{x};"],
    "both": ["let _e = {x} == {y};", "let _e = {x} < {y};"],
    "take": ["drop({x});", "std::thread::spawn(move || { look(&{x}); });", "let _v = vec![{x}];"],
    "change": ["unsafe { *{x}.as_mut_ref::<u32>() = 1; }", "let _o = std::mem::replace(&mut {x}, mk());"],
}
COMMON = {
    "assign": ["{x} = mk();"], "move": ["{y} = {x};"], "clone": ["{y} = {x}.clone();"], "clonefrom": ["{x}.clone_from(&{y});"],
    "swap": ["std::mem::swap(&mut {x}, &mut {y});"],
    "ref": ["r = unsafe { {x}.as_ref::<u32>() };"], "mref": ["m = unsafe { {x}.as_mut_ref::<u32>() };"],
    "end": ["}"], "reborrow": ["q = &*m;"],
}
USE = {"r": "look(r);", "m": "*m += 1;", "q": "look(q);"}
TABLE = {"box": BOX, "boxcopy": BOX, "cont": CONT, "contcopy": CONT, "ptr": PTR}


class Speaker:
    """Turns abstract statements into Rust; takes the variants in turn."""
    def __init__(self, kind, rng):
        self.t = dict(COMMON, **TABLE[kind])
        self.n = {}
        self.rng = rng

    def variants(self, op):
        o, x, y = op
        if o == "use":
            return [USE[x]]
        if o == "viewuse":
            return ["unsafe { E::ref_from_tagged_box(&%s, |_v| { %s }) };" % (x, USE[y])]
        return [v.replace("{x}", x).replace("{y}", y) for v in self.t[o]]

    def say(self, op):
        v = self.variants(op)
        k = self.n[op[0]] = self.n.get(op[0], self.rng.randrange(len(v))) + 1
        return v[k % len(v)]


def function(i, stmts, over):
    return ("fn p%d() { let mut z = 0u32; let zr = 0u32; let mut r: &u32 = &zr; let mut m: &mut u32 = &mut z; let mut q: &u32 = &zr; { let mut h: H = mk(); let mut g: H; %s%s }"
            % (i, " ".join(stmts), "" if over else " }"))


def flat(ops):
    for o in ops:
        if o[0] in ("if", "while"):
            for part in o[1:]:
                yield from flat(part)
        else:
            yield o


def precise(ops):
    """The compiler relates the lifetimes of m and q in the whole function once q is taken through m
    anywhere: kept to programs in which that loses nothing."""
    f = [o[0] for o in flat(ops)]
    if "reborrow" not in f:
        return True
    if f.count("mref") > 1 or "mref" in f and f.index("mref") > f.index("reborrow"):
        return False
    for o in ops:
        for part in o[1:] if o[0] in ("if", "while") else []:
            g = [i[0] for i in flat(part)]
            # in a branch, the two are kept together; in a loop, each comes before the other
            if "reborrow" in g and "mref" in f and (o[0] == "while" or "mref" not in g) or o[0] == "while" and "mref" in g:
                return False
    return True


def programs(edges, kind, rng, walks):
    """Every edge after a shortest and after another way to its state, and random walks; with the
    edges of statements the compiler refuses in all their variants."""
    sp = Speaker(kind, rng)
    out = {}
    for f, o, t in edges:
        out.setdefault(f, []).append((o, t))
    start = edges[0][0]
    way = {start: []}
    todo = [start]
    for f in todo:
        for o, t in out.get(f, []):
            if t not in way and not json.loads(t)["no"]:
                way[t] = way[f] + [o]
                todo.append(t)
    P = []

    def add(ops, last=None):
        if precise(ops):
            stmts = [sp.say(o) for o in ops[:-1]] + [last or sp.say(ops[-1])]
            P.append((ops, stmts))

    for f in todo:
        some = json.loads(f)["loan"]["q"]["via"] != "-" and TIER == "quick"
        for o, t in out.get(f, []):
            if some and rng.random() > 0.15:
                continue
            vs = sp.variants(o)
            bad = json.loads(t)["no"]
            for v in vs if (bad or len(way[f]) <= 1) else [None]:
                add(way[f] + [o], v)
            if not bad and rng.random() < 0.4:
                # what may and may not come next
                for o2, t2 in out.get(t, []):
                    if o2[0] in ("use", "read", "take", "both", "escape") and rng.random() < (0.5 if TIER == "quick" else 1):
                        add(way[f] + [o, o2])
    for _ in range(walks):
        f, ops = start, []
        for _ in range(rng.randint(3, 9)):
            if not out.get(f):
                break
            good = [e for e in out[f] if not json.loads(e[1])["no"]]
            es = out[f] if rng.random() < 0.25 or not good else good
            o, t = rng.choice(es)
            ops.append(o)
            if json.loads(t)["no"]:
                break
            f = t
        add(ops)
    # programs that branch and loop
    def walk(f, n, good, end=True):
        ops = []
        for _ in range(n):
            es = [e for e in out.get(f, []) if (end or e[0][0] != "end") and (rng.random() > good or not json.loads(e[1])["no"])]
            if not es:
                break
            o, f2 = rng.choice(es)
            ops.append(o)
            if not json.loads(f2)["no"]:
                f = f2
        return ops, f

    for _ in range(walks * 6):
        a, f = walk(start, rng.randint(0, 4), 1, False)
        b, f1 = walk(f, rng.randint(1, 3), 0.95, False)
        if rng.random() < 0.5:
            c, f2 = walk(f, rng.randint(0, 2), 0.95, False)
            d = [("if", b, c)]
            f = rng.choice([f1, f2])
        else:
            d = [("while", b)]
            f = rng.choice([f, f1])
        e, f = walk(f, rng.randint(1, 3), 0.9)
        ops = a + d + e
        if precise(ops):
            say = lambda l: " ".join(sp.say(o) for o in l)
            body = "if ask() { %s } else { %s }" % (say(d[0][1]), say(d[0][2])) if d[0][0] == "if" else "while ask() { %s }" % say(b)
            P.append((ops, [sp.say(o) for o in a] + [body] + [sp.say(o) for o in e]))
    seen, res = set(), []
    for ops, stmts in P:
        k = " ".join(stmts)
        if k not in seen:
            seen.add(k)
            res.append((ops, stmts))
    return res


def lines_of(msg, acc):
    for s in msg.get("spans", []):
        while s:
            if s["file_name"].endswith("src/lib.rs") and "/repo/" not in s["file_name"]:
                acc.setdefault(s["line_start"], s["is_primary"])
            e = s.get("expansion")
            s = e["span"] if e else None
    return acc


def compile_errors(work, name, text):
    """-> {line: [code and message]} for a crate given as text"""
    crate = os.path.join(work, "crate-" + name)
    os.makedirs(os.path.join(crate, "src"))
    with open(os.path.join(crate, "src", "lib.rs"), "w") as f:
        f.write(text)
    with open(os.path.join(crate, "Cargo.toml"), "w") as f:
        f.write(wide.CARGO.replace('"wide"', '"%s"' % name))
    rc, out, err = run(["cargo", "check", "--offline", "--quiet", "--message-format=json", "--manifest-path", os.path.join(crate, "Cargo.toml"),
                        "--target-dir", build_dir("borrow-" + name)], env=env_for("60bits"), timeout=500)
    res = {}
    for l in out.splitlines():
        if not l.startswith("{"):
            continue
        m = json.loads(l)
        if m.get("reason") != "compiler-message" or m["message"]["level"] != "error":
            continue
        m = m["message"]
        if m["message"].startswith("aborting due to") or m["message"].startswith("could not compile"):
            continue
        at = sorted(lines_of(m, {}))
        if not at:
            ok, e = repo_builds()
            if not ok:
                raise ToolError("/repo does not build: " + e[-1500:])
            raise BuildFailed(name, "error: " + m.get("rendered", m["message"]))
        for a in at:
            res.setdefault(a, []).append("%s %s" % ((m.get("code") or {}).get("code", ""), m["message"]))
    if rc != 0 and not res:
        ok, e = repo_builds()
        if not ok:
            raise ToolError("/repo does not build: " + e[-1500:])
        raise BuildFailed(name, err)
    return res


def borrowing(work, rep, r):
    """-> records of programs, what to show for them"""
    graph = {}
    for e in r.printed("EDGE"):
        f, t = json.dumps(e["f"], sort_keys=True), json.dumps(e["t"], sort_keys=True)
        if (f, tuple(e["o"]), t) not in graph.setdefault(e["k"], {}):
            graph[e["k"]][(f, tuple(e["o"]), t)] = None
    walks = 400 if TIER == "quick" else 6000

    def one(kind):
        rng = random.Random("%s-%s" % (SEED, kind))
        P = programs(list(graph[kind]), kind, rng, walks)
        head = PRELUDE + SETTING[kind] + "\n"
        first = head.count("\n") + 1
        errs = compile_errors(work, kind, head + "\n".join(function(i, s, any(o[0] == "end" for o in ops)) for i, (ops, s) in enumerate(P)) + "\n")
        stray = [k for k in errs if not first <= k < first + len(P)]
        if stray:
            raise BuildFailed(kind, "error: " + errs[stray[0]][0])
        recs = []
        for i, (ops, s) in enumerate(P):
            e = errs.get(first + i, [])
            recs.append((dict(what="program", k=kind, prog=ops, accepted=not e), "%s: %s   // %s" % (kind, " ".join(s), "; ".join(e) or "accepted")))
        return recs

    res = []
    for recs in parallel(one, KINDS):
        res += recs
    rep.cov["programs_compiled"] = len(res)
    rep.cov["programs_refused"] = sum(not a["accepted"] for a, _ in res)
    return res


# (name, arguments it needs, call)
CALLS = {
    "ptr.as_ref": "let p = ptr(); let _r: &u32 = <p.as_ref::<u32>()>;",
    "ptr.as_mut_ref": "let mut p = ptr(); let _r: &mut u32 = <p.as_mut_ref::<u32>()>;",
    "ptr.new": "let _p = <TaggedPointer::new(64, 1)>;", "ptr.dangling": "let _p = <TaggedPointer::dangling::<u32>(1)>;",
    "ptr.discriminant": "let p = ptr(); let _ = <p.discriminant()>;", "ptr.as_ptr": "let p = ptr(); let _ = <p.as_ptr::<u32>()>;",
    "ptr.as_mut_ptr": "let p = ptr(); let _ = <p.as_mut_ptr::<u32>()>;", "ptr.as_u64": "let p = ptr(); let _ = <p.as_u64()>;",
    "ptr.as_raw_u64": "let p = ptr(); let _ = <p.as_raw_u64()>;", "ptr.store": "let _ = <TaggedPointer::store_discriminant(1, 1)>;",
    "ptr.fetch": "let _ = <TaggedPointer::fetch_discriminant(1)>;", "ptr.strip": "let _ = <TaggedPointer::strip_discriminant(1)>;",
    "box.as_ref": "let b = mk(); let _r: &u32 = <b.as_ref::<u32>()>;", "box.as_mut_ref": "let mut b = mk(); let _r: &mut u32 = <b.as_mut_ref::<u32>()>;",
    "box.into_inner": "let b = mk(); let _v: u32 = <TaggedBox::into_inner::<u32>(b)>;", "box.into_box": "let b = mk(); let _v: Box<u32> = <TaggedBox::into_box::<u32>(b)>;",
    "box.from_raw": "let p: *mut u32 = Box::into_raw(Box::new(1)); let _b: B = <TaggedBox::from_raw(p, 0)>;",
    "box.new_unchecked": "let _b: B = <TaggedBox::new_unchecked(1u32, 0)>;",
    "box.new": "let _b: B = <TaggedBox::new(1u32, 0)>;", "box.dangling": "let _b: B = <TaggedBox::dangling::<u32>(0)>;",
    "box.discriminant": "let b = mk(); let _ = <b.discriminant()>;", "box.as_ptr": "let b = mk(); let _ = <b.as_ptr::<u32>()>;",
    "box.as_mut_ptr": "let mut b = mk(); let _ = <b.as_mut_ptr::<u32>()>;", "box.into_raw": "let b = mk(); let _ = <TaggedBox::into_raw::<u32>(b)>;",
    "enum.ref_from_tagged_box": "let b = mk(); <plain::E::ref_from_tagged_box(&b, |_| ())>;",
    "enum.into_tagged_box": "let e = plain::E::U; let _b = <e.into_tagged_box()>;", "enum.from_tagged_box": "let b = mk(); let _e = <plain::E::from_tagged_box(b)>;",
    "cont.into_inner": "let c = plain::C::from(1u32); let _e = <c.into_inner()>;", "cont.from": "let _c = <plain::C::from(plain::E::U)>;",
    "cont.from_payload": "let _c = <plain::C::from((1u8, 2u16))>;",
    "cont.forge": "let b = mk(); let _c = <plain::C { value: b }>;", "cont.peek": "let c = plain::C::from(1u32); let _v = &<c.value>;",
    "cont.forge_into": "let b = mk(); let _c: plain::C = <b.into()>;",
}


def calls(work, rep):
    jobs = []
    # errors of an early stage of the compiler hide those of a later one
    late = ("cont.forge", "cont.peek", "cont.forge_into")
    for group, names in (("unsafe", sorted(c for c in CALLS if c not in late)), ("forge", late[:1]), ("peek", late[1:2]), ("forgeinto", late[2:])):
        jobs.append((group, [(c, u) for c in names for u in (False, True)]))

    def one(job):
        group, L = job
        head = PRELUDE + "type B = TaggedBox<plain::E>; fn mk() -> B { TaggedBox::new::<u32>(7, 0) } fn ptr() -> TaggedPointer { TaggedPointer::dangling::<u32>(1) }\n"
        first = head.count("\n") + 1
        text = []
        for i, (c, u) in enumerate(L):
            s = CALLS[c]
            a, b = CALL_AT[c]
            call = s[a + 1:b]
            text.append("fn p%d() { %s%s%s }" % (i, s[:a], "unsafe { %s }" % call if u else call, s[b + 1:]))
        errs = compile_errors(work, group, head + "\n".join(text) + "\n")
        return [(dict(what="call", call=c, unsafe=u, accepted=first + i not in errs), "%s   // %s" % (text[i], "; ".join(errs.get(first + i, [])) or "accepted"))
                for i, (c, u) in enumerate(L)]

    res = []
    for x in parallel(one, jobs):
        res += x
    rep.cov["calls_compiled"] = len(res)
    return res


def span(s):
    """the marked call: from the first < that begins one to the last >"""
    a = next(i for i, ch in enumerate(s) if ch == "<" and s[i - 1] in " &" )
    return a, s.rindex(">")


CALL_AT = {c: span(s) for c, s in CALLS.items()}

TRAITS_MAIN = """#![recursion_limit = "512"]
#![allow(warnings, clippy::all)]
use std::marker::PhantomData;
use std::fmt;
use tagged_box::{tagged_box, TaggedBox};
%s
fn have<T: ?Sized>(l: &[(&str, bool)]) -> String { format!("[{}]", l.iter().filter(|x| x.1).map(|x| format!("\\"{}\\"", x.0)).collect::<Vec<_>>().join(",")) }
macro_rules! have { ($t:ty) => { have::<$t>(&[%s]) } }
%s
fn main() {
%s
}
"""
TRAITS = ["Clone", "Copy", "PartialEq", "Eq", "PartialOrd", "Ord", "Debug", "Display"]
BYHAND = {
    "Clone": "impl Clone for E { fn clone(&self) -> Self { loop {} } }", "Copy": "impl Copy for E {}",
    "PartialEq": "impl PartialEq for E { fn eq(&self, o: &Self) -> bool { true } }", "Eq": "impl Eq for E {}",
    "PartialOrd": "impl PartialOrd for E { fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> { None } }",
    "Ord": "impl Ord for E { fn cmp(&self, o: &Self) -> std::cmp::Ordering { std::cmp::Ordering::Equal } }",
    "Debug": "impl fmt::Debug for E { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { Ok(()) } }",
    "Display": "impl fmt::Display for E { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { Ok(()) } }",
}


def traits(work, rep):
    r = tlc("TraitsGen")
    if not r.ok():
        raise ToolError("TraitsGen: " + r.out[-1500:])
    rep.add_tlc(r)
    D = r.printed("DECL")
    probes = []
    for t in TRAITS:
        path = "fmt::" + t if t in ("Debug", "Display") else t
        probes.append("struct P%s<T: ?Sized>(PhantomData<T>); trait N%s { const IS: bool = false; } impl<T: ?Sized> N%s for P%s<T> {} impl<T: ?Sized + %s> P%s<T> { const IS: bool = true; }"
                      % (t, t, t, t, path, t))
    mods, mains = [], []
    shapes = ["U, A(u32), N { x: u8, y: u16 },", "A(u8, u16), B(u64),", "N { x: u32 }, Z(),"]
    for i, d in enumerate(D):
        der = "#[derive(%s)]" % ", ".join(d["d"]) if d["d"] else ""
        mods.append("mod m%d { use super::*; tagged_box! { %s pub struct C, pub enum E { %s } } %s }" % (i, der, shapes[i % 3], " ".join(BYHAND[t] for t in d["h"])))
        mains.append("    println!(\"{{\\\"what\\\":\\\"traits\\\",\\\"derived\\\":%s,\\\"byhand\\\":%s,\\\"enum\\\":{},\\\"box\\\":{},\\\"cont\\\":{}}}\", have!(m%d::E), have!(TaggedBox<m%d::E>), have!(m%d::C));"
                     % (json.dumps(d["d"]).replace('"', '\\"'), json.dumps(d["h"]).replace('"', '\\"'), i, i, i))
    crate = os.path.join(work, "crate-traits")
    os.makedirs(os.path.join(crate, "src"))
    with open(os.path.join(crate, "src", "main.rs"), "w") as f:
        f.write(TRAITS_MAIN % ("\n".join(probes), ", ".join('("%s", P%s::<$t>::IS)' % (t, t) for t in TRAITS), "\n".join(mods), "\n".join(mains)))
    with open(os.path.join(crate, "Cargo.toml"), "w") as f:
        f.write(wide.CARGO.replace('"wide"', '"traits"'))
    exe = cargo_build(crate, build_dir("traits"), "debug", "60bits", bin="traits")
    rc, out, err = run([exe], env=env_for())
    if rc != 0:
        raise ToolError("traits: " + err[-500:])
    rep.cov["declarations_traits"] = len(D)
    return [(json.loads(l), mods[i]) for i, l in enumerate(out.splitlines())]


LEND_PRELUDE = """#![recursion_limit = "512"]
#![allow(warnings, clippy::all)]
use std::cell::Cell;
use std::mem::ManuallyDrop;
use tagged_box::{TaggableInner, TaggedBox};
#[derive(Debug, Clone, PartialEq)]
pub enum L<'a> { S(&'a u32), U }
impl<'a> TaggableInner for L<'a> {
    fn into_tagged_box(self) -> TaggedBox<Self> { match self { L::S(r) => TaggedBox::new(r, 0), L::U => TaggedBox::dangling::<()>(1) } }
    fn from_tagged_box(tagged: TaggedBox<Self>) -> Self { unsafe { if tagged.discriminant() == 0 { L::S(TaggedBox::into_inner(tagged)) } else { L::U } } }
    unsafe fn ref_from_tagged_box<F>(tagged: &TaggedBox<Self>, callback: F) where F: FnOnce(&Self) { unsafe {
        if tagged.discriminant() == 0 { let v = ManuallyDrop::new(L::S(*tagged.as_ref::<&'a u32>())); callback(&v) } else { callback(&L::U) } } }
}
fn look<T: ?Sized>(_: &T) {}
"""
LEND = {
    "open": ["{ let mut v2 = 2u32;"], "close": ["}"], "lend1": ["b = L::S(&v1).into_tagged_box();"], "lend2": ["b = L::S(&v2).into_tagged_box();"],
    "use": ["look(&b);", "let _e = b == b;", "let _s = format!(\"{:?}\", b);", "let _d = b.discriminant();", "let _p = b.as_ptr::<u32>();"],
    "view": ["unsafe { L::ref_from_tagged_box(&b, |v| look(v)) };"], "clone": ["look(&b.clone());"],
    "take": ["e = L::from_tagged_box(b);"], "useTaken": ["look(&e);", "if let L::S(r) = &e { look(*r); }"], "write1": ["v1 += 1;"], "write2": ["v2 += 1;"],
}
BEHIND = {"value": "%s", "shared": "&'z %s", "exclusive": "&'z mut %s", "vec": "Vec<%s>", "cell": "Cell<%s>"}


def lending(work, rep):
    r = tlc("LendGen")
    if not r.ok():
        raise ToolError("LendGen: " + r.out[-1500:])
    rep.add_tlc(r)
    with open(os.path.join(SPEC, "LendGen.cfg")) as f:
        cfg = f.read()
    for bug in ("turned", "blind"):
        path = os.path.join(work, "Lend-" + bug)
        with open(path + ".cfg", "w") as f:
            f.write(cfg.replace('"none"', '"%s"' % bug).replace("ACTION_CONSTRAINT Emit\n", ""))
        m = tlc("LendGen", path)
        if m.ok() or "is violated" not in m.out and "equal to FALSE" not in m.out:
            raise ToolError("LendGen does not notice the fault %s" % bug)
        rep.cov.setdefault("design_faults_noticed", []).append("Lend/" + bug)
    rng = random.Random("%s-lend" % SEED)
    # something is lent, and looked at afterwards
    LOOKS = ("use", "view", "clone", "take", "useTaken")
    P = [p for p in r.printed("LEND") if p[-1] in LOOKS and any(o.startswith("lend") for o in p)]
    P.sort()
    short = [p for p in P if len(p) <= 4]
    long = [p for p in P if len(p) > 4]
    P = short + rng.sample(long, min(len(long), 1500 if TIER == "quick" else 15000))
    T = [(b, x, y) for b in sorted(BEHIND) for x in (1, 2, 3) for y in (1, 2, 3)]
    name = {1: "'static", 2: "'a", 3: "'b"}
    text, recs = [], []
    for i, p in enumerate(P):
        body = " ".join(rng.choice(LEND[o]) for o in p)
        after = " }" if "open" in p and "close" not in p else ""
        text.append("fn p%d() { let mut v1 = 1u32; let mut b = L::U.into_tagged_box(); let e; if false { e = L::U; look(&e); return; } %s%s }" % (i, body, after)
                    if "take" not in p else "fn p%d() { let mut v1 = 1u32; let mut b = L::U.into_tagged_box(); let e; %s%s }" % (i, body, after))
        recs.append(dict(what="lend", prog=p))
    for i, (b, x, y) in enumerate(T):
        text.append("fn t%d<'z, 'a: 'b, 'b>(x: %s) -> %s { x }" % (i, BEHIND[b] % ("TaggedBox<L<%s>>" % name[x]), BEHIND[b] % ("TaggedBox<L<%s>>" % name[y])))
        recs.append({"what": "convert", "behind": b, "from": x, "to": y})
    first = LEND_PRELUDE.count("\n") + 1
    errs = compile_errors(work, "lend", LEND_PRELUDE + "\n".join(text) + "\n")
    stray = [k for k in errs if not first <= k < first + len(text)]
    if stray:
        raise BuildFailed("lend", "error: " + errs[stray[0]][0])
    rep.cov["lending_programs"] = len(P)
    rep.cov["conversions"] = len(T)
    for i, rec in enumerate(recs):
        rec["accepted"] = first + i not in errs
    return [(rec, "%s   // %s" % (text[i], "; ".join(errs.get(first + i, [])) or "accepted")) for i, rec in enumerate(recs)]


def check(rep):
    work = work_dir("C16")
    r = tlc("BorrowGen")
    if not r.ok():
        raise ToolError("BorrowGen: " + r.out[-1500:])
    rep.add_tlc(r)
    with open(os.path.join(SPEC, "BorrowGen.cfg")) as f:
        cfg = f.read()
    for bug in ("copybox", "unbound", "outlives"):
        path = os.path.join(work, "Borrow-" + bug)
        with open(path + ".cfg", "w") as f:
            f.write(cfg.replace('"none"', '"%s"' % bug).replace("ACTION_CONSTRAINT Emit\n", ""))
        m = tlc("BorrowGen", path)
        if m.ok() or "is violated" not in m.out:
            raise ToolError("BorrowGen does not notice the fault %s" % bug)
        rep.cov.setdefault("design_faults_noticed", []).append("Borrow/" + bug)
    parts = []

    def guarded(fn, *a):
        try:
            return fn(*a)
        except BuildFailed as b:
            ok, e = repo_builds()
            if not ok:
                raise ToolError("/repo does not build: " + e[-1500:])
            rep.violation("a program using the public interface does not compile: %s" % b.errors(), b.err[-3000:])
            return []

    for x in parallel(lambda f: guarded(f[0], *f[1:]), [(borrowing, work, rep, r), (calls, work, rep), (traits, work, rep), (lending, work, rep)], 4):
        parts += x
    path = os.path.join(work, "borrow.ndjson")
    with open(path, "w") as f:
        for rec, _ in parts:
            f.write(json.dumps(rec) + "\n")
    j = tlc("BorrowTrace", env={"TRACE": path})
    if not j.ok():
        raise ToolError("BorrowTrace: " + j.out[-1500:])
    rep.add_tlc(j)
    rep.traces += len(parts)
    rep.samples += [rec for rec, _ in parts[:4000:1300]]
    for _, l, what in j.printed("VIOL"):
        rep.violation(json.dumps(what), parts[l - 1][1])
