"""C17: declarations are written into all the places spec/Scope.tla walks through,
with and without the standard library, among items with misleading names; what
they declare is named from everywhere. The compiler's answers and what the
programs give back are judged by ScopeTrace.tla."""
import random

from common import *
import borrow
import wide

# names a declaration may not rely on: not the core prelude's, and not the language's
TYPES = ["Box", "String", "Vec", "ToString", "ToOwned", "TaggedBox", "TaggedPointer", "TaggableInner", "TaggableContainer", "Discriminant", "ManuallyDrop",
         "MaybeUninit", "PhantomData", "NonNull", "Layout", "Ordering", "Formatter", "Container", "Item", "Inner", "Value", "T", "U", "F", "K", "R", "Ptr", "Struct"]
# the library's own, which a declaration may import where nobody else sees it
OWN = ["TaggedBox", "TaggedPointer", "TaggableInner", "TaggableContainer", "Discriminant"]
MODULES = ["std", "alloc", "mem", "ptr", "tagged_box", "fmt", "boxed", "discriminant", "cmp", "marker"]
MACROS = ["vec", "format", "println"]
BARE = "(u8,)"
OUT = "[u64; 6]"
INTO = [103, 247, 300, 457, 500, 607]


def declaration(lib, pl, derives, cont, enum, comma=","):
    return ("%s::tagged_box! { %spub struct %s, pub enum %s { P(i64), Q(i64, %s), W, N { x: i64, y: %s%s }, X(), O(%s), } }"
            % (lib, "#[derive(Debug, Clone, PartialEq)] " if derives else "", cont, enum, pl, pl, comma, pl))


def there_and_back(lib, pl, cont, enum):
    v = "(7u8,)" if pl == BARE else "%s(7)" % pl
    text = ("{ let mk = |i: usize| -> C { match i { 0 => C::from(3i64), 1 => C::from((4i64, %s)), 2 => C::from(E::W), 3 => C::from(E::N { x: 5, y: %s }), 4 => C::from(E::X()), _ => C::from(%s) } }; "
            "let mut out = [0u64; 6]; for i in 0..6usize { out[i] = match %s::TaggableContainer::into_inner(mk(i)) { E::P(a) => 100 + a as u64, E::Q(a, p) => 200 + a as u64 * 10 + p.0 as u64, "
            "E::W => 300, E::N { x, y } => 400 + x as u64 * 10 + y.0 as u64, E::X() => 500, E::O(p) => 600 + p.0 as u64 }; } out }" % (v, v, v, lib))
    return re.sub(r"\bE::", enum + "::", re.sub(r"\bC\b", cont, text))


def item(name, derives):
    if name in TYPES:
        return "%spub struct %s(pub u8);" % ("#[derive(Debug, Clone, PartialEq)] " if derives else "", name)
    if name in MODULES:
        return "pub mod %s {}" % name
    return "macro_rules! %s { (mine) => {} }" % name


def put(place, n, I, X):
    """A list of items and an expression, in a place of that kind -> items and expression around it"""
    return {
        "module": ("pub mod m%d { %s pub fn go() -> %s { %s } }" % (n, I, OUT, X), "m%d::go()" % n),
        "function": ("fn f%d() -> %s { %s %s }" % (n, OUT, I, X), "f%d()" % n),
        "generic": ("fn g%d<T, F: Copy, U, const K: usize>(_: T, _: F, _: U) -> %s { %s %s }" % (n, OUT, I, X), "g%d::<u8, u16, i64, 3>(1, 2, 3)" % n),
        "method": ("struct S%d<T>(T); impl<T> S%d<T> { fn go(&self) -> %s { %s %s } }" % (n, n, OUT, I, X), "S%d(1u8).go()" % n),
        "traitmethod": ("trait T%d { fn go(&self) -> %s; } impl T%d for u8 { fn go(&self) -> %s { %s %s } }" % (n, OUT, n, OUT, I, X), "T%d::go(&1u8)" % n),
        "block": ("", "{ %s %s }" % (I, X)),
        "closure": ("", "(|| -> %s { %s %s })()" % (OUT, I, X)),
        "constant": ("const K%d: fn() -> %s = { fn go() -> %s { %s %s } go };" % (n, OUT, OUT, I, X), "K%d()" % n),
        "macro": ("macro_rules! s%d { () => { %s } } s%d!();" % (n, I, n), X),
        "unsafe": ("", "unsafe { %s %s }" % (I, X)),
    }[place]


def program(i, lib, path, names, called, derives):
    types = [n for n in names if n in TYPES and n not in OWN]
    pl = types[0] if types else BARE
    I = " ".join(item(n, derives) for n in names) + " " + declaration(lib, pl, derives, *called, comma="," if i % 2 else "")
    # others beside it, one with tuples of all lengths
    if i % 5 == 1:
        I += " " + declaration(lib, BARE, derives, "C2", "E2", comma="" if i % 2 else ",")
    if i == 2:
        I += " %s::tagged_box! { pub struct C3, pub enum E3 { %s } }" % (lib, " ".join("T%d(%s)," % (k, ", ".join(["u8"] * k)) for k in range(2, 33)))
    X = there_and_back(lib, pl, *called)
    for n, p in reversed(list(enumerate(path))):
        I, X = put(p, n, I, X)
    return "pub mod p%d { %s pub fn go() -> %s { %s } }" % (i, I, OUT, X)


def chosen(paths, world):
    """-> [(path, names of other items, those of container and enum)]"""
    rng = random.Random("%s-%s" % (SEED, world))
    L = [(p, []) for p in paths if len(p) <= 2]
    every = TYPES + MODULES + MACROS
    short = [p for p in paths if len(p) <= 1]
    L += [(rng.choice(short), [n]) for n in every]
    some = lambda: rng.sample(TYPES, rng.randint(0, 4)) + rng.sample(MODULES + MACROS, rng.randint(0, 4))
    deep = [p for p in paths if len(p) > 1]
    L += [(p, some()) for p in (rng.sample(deep, 60) if TIER == "quick" else deep)]
    if TIER != "quick":
        L += [(p, [n]) for p in short for n in every]
    L += [(rng.choice(short), TYPES + MODULES + MACROS)]
    L = [(p, n, ("C", "E")) for p, n in L]
    CALLED = [n for n in TYPES if n not in OWN]
    for n in CALLED:
        L += [(rng.choice(short), [], c) for c in ((n, "E"), ("C", n))]
    pairs = [rng.sample(CALLED, 2) for _ in range(10 if TIER == "quick" else 200)]
    L += [(rng.choice(paths), [n for n in some() if n not in c], tuple(c)) for c in pairs]
    return L


NOSTD = """#![no_std]
#![allow(warnings, clippy::all)]
extern "C" { fn aligned_alloc(a: usize, n: usize) -> *mut u8; fn free(p: *mut u8); fn abort() -> !; }
struct A;
unsafe impl core::alloc::GlobalAlloc for A {
    unsafe fn alloc(&self, l: core::alloc::Layout) -> *mut u8 { unsafe { let a = if l.align() < 16 { 16 } else { l.align() }; aligned_alloc(a, (l.size() + a - 1) / a * a) } }
    unsafe fn dealloc(&self, p: *mut u8, _: core::alloc::Layout) { unsafe { free(p) } }
}
#[global_allocator]
static ALLOC: A = A;
#[panic_handler]
fn panic(_: &core::panic::PanicInfo) -> ! { unsafe { abort() } }
"""
STRICT = """#![allow(unused, non_camel_case_types, non_local_definitions)]
#![deny(deprecated, future_incompatible)]
#![forbid(unsafe_code)]
"""
NOSTD_MAIN = """#include <stdio.h>
void rust_eh_personality(void) {} /* nothing unwinds, but the library of the toolchain mentions it */
extern void run(unsigned i, unsigned long long *out);
int main(void) { for (unsigned i = 0; i < %dU; i++) { unsigned long long o[6]; run(i, o); printf("[%%llu,%%llu,%%llu,%%llu,%%llu,%%llu]\\n", o[0], o[1], o[2], o[3], o[4], o[5]); } return 0; }
"""
CARGO = """[package]
name = "%s"
version = "0.0.0"
edition = "%s"
[lib]
crate-type = [%s]
%s[dependencies]
%s
[profile.dev]
debug = 0
incremental = false
panic = "%s"
[workspace]
"""


def write(crate, files):
    for n, t in files.items():
        os.makedirs(os.path.dirname(os.path.join(crate, n)), exist_ok=True)
        with open(os.path.join(crate, n), "w") as f:
            f.write(t)


def messages(crate, what, target, verb, lints=(), strict=False):
    """-> {line of src/lib.rs: [errors, and warnings of these lints]}"""
    rc, out, err = run(["cargo", verb, "--offline", "--lib", "--message-format=json", "--manifest-path", os.path.join(crate, "Cargo.toml"), "--target-dir", target],
                       env=env_for("60bits", **({"RUSTFLAGS": ""} if strict else {"RUSTFLAGS": "-A semicolon_in_expressions_from_macros"} if lints else {})), timeout=500)
    res, stray = {}, ""
    for l in out.splitlines():
        if not l.startswith("{"):
            continue
        m = json.loads(l)
        if m.get("reason") != "compiler-message":
            continue
        m = m["message"]
        if m["level"] != "error" and (m.get("code") or {}).get("code") not in lints:
            continue
        if m["message"].startswith("aborting due to") or m["message"].startswith("could not compile"):
            continue
        at = borrow.lines_of(m, {})
        if not at and m["level"] == "error":
            stray = stray or "error: " + (m.get("rendered") or m["message"])
        for a in sorted(at):
            res.setdefault(a, []).append("%s %s" % ((m.get("code") or {}).get("code", ""), m["message"]))
    if rc != 0 and not res or stray:
        ok, e = repo_builds()
        if not ok:
            raise ToolError("/repo does not build: " + e[-1500:])
        raise BuildFailed(what, stray or err)
    return res


def places(work, rep, paths):
    def one(world):
        lib = "::renamed" if world == "renamed" else "::tagged_box"
        dep = 'renamed = { package = "tagged-box", path = "/repo" }' if world == "renamed" else 'tagged-box = { path = "/repo" }'
        L = chosen([p for p in paths if world != "strict" or "unsafe" not in p], world)
        text = [program(i, lib, p, n, c, i % 3 != 0) for i, (p, n, c) in enumerate(L)]
        crate = os.path.join(work, "crate-" + world)
        target = build_dir("scope-" + world)
        head = NOSTD if world == "nostd" else STRICT if world == "strict" else "#![allow(warnings, clippy::all)]\n"
        if world == "std2015":
            head += "extern crate tagged_box;\n"
        head = "#![recursion_limit = \"512\"]\n" + head
        first = head.count("\n") + 1
        arms = " ".join("%d => p%d::go()," % (i, i) for i in range(len(L)))
        if world == "nostd":
            tail = "#[no_mangle] pub extern \"C\" fn run(i: u32, out: *mut [u64; 6]) { let r = match i { %s _ => [0; 6] }; unsafe { *out = r } }\n" % arms
        else:
            tail = "pub fn run(i: u32) -> [u64; 6] { match i { %s _ => [0; 6] } }\n" % arms
        edition = world[3:] if world.startswith("std") else "2021"
        write(crate, {"src/lib.rs": head + "\n".join(text) + "\n" + tail,
                      "Cargo.toml": CARGO % ("scope", edition, '"staticlib"' if world == "nostd" else '"rlib"',
                                             "" if world == "nostd" else "[[bin]]\nname = \"scope_run\"\npath = \"src/run.rs\"\n", dep, "abort" if world == "nostd" else "unwind")})
        if world == "nostd":
            write(crate, {"main.c": NOSTD_MAIN % len(L)})
        else:
            write(crate, {"src/run.rs": "%sfn main() { for i in 0..%du32 { println!(\"{:?}\", scope::run(i)); } }\n" % ("extern crate scope;\n" if edition == "2015" else "", len(L))})
        errs = messages(crate, world, target, "build" if world == "nostd" else "check", strict=world == "strict")
        stray = [k for k in errs if not first <= k < first + len(L)]
        if stray:
            raise BuildFailed(world, "error: " + errs[stray[0]][0])
        recs = []
        for i, (p, n, c) in enumerate(L):
            e = errs.get(first + i, [])
            recs.append((dict(what="place", world=world, path=p, names=n, called=c, accepted=not e), "%s: %s   // %s" % (world, text[i], "; ".join(e) or "accepted")))
        if errs:
            return recs
        if world == "nostd":
            exe = os.path.join(crate, "run")
            rc, out, err = run(["gcc", "-o", exe, os.path.join(crate, "main.c"), os.path.join(target, "debug", "libscope.a")], timeout=200)
            if rc != 0:
                raise BuildFailed(world, err)
        else:
            exe = cargo_build(crate, target, "debug", "60bits", bin="scope_run")
        rc, out, err = run([exe], env=env_for(), timeout=60)
        lines = out.splitlines()
        for i, (p, n, c) in enumerate(L):
            got = json.loads(lines[i]) if i < len(lines) else []
            recs.append((dict(what="run", world=world, path=p, names=n, called=c, into=INTO, out=got), "%s: %s   // gave %s %s" % (world, text[i], got, "" if lines else err[-200:])))
            if i >= len(lines):
                break
        return recs

    res = []
    for recs in parallel(one, WORLDS, 7):
        res += recs
    rep.cov["declarations_placed"] = sum(a["what"] == "place" for a, _ in res)
    rep.cov["declarations_run"] = sum(a["what"] == "run" for a, _ in res)
    return res


WORLDS = ["nostd", "std2015", "std2018", "std2021", "std2024", "renamed", "strict"]
LEVEL = {"private": "", "self": "pub(self)", "super": "pub(super)", "ina": "pub(in crate::a)", "crate": "pub(crate)", "pub": "pub"}


def naming(work, rep, Q):
    """Q: [(declaration, point)]"""
    decls = []
    for d, _ in Q:
        if d not in decls:
            decls.append(d)
    points = sorted({tuple(p) for _, p in Q} | {tuple(d[0]) for d in decls})
    inside = [p for p in points if p != ("o",)]
    asks = [(decls.index(d), tuple(p), w) for d, p in Q for w in ("container", "enum")]
    shape = ["A(u32), N { x: u8 }, U,", "A(u8, u16), B(),", "Z,"]

    def path(i, w, root):
        return "::".join([root] + list(decls[i][0][1:]) + ["%s%d" % ("C" if w == "container" else "E", i)])

    def crate_text(with_asks):
        lines, at, own = ["#![allow(warnings, clippy::all)]"], {}, {}

        def module(p):
            for i, d in enumerate(decls):
                if tuple(d[0]) == p:
                    own[len(lines) + 1] = i
                    lines.append("::tagged_box::tagged_box! { %s struct C%d, %s enum E%d { %s } }" % (LEVEL[d[1]], i, LEVEL[d[2]], i, shape[i % 3]))
            for j, (i, q, w) in enumerate(asks):
                if q == p and with_asks:
                    at[len(lines) + 1] = j
                    lines.append("fn n%d() { let _: Option<%s> = None; }" % (j, path(i, w, "crate")))
            for q in inside:
                if q[:-1] == p:
                    lines.append("pub mod %s {" % q[-1])
                    module(q)
                    lines.append("}")

        module(("k",))
        return "\n".join(lines) + "\n", at, own

    def questions(name, text, at, own, dep):
        crate = os.path.join(work, "crate-" + name)
        write(crate, {"src/lib.rs": text, "Cargo.toml": CARGO % (name, "2021", '"rlib"', "", dep, "unwind")})
        errs = messages(crate, name, build_dir("scope-names"), "check")
        for k in errs:
            if k in own:
                # the declaration itself
                recs.append((dict(what="place", world="std2021", path=[], names=[], called=["C", "E"], accepted=False), "%s   // %s" % (text.splitlines()[k - 1], "; ".join(errs[k]))))
            elif k not in at:
                raise BuildFailed(name, "error: " + errs[k][0])
        lines = text.splitlines()
        for k, j in at.items():
            i, p, w = asks[j]
            e = errs.get(k, [])
            recs.append((dict(what="name", decl=decls[i], item=w, accepted=not e, **{"from": list(p)}),
                         "%s struct C%d, %s enum E%d declared in %s; in %s: %s   // %s" % (LEVEL[decls[i][1]], i, LEVEL[decls[i][2]], i, "::".join(decls[i][0]), "::".join(p), lines[k - 1], "; ".join(e) or "accepted")))

    recs = []
    text, at, own = crate_text(True)
    dep = 'tagged-box = { path = "/repo" }'
    questions("names", text, at, own, dep)
    # and from another crate
    text, _, own = crate_text(False)
    write(os.path.join(work, "crate-k"), {"src/lib.rs": text, "Cargo.toml": CARGO % ("k", "2021", '"rlib"', "", dep, "unwind")})
    lines, at = ["#![allow(warnings, clippy::all)]"], {}
    for j, (i, p, w) in enumerate(asks):
        if p == ("o",):
            at[len(lines) + 1] = j
            lines.append("fn n%d() { let _: Option<%s> = None; }" % (j, path(i, w, "k")))
    if not any(r["what"] == "place" for r, _ in recs):
        questions("o", "\n".join(lines) + "\n", at, {}, 'k = { path = "../crate-k" }')
    rep.cov["names_tried"] = sum(r["what"] == "name" for r, _ in recs)
    return recs


ATTRIBUTES = {"must_use": "{m}::{f}();", "deprecated": "let _: core::option::Option<{m}::{t}> = None;"}


def attributes():
    """attributes of a declaration, noticed through the lints they set off"""
    lines, at = ["#![warn(unused_must_use, deprecated)]"], {}
    der = "#[derive(Debug, Clone)]"
    for a, use in ATTRIBUTES.items():
        for n, (given, attrs) in enumerate([(True, "#[%s]" % a), (False, ""), (True, "%s #[%s]" % (der, a)), (True, "#[%s] %s" % (a, der)), (False, der),
                                            (True, "/// documented\n%s #[derive(PartialEq)] #[allow(dead_code)] #[%s] #[allow(unused)]" % (der, a))]):
            m = "%s_%d" % (a, n)
            lines += ("#[allow(deprecated)] pub mod %s { ::tagged_box::tagged_box! { %s pub struct C, pub enum E { A(u32), U, } } pub fn c() -> C { C::from(1u32) } pub fn e() -> E { E::U } }"
                      % (m, attrs)).split("\n")
            for w, f, t in (("container", "c", "C"), ("enum", "e", "E")):
                at[len(lines) + 1] = (a, given, w)
                lines.append("pub fn %s_%s() { %s }" % (m, f, use.format(m=m, f=f, t=t)))
    return lines, at


def attribute_questions(work, rep):
    lines, at = attributes()
    crate = os.path.join(work, "crate-attributes")
    write(crate, {"src/lib.rs": "\n".join(lines) + "\n", "Cargo.toml": CARGO % ("attributes", "2021", '"rlib"', "", 'tagged-box = { path = "/repo" }', "unwind")})
    errs = messages(crate, "attributes", build_dir("scope-attributes"), "check", ("unused_must_use", "deprecated"))
    recs = []
    for k, (a, given, w) in at.items():
        e = errs.get(k, [])
        recs.append((dict(what="attribute", attribute=a, given=given, item=w, noticed=bool(e)), "%s   // %s" % (lines[k - 1], "; ".join(e) or "nothing")))
    for k in errs:
        if k not in at:
            raise BuildFailed("attributes", "error: " + errs[k][0])
    return recs


def check(rep):
    work = work_dir("C17")
    r = tlc("ScopeGen")
    if not r.ok():
        raise ToolError("ScopeGen: " + r.out[-1500:])
    rep.add_tlc(r)
    with open(os.path.join(SPEC, "ScopeGen.cfg")) as f:
        cfg = f.read()
    for bug in ("open", "closed", "nonest"):
        path = os.path.join(work, "Scope-" + bug)
        with open(path + ".cfg", "w") as f:
            f.write(cfg.replace('"none"', '"%s"' % bug).replace("ACTION_CONSTRAINT Emit\n", ""))
        m = tlc("ScopeGen", path)
        if m.ok() or "is violated" not in m.out:
            raise ToolError("ScopeGen does not notice the fault %s" % bug)
        rep.cov.setdefault("design_faults_noticed", []).append("Scope/" + bug)
    paths, Q = [[]], []
    for p in r.printed("PLACE"):
        if p not in paths:
            paths.append(p)
    for q in r.printed("NAME"):
        q = (q["d"], q["p"])
        if q not in Q:
            Q.append(q)
    log("%d nests of places, %d questions of naming" % (len(paths), len(Q)))
    parts = []

    def guarded(fn, *a):
        try:
            return fn(*a)
        except BuildFailed as b:
            ok, e = repo_builds()
            if not ok:
                raise ToolError("/repo does not build: " + e[-1500:])
            rep.violation("a declaration does not compile (%s): %s" % (fn.__name__, b.errors()), b.err[-3000:])
            return []

    for x in parallel(lambda f: guarded(f[0], *f[1:]), [(places, work, rep, paths), (naming, work, rep, Q), (attribute_questions, work, rep)], 3):
        parts += x
    path = os.path.join(work, "scope.ndjson")
    with open(path, "w") as f:
        for rec, _ in parts:
            f.write(json.dumps(rec) + "\n")
    j = tlc("ScopeTrace", env={"TRACE": path})
    if not j.ok():
        raise ToolError("ScopeTrace: " + j.out[-1500:])
    rep.add_tlc(j)
    rep.traces += len(parts)
    rep.samples += [rec for rec, _ in parts[:4000:1300]]
    for _, l, what in j.printed("VIOL"):
        rep.violation(json.dumps(what), parts[l - 1][1])
