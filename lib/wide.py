"""Enums with as many variants as there are tags, and with more (C02)."""
import os
import re

from common import *


def kinds_of(n, room, every):
    """What each of n variants is like. The last ones are of the four kinds, or
    those beyond the last tag are of every kind and arity."""
    K = {i: ("unit", []) for i in range(n)}
    four = [("unit", []), ("tuple", ["u64"]), ("named", ["u32", "u8"]), ("tuple", ["u8", "u64", "u8"])]
    if every:
        beyond = [("namedc", ["u8", "u64"]), ("empty", [])] + four[1:3] + [("tuple", ["u16"] * k) for k in range(2, 33)]
        beyond += [("named", ["u16"] * k) for k in (1, 3, 5, 8)] + [("namedc", ["u8"] * k) for k in (1, 3, 5, 8)]
        for i in range(room, n):
            K[i] = beyond[i - room] if i - room < len(beyond) else ("unit", [])
    else:
        for j, k in enumerate(four):
            if n - 1 - j >= 0:
                K[n - 1 - j] = k
        if n > 6:
            K[1], K[2], K[3] = ("tuple", ["u8", "u64", "u16"]), ("tuple", ["u32"]), ("namedc", ["u32", "u8"])
    return K


def program(n, room, every=False):
    kinds = kinds_of(n, room, every)
    decl, posarms, make = [], [], []
    tries = sorted(p for p in {0, 1, 2, 3, n // 2, room - 2, room - 1} | set(range(room, n)) | {n - 1, n - 2} if 0 <= p < n)
    for i in range(n):
        k, ts = kinds[i]
        m = ["m%d" % j for j in range(len(ts))]
        args = ["%d" % (7 + 3 * j + i % 5) for j in range(len(ts))]
        ok = "assert!(%s, \"content\");" % " && ".join("*%s == %s" % (x, y) for x, y in zip(m, args)) if ts else ""
        if k in ("unit", "empty"):
            p = "E::V%d%s" % (i, "()" if k == "empty" else "")
            decl.append("V%d%s," % (i, "()" if k == "empty" else ""))
            e = p
        elif k == "tuple":
            decl.append("V%d(%s)," % (i, ", ".join(ts)))
            p, e = "E::V%d(%s)" % (i, ", ".join(m)), "E::V%d(%s)" % (i, ", ".join(args))
        else:
            decl.append("V%d { %s%s }," % (i, ", ".join("%s: %s" % x for x in zip(m, ts)), "," if k == "namedc" else ""))
            p, e = "E::V%d { %s }" % (i, ", ".join(m)), "E::V%d { %s }" % (i, ", ".join("%s: %s" % x for x in zip(m, args)))
        posarms.append("%s => { %s %d }" % (p, ok, i))
        if i in tries:
            make.append("%d => %s," % (i, e))
    return """#![recursion_limit = "8192"]
use std::panic::catch_unwind;
use tagged_box::{tagged_box, TaggableContainer, TaggableInner};
tagged_box! {
    struct C, enum E {
        %s
    }
}
fn pos(e: &E) -> i64 {
    match e {
        %s
    }
}
fn make(i: usize) -> E {
    match i {
        %s
        _ => unreachable!(),
    }
}
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let mut out = Vec::new();
    for &i in &%s {
        // the ways back for each of the two ways in
        for way in 0..10 {
            let r = catch_unwind(|| {
                let b = if way < 5 { make(i).into_tagged_box() } else { C::from(make(i)).value };
                (b.discriminant() as i64, b)
            });
            let r = match r {
                Ok(r) => r,
                Err(_) => { out.push(format!("{{\\"pos\\":{},\\"res\\":\\"panic\\",\\"tag\\":0,\\"back\\":0}}", i)); continue; }
            };
            let tag = r.0;
            let b = r.1;
            let back = catch_unwind(move || match way %% 5 {
                0 => pos(&E::from_tagged_box(b)),
                1 => { let mut p = -2; unsafe { E::ref_from_tagged_box(&b, |e| p = pos(e)) }; p }
                2 => pos(&C { value: b }.into_inner()),
                3 => pos(&C::from(E::from_tagged_box(b)).into_inner()),
                _ => pos(&E::from_tagged_box(E::from_tagged_box(b).into_tagged_box())),
            }).unwrap_or(-1);
            out.push(format!("{{\\"pos\\":{},\\"res\\":\\"ok\\",\\"tag\\":{},\\"back\\":{}}}", i, tag, back));
        }
    }
    println!("{{\\"op\\":\\"wide\\",\\"n\\":%d,\\"compiled\\":true,\\"tries\\":[{}]}}", out.join(","));
}
""" % ("\n        ".join(decl), "\n        ".join(posarms), "\n        ".join(make), tries, n)


CARGO = """[package]
name = "wide"
version = "0.0.0"
edition = "2018"
[dependencies]
tagged-box = { path = "/repo" }
[profile.dev]
debug = 0
incremental = false
[profile.release]
debug = 0
incremental = false
[workspace]
"""


def run_wide(work, jobs):
    """jobs: [(width, profile, n)], n negative for variants of every kind beyond the
    last tag -> {(width, profile): [event lines]}"""
    def one(job):
        w, p, n = job
        every, n = n < 0, abs(n)
        crate = os.path.join(work, "wide-%d-%s%d-%s" % (w, "e" if every else "", n, p))
        os.makedirs(os.path.join(crate, "src"))
        with open(os.path.join(crate, "Cargo.toml"), "w") as f:
            f.write(CARGO)
        with open(os.path.join(crate, "src", "main.rs"), "w") as f:
            f.write(program(n, 1 << (64 - w), every))
        try:
            exe = cargo_build(crate, os.path.join(crate, "target"), p, "%dbits" % w, bin="wide", timeout=400)
        except BuildFailed as b:
            if re.search(r"recursion limit|SIGSEGV|overflowed its stack", b.err):
                raise ToolError("wide enum of %d variants is beyond the compiler: %s" % (n, b.errors()))
            return job, '{"op":"wide","n":%d,"compiled":false,"tries":[]}' % n
        rc, out, err = run([exe], env=env_for(), timeout=60)
        if rc != 0 or not out.startswith('{"op":"wide"'):
            return job, '{"op":"wide","n":%d,"compiled":true,"tries":[{"pos":0,"res":"died","tag":0,"back":0}]}' % n
        return job, out.strip()

    res = {}
    for (w, p, n), line in parallel(one, jobs):
        res.setdefault((w, p), []).append(line)
    return res
