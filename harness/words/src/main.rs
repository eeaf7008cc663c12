//! Drives `TaggedPointer` (and the constructors of `TaggedBox`) with the inputs
//! enumerated by spec/WordGen.tla and records what they do, one JSON event per
//! call, for spec/PointerTrace.tla to judge. Nothing is judged here.
use std::collections::hash_map::DefaultHasher;
use std::fmt::Write as _;
use std::hash::{Hash, Hasher};
use std::io::{BufRead, Write as _};
use std::panic::{catch_unwind, AssertUnwindSafe};
use tagged_box::{discriminant as dc, tagged_box, Discriminant, TaggableContainer, TaggableInner, TaggedBox, TaggedPointer};

fn bits(x: u64) -> String {
    let mut s = String::from("[");
    let mut first = true;
    for b in 0..64 {
        if x >> b & 1 == 1 {
            if !first {
                s.push(',');
            }
            first = false;
            let _ = write!(s, "{}", b);
        }
    }
    s.push(']');
    s
}

/// Accessor results, grouped by value: [[names, bits], ...]
struct Outs(Vec<(u64, Vec<&'static str>)>);
impl Outs {
    fn new() -> Self {
        Outs(Vec::new())
    }
    fn add(&mut self, name: &'static str, v: u64) {
        match self.0.iter_mut().find(|x| x.0 == v) {
            Some(x) => x.1.push(name),
            None => self.0.push((v, vec![name])),
        }
    }
    fn json(&self) -> String {
        let v: Vec<String> = self
            .0
            .iter()
            .map(|(v, n)| {
                let n: Vec<String> = n.iter().map(|n| format!("\"{}\"", n)).collect();
                format!("{{\"n\":[{}],\"v\":{}}}", n.join(","), bits(*v))
            })
            .collect();
        format!("[{}]", v.join(","))
    }
}

fn q(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn hash(t: &TaggedPointer) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

fn accessors(o: &mut Outs, tp: TaggedPointer) {
    let mut c = tp;
    #[allow(clippy::clone_on_copy)]
    let d = tp.clone();
    o.add("disc", tp.discriminant() as u64);
    o.add("disc", d.discriminant() as u64);
    o.add("addr", tp.as_u64());
    o.add("addr", d.as_u64());
    o.add("addr", tp.as_ptr::<u8>() as u64);
    o.add("addr", tp.as_ptr::<[u64; 9]>() as u64);
    o.add("addr", tp.as_ptr::<()>() as u64);
    o.add("addr", tp.as_ptr::<u16>() as u64);
    o.add("addr", tp.as_ptr::<String>() as u64);
    o.add("addr", tp.as_ptr::<S6>() as u64);
    o.add("addr", tp.as_ptr::<Z12>() as u64);
    o.add("addr", tp.as_ptr::<[u8; 100_000]>() as u64);
    o.add("addr", tp.as_mut_ptr::<()>() as u64);
    o.add("addr", tp.as_mut_ptr::<u16>() as u64);
    o.add("addr", tp.as_mut_ptr::<String>() as u64);
    o.add("addr", tp.as_mut_ptr::<S6>() as u64);
    o.add("addr", tp.as_mut_ptr::<Z12>() as u64);
    o.add("addr", tp.as_mut_ptr::<[u8; 100_000]>() as u64);
    o.add("addr", tp.as_mut_ptr::<u8>() as u64);
    o.add("addr", tp.as_mut_ptr::<(u8, u64)>() as u64);
    o.add("raw", tp.as_raw_u64());
    o.add("raw", d.as_raw_u64());
    if tp.as_u64() != 0 {
        // A zero-sized referent: any non-null address will do
        o.add("addr", unsafe { tp.as_ref::<()>() } as *const () as u64);
        o.add("addr", unsafe { c.as_mut_ref::<()>() } as *mut () as u64);
        o.add("raw", c.as_raw_u64());
    }
    let raw = tp.as_raw_u64();
    o.add("disc", TaggedPointer::fetch_discriminant(raw) as u64);
    o.add("addr", TaggedPointer::strip_discriminant(raw));
}

macro_rules! aligned {
    ($($k:literal $al:literal $z:ident $s:ident),*) => {
        $(
            #[repr(align($al))]
            struct $z;
            #[repr(align($al))]
            struct $s(#[allow(dead_code)] u8, #[allow(dead_code)] [u8; 40]);
        )*
        fn dangling(k: u32, zst: bool, d: Discriminant) -> TaggedPointer {
            match (k, zst) {
                $( ($k, true) => TaggedPointer::dangling::<$z>(d), ($k, false) => TaggedPointer::dangling::<$s>(d), )*
                _ => unreachable!(),
            }
        }
        fn box_dangling(k: u32, zst: bool, d: Discriminant) -> TaggedBox<Mark> {
            match (k, zst) {
                $( ($k, true) => TaggedBox::dangling::<$z>(d), ($k, false) => TaggedBox::dangling::<$s>(d), )*
                _ => unreachable!(),
            }
        }
    };
}
macro_rules! boxed {
    ($($k:literal $z:ident $s:ident),*) => {
        fn box_new(k: u32, zst: bool, d: Discriminant) -> TaggedBox<Mark> {
            match (k, zst) {
                $(
                    ($k, true) => TaggedBox::new($z, d),
                    ($k, false) => TaggedBox::new($s(7, [9; 40]), d),
                )*
                _ => unreachable!(),
            }
        }
    };
}
aligned! {
    0 1 Z0 S0, 1 2 Z1 S1, 2 4 Z2 S2, 3 8 Z3 S3, 4 16 Z4 S4, 5 32 Z5 S5, 6 64 Z6 S6, 7 128 Z7 S7, 8 256 Z8 S8, 9 512 Z9 S9, 10 1024 Z10 S10, 11 2048 Z11 S11, 12 4096 Z12 S12, 13 8192 Z13 S13, 14 16384 Z14 S14, 15 32768 Z15 S15, 16 65536 Z16 S16, 17 131072 Z17 S17, 18 262144 Z18 S18, 19 524288 Z19 S19, 20 1048576 Z20 S20, 21 2097152 Z21 S21, 22 4194304 Z22 S22, 23 8388608 Z23 S23, 24 16777216 Z24 S24, 25 33554432 Z25 S25, 26 67108864 Z26 S26, 27 134217728 Z27 S27, 28 268435456 Z28 S28, 29 536870912 Z29 S29
}
boxed! {
    0 Z0 S0, 1 Z1 S1, 2 Z2 S2, 3 Z3 S3, 4 Z4 S4, 5 Z5 S5, 6 Z6 S6, 7 Z7 S7, 8 Z8 S8, 9 Z9 S9, 10 Z10 S10, 11 Z11 S11, 12 Z12 S12
}

enum Mark {}

// A first enum made by the macro, small enough for every width
tagged_box! {
    #[derive(Debug, Clone, PartialEq)]
    struct Tiny, enum TinyItem {
        Word(u64),
        Many(u8, u32, u8),
    }
}

const CONST_POINTER: TaggedPointer = TaggedPointer::dangling::<u64>(1);

macro_rules! fmts {
    ($emit:ident, $v:expr; $($kind:literal: $plain:literal $alt:literal $w:literal $zw:literal $aw:literal $left:literal $center:literal $right:literal $small:literal $plus:literal $plusz:literal $prec:literal $plusc:literal $dyn:literal),*) => {
        $(
            $emit($kind, false, false, false, 0, " ", "", format!($plain, $v));
            $emit($kind, false, true, false, 0, " ", "", format!($alt, $v));
            $emit($kind, false, false, false, 40, " ", "", format!($w, $v));
            $emit($kind, false, false, true, 70, " ", "", format!($zw, $v));
            $emit($kind, false, true, true, 24, " ", "", format!($aw, $v));
            $emit($kind, false, false, false, 33, " ", "<", format!($left, $v));
            $emit($kind, false, true, false, 80, "*", "^", format!($center, $v));
            $emit($kind, false, true, false, 29, "_", ">", format!($right, $v));
            $emit($kind, false, false, true, 3, " ", "", format!($small, $v));
            $emit($kind, true, false, false, 0, " ", "", format!($plus, $v));
            $emit($kind, true, true, true, 30, " ", "", format!($plusz, $v));
            $emit($kind, false, false, false, 0, " ", "", format!($prec, $v));
            $emit($kind, true, true, false, 51, "~", "^", format!($plusc, $v));
            $emit($kind, false, false, false, 21, " ", "", format!($dyn, $v, 21));
        )*
    };
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|_| {}));
    let input = std::io::BufReader::new(std::fs::File::open(&args[1]).expect("cases"));
    let mut out = std::io::BufWriter::new(std::fs::File::create(&args[2]).expect("trace"));
    let setting = args.get(3).cloned().unwrap_or_default();

    // The configuration, as exported
    writeln!(
        out,
        "{{\"op\":\"cfg\",\"setting\":{},\"pw\":{},\"db\":{},\"maxd\":{},\"maxp\":{},\"mask\":{},\"tagbits\":{},\"sizes\":[{},{},{},{},{}],\"aligns\":[{},{}],\"debug\":{}}}",
        q(&setting), dc::POINTER_WIDTH, dc::DISCRIMINANT_BITS, bits(dc::MAX_DISCRIMINANT as u64), bits(dc::MAX_POINTER_VALUE),
        bits(dc::DISCRIMINANT_MASK), std::mem::size_of::<Discriminant>() * 8,
        std::mem::size_of::<TaggedPointer>(), std::mem::size_of::<TaggedBox<Mark>>(), std::mem::size_of::<TaggedBox<TinyItem>>(),
        std::mem::size_of::<Tiny>(), std::mem::size_of::<[Tiny; 3]>(),
        std::mem::align_of::<TaggedPointer>(), std::mem::align_of::<Tiny>(),
        cfg!(debug_assertions)
    ).unwrap();

    // A macro-made enum at this width
    {
        let mut ok = Vec::new();
        for t in 0..6u64 {
            let r = catch_unwind(|| {
                let w = t.wrapping_mul(0x9E37_79B9_7F4A_7C15);
                let a = Tiny::from(w).into_inner() == TinyItem::Word(w);
                let m = || TinyItem::Many(t as u8 + 1, 0xAABB_0000 + t as u32, 0xF0 - t as u8);
                let b = Tiny::from(m()).into_inner() == m();
                let c = TinyItem::from_tagged_box(m().into_tagged_box()) == m();
                let x = TinyItem::Word(w).into_tagged_box();
                let y = m().into_tagged_box();
                let tags = x.discriminant() == 0 && y.discriminant() == 1;
                let mut d = false;
                unsafe { TinyItem::ref_from_tagged_box(&y, |v| d = *v == m()) };
                let e = x.clone() == x && x != y && format!("{:?}", y) == format!("{:?}", m());
                a && b && c && d && e && tags
            });
            ok.push(format!("{}", matches!(r, Ok(true))));
        }
        writeln!(out, "{{\"op\":\"tiny\",\"ok\":[{}]}}", ok.join(",")).unwrap();
    }
    {
        let mut o = Outs::new();
        accessors(&mut o, CONST_POINTER);
        writeln!(out, "{{\"op\":\"dang\",\"k\":3,\"d\":[0],\"res\":\"ok\",\"what\":\"const\",\"out\":{}}}", o.json()).unwrap();
    }

    for line in input.lines() {
        let line = line.unwrap();
        let f: Vec<&str> = line.split_whitespace().collect();
        if f.is_empty() {
            continue;
        }
        let hex = |i: usize| u64::from_str_radix(f[i], 16).unwrap();
        match f[0] {
            "new" => {
                let (p, d) = (hex(1), hex(2));
                let d = d as Discriminant;
                let mut o = Outs::new();
                let res = match catch_unwind(|| TaggedPointer::new(p, d)) {
                    Ok(tp) => {
                        accessors(&mut o, tp);
                        o.add("raw", TaggedPointer::store_discriminant(p, d));
                        "ok"
                    }
                    Err(_) => "panic",
                };
                writeln!(out, "{{\"op\":\"new\",\"p\":{},\"d\":{},\"res\":\"{}\",\"out\":{}}}", bits(p), bits(d as u64), res, o.json()).unwrap();
                // The same pair through a box made from a raw pointer
                let mut o = Outs::new();
                let res = match catch_unwind(|| unsafe { TaggedBox::<Mark>::from_raw(p as *mut u8, d) }) {
                    Ok(mut b) => {
                        o.add("disc", b.discriminant() as u64);
                        o.add("addr", b.as_ptr::<u8>() as u64);
                        o.add("addr", b.as_mut_ptr::<u8>() as u64);
                        if p != 0 {
                            o.add("addr", unsafe { b.as_ref::<()>() } as *const () as u64);
                            o.add("addr", unsafe { b.as_mut_ref::<()>() } as *mut () as u64);
                        }
                        o.add("addr", TaggedBox::into_raw::<u8>(b) as u64);
                        "ok"
                    }
                    Err(_) => "panic",
                };
                writeln!(out, "{{\"op\":\"fromraw\",\"p\":{},\"d\":{},\"res\":\"{}\",\"out\":{}}}", bits(p), bits(d as u64), res, o.json()).unwrap();
            }
            "raw" => {
                let x = hex(1);
                let (d, a) = (TaggedPointer::fetch_discriminant(x), TaggedPointer::strip_discriminant(x));
                let mut o = Outs::new();
                o.add("disc", d as u64);
                o.add("addr", a);
                o.add("raw", TaggedPointer::store_discriminant(a, d));
                writeln!(out, "{{\"op\":\"raw\",\"x\":{},\"out\":{}}}", bits(x), o.json()).unwrap();
            }
            "dang" => {
                let (k, d) = (f[1].parse::<u32>().unwrap(), hex(2));
                for &zst in &[true, false] {
                    let mut o = Outs::new();
                    let res = match catch_unwind(|| dangling(k, zst, d as Discriminant)) {
                        Ok(tp) => {
                            accessors(&mut o, tp);
                            "ok"
                        }
                        Err(_) => "panic",
                    };
                    writeln!(out, "{{\"op\":\"dang\",\"k\":{},\"d\":{},\"res\":\"{}\",\"what\":\"{}\",\"out\":{}}}", k, bits(d), res, if zst { "zst" } else { "sized" }, o.json()).unwrap();
                    let mut o = Outs::new();
                    let res = match catch_unwind(|| box_dangling(k, zst, d as Discriminant)) {
                        Ok(b) => {
                            o.add("disc", b.discriminant() as u64);
                            o.add("addr", b.as_ptr::<u8>() as u64);
                            "ok"
                        }
                        Err(_) => "panic",
                    };
                    writeln!(out, "{{\"op\":\"dang\",\"k\":{},\"d\":{},\"res\":\"{}\",\"what\":\"box\",\"out\":{}}}", k, bits(d), res, o.json()).unwrap();
                }
            }
            "box" => {
                let (k, d) = (f[1].parse::<u32>().unwrap(), hex(2));
                for &zst in &[true, false] {
                    let mut o = Outs::new();
                    let res = match catch_unwind(AssertUnwindSafe(|| box_new(k, zst, d as Discriminant))) {
                        Ok(b) => {
                            o.add("disc", b.discriminant() as u64);
                            o.add("addr", b.as_ptr::<u8>() as u64);
                            "ok"
                        }
                        Err(_) => "panic",
                    };
                    writeln!(out, "{{\"op\":\"box\",\"k\":{},\"d\":{},\"res\":\"{}\",\"what\":\"{}\",\"out\":{}}}", k, bits(d), res, if zst { "zst" } else { "sized" }, o.json()).unwrap();
                }
            }
            "cmp" => {
                let (x, y) = (hex(1), hex(2));
                let mk = |x: u64| catch_unwind(|| TaggedPointer::new(TaggedPointer::strip_discriminant(x), TaggedPointer::fetch_discriminant(x)));
                if let (Ok(a), Ok(b)) = (mk(x), mk(y)) {
                    let ord = |o: std::cmp::Ordering| o as i8;
                    let (c, d, e) = (a, Clone::clone(&a), a);
                    let copies = a == c && c == a && d == a && a.cmp(&d) == std::cmp::Ordering::Equal && hash(&c) == hash(&a) && hash(&d) == hash(&e)
                        && c.as_raw_u64() == a.as_raw_u64() && d.as_raw_u64() == a.as_raw_u64() && std::mem::take(&mut vec![a]) == vec![d];
                    // what sorting, sets and maps see
                    let mut v = vec![a, b, c, b, d];
                    v.sort();
                    let sorted = v.windows(2).all(|w| w[0] <= w[1]) && v[0] == a.min(b) && v[4] == a.max(b);
                    let n = v.iter().collect::<std::collections::HashSet<_>>().len();
                    let m = v.iter().collect::<std::collections::BTreeSet<_>>().len();
                    writeln!(
                        out,
                        "{{\"op\":\"cmp\",\"x\":{},\"y\":{},\"eq\":{},\"ne\":{},\"lt\":{},\"le\":{},\"gt\":{},\"ge\":{},\"cmp\":{},\"pcmp\":{},\"max\":{},\"min\":{},\"hash\":{},\"copies\":{},\"sorted\":{},\"sets\":[{},{}]}}",
                        bits(x), bits(y), a == b, a != b, a < b, a <= b, a > b, a >= b, ord(a.cmp(&b)),
                        a.partial_cmp(&b).map_or(9, ord), bits(a.max(b).as_raw_u64()), bits(a.min(b).as_raw_u64()), hash(&a) == hash(&b), copies, sorted, n, m
                    ).unwrap();
                } else {
                    writeln!(out, "{{\"op\":\"cmpfail\",\"x\":{},\"y\":{}}}", bits(x), bits(y)).unwrap();
                }
            }
            "fmt" => {
                let x = hex(1);
                let tp = match catch_unwind(|| TaggedPointer::new(TaggedPointer::strip_discriminant(x), TaggedPointer::fetch_discriminant(x))) {
                    Ok(tp) => tp,
                    Err(_) => {
                        writeln!(out, "{{\"op\":\"cmpfail\",\"x\":{},\"y\":{}}}", bits(x), bits(x)).unwrap();
                        continue;
                    }
                };
                let mut emit = |what: &str, kind: &str, plus: bool, alt: bool, zero: bool, width: u32, fill: &str, align: &str, text: String| {
                    writeln!(
                        out,
                        "{{\"op\":\"nfmt\",\"what\":\"{}\",\"x\":{},\"f\":{{\"kind\":\"{}\",\"plus\":{},\"alt\":{},\"zero\":{},\"width\":{},\"fill\":\"{}\",\"align\":\"{}\"}},\"text\":{}}}",
                        what, bits(x), kind, plus, alt, zero, width, fill, align, q(&text)
                    ).unwrap();
                };
                {
                    let mut e = |k: &str, p: bool, a: bool, z: bool, w: u32, fl: &str, al: &str, t: String| emit("ptr", k, p, a, z, w, fl, al, t);
                    fmts!(e, tp;
                        "x": "{:x}" "{:#x}" "{:40x}" "{:070x}" "{:#024x}" "{:<33x}" "{:*^#80x}" "{:_>#29x}" "{:03x}" "{:+x}" "{:+#030x}" "{:.3x}" "{:~^+#51x}" "{:1$x}",
                        "X": "{:X}" "{:#X}" "{:40X}" "{:070X}" "{:#024X}" "{:<33X}" "{:*^#80X}" "{:_>#29X}" "{:03X}" "{:+X}" "{:+#030X}" "{:.3X}" "{:~^+#51X}" "{:1$X}",
                        "b": "{:b}" "{:#b}" "{:40b}" "{:070b}" "{:#024b}" "{:<33b}" "{:*^#80b}" "{:_>#29b}" "{:03b}" "{:+b}" "{:+#030b}" "{:.3b}" "{:~^+#51b}" "{:1$b}",
                        "o": "{:o}" "{:#o}" "{:40o}" "{:070o}" "{:#024o}" "{:<33o}" "{:*^#80o}" "{:_>#29o}" "{:03o}" "{:+o}" "{:+#030o}" "{:.3o}" "{:~^+#51o}" "{:1$o}",
                        "p": "{:p}" "{:#p}" "{:40p}" "{:070p}" "{:#024p}" "{:<33p}" "{:*^#80p}" "{:_>#29p}" "{:03p}" "{:+p}" "{:+#030p}" "{:.3p}" "{:~^+#51p}" "{:1$p}"
                    );
                }
                // A box over the same word (zero-sized use only: nothing is dereferenced)
                let b: TaggedBox<TinyItem> = unsafe { TaggedBox::from_raw(tp.as_mut_ptr::<u8>(), tp.discriminant()) };
                {
                    let mut e = |k: &str, p: bool, a: bool, z: bool, w: u32, fl: &str, al: &str, t: String| emit("box", k, p, a, z, w, fl, al, t);
                    fmts!(e, b;
                        "x": "{:x}" "{:#x}" "{:40x}" "{:070x}" "{:#024x}" "{:<33x}" "{:*^#80x}" "{:_>#29x}" "{:03x}" "{:+x}" "{:+#030x}" "{:.3x}" "{:~^+#51x}" "{:1$x}",
                        "X": "{:X}" "{:#X}" "{:40X}" "{:070X}" "{:#024X}" "{:<33X}" "{:*^#80X}" "{:_>#29X}" "{:03X}" "{:+X}" "{:+#030X}" "{:.3X}" "{:~^+#51X}" "{:1$X}",
                        "b": "{:b}" "{:#b}" "{:40b}" "{:070b}" "{:#024b}" "{:<33b}" "{:*^#80b}" "{:_>#29b}" "{:03b}" "{:+b}" "{:+#030b}" "{:.3b}" "{:~^+#51b}" "{:1$b}",
                        "o": "{:o}" "{:#o}" "{:40o}" "{:070o}" "{:#024o}" "{:<33o}" "{:*^#80o}" "{:_>#29o}" "{:03o}" "{:+o}" "{:+#030o}" "{:.3o}" "{:~^+#51o}" "{:1$o}"
                    );
                }
                let _ = TaggedBox::into_raw::<u8>(b);
                writeln!(out, "{{\"op\":\"dbg\",\"x\":{},\"d\":{},\"text\":{},\"alt\":{}}}", bits(x), tp.discriminant(), q(&format!("{:?}", tp)), q(&format!("{:#?}", tp))).unwrap();
            }
            other => panic!("unknown case {}", other),
        }
    }
    out.flush().unwrap();
}
