"""The families of values the histories are run with: enums declared with the
macro, and payloads of raw tagged boxes. Turned into Rust here; what they are
(arity, sizes, how fields compare) is reported by the compiled program."""
import random

# types that may stand alone in a tuple variant, by property
COPY = ["u8", "i8", "u16", "i16", "u32", "i32", "u64", "i64", "usize", "isize", "u128", "i128", "bool", "char",
        "[u8; 3]", "[u16; 5]", "(u8, u32)", "(u64, u8)", "(u8, u16, u8)", "Option<u8>", "Option<u64>",
        "Pat<17>", "Pat<64>", "Pat<300>", "A2", "A16", "A32", "A64", "A128"]
COPYZ = ["Z1", "Z8", "Z64", "[u8; 0]"]
FLOAT = ["f32", "f64"]
HEAP = ["String", "Vec<u16>", "Box<u32>", "Bce", "Nest"]
OWNS = HEAP + ["Sub"]   # those with memory of their own
CELLS = ["Cel", "Bce"]
TRK = ["Trk<0>", "Trk<1>", "Trk<2>", "Trk<3>"]
HALF = ["Trk<8>", "Trk<9>"]
TZ = ["Tz<0>", "Tz<1>"]
STATICS = ["&'static str"]


def V(kind, *types):
    return (kind, list(types))


def fam(name, derives, variants, disp=False, hand=False, manual=None, tags=None, names=None, decor=("", "pub", "pub")):
    """hand: the traits are implemented by hand, in ways a derive would not
    manual: no macro, TaggableInner is implemented by hand; "boxed" stores payloads, "whole" the enum itself
    tags: those the implementation by hand gives its variants
    names: [(variant, [fields])], if not V0 .. with fields m0 ..
    decor: attributes of the container, visibility of container and enum"""
    return dict(name=name, derives=derives.split(), variants=variants, disp=disp, raw=False, hand=hand, manual=manual,
                tags=tags or list(range(len(variants))), names=names, decor=decor)


ALLD = "Debug Clone PartialEq Eq PartialOrd Ord"
PART = "Debug Clone PartialEq PartialOrd"


NAMES = [("Some", []), ("None", []), ("Ok", ["var", "tuple"]), ("Err", ["tagged", "val", "callback"]), ("Box", []),
         ("ManuallyDrop", ["discrim", "variant", "value"]), ("Drop", ["other", "f"]), ("Clone", []), ("Vec", []),
         ("Inner", ["r#match", "inner", "ptr", "boxed"])]


def big():
    """Payloads larger than a page of anything."""
    t, u, n, nc = "tuple", "unit", "named", "namedc"
    return [fam("big", ALLD, [V(t, "Pat<70000>"), V(u), V(n, "Pat<70000>", "u8"), V(t, "A65536"), V(t, "u8", "A65536", "Trk<0>"), V(t, "Pat<4096>"),
                              V(nc, "Pat<66000>", "Pat<66000>")]),
            raw("bigraw", ["Pat<70000>", "A65536", "Pat<4096>", "Pat<1048576>"])]


SIZES = list(range(1, 34)) + [48, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 8193]


def sizes():
    """Payloads of all small sizes and around the larger powers of two, with
    and without drop glue: 100 and more variants."""
    t, n = "tuple", "named"
    return [fam("sizes", ALLD, [V(t, "Pat<%d>" % k) for k in SIZES] + [V(n, "Trk<0>", "Pat<%d>" % k) for k in (1, 8, 16, 24, 40, 48, 104, 112, 232, 240, 496, 1008, 2032, 4080)]
                + [V(t, "u16", "Pat<%d>" % (2 * k)) for k in range(1, 9)], disp=True),
            fam("sizesc", "Debug Clone Copy PartialEq Eq PartialOrd Ord", [V(n, "Pat<%d>" % k) for k in SIZES] + [V(n, "u8", "A%d" % k) for k in (2, 4, 8, 16, 32, 64, 128, 256, 512, 2048)]),
            raw("sizesr", ["Pat<%d>" % k for k in SIZES] + ["A%d" % (1 << k) for k in range(1, 13)]
                + ["Z%d" % (1 << k) for k in range(0, 13) if k != 2])]


def fixed():
    u, e, t, n, nc = "unit", "empty", "tuple", "named", "namedc"
    fams = [
        # every kind of variant, payloads that are watched closely
        fam("mixed", ALLD, [
            V(u), V(t, "Trk<0>"), V(e), V(t, "u64"), V(t, "Trk<0>", "Trk<1>"), V(n, "Trk<2>", "u8"),
            V(t, "u8", "u64", "u16"), V(nc, "u8", "Trk<1>", "u32"), V(t, "String"), V(t, "u16"),
            V(t, "Tz<0>"), V(u), V(t, "u8", "Trk<3>", "u64", "u8"), V(nc, "bool"), V(t, "Box<u32>", "u8"),
            V(n, "Tz<1>", "Trk<0>"),
        ], disp=True),
        # no derives at all: only the conversions and views
        fam("bare", "", [
            V(t, "Trk<1>"), V(u), V(n, "String", "Trk<0>"), V(t, "f32", "Trk<0>"), V(e), V(t, "Vec<u16>"),
            V(t, "Tz<0>", "Tz<1>"), V(nc, "u8", "u128", "u8"),
        ]),
        # bitwise copies
        fam("copy", "Debug Clone Copy PartialEq Eq PartialOrd Ord", [
            V(t, "u32"), V(u), V(t, "u8", "u64", "u8"), V(n, "u16", "u128"), V(t, "Pat<64>"), V(e), V(t, "Z8"),
            V(t, "bool"), V(t, "A64"), V(nc, "A32", "u8"), V(t, "(u8, u32)"), V(t, "u8", "A16"), V(t, "char"),
            V(u), V(t, "Option<u64>"), V(n, "Z1"),
        ], disp=True),
        # partial orders, and comparisons that depend on the order of the operands
        fam("part", PART, [
            V(t, "f64"), V(t, "f32", "u8"), V(u), V(t, "Trk<8>"), V(n, "u8", "f64"), V(t, "Trk<8>", "Trk<9>"),
            V(nc, "f32", "f64", "f32"), V(t, "u16"), V(t, "Trk<9>", "Trk<1>"), V(t, "f32"), V(e), V(n, "Trk<9>", "f64"),
        ]),
        # equality only, values owning memory of their own
        fam("heap", "Debug Clone PartialEq", [
            V(t, "String"), V(t, "Vec<u16>"), V(t, "Box<u32>"), V(t, "String", "Vec<u16>", "Box<u32>"), V(u),
            V(n, "u8", "String", "u64"), V(nc, "Box<u32>", "Trk<0>", "String"), V(t, "u8", "String"), V(t, "Trk<0>"),
            V(t, "&'static str", "Box<u32>"), V(n, "Vec<u16>"), V(t, "Box<u32>", "A64", "Trk<1>"),
        ], disp=True),
        # sizes and alignments
        fam("layout", ALLD, [
            V(t, "A128"), V(t, "u8", "A64", "u8"), V(t, "Pat<300>"), V(t, "Z64"), V(t, "Z8", "u8"), V(n, "u8", "A1024", "u8"),
            V(t, "A4096"), V(t, "Pat<17>", "u64"), V(nc, "Pat<17>", "u8", "u16"), V(t, "Z1", "Z64"), V(t, "u8", "Z4096"),
            V(t, "Pat<2000>"), V(t, "u8", "u8"), V(t, "u8"), V(n, "u8", "u16", "u8", "u32", "u8", "u64", "u8", "u128", "u8"),
            V(t, "Trk<0>", "A4096", "Trk<1>"),
        ]),
        # adjacent variants of equal shape, so that a tag taken for another goes unnoticed by types
        fam("same", ALLD, [
            V(t, "u8", "u8", "u8"), V(n, "u8", "u8", "u8"), V(nc, "u8", "u8", "u8"), V(t, "Trk<0>", "Trk<0>"),
            V(n, "Trk<0>", "Trk<0>"), V(u), V(u), V(nc, "Trk<0>", "Trk<0>"), V(t, "Trk<0>"), V(n, "Trk<0>"), V(nc, "Trk<0>"), V(u),
        ]),
        # shared mutability
        fam("cells", ALLD, [
            V(t, "Cel"), V(t, "Bce"), V(n, "u8", "Cel"), V(t, "Cel", "Bce", "Trk<0>"), V(u), V(nc, "Bce", "u64"), V(t, "u16"), V(n, "Cel"),
        ]),
        fam("two", ALLD, [V(t, "Trk<0>"), V(n, "Trk<1>", "u8")], disp=True),
        fam("one", ALLD, [V(t, "Trk<0>", "u8")]),
        # comparisons that ignore declaration order and fields' order, and printing of its own
        fam("hand", ALLD, [
            V(t, "Trk<0>"), V(n, "u8"), V(u), V(t, "u16", "u8"), V(nc, "u32", "Trk<1>"), V(t, "Box<u32>"), V(e), V(t, "u8", "u64", "u8"),
            V(n, "u64", "u16"), V(u), V(nc, "u8")], disp=True, hand=True),
        fam("units", "Debug Clone Copy PartialEq Eq PartialOrd Ord", [V(u)] * 16),
    ]
    # tuples of every arity
    small = ["u8", "Trk<0>", "u64", "u16", "bool", "u32", "Trk<1>", "i8"]

    def mix(k, off):
        return [small[(off + 3 * i + i * i) % len(small)] for i in range(k)]
    fams.append(fam("arity1", ALLD, [V(t, *mix(k, k)) for k in range(2, 16)] + [V(e), V(t, "u64")]))
    fams.append(fam("arity2", "Debug Clone PartialEq", [V(t, *mix(k, k)) for k in range(16, 32)]))
    fams.append(fam("arity3", "Debug Clone PartialEq", [
        V(t, *mix(32, 1)), V(n, *mix(12, 2)), V(nc, *mix(20, 3)), V(n, *mix(32, 4)), V(nc, *mix(40, 5)),
        V(t, *mix(31, 6)), V(t, *(["u8"] * 32)), V(n, "u8"), V(nc, "u64")]))
    # of fields of one type, so that any two could be exchanged
    fams.append(fam("flat1", "Debug Clone PartialEq", [V(t, *["u8"] * k) for k in range(2, 18)]))
    fams.append(fam("flat2", "Debug Clone PartialEq", [V(t, *["u16"] * k) for k in range(18, 33)] + [V(nc, *["u16"] * 32)]))
    # implementations by hand: of the payloads, and of the enum itself, with tags of their own
    tags = [3, 0, 7, 15, 8, 2, 12, 5, 14, 9]
    fams.append(fam("manual", ALLD, [
        V(t, "Trk<0>"), V(u), V(t, "u8", "Trk<1>"), V(n, "u64", "u8"), V(t, "String"), V(u), V(t, "u64"), V(e), V(n, "Trk<2>"), V(t, "Tz<0>")],
        disp=True, manual="boxed", tags=tags))
    fams.append(fam("manualc", "Debug Clone Copy PartialEq Eq PartialOrd Ord", [
        V(u), V(t, "u32"), V(t, "u8", "u64"), V(u), V(n, "A64"), V(t, "Z8")], manual="boxed", tags=[8, 4, 2, 1, 15, 0]))
    fams.append(fam("whole", ALLD, [
        V(t, "Trk<0>", "u8"), V(u), V(n, "Cel", "Trk<1>"), V(u), V(t, "u64", "Trk<0>", "Trk<1>"), V(n, "u8")],
        disp=True, manual="whole", tags=[15, 14, 3, 0, 9, 4]))
    # an enum with a container as field of another
    fams.append(fam("nested", ALLD, [
        V(t, "Nest"), V(n, "Nest", "u8"), V(t, "Nest", "Trk<0>", "Nest"), V(u), V(nc, "u64", "Nest"), V(t, "u64"), V(t, "Box<u32>", "Nest")]))
    # an enum that contains handles of itself
    fams.append(fam("tree", ALLD, [
        V(t, "Sub"), V(n, "Sub", "u8", "Sub"), V(u), V(t, "u32"), V(nc, "Trk<0>", "Sub"), V(t, "u64"), V(t, "Sub", "Sub")]))
    # names of the language and of the macro's own
    fams.append(fam("names", ALLD, [
        V(t, "Trk<0>"), V(u), V(n, "u8", "Trk<1>"), V(nc, "Trk<0>", "u64", "u8"), V(t, "u8", "u16"), V(n, "u8", "u16", "u32"),
        V(n, "Trk<2>", "u8"), V(u), V(t, "u64"), V(n, "u16", "bool", "u8", "u64")], names=NAMES, decor=("#[allow(dead_code)] /// documented", "pub(crate)", "pub(crate)")))
    fams.append(raw("raw", [
        "Trk<0>", "u8", "u64", "String", "Z1", "Z64", "Tz<0>", "A64", "Pat<300>", "Box<u32>", "u128", "A4096", "()", "Vec<u16>",
        "Option<u64>", "(u8, u32)", "Z4096", "Pat<5000>", "Trk<8>", "f64", "char", "&'static str", "A2", "i16", "Cel", "Bce"]))
    return fams


def raw(name, types):
    return dict(name=name, derives=[], variants=[V("tuple", t) for t in types], disp=False, raw=True, hand=False, manual=None,
                tags=list(range(len(types))), names=None, decor=("", "pub", "pub"))


def narrow(width):
    """Families with exactly as many variants as a narrow setting has tags."""
    room = 1 << (64 - width)
    t, u, n, nc, e = "tuple", "unit", "named", "namedc", "empty"
    pool = [V(t, "Trk<0>"), V(n, "u8", "Trk<1>"), V(u), V(t, "u8", "Trk<0>"), V(t, "String"), V(nc, "Trk<2>"), V(e), V(t, "u64", "u8")]
    fams = [fam("narrow", ALLD, pool[:room], disp=True), raw("raw", ["Trk<0>", "u64", "Z64", "String", "Tz<0>", "A64"])]
    if room > 2:
        fams.append(fam("narrowc", "Debug Clone Copy PartialEq Eq PartialOrd Ord", [V(t, "u32"), V(u), V(t, "u8", "u64"), V(n, "u16")][:room]))
    else:
        fams.append(fam("narrowc", "Debug Clone Copy PartialEq Eq PartialOrd Ord", [V(t, "u32"), V(n, "u16", "u8")]))
        fams.append(fam("narrow1", ALLD, [V(u), V(t, "Trk<0>", "Trk<1>")]))
    return fams


def wide(n):
    """A family with n variants, for settings with more than 16 tags."""
    t, u, nm = "tuple", "unit", "named"
    vs = [V(u)] * n
    vs[1] = V(t, "Trk<0>")
    vs[n // 2] = V(nm, "Trk<1>", "u8")
    vs[n - 3] = V(t, "u8", "Trk<0>")
    vs[n - 2] = V(t, "u64")
    vs[n - 1] = V(nm, "Trk<0>")
    return fam("wide", ALLD, vs)


def rnd(rng, i, variants=12):
    """A random family."""
    kind = rng.choice(["all", "copy", "part", "heap"])
    pool = {"all": COPY + COPYZ + HEAP + TRK + TZ, "copy": COPY + COPYZ, "part": COPY + FLOAT + HALF + TRK,
            "heap": HEAP + TRK + TZ + COPY + STATICS}[kind]
    derives = {"all": ALLD, "copy": "Debug Clone Copy PartialEq Eq PartialOrd Ord", "part": PART, "heap": "Debug Clone PartialEq"}[kind]
    seen = set()
    vs = []
    while len(vs) < variants:
        k = rng.choice(["unit", "empty", "tuple", "tuple", "tuple", "named", "namedc"])
        if k in ("unit", "empty"):
            ts = []
        else:
            ts = [rng.choice(pool) for _ in range(rng.choice([1, 1, 2, 2, 3, 4, 5, 7]))]
        key = (k, tuple(ts))
        if k in ("empty", "tuple"):
            # conversions from the payload must stay distinct; a one-field tuple type looks like a tuple
            key = ("t", ", ".join(ts) if len(ts) != 1 else ts[0].strip("()"))
            if key in seen:
                continue
            seen.add(key)
        vs.append((k, ts))
    return fam("rnd%d" % i, derives, vs, disp=rng.random() < 0.5)


def single(v):
    return v[0] == "tuple" and len(v[1]) == 1


def caps(f):
    c = set()
    d = f["derives"]
    if "Clone" in d:
        c.add("clone")
    if "Copy" in d:
        c.add("copy")
    if "PartialEq" in d:
        c.add("cmp")
    if "Debug" in d:
        c.add("fmt")
    if not f["raw"]:
        c.add("enum")
    return c


DBG = 24    # format specifications for Debug, and as many for Display: rt.rs


def nspecs(f):
    return 2 * DBG if f["disp"] else (DBG if "Debug" in f["derives"] else 0)


def by_hand(f, pat):
    """an implementation of TaggableInner by hand, as the documentation describes it"""
    vs, tags, R = f["variants"], f["tags"], []
    w = R.append
    for i, (k, ts) in enumerate(vs):
        if len(ts) != 1 or k != "tuple":
            w("    struct P%d(%s);" % (i, ", ".join(ts)))

    def form(i):
        k, ts = vs[i]
        return "x0" if k == "tuple" and len(ts) == 1 else "P%d(%s)" % (i, ", ".join("x%d" % j for j in range(len(ts)))) if ts else "P%d()" % i

    def ty(i):
        k, ts = vs[i]
        return ts[0] if k == "tuple" and len(ts) == 1 else "P%d" % i
    w("    impl TaggableInner for E {")
    w("        fn into_tagged_box(self) -> TaggedBox<Self> {")
    if f["manual"] == "whole":
        w("            let tag = match &self { %s };" % ", ".join("%s => %d" % (pat(i, v).replace("x0", "_x0"), tags[i]) for i, v in enumerate(vs)))
        w("            TaggedBox::new(self, tag)")
    else:
        w("            match self {")
        for i, v in enumerate(vs):
            if not v[1] and i % 2:
                w("                %s => TaggedBox::dangling::<()>(%d)," % (pat(i, v), tags[i]))
            else:
                w("                %s => TaggedBox::new::<%s>(%s, %d)," % (pat(i, v), ty(i), form(i), tags[i]))
        w("            }")
    w("        }")
    w("        fn from_tagged_box(tagged: TaggedBox<Self>) -> Self {")
    w("            unsafe { match tagged.discriminant() {")
    for i, v in enumerate(vs):
        if f["manual"] == "whole":
            w("                %d => TaggedBox::into_inner::<Self>(tagged)," % tags[i])
        elif not v[1]:
            w("                %d => %s," % (tags[i], pat(i, v)))
        else:
            w("                %d => { let %s = TaggedBox::into_inner::<%s>(tagged); %s }" % (tags[i], form(i), ty(i), pat(i, v)))
    w("                _ => panic!(\"no such variant\") } }")
    w("        }")
    w("        unsafe fn ref_from_tagged_box<F: FnOnce(&Self)>(tagged: &TaggedBox<Self>, callback: F) {")
    if f["manual"] == "whole":
        w("            if !matches!(tagged.discriminant(), %s) { panic!(\"no such variant\") }" % " | ".join(map(str, tags)))
        w("            callback(tagged.as_ref::<Self>())")
    else:
        w("            let value = std::mem::ManuallyDrop::new(match tagged.discriminant() {")
        for i, v in enumerate(vs):
            if not v[1]:
                w("                %d => %s," % (tags[i], pat(i, v)))
            else:
                w("                %d => { let %s = std::ptr::read(tagged.as_ptr::<%s>()); %s }" % (tags[i], form(i), ty(i), pat(i, v)))
        w("                _ => panic!(\"no such variant\") });")
        w("            callback(&value);")
    w("        }")
    w("    }")
    w("    impl TaggableContainer for C { type Inner = E; fn into_inner(self) -> E { E::from_tagged_box(self.value) } }")
    w("    impl From<E> for C { fn from(e: E) -> C { C { value: e.into_tagged_box() } } }")
    for i, (k, ts) in enumerate(vs):
        if k == "empty":
            w("    impl From<()> for C { fn from(_: ()) -> C { C::from(E::V%d()) } }" % i)
        elif k == "tuple" and len(ts) == 1:
            w("    impl From<%s> for C { fn from(x: %s) -> C { C::from(E::V%d(x)) } }" % (ts[0], ts[0], i))
        elif k == "tuple":
            w("    impl From<(%s)> for C { fn from(x: (%s)) -> C { C::from(E::V%d(%s)) } }" % (
                ", ".join(ts), ", ".join(ts), i, ", ".join("x.%d" % j for j in range(len(ts)))))
    return R


# a container of the enum inside the enum: holds unit, u32 and u64, and
# gives its block back when it is dropped, which the container itself does not
SUB = """    #[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord)]
    pub struct Sub(C);
    impl Drop for Sub {
        fn drop(&mut self) {
            unsafe {
                let b: TaggedBox<E> = std::ptr::read(&self.0.value);
                match b.discriminant() {
                    3 => drop(TaggedBox::into_box::<u32>(b)),
                    5 => drop(TaggedBox::into_box::<u64>(b)),
                    _ => std::mem::forget(b),
                }
            }
        }
    }
    impl Fd for Sub {
        const TOKS: usize = 4;
        const CLS: &'static str = "tot";
        fn mk(t: usize) -> Self {
            Sub(match t {
                0 => C::from(E::V2),
                1 => C::from(0x0A0B_0C0Du32),
                2 => C::from(E::V3(0xF102_0304)),
                _ => C::from(0x0102_0304_0506_0708u64),
            })
        }
        fn look(&self) -> Look {
            let tag = self.0.value.discriminant();
            let a = if tag == 2 { 0 } else { block_of(self.0.value.as_ptr::<u8>() as usize) };
            if tag != 2 && (a == 0 || tag != 3 && tag != 5) {
                return Look { t: -1, a };
            }
            let mut t = -1;
            unsafe {
                E::ref_from_tagged_box(&self.0.value, |e| t = match e {
                    E::V2 => 0,
                    E::V3(0x0A0B_0C0D) => 1,
                    E::V3(0xF102_0304) => 2,
                    E::V5(0x0102_0304_0506_0708) => 3,
                    _ => -1,
                });
            }
            Look { t, a }
        }
    }"""


def rust(f):
    name, vs = f["name"], f["variants"]
    R = []
    w = R.append
    d = f["derives"]
    w("pub mod %s {" % name)
    w("    use crate::rt::*;")
    w("    use std::fmt;")
    w("    use tagged_box::{tagged_box, Discriminant, TaggableContainer, TaggableInner, TaggedBox};")

    def vn(i):
        return f["names"][i][0] if f["names"] else "V%d" % i

    def mn(i, j):
        return f["names"][i][1][j] if f["names"] else "m%d" % j

    def decl(i, v):
        k, ts = v
        if k == "unit":
            return "%s," % vn(i)
        if k == "empty":
            return "%s()," % vn(i)
        if k == "tuple":
            return "%s(%s)," % (vn(i), ", ".join(ts))
        body = ", ".join("%s: %s" % (mn(i, j), t) for j, t in enumerate(ts))
        return "%s { %s%s }," % (vn(i), body, "," if k == "namedc" else "")

    def form(i, v, args):
        """the variant with these patterns or expressions for fields"""
        k, ts = v
        if k == "unit":
            return "E::" + vn(i)
        if k in ("empty", "tuple"):
            return "E::%s(%s)" % (vn(i), ", ".join(args))
        return "E::%s { %s }" % (vn(i), ", ".join("%s: %s" % (mn(i, j), a) for j, a in enumerate(args)))

    def pat(i, v):
        return form(i, v, ["x%d" % j for j in range(len(v[1]))])

    def build(i, v):
        return form(i, v, ["<%s as Fd>::mk(t[%d])" % (t, j) for j, t in enumerate(v[1])])

    def remake(i, v):
        return form(i, v, ["Clone::clone(x%d)" % j for j in range(len(v[1]))])

    if f["raw"]:
        w("    pub enum Mark {}")
        w("    pub enum E { %s }" % " ".join(decl(i, v) for i, v in enumerate(vs)))
        w("    pub struct C;")
        w("    type T = Mark;")
    elif f["manual"]:
        w("    #[derive(%s)]" % ", ".join(d))
        w("    pub enum E { %s }" % " ".join(decl(i, v) for i, v in enumerate(vs)))
        w("    #[derive(%s)]" % ", ".join(d))
        w("    pub struct C { value: TaggedBox<E> }")
        w("    type T = E;")
        if "Debug" in d:
            w("    mod plain { #[derive(Debug)] pub struct C<'a> { pub value: &'a super::E } }")
        R += by_hand(f, pat)
    else:
        w("    tagged_box! {")
        if f["decor"][0]:
            w("        " + f["decor"][0])
        if d and not f["hand"]:
            w("        #[derive(%s)]" % ", ".join(d))
        w("        %s struct C, %s enum E {" % f["decor"][1:])
        for i, v in enumerate(vs):
            w("            " + decl(i, v))
        w("        }")
        w("    }")
        w("    type T = E;")
        if "Debug" in d:
            w("    mod plain { #[derive(Debug)] pub struct C<'a> { pub value: &'a super::E } }")
        if f["hand"]:
            w("    impl E { fn key(&self) -> (i64, i64) { let (v, l) = quiet(|| <Fam as Family>::look(self));")
            w("        let k = (-(v as i64 / 2), l.iter().map(|x| x.t).sum()); quiet(|| drop(l)); k } }")
            w("    impl Clone for E { fn clone(&self) -> E { match self {")
            for i, v in enumerate(vs):
                w("        %s => %s," % (pat(i, v), remake(i, v)))
            w("    } } }")
            w("    impl PartialEq for E { fn eq(&self, o: &E) -> bool { cmp_trip(); self.key() == o.key() } }")
            w("    impl Eq for E {}")
            w("    impl PartialOrd for E { fn partial_cmp(&self, o: &E) -> Option<std::cmp::Ordering> { Some(self.cmp(o)) } }")
            w("    impl Ord for E { fn cmp(&self, o: &E) -> std::cmp::Ordering { cmp_trip(); self.key().cmp(&o.key()) } }")
            w("    impl fmt::Debug for E { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {")
            w("        let (v, l) = quiet(|| <Fam as Family>::look(self)); let r = show_spec(f, [%s][v as usize], &l); quiet(|| drop(l)); r } }" % ", ".join('"by hand %d"' % i for i in range(len(vs))))
            w("    impl Clone for C { fn clone(&self) -> C { C { value: self.value.clone() } } }")
            w("    impl PartialEq for C { fn eq(&self, o: &C) -> bool { self.value == o.value } fn ne(&self, o: &C) -> bool { self.value != o.value } }")
            w("    impl Eq for C {}")
            w("    impl PartialOrd for C { fn partial_cmp(&self, o: &C) -> Option<std::cmp::Ordering> { self.value.partial_cmp(&o.value) }")
            for m in ("lt", "le", "gt", "ge"):
                w("        fn %s(&self, o: &C) -> bool { self.value.%s(&o.value) }" % (m, m))
            w("    }")
            w("    impl Ord for C { fn cmp(&self, o: &C) -> std::cmp::Ordering { self.value.cmp(&o.value) } }")
            w("    impl fmt::Debug for C { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.debug_struct(\"C\").field(\"value\", &self.value).finish() } }")
    if not f["raw"]:
        if f["disp"]:
            w("    impl fmt::Display for E {")
            w("        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {")
            w("            let (v, l) = quiet(|| <Fam as Family>::look(self));")
            w("            let r = show_spec(f, [%s][v as usize], &l);" % ", ".join('"v%d"' % i for i in range(len(vs))))
            w("            quiet(|| drop(l)); r")
            w("        }")
            w("    }")
    if any("Sub" in v[1] for v in vs):
        R.append(SUB)
    singles = [(i, v[1][0]) for i, v in enumerate(vs) if single(v)]
    if f["manual"] == "whole":
        assert not singles
    w("    pub enum S { %s None }" % " ".join("V%d(Box<%s>)," % (i, t) for i, t in singles))
    w("    pub struct Fam;")
    w("    fn decl() -> String {")
    w("        let mut v: Vec<String> = Vec::new();")
    for i, (k, ts) in enumerate(vs):
        w("        v.push(decl_variant(\"%s\", \"%s\", %d, %d, %s, &[%s]));" % (
            k, "key" if f["hand"] else "derived", i // 2 if f["hand"] else i, f["tags"][i],
            "(std::mem::size_of::<E>(), std::mem::align_of::<E>())" if f["manual"] == "whole" else "(0, 1)", ", ".join("(std::mem::size_of::<%s>(), std::mem::align_of::<%s>(), <%s as Fd>::CLS, <%s as Fd>::TOKS)" % (t, t, t, t) for t in ts)))
    w("        v.join(\",\")")
    w("    }")
    w("    impl Family for Fam {")
    w("        const NAME: &'static str = \"%s\";" % name)
    w("        const VARIANTS: usize = %d;" % len(vs))
    w("        const RAW: bool = %s;" % ("true" if f["raw"] else "false"))
    w("        const COPY: bool = %s;" % ("true" if "Copy" in d else "false"))
    w("        const DECL: fn() -> String = decl;")
    if f["tags"] != list(range(len(vs))):
        w("        fn variant(tag: u64) -> Option<usize> { [%s].iter().position(|x| *x == tag) }" % ", ".join("%du64" % t for t in f["tags"]))
    w("        type E = E; type C = C; type T = T; type S = S;")
    w("        fn make(v: usize, t: &[usize]) -> E { match v {")
    for i, v in enumerate(vs):
        w("            %d => %s," % (i, build(i, v)))
    w("            _ => panic!(\"no variant\") } }")
    w("        fn look(e: &E) -> Seen { match e {")
    for i, v in enumerate(vs):
        w("            %s => (%d, vec![%s])," % (pat(i, v), i, ", ".join("x%d.look()" % j for j in range(len(v[1])))))
    w("        } }")

    def by_single(sig, arm, els="panic!(\"not a single payload\")"):
        w("        fn %s { match v {" % sig)
        for i, t in singles:
            w("            %d => %s," % (i, arm(i, t)))
        w("            _ => %s } }" % els)

    if f["raw"]:
        w("        fn to_box(e: E, tag: u64) -> TaggedBox<T> { match e {")
        for i, t in singles:
            w("            E::V%d(x) => TaggedBox::new::<%s>(x, tag as Discriminant)," % (i, t))
        w("        } }")
        by_single("from_box(b: TaggedBox<T>, v: usize) -> E", lambda i, t: "E::V%d(unsafe { TaggedBox::into_inner::<%s>(b) })" % (i, t))
        w("        fn view(b: &TaggedBox<T>, v: usize, f: &mut dyn FnMut(&Seen)) { let s: Seen = match v {")
        for i, t in singles:
            w("            %d => quiet(|| (%d, vec![unsafe { b.as_ref::<%s>() }.look()]))," % (i, i, t))
        w("            _ => panic!(\"no variant\") }; f(&s); quiet(|| drop(s)); }")
        by_single("view_set(b: &TaggedBox<T>, v: usize, _: usize, t: usize, f: &mut dyn FnMut(&Seen))",
                  lambda i, t: "unsafe { let x = b.as_ref::<%s>(); let s: Seen = quiet(|| (%d, vec![x.look()])); f(&s); quiet(|| drop(s)); x.set(t) }" % (t, i))
        for sig in ("to_cont(_: E) -> C", "cont_pay(_: usize, _: &[usize]) -> C", "cont_inner(_: C) -> E", "wrap(_: TaggedBox<T>) -> C",
                    "unwrap(_: C) -> TaggedBox<T>", "peek(_: &C) -> &TaggedBox<T>"):
            w("        fn %s { unimplemented!() }" % sig)
    else:
        w("        fn to_box(e: E, _: u64) -> TaggedBox<T> { e.into_tagged_box() }")
        w("        fn from_box(b: TaggedBox<T>, _: usize) -> E { E::from_tagged_box(b) }")
        w("        fn view(b: &TaggedBox<T>, _: usize, f: &mut dyn FnMut(&Seen)) {")
        w("            unsafe { E::ref_from_tagged_box(b, |e| { let s = quiet(|| Self::look(e)); f(&s); yp();")
        w("                let s2 = quiet(|| Self::look(e)); if s != s2 { f(&s2) }; quiet(|| drop((s, s2))); }) }")
        w("        }")
        w("        fn view2(a: &TaggedBox<T>, _: usize, b: &TaggedBox<T>, _: usize, f: &mut dyn FnMut(&Seen, &Seen)) {")
        w("            unsafe { E::ref_from_tagged_box(a, |x| { let s = quiet(|| Self::look(x));")
        w("                E::ref_from_tagged_box(b, |y| { let r = quiet(|| Self::look(y)); f(&s, &r); yp();")
        w("                    let (s2, r2) = quiet(|| (Self::look(x), Self::look(y))); if s != s2 || r != r2 { f(&s2, &r2) }; quiet(|| drop((r, s2, r2))); });")
        w("                yp(); let s2 = quiet(|| Self::look(x)); if s != s2 { f(&s2, &(-1, Vec::new())) }; quiet(|| drop((s, s2))); }) }")
        w("        }")
        w("        fn view_set(b: &TaggedBox<T>, _: usize, i: usize, t: usize, f: &mut dyn FnMut(&Seen)) {")
        w("            unsafe { E::ref_from_tagged_box(b, |e| { let s = quiet(|| Self::look(e)); f(&s); quiet(|| drop(s));")
        w("                match (e, i) {")
        for i, v in enumerate(vs):
            for j, t in enumerate(v[1]):
                if t in CELLS:
                    w("                    (%s, %d) => x%d.set(t)," % (pat(i, v), j, j))
        w("                    _ => panic!(\"no cell\") } }) }")
        w("        }")
        w("        fn to_cont(e: E) -> C { C::from(e) }")
        w("        fn cont_pay(v: usize, t: &[usize]) -> C { match v {")
        for i, (k, ts) in enumerate(vs):
            args = ["<%s as Fd>::mk(t[%d])" % (x, j) for j, x in enumerate(ts)]
            if k == "tuple" and len(ts) == 1:
                w("            %d => C::from(%s)," % (i, args[0]))
            elif k == "tuple" and len(ts) <= 32:
                w("            %d => { let p: (%s) = (%s); C::from(p) }" % (i, ", ".join(ts), ", ".join(args)))
            elif k == "empty":
                w("            %d => C::from(())," % i)
        w("            _ => panic!(\"no payload conversion\") } }")
        w("        fn cont_inner(c: C) -> E { TaggableContainer::into_inner(c) }")
        w("        fn wrap(b: TaggedBox<T>) -> C { C { value: b } }")
        w("        fn unwrap(c: C) -> TaggedBox<T> { c.value }")
        w("        fn peek(c: &C) -> &TaggedBox<T> { &c.value }")
        if "Clone" in d:
            w("        fn clone_box(b: &TaggedBox<T>) -> TaggedBox<T> { Clone::clone(b) }")
            w("        fn clone_cont(b: &C) -> C { Clone::clone(b) }")
            w("        fn clone_from_box(a: &mut TaggedBox<T>, b: &TaggedBox<T>) { a.clone_from(b) }")
            w("        fn clone_from_cont(a: &mut C, b: &C) { a.clone_from(b) }")
            w("        fn clone_val(b: &E) -> E { Clone::clone(b) }")
        if "Copy" in d:
            w("        fn copy_box(b: &TaggedBox<T>) -> TaggedBox<T> { *b }")
            w("        fn copy_cont(b: &C) -> C { *b }")
        if "PartialEq" in d:
            fn, k = ("cmp_total", 10) if "Ord" in d else ("cmp_partial", 7) if "PartialOrd" in d else ("cmp_eq", 2)
            w("        const CMPS: usize = %d;" % k)
            w("        fn cmp_box(a: &TaggedBox<T>, b: &TaggedBox<T>, what: usize) -> i64 { %s(a, b, what) }" % fn)
            w("        fn cmp_cont(a: &C, b: &C, what: usize) -> i64 { %s(a, b, what) }" % fn)
            w("        fn cmp_val(a: &E, b: &E, what: usize) -> i64 { %s(a, b, what) }" % fn)
            if k == 10:
                w("        const PICKS: usize = 5;")
                w("        fn pick_box(a: &TaggedBox<T>, b: &TaggedBox<T>, what: usize) -> i64 { pick_total(a, b, what) }")
                w("        fn pick_cont(a: &C, b: &C, what: usize) -> i64 { pick_total(a, b, what) }")
        if "Debug" in d:
            fn = "fmt_all" if f["disp"] else "fmt_dbg"
            w("        fn fmt_box(a: &TaggedBox<T>, spec: usize, w: &mut dyn fmt::Write) -> fmt::Result { %s(a, spec, w) }" % fn)
            w("        fn fmt_val(a: &E, spec: usize, w: &mut dyn fmt::Write) -> fmt::Result { %s(a, spec, w) }" % fn)
            w("        fn fmt_cont(a: &C, spec: usize, w: &mut dyn fmt::Write) -> fmt::Result { fmt_dbg(a, spec % DBG, w) }")
            w("        fn fmt_valcont(a: &E, spec: usize, w: &mut dyn fmt::Write) -> fmt::Result { fmt_dbg(&plain::C { value: a }, spec % DBG, w) }")

    by_single("pay_new(v: usize, t: usize, tag: u64, how: usize) -> TaggedBox<T>",
              lambda i, t: "{ let x = <%s as Fd>::mk(t); if how == 0 { TaggedBox::new(x, tag as Discriminant) } else { unsafe { TaggedBox::new_unchecked(x, tag as Discriminant) } } }" % t)
    by_single("pay_inner(b: TaggedBox<T>, v: usize) -> E", lambda i, t: "E::%s(unsafe { TaggedBox::into_inner::<%s>(b) })" % (vn(i), t))
    by_single("pay_ref(b: &mut TaggedBox<T>, v: usize, how: usize) -> (usize, Look)",
              lambda i, t: "{ let r: *const %s = unsafe { match how { 0 => b.as_ref::<%s>() as *const _, 1 => b.as_mut_ref::<%s>() as *mut _ as *const _, 2 => b.as_ptr::<%s>(), _ => b.as_mut_ptr::<%s>() as *const _ } }; (r as usize, unsafe { &*r }.look()) }" % (t, t, t, t, t))
    by_single("pay_poke(b: &mut TaggedBox<T>, v: usize, t: usize, how: usize)",
              lambda i, t: "{ let x = <%s as Fd>::mk(t); unsafe { if how == 0 { *b.as_mut_ref::<%s>() = x } else { *b.as_mut_ptr::<%s>() = x } } }" % (t, t, t))
    by_single("pay_raw(b: TaggedBox<T>, v: usize) -> *mut u8", lambda i, t: "TaggedBox::into_raw::<%s>(b) as *mut u8" % t)
    by_single("pay_from_raw(p: *mut u8, v: usize, tag: u64) -> TaggedBox<T>",
              lambda i, t: "unsafe { TaggedBox::from_raw(p as *mut %s, tag as Discriminant) }" % t)
    by_single("pay_std(b: TaggedBox<T>, v: usize) -> S", lambda i, t: "S::V%d(unsafe { TaggedBox::into_box::<%s>(b) })" % (i, t))
    by_single("ptr_look(p: *mut u8, v: usize) -> Look", lambda i, t: "unsafe { &*(p as *const %s) }.look()" % t)
    by_single("ptr_place(p: *mut u8, v: usize, k: usize) -> *mut u8", lambda i, t: "place::<%s>(p, k)" % t)
    w("        fn std_look(s: &S) -> (usize, usize, Look) { match s {")
    for i, t in singles:
        w("            S::V%d(x) => (%d, &**x as *const %s as usize, <%s as Fd>::look(&**x))," % (i, i, t, t))
    w("            S::None => unreachable!() } }")
    w("        fn std_read(s: S) -> E { match s {")
    for i, t in singles:
        w("            S::V%d(x) => E::%s(*x)," % (i, vn(i)))
    w("            S::None => unreachable!() } }")
    w("        fn std_raw(s: S) -> (*mut u8, usize) { match s {")
    for i, t in singles:
        w("            S::V%d(x) => (Box::into_raw(x) as *mut u8, %d)," % (i, i))
    w("            S::None => unreachable!() } }")
    by_single("std_new(v: usize, t: usize) -> S", lambda i, t: "S::V%d(Box::new(<%s as Fd>::mk(t)))" % (i, t))
    by_single("raw_std(p: *mut u8, v: usize) -> S", lambda i, t: "S::V%d(unsafe { Box::from_raw(p as *mut %s) })" % (i, t))
    w("    }")
    w("}")
    return "\n".join(R) + "\n"


MAIN = """#![recursion_limit = "4096"]
#![allow(warnings, clippy::all)]
mod rt;
#[global_allocator]
static ALLOC: rt::Tracking = rt::Tracking;
%s
fn main() {
    rt::main_with(&[
%s
    ]);
}
"""


def program(fams):
    mods = "\n".join(rust(f) for f in fams)
    table = "\n".join("        (\"%s\", rt::run_case::<%s::Fam>, <%s::Fam as rt::Family>::DECL, <%s::Fam as rt::Family>::COPY, %s)," % (f["name"], f["name"], f["name"], f["name"], "true" if f["raw"] else "false") for f in fams)
    return MAIN % (mods, table)
