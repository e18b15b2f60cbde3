"""Deciding by the compiler's own judgement of witness programs: what must not compile (C15), and
what must compile where there is no std (C20)."""
import json
import os
import shutil
import subprocess
import tempfile
from concurrent.futures import ThreadPoolExecutor
from common import *

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"


def artefacts(target):
    """{crate: newest library}, [directories]"""
    base = os.path.join(target, "debug", "build")
    libs, dirs = {}, []
    for r, ds, fs in os.walk(base):
        if os.path.basename(r) != "out":
            continue
        for f in fs:
            if f.startswith("lib") and (f.endswith(".rmeta") or f.endswith(".so")):
                n = f[3:].rsplit("-", 1)[0]
                p = os.path.join(r, f)
                dirs.append(r)
                if n not in libs or os.path.getmtime(p) > os.path.getmtime(libs[n]):
                    libs[n] = p
    return libs, sorted(set(dirs))


def rustc(src, out, name, externs, dirs, feats=(), sysroot=None, extra=()):
    cmd = ["rustc", "+nightly", "--edition", "2021", "--crate-type", "lib", "--crate-name", name, "--emit=metadata", "-o", out, "--error-format=json", "-Awarnings", "-Zalways-encode-mir"]
    for f in feats:
        cmd += ["--cfg", f'feature="{f}"']
    for n, p in externs.items():
        cmd += ["--extern", f"{n}={p}"]
    for d in dirs:
        cmd += ["-L", "dependency=" + d]
    if sysroot:
        cmd += ["--sysroot", sysroot]
    p = subprocess.run(cmd + list(extra) + [src], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=300)
    msgs = []
    for l in p.stderr.splitlines():
        try:
            j = json.loads(l)
        except ValueError:
            continue
        if j.get("level") == "error":
            sp = [s for s in j.get("spans", []) if s.get("is_primary")] or j.get("spans", [])
            at = ""
            if sp:
                s = sp[0]
                e = s.get("expansion")
                while e:
                    s2 = e["span"]
                    if s2["file_name"].startswith(("/repo", "/verif")):
                        s = s2
                    e = s2.get("expansion")
                at = f"{short_span(s['file_name'])}:{s['line_start']}: "
            msgs.append((at + j["message"]).strip())
    return p.returncode == 0, msgs or [p.stderr[-300:]] * (p.returncode != 0)


class Scratch:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix="vp-witness-")
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)


def write(d, name, text):
    p = os.path.join(d, name)
    with open(p, "w") as f:
        f.write(text)
    return p


# ------------------------------------------------------------------ C20
def core_only(d):
    """A sysroot in which core and alloc exist and std does not."""
    root_ = subprocess.run(["rustc", "+nightly", "--print", "sysroot"], stdout=subprocess.PIPE, text=True).stdout.strip()
    host = [l.split()[1] for l in subprocess.run(["rustc", "+nightly", "-vV"], stdout=subprocess.PIPE, text=True).stdout.splitlines() if l.startswith("host:")][0]
    src = os.path.join(root_, "lib", "rustlib", host, "lib")
    dst = os.path.join(d, "sysroot", "lib", "rustlib", host, "lib")
    os.makedirs(dst)
    got = set()
    for f in os.listdir(src):
        n = f[3:].rsplit("-", 1)[0] if f.startswith("lib") else ""
        if n in ("core", "alloc", "compiler_builtins", "rustc_std_workspace_core"):
            os.symlink(os.path.join(src, f), os.path.join(dst, f))
            got.add(n)
    if not {"core", "alloc"} <= got:
        raise AnchorMissing("core and alloc of the toolchain")
    return os.path.join(d, "sysroot")


def no_std(rep):
    import run as runner
    try:
        runner.export("core")
    except runner.NoAnswer:
        pass
    libs, dirs = artefacts(os.path.join(HERE, "build", "target-core"))
    if "rpcl2_derive" not in libs or "nalgebra" not in libs:
        raise AnchorMissing("the derive macro or nalgebra was not built")
    lib = os.path.join(REPO, "rpcl2", "src", "lib.rs")
    rule = "compiles where only core and alloc exist"
    with Scratch() as d:
        sr = core_only(d)
        # the sysroot must really lack std
        t = write(d, "probe.rs", "#![no_std]\nextern crate alloc; extern crate std;\n")
        ok, _ = rustc(t, os.path.join(d, "p.rmeta"), "probe", {}, [], (), sr)
        if ok:
            raise AnchorMissing("a sysroot without std")
        sets = [(), ("derive",), ("nalgebra",), ("derive", "nalgebra")]

        def lib_(feats, sysroot, tag):
            ext = {}
            if "derive" in feats:
                ext["rpcl2_derive"] = libs["rpcl2_derive"]
            if "nalgebra" in feats:
                ext["nalgebra"] = libs["nalgebra"]
            sub_ = os.path.join(d, tag)
            os.makedirs(sub_, exist_ok=True)
            out = os.path.join(sub_, "libros_pointcloud2.rmeta")
            ok, m = rustc(lib, out, "ros_pointcloud2", ext, dirs, feats, sysroot)
            return ok, m, out
        jobs = [(f, s, "-".join(f) + ("core" if s else "full")) for f in sets for s in (None, sr)] + [(f + ("std",), None, "-".join(f) + "std") for f in sets]
        with ThreadPoolExecutor(8) as ex:
            res = dict(zip(jobs, ex.map(lambda j: lib_(*j), jobs)))
        rep.note("feature_sets", *[", ".join(f) or "(none)" for f in sets])
        for f in sets:
            name = "library with features " + (", ".join(f) or "(none)")
            ok0, m0, _ = res[(f, None, "-".join(f) + "full")]
            ok1, m1, _ = res[(f, sr, "-".join(f) + "core")]
            if ok1:
                rep.add("held", rule, name)
            elif ok0:
                rep.add("violated", rule, name, "compiles with std present and not without: " + "; ".join(m1[:3]))
            elif res[(f + ("std",), None, "-".join(f) + "std")][0]:
                rep.add("violated", rule, name, "compiles with the std feature and not without: " + "; ".join(m0[:3]))
            else:
                rep.add("undecided", rule, name, "does not compile with the std feature either: " + "; ".join(m0[:3]))
        # the macro's expansions
        shapes = os.path.join(HERE, "witness", "src", "shapes.rs")
        rule = "generated code compiles where only core and alloc exist"
        bare = write(d, "bare.rs", f'#![no_std]\nextern crate alloc;\n#[path = "{shapes}"]\npub mod shapes;\n')
        withstd = write(d, "withstd.rs", f'extern crate alloc;\n#[path = "{shapes}"]\npub mod shapes;\n')
        ok1, m1, core_lib = res[(("derive",), sr, "derivecore")]
        okf, _, full_lib = res[(("derive",), None, "derivefull")]
        oks, _, std_lib = res[(("derive", "std"), None, "derivestd")]
        n = open(shapes).read().count("PointConvertible)]")
        rep.note("expansions", f"{n} derived structs")
        if ok1:
            okb, mb = rustc(bare, os.path.join(d, "bare.rmeta"), "bare", {"ros_pointcloud2": core_lib}, dirs, (), sr)
        elif okf:
            okb, mb = rustc(bare, os.path.join(d, "bare.rmeta"), "bare", {"ros_pointcloud2": full_lib}, dirs, ())
        else:
            okb, mb = None, ["the library does not compile"]
        if okb:
            rep.add("held", rule, f"{n} derived structs")
        elif okb is None:
            rep.add("undecided", rule, f"{n} derived structs", "; ".join(mb))
        else:
            okw, mw = rustc(withstd, os.path.join(d, "ws.rmeta"), "withstd", {"ros_pointcloud2": std_lib}, dirs, ()) if oks else (False, ["the library does not compile"])
            st = "violated" if okw else "undecided"
            for x in (mb if okw else mw)[:4]:
                rep.add(st, rule, x.split(": ")[0] if ": " in x else "derive", x)


# ------------------------------------------------------------------ C15
HEAD = """#![allow(dead_code, unused)]
extern crate alloc;
use ros_pointcloud2::prelude::*;
use ros_pointcloud2::points;
use ros_pointcloud2::points::RGB as Colour;

/// A number with every conversion a point member needs, and yet none of the eight primitives.
#[derive(Clone, Copy, Default, Debug, PartialEq)]
#[repr(transparent)]
pub struct Meters(pub f32);
impl From<Meters> for PointDataBuffer { fn from(m: Meters) -> Self { m.0.into() } }
impl From<Meters> for ros_pointcloud2::PointData { fn from(m: Meters) -> Self { ros_pointcloud2::PointData::new(m.0) } }
impl GetFieldDatatype for Meters { fn field_datatype() -> FieldDatatype { FieldDatatype::F32 } }
impl FromBytes for Meters {
    fn from_be_bytes(b: PointDataBuffer) -> Self { Meters(<f32 as FromBytes>::from_be_bytes(b)) }
    fn from_le_bytes(b: PointDataBuffer) -> Self { Meters(<f32 as FromBytes>::from_le_bytes(b)) }
}
// wide numbers with the same conversions, as a user may add them
macro_rules! wide { ($($n:ident $t:ty),*) => {$(
    #[derive(Clone, Copy, Default, Debug, PartialEq)]
    pub struct $n(pub $t);
    impl From<$n> for PointDataBuffer { fn from(m: $n) -> Self { 0u8.into() } }
    impl From<$n> for ros_pointcloud2::PointData { fn from(m: $n) -> Self { ros_pointcloud2::PointData::new(0u8) } }
    impl GetFieldDatatype for $n { fn field_datatype() -> FieldDatatype { FieldDatatype::U8 } }
    impl FromBytes for $n {
        fn from_be_bytes(b: PointDataBuffer) -> Self { $n(Default::default()) }
        fn from_le_bytes(b: PointDataBuffer) -> Self { $n(Default::default()) }
    }
)*}}
wide!(Wide u64, F32 u64, I32x f32, U8 u16, Float f64);
pub mod own { pub use super::Meters; pub use super::Meters as f32_; pub use super::Meters as f32; pub use super::Wide as u8; pub use super::Float as f64; }

"""
BAD_TYPES = ["bool", "char", "u64", "i64", "u128", "i128", "usize", "isize", "()", "alloc::string::String", "&'static str", "[f32; 3]", "[u8; 4]", "[f32; 1]",
             "(f32, f32)", "(f32,)", "Option<f32>", "alloc::vec::Vec<f32>", "alloc::boxed::Box<f32>", "RGB", "points::RGB", "::ros_pointcloud2::points::RGB", "Colour",
             "PointXYZ", "Meters", "own::Meters", "own::f32_", "own::f32", "self::own::u8", "own::f64", "Wide", "F32", "I32x", "U8", "Float", "core::marker::PhantomData<f32>", "fn() -> f32", "*const f32", "&'static f32",
             "core::num::Wrapping<u32>", "Option<core::num::NonZeroU32>", "core::cell::Cell<f32>", "PointDataBuffer", "FieldDatatype"]


def struct_src(ty, pos, tag):
    fs = [("a", "f32"), ("b", "u16"), ("c", "f64")]
    fs[pos] = (fs[pos][0], ty)
    body = "".join(f"    pub {n}: {t},\n" for n, t in fs)
    return f"#[derive(PointConvertible)]\n#[repr(C)]\npub struct S{tag} {{\n{body}}}\nimpl Default for S{tag} {{ fn default() -> Self {{ loop {{}} }} }}\n"


GOOD_ITEM = "#[derive(PointConvertible, Clone, Copy, Default)]\n#[repr(C)]\npub struct P { pub x: f32 }\n"
DEF = "impl Default for P { fn default() -> Self { loop {} } }\n"
# bad item, twin that differs in the rejected part only
ITEMS = [
    ("enum without data", "#[derive(PointConvertible)]\npub enum P { A, B }\n" + DEF, "#[derive(PointConvertible)]\npub struct P { a: f32 }\n" + DEF),
    ("enum with one variant", "#[derive(PointConvertible)]\npub enum P { A { x: f32 } }\n" + DEF, "#[derive(PointConvertible)]\npub struct P { x: f32 }\n" + DEF),
    ("enum with tuple variants", "#[derive(PointConvertible)]\npub enum P { A(f32), B(u8) }\n" + DEF, "#[derive(PointConvertible)]\npub struct P { a: f32, b: u8 }\n" + DEF),
    ("enum with a primitive representation", "#[derive(PointConvertible)]\n#[repr(u8)]\npub enum P { A = 1, B = 2 }\n" + DEF, "#[derive(PointConvertible)]\n#[repr(C)]\npub struct P { a: u8 }\n" + DEF),
    ("enum without variants", "#[derive(PointConvertible)]\npub enum P {}\n" + DEF, "#[derive(PointConvertible)]\npub struct P { a: u8 }\n" + DEF),
    ("union", "#[derive(PointConvertible)]\n#[repr(C)]\npub union P { a: f32, b: u32 }\n" + DEF, "#[derive(PointConvertible)]\n#[repr(C)]\npub struct P { a: f32, b: u32 }\n" + DEF),
    ("union with one member", "#[derive(PointConvertible, Clone, Copy)]\n#[repr(C)]\npub union P { a: f32 }\n" + DEF, "#[derive(PointConvertible, Clone, Copy)]\n#[repr(C)]\npub struct P { a: f32 }\n" + DEF),
    ("tuple struct", "#[derive(PointConvertible)]\n#[repr(C)]\npub struct P(f32, f32);\n" + DEF, "#[derive(PointConvertible)]\n#[repr(C)]\npub struct P { a: f32, b: f32 }\n" + DEF),
    ("tuple struct with one member", "#[derive(PointConvertible)]\n#[repr(C)]\npub struct P(pub f32);\n" + DEF, "#[derive(PointConvertible)]\n#[repr(C)]\npub struct P { pub a: f32 }\n" + DEF),
    ("tuple struct without members", "#[derive(PointConvertible)]\npub struct P();\n" + DEF, "#[derive(PointConvertible)]\npub struct P { a: i8 }\n" + DEF),
    ("unit struct", "#[derive(PointConvertible)]\npub struct P;\n" + DEF, "#[derive(PointConvertible)]\npub struct P { a: i8 }\n" + DEF),
    ("struct without members", "#[derive(PointConvertible)]\n#[repr(C)]\npub struct P {}\n" + DEF, "#[derive(PointConvertible)]\n#[repr(C)]\npub struct P { a: i8 }\n" + DEF),
]


def rejections(rep):
    P = prog()
    libs, dirs = artefacts(os.path.join(HERE, "build", "target-full"))
    if "ros_pointcloud2" not in libs:
        raise AnchorMissing("the library was not built")
    ext = {"ros_pointcloud2": libs["ros_pointcloud2"]}
    jobs = []
    for n, t in enumerate(BAD_TYPES):
        for pos in range(3):
            jobs.append((f"field of type {t} as {('first', 'middle', 'last')[pos]} member", HEAD + struct_src(t, pos, n), HEAD + struct_src("f32", pos, n)))
    for n, (what, bad, good) in enumerate(ITEMS):
        jobs.append((what, HEAD + bad, HEAD + good))
    with Scratch() as d:
        def one(job):
            n, src = job
            p = write(d, f"w{n}.rs", src)
            return rustc(p, os.path.join(d, f"w{n}.rmeta"), f"w{n}", ext, dirs)
        srcs = {}
        for what, bad, good in jobs:
            for s in (bad, good):
                srcs.setdefault(s, len(srcs))
        with ThreadPoolExecutor(8) as ex:
            res = dict(zip(srcs, ex.map(one, [(n, s) for s, n in srcs.items()])))
    rule = "the derive rejects it"
    for what, bad, good in jobs:
        okb, mb = res[bad]
        okg, mg = res[good]
        if not okg:
            rep.add("undecided", rule, what, "the accepted counterpart does not compile: " + "; ".join(mg[:2]))
        elif okb:
            rep.add("violated", rule, f"rpcl2-derive/src/lib.rs, ros_point_derive: {what}", "a program that must not compile does: " + bad[len(HEAD):][:300])
        else:
            rep.add("held", rule, what)
    rep.note("rejected_programs", f"{len(jobs)} invalid items, each with a valid counterpart")
