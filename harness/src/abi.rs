//! C25: the generated headers describe the exported library. Dispatchers are generated from the headers alone,
//! compiled as C, C++ and Cython against the built library, and called with generated arguments.
use crate::ea::*;
use crate::fw::*;
use crate::generic::{call, fa, scatter_at, Fa};
use crate::gens::*;
use crate::registry::{FFI, FFI_SETTINGS, FUNS};
use crate::vac::Reset;
use proptest::prelude::*;
use qcd_sme::consts;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use std::ffi::{c_char, c_int, c_void, CStr, CString};
use std::io::Write;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::OnceLock;

#[derive(Clone, Debug, PartialEq)]
enum Ty {
    Real,
    Complex,
    Uint,
    Void,
}
#[derive(Clone, Debug)]
struct Decl {
    ret: Ty,
    args: Vec<(Ty, String)>,
}
type Decls = BTreeMap<String, Vec<Decl>>;

fn ty(s: &str) -> Result<Ty, String> {
    Ok(match s.trim() {
        "R" | "double" => Ty::Real,
        "C" | "Complex" | "struct Complex" => Ty::Complex,
        "NCTYPE" | "NFTYPE" | "uint32_t" | "unsigned" | "unsigned int" => Ty::Uint,
        "void" => Ty::Void,
        o => return Err(format!("type {o}")),
    })
}
/// Function declarations of a header; comments are removed first.
fn parse(text: &str, python: bool) -> Result<Decls, String> {
    let mut s = String::new();
    let mut rest = text;
    while let Some(i) = rest.find("/*") {
        s.push_str(&rest[..i]);
        let j = rest[i..].find("*/").ok_or("unterminated comment")?;
        rest = &rest[i + j + 2..];
    }
    s.push_str(rest);
    let s: String = s
        .lines()
        .map(|l| l.split(if python { "#" } else { "//" }).next().unwrap_or(""))
        .filter(|l| !l.trim_start().starts_with('#') && !l.trim_start().starts_with("typedef") && !l.trim_start().starts_with("ctypedef") && !l.trim_start().starts_with("using"))
        .filter(|l| !l.trim_end().ends_with(':'))
        .map(|l| format!("{l} "))
        .collect();
    let s = s.replace("extern \"C\" {", "").replace("extern \"C\"", "");
    let mut d = Decls::new();
    for st in s.split(';') {
        let st = st.split_whitespace().collect::<Vec<_>>().join(" ");
        let st = st.trim_start_matches(['}', ' ']).trim_start_matches("extern ");
        let (Some(o), Some(c)) = (st.find('('), st.rfind(')')) else { continue };
        let (ret, name) = st[..o].trim().rsplit_once(' ').ok_or_else(|| format!("declaration {st:?}"))?;
        let a = st[o + 1..c].trim();
        let mut args = vec![];
        if !a.is_empty() && a != "void" {
            for x in a.split(',') {
                let (t, n) = x.trim().rsplit_once(' ').ok_or_else(|| format!("argument {x:?} of {name}"))?;
                args.push((ty(t).map_err(|e| format!("{e} in {name}"))?, n.to_string()));
            }
        }
        d.entry(name.to_string()).or_default().push(Decl { ret: ty(ret).map_err(|e| format!("{e} returned by {name}"))?, args });
    }
    Ok(d)
}

/// Each argument takes two slots (real and imaginary part).
fn dispatcher(d: &Decls, inc: &str) -> String {
    let mut o = format!(
        "#include \"{inc}\"\n#ifdef __cplusplus\nextern \"C\"\n#endif\nint qsv_call(int k,const double*a,double*o);\n\
         static C qsv_c(double re,double im){{C z;z.re=re;z.im=im;return z;}}\n\
         int qsv_call(int k,const double*a,double*o){{(void)a;(void)qsv_c;o[0]=0;o[1]=0;switch(k){{\n"
    );
    for (k, (n, v)) in d.iter().enumerate() {
        let f = &v[0];
        let args: Vec<String> = f
            .args
            .iter()
            .enumerate()
            .map(|(i, (t, _))| match t {
                Ty::Complex => format!("qsv_c(a[{}],a[{}])", 2 * i, 2 * i + 1),
                Ty::Uint => format!("(uint32_t)a[{}]", 2 * i),
                _ => format!("a[{}]", 2 * i),
            })
            .collect();
        let call = format!("{n}({})", args.join(","));
        o += &match f.ret {
            Ty::Complex => format!("case {k}:{{C z={call};o[0]=z.re;o[1]=z.im;return 0;}}\n"),
            Ty::Void => format!("case {k}:{call};return 0;\n"),
            _ => format!("case {k}:o[0]={call};return 0;\n"),
        };
    }
    o += "}return 1;}\n";
    o
}
fn pyx(d: &Decls) -> String {
    let mut o = String::from("cimport qcd_sme as q\n");
    for (k, (n, v)) in d.iter().enumerate() {
        let f = &v[0];
        let args: Vec<String> = f
            .args
            .iter()
            .enumerate()
            .map(|(i, (t, _))| match t {
                Ty::Complex => format!("q.C(a[{}], a[{}])", 2 * i, 2 * i + 1),
                Ty::Uint => format!("int(a[{}])", 2 * i),
                _ => format!("a[{}]", 2 * i),
            })
            .collect();
        let call = format!("q.{n}({})", args.join(", "));
        o += &match f.ret {
            Ty::Complex => format!("def f{k}(list a):\n    cdef q.C z = {call}\n    return (z.re, z.im)\n"),
            Ty::Void => format!("def f{k}(list a):\n    {call}\n    return (0., 0.)\n"),
            _ => format!("def f{k}(list a):\n    return (float({call}), 0.)\n"),
        };
    }
    o += "F = [";
    for k in 0..d.len() {
        o += &format!("f{k}, ");
    }
    o += "]\n";
    o
}
const DRIVER: &str = r#"
import sys, json, struct
import qsvmod
u = lambda x: struct.unpack('<d', struct.pack('<Q', int(x)))[0]
b = lambda x: struct.unpack('<Q', struct.pack('<d', x))[0]
print(json.dumps([[b(v) for v in qsvmod.F[k]([u(x) for x in a])] for k, a in json.load(sys.stdin)]))
"#;

extern "C" {
    fn dlopen(f: *const c_char, flags: c_int) -> *mut c_void;
    fn dlsym(h: *mut c_void, s: *const c_char) -> *mut c_void;
    fn dlerror() -> *const c_char;
}
type Qc = unsafe extern "C" fn(c_int, *const f64, *mut f64) -> c_int;

struct Abi {
    /// C, C++, Cython
    decls: [Decls; 3],
    exported: BTreeSet<String>,
    /// C with the shared library, C++ with the shared library, C with the static library
    libs: [Qc; 3],
    py: PathBuf,
}
const LANG: [&str; 3] = ["C", "C++", "Cython"];
const HEAD: [&str; 3] = ["qcd_sme.h", "qcd_sme.hpp", "qcd_sme.pxd"];

pub fn run(dir: &Path, cmd: &str, args: &[&str]) -> Result<String, String> {
    let o = Command::new(cmd).args(args).current_dir(dir).stdin(Stdio::null()).output().map_err(|e| format!("cannot run {cmd}: {e}"))?;
    if o.status.success() {
        Ok(String::from_utf8_lossy(&o.stdout).into())
    } else {
        let e = String::from_utf8_lossy(&o.stderr);
        Err(format!("{cmd} {}: {}", args.last().unwrap(), e.chars().take(2000).collect::<String>()))
    }
}
fn open(p: &Path) -> Result<Qc, String> {
    let load = |p: &CStr| unsafe { dlopen(p.as_ptr(), 2) };
    let p = CString::new(p.to_str().unwrap()).unwrap();
    unsafe {
        let h = load(&p);
        if h.is_null() {
            return Err(CStr::from_ptr(dlerror()).to_string_lossy().into());
        }
        let s = dlsym(h, c"qsv_call".as_ptr());
        if s.is_null() {
            return Err("no dispatcher".into());
        }
        Ok(std::mem::transmute::<*mut c_void, Qc>(s))
    }
}
fn setup() -> Result<Abi, String> {
    let home = PathBuf::from(std::env::var("QSV_HOME").unwrap_or("/verif".into()));
    let repo = std::env::var("QSV_REPO").unwrap_or("/repo".into());
    let inc = PathBuf::from(&repo).join("target/release/include");
    let lib = home.join("target/release");
    let dir = std::env::var("QSV_WORK").map(PathBuf::from).unwrap_or_else(|_| home.join("work/replay")).join("abi");
    std::fs::create_dir_all(&dir).map_err(|e| e.to_string())?;
    let mut decls = vec![];
    for (i, h) in HEAD.iter().enumerate() {
        let t = std::fs::read_to_string(inc.join(h)).map_err(|e| format!("{h}: {e}"))?;
        decls.push(parse(&t, i == 2).map_err(|e| format!("{h}: {e}"))?);
    }
    let nm = run(&dir, "nm", &["-D", "--defined-only", lib.join("libqcd_sme.so").to_str().unwrap()])?;
    let exported = nm.lines().filter_map(|l| l.split_whitespace().collect::<Vec<_>>().get(1..3).filter(|x| x[0] == "T").map(|x| x[1].to_string())).collect();
    let wr = |n: &str, s: String| std::fs::File::create(dir.join(n)).and_then(|mut f| f.write_all(s.as_bytes())).map_err(|e| e.to_string());
    wr("d.c", dispatcher(&decls[0], HEAD[0]))?;
    wr("d.cpp", dispatcher(&decls[1], HEAD[1]))?;
    wr("qsvmod.pyx", pyx(&decls[2]))?;
    wr("driver.py", DRIVER.into())?;
    let i = format!("-I{}", inc.display());
    let l = format!("-L{}", lib.display());
    let rp = format!("-Wl,-rpath,{}", lib.display());
    let st = lib.join("libqcd_sme.a");
    let st = st.to_str().unwrap();
    let base = ["-O0", "-fPIC", "-shared", "-Wall", "-Werror", "-Wno-unused-function", "-Wl,-Bsymbolic", "-Wl,--no-undefined"];
    let cc = |cmd: &str, extra: &[&str]| run(&dir, cmd, &[&base[..], &[i.as_str()], extra].concat());
    std::thread::scope(|s| {
        let jobs = [
            s.spawn(|| cc("gcc", &["-std=c99", "-pedantic", "d.c", &l, &rp, "-lqcd_sme", "-o", "dc.so"])),
            s.spawn(|| cc("g++", &["-std=c++11", "-pedantic", "d.cpp", &l, &rp, "-lqcd_sme", "-o", "dcpp.so"])),
            s.spawn(|| cc("gcc", &["-std=c99", "d.c", st, "-lpthread", "-ldl", "-lm", "-lgcc_s", "-lpython3.12", "-o", "dst.so"])),
            s.spawn(|| {
                run(&dir, "python3-vt", &["-m", "cython", "-3", "-I", inc.to_str().unwrap(), "qsvmod.pyx"])?;
                let py = run(&dir, "python3-vt", &["-c", "import sysconfig;print(sysconfig.get_paths()['include'])"])?;
                run(&dir, "gcc", &["-O0", "-w", "-fPIC", "-shared", &i, &format!("-I{}", py.trim()), "qsvmod.c", &l, &rp, "-lqcd_sme", "-o", "qsvmod.so"])
            }),
        ];
        jobs.into_iter().try_for_each(|j| j.join().unwrap_or_else(|_| Err("setup panicked".into())).map(|_| ()))
    })?;
    let libs = [open(&dir.join("dc.so"))?, open(&dir.join("dcpp.so"))?, open(&dir.join("dst.so"))?];
    let decls: [Decls; 3] = decls.try_into().unwrap();
    Ok(Abi { decls, exported, libs, py: dir })
}
fn abi() -> Result<&'static Abi, String> {
    static A: OnceLock<Result<Abi, String>> = OnceLock::new();
    A.get_or_init(setup).as_ref().map_err(|e| format!("the headers and library cannot be used together: {e}"))
}

/// What the library offers: name -> (argument names, argument types, result)
fn expected() -> BTreeMap<&'static str, (Vec<&'static str>, Vec<Ty>, Option<usize>)> {
    let mut m = BTreeMap::new();
    for (k, f) in FFI.iter().enumerate() {
        let n = &FUNS[f.native];
        let t = (0..n.args.len()).map(|i| if f.mask >> i & 1 == 1 { Ty::Complex } else { Ty::Real }).collect();
        m.insert(f.name, (n.args.to_vec(), t, Some(k)));
    }
    for s in FFI_SETTINGS {
        let t = if s.starts_with("get_") {
            vec![]
        } else if s.contains("number") || s.contains("iter") {
            vec![Ty::Uint]
        } else {
            vec![Ty::Real]
        };
        m.insert(s, (vec![], t, None));
    }
    m
}
const SYMBOLS: [&str; 17] = ["s", "q", "p", "om", "m", "m1", "m2", "mq", "delta", "beta", "mu", "en", "f0", "g0", "xi", "ln_s", "ln_s_pl_1"];

fn c25_declared(k: &usize) -> Res {
    let a = abi()?;
    let e = expected();
    let mut names: BTreeSet<&str> = e.keys().copied().collect();
    for d in &a.decls {
        names.extend(d.keys().map(|s| s.as_str()));
    }
    names.extend(a.exported.iter().map(|s| s.as_str()).filter(|s| !s.starts_with("rust_") && !s.starts_with("_") && !s.starts_with("__")));
    let Some(n) = names.into_iter().nth(*k) else { return Ok(Triv("no such function")) };
    if !a.exported.contains(n) {
        return Err(format!("{n} is not exported by the library"));
    }
    for (l, d) in LANG.iter().zip(&a.decls) {
        match d.get(n).map(|v| v.len()) {
            Some(1) => {}
            o => return Err(format!("{n} is exported but declared {} times in the {l} header", o.unwrap_or(0))),
        }
    }
    let d = &a.decls[0][n][0];
    for (l, o) in LANG.iter().zip(&a.decls).skip(1) {
        let o = &o[n][0];
        if o.ret != d.ret || o.args.iter().map(|x| &x.0).ne(d.args.iter().map(|x| &x.0)) {
            return Err(format!("{n} is declared differently in C and {l}: {d:?} and {o:?}"));
        }
    }
    let Some((args, types, ffi)) = e.get(n) else { return Ok(Hit("additional function")) };
    if d.args.iter().map(|x| &x.0).ne(types.iter()) {
        return Err(format!("{n} takes {:?} but is declared with {:?}", types, d.args));
    }
    // names are documentation: only a name which means another quantity is wrong
    if ffi.is_some() {
        for ((_, h), x) in d.args.iter().zip(args) {
            if h != x && SYMBOLS.contains(&h.as_str()) {
                return Err(format!("{n} is declared with argument {h} in the place of {x}: {:?}", d.args));
            }
        }
    }
    Ok(Hit("declaration"))
}

pub fn vals(a: &Fa) -> (Vec<C>, Vec<f64>) {
    let f = &FFI[a.k];
    let n = &FUNS[f.native];
    let args: Vec<C> = (0..n.args.len())
        .map(|i| {
            let z = &a.z[i % a.z.len()];
            C::new(z.0 .0, if f.mask >> i & 1 == 1 { z.1 .0 } else { 0. })
        })
        .collect();
    let flat = args.iter().flat_map(|z| [z.re, z.im]).chain([0.; 4]).collect();
    (args, flat)
}
pub fn agree(a: &Fa, got: C, how: &str) -> Res {
    let f = &FFI[a.k];
    let n = &FUNS[f.native];
    let (args, _) = vals(a);
    let v = n.vars.iter().position(|v| v.mask == f.mask).ok_or(format!("{}: no native variant", f.name))?;
    let want = call(n, v, &args, crate::integrands::dummy_cfg());
    let bits = |z: C| (z.re.to_bits(), z.im.to_bits());
    let fin = |z: C| z.re.is_finite() && z.im.is_finite();
    let same = bits(want) == bits(got)
        || if fin(want) { (got - want).norm() <= 1e-12 * want.norm() + 50. * scatter_at(n, v, &args) } else { !fin(got) };
    if !same {
        return Err(format!("{} called from {how} at {args:?} gives {got:e}, but natively {want:e}", f.name));
    }
    Ok(if fin(want) && want.norm() > 0. { Hit(if f.mask == 0 { "real" } else { "complex" }) } else { Triv("zero or not finite") })
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Cl {
    l: usize,
    f: Fa,
}
const HOW: [&str; 3] = ["C (shared library)", "C++ (shared library)", "C (static library)"];
fn c25_call(c: &Cl) -> Res {
    let a = abi()?;
    let name = FFI[c.f.k].name;
    let d = &a.decls[if c.l == 1 { 1 } else { 0 }];
    let Some(k) = d.keys().position(|n| n == name) else { return Err(format!("{name} is not declared")) };
    let (_, flat) = vals(&c.f);
    let mut o = [0.; 2];
    unsafe { (a.libs[c.l])(k as c_int, flat.as_ptr(), o.as_mut_ptr()) };
    agree(&c.f, C::new(o[0], o[1]), HOW[c.l])
}
fn c25_python(fs: &Vec<Fa>) -> Res {
    let a = abi()?;
    let mut cases = vec![];
    for f in fs {
        let name = FFI[f.k].name;
        let Some(k) = a.decls[2].keys().position(|n| n == name) else { return Err(format!("{name} is not declared")) };
        let (_, flat) = vals(f);
        cases.push((k, flat.iter().map(|x| x.to_bits()).collect::<Vec<_>>()));
    }
    let mut ch = Command::new("python3-vt")
        .arg("driver.py")
        .current_dir(&a.py)
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::piped())
        .spawn()
        .map_err(|e| e.to_string())?;
    let mut si = ch.stdin.take().unwrap();
    let js = serde_json::to_string(&cases).unwrap();
    let t = std::thread::spawn(move || {
        let _ = si.write_all(js.as_bytes());
    });
    let o = ch.wait_with_output().map_err(|e| e.to_string())?;
    let _ = t.join();
    let r: Vec<(u64, u64)> = serde_json::from_slice(&o.stdout).map_err(|e| format!("Cython module: {e} {}", String::from_utf8_lossy(&o.stderr)))?;
    for (f, z) in fs.iter().zip(&r) {
        agree(f, C::new(f64::from_bits(z.0), f64::from_bits(z.1)), "Cython")?;
    }
    Ok(Hit("batch"))
}

// ---------------------------------------------------------------- settings through the C interface
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Set(usize, f64),
    Call(Fa),
}
const REGS: [&str; 6] = ["number_of_colors", "number_of_fermions", "default_quark_mass", "default_tol_integral", "default_max_iter_integral", "matsubara_reg"];
fn c25_settings(h: &(usize, Vec<Op>)) -> Res {
    let a = abi()?;
    let _r = Reset;
    let (l, ops) = h;
    let d = &a.decls[if *l == 1 { 1 } else { 0 }];
    let ccall = |name: &str, x: &[f64]| -> Result<C, String> {
        let k = d.keys().position(|n| n == name).ok_or(format!("{name} is not declared"))?;
        let mut o = [0.; 2];
        unsafe { (a.libs[*l])(k as c_int, x.as_ptr(), o.as_mut_ptr()) };
        Ok(C::new(o[0], o[1]))
    };
    let set = |i: usize, x: f64| -> Result<(), String> {
        ccall(&format!("set_{}", REGS[i]), &[x, 0., 0., 0.])?;
        match i {
            0 => consts::set_number_of_colors(x as u32),
            1 => consts::set_number_of_fermions(x as u32),
            2 => consts::set_default_quark_mass(x),
            3 => consts::set_default_tol_integral(x),
            4 => consts::set_default_max_iter_integral(x as u32),
            _ => consts::set_matsubara_reg(x),
        }
        Ok(())
    };
    const DEF: [f64; 6] = [3., 1., 0.5, 1e-10, 50., 1e-5];
    let mut m = DEF;
    let mut n = (0, 0);
    let r = (|| {
        for i in 0..6 {
            set(i, DEF[i])?;
        }
        for o in ops {
            match o {
                Op::Set(i, x) => {
                    set(*i, *x)?;
                    m[*i] = *x;
                    n.0 += 1;
                }
                Op::Call(f) => {
                    let (_, flat) = vals(f);
                    agree(f, ccall(FFI[f.k].name, &flat)?, HOW[*l]).map_err(|e| format!("{e} (settings {m:?})"))?;
                    n.1 += 1;
                }
            }
            for i in 0..6 {
                let g = ccall(&format!("get_{}", REGS[i]), &[0.; 4])?.re;
                if g != m[i] {
                    return Err(format!("after {o:?}, get_{} from {} returns {g} instead of {}", REGS[i], HOW[*l], m[i]));
                }
            }
        }
        Ok(())
    })();
    for i in 0..6 {
        let _ = set(i, DEF[i]);
    }
    r?;
    Ok(if n.0 > 0 { Hit("settings history") } else { Triv("no setting") })
}
fn ops(n: usize) -> BS<(usize, Vec<Op>)> {
    let o = prop_oneof![
        2 => prop_oneof![
            (Just(0usize), (1..9u32).prop_map(f64::from)),
            (Just(1), (0..9u32).prop_map(f64::from)),
            (Just(2), real()),
            (Just(3), logu(1e-9, 1.)),
            (Just(4), (0..100u32).prop_map(f64::from)),
            (Just(5), logu(1e-7, 1.)),
        ]
        .prop_map(|(i, x)| Op::Set(i, x)),
        1 => fa(n).prop_map(Op::Call),
    ];
    (0..3usize, prop::collection::vec(o, 1..20)).boxed()
}

pub fn properties() -> Vec<Property> {
    vec![Property {
        id: "C25",
        rule: "a case counts when a declaration was compared with the export, or a call through a header returned a finite, non-zero value which was compared",
        assumptions: &["gcc, g++, nm, Cython 3 and Python 3.12 headers of this sandbox stand for all compilers; names of arguments are documentation unless they name another quantity"],
        subs: || {
            let n = FFI.len();
            vec![
                Box::new(sub("c25-declarations", (3000, 6000), || 0..260usize, c25_declared)),
                Box::new(sub("c25-c-calls", (200_000, 5_000_000), move || (0..3usize, fa(n)).prop_map(|(l, f)| Cl { l, f }), c25_call)),
                Box::new(sub("c25-cython-calls", (80, 2000), move || prop::collection::vec(fa(n), 1..400), c25_python).shrink(30)),
                Box::new(sub("c25-settings", (3000, 60000), move || ops(n), c25_settings).exclusive()),
            ]
        },
        init: None,
    }]
}
