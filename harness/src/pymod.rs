//! C31: the Python package of the repository (python/), compiled by Cython against the generated headers and the built
//! library and imported the way a user does, returns what the native functions return.
use crate::abi::{agree, run, vals};
use crate::generic::{fa, Fa};

use crate::fw::*;
use crate::registry::FFI;
use num::Complex;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::io::Write;
use std::path::PathBuf;
use std::process::{Command, Stdio};
use std::sync::OnceLock;

const NAMES: [&str; 4] = ["ym__gluon__dressing_inv_landau", "ym__gluon__dressing_inv_landau__complex", "ym__gluon__dressing_landau", "ym__gluon__dressing_landau__complex"];

const DRIVER: &str = r#"
import sys, json, struct
import numpy
import qcd_sme
from qcd_sme import ffi
import qcd_sme.ffi as again
f = lambda b: struct.unpack("<d", struct.pack("<Q", b))[0]
g = lambda x: struct.unpack("<Q", struct.pack("<d", x))[0]
def conv(kind, re, im, c):
    re, im = f(re), f(im)
    if kind == 1:
        return numpy.complex128(complex(re, im)) if c else numpy.float64(re)
    if kind == 2 and g(im) == 0 and re == re and abs(re) < 2**53 and re == int(re) and re != 0:
        return int(re)
    if kind == 3 and c and g(im) == 0:
        return re
    return complex(re, im) if c else re
out = []
for name, kind, args in json.load(sys.stdin):
    if name == "?":
        out.append(sorted(n for n in dir(ffi) if not n.startswith("_") and callable(getattr(ffi, n))))
        continue
    h = getattr(again if kind == 1 else ffi, name)
    v = [conv(kind, a, b, c) for a, b, c in args]
    try:
        r = h(*v) if kind < 2 else h(s=v[0], F0=v[1])
    except TypeError as e:
        out.append("%s%r: %s" % (name, tuple(v), e))
        continue
    out.append([g(r.real), g(r.imag), type(r).__name__])
json.dump(out, sys.stdout)
"#;

fn setup() -> Result<PathBuf, String> {
    let home = PathBuf::from(std::env::var("QSV_HOME").unwrap_or("/verif".into()));
    let repo = PathBuf::from(std::env::var("QSV_REPO").unwrap_or("/repo".into()));
    let lib = home.join("target/release");
    let inc = repo.join("target/release/include");
    let dir = std::env::var("QSV_WORK").map(PathBuf::from).unwrap_or_else(|_| home.join("work/replay")).join("py");
    let pkg = dir.join("qcd_sme");
    let _ = std::fs::remove_dir_all(&pkg);
    let io = |e: std::io::Error| e.to_string();
    std::fs::create_dir_all(&pkg).map_err(io)?;
    for f in std::fs::read_dir(repo.join("python/qcd_sme")).map_err(io)? {
        let f = f.map_err(io)?;
        if f.path().extension().is_some_and(|x| x == "py") {
            std::fs::copy(f.path(), pkg.join(f.file_name())).map_err(io)?;
        }
    }
    std::fs::copy(repo.join("python/pyqcd_sme_so.pyx"), dir.join("pyqcd_sme_so.pyx")).map_err(io)?;
    std::fs::write(dir.join("driver.py"), DRIVER).map_err(io)?;
    run(&dir, "python3-vt", &["-m", "cython", "-3", "-I", inc.to_str().unwrap(), "pyqcd_sme_so.pyx"])?;
    let py = run(&dir, "python3-vt", &["-c", "import sysconfig;print(sysconfig.get_paths()['include'])"])?;
    let (i, p) = (format!("-I{}", inc.display()), format!("-I{}", py.trim()));
    let (l, r) = (format!("-L{}", lib.display()), format!("-Wl,-rpath,{}", lib.display()));
    run(&dir, "gcc", &["-O0", "-w", "-fPIC", "-shared", &i, &p, "pyqcd_sme_so.c", &l, &r, "-lqcd_sme", "-o", "qcd_sme/pyqcd_sme_so.so"])?;
    Ok(dir)
}
fn dir() -> Result<&'static PathBuf, String> {
    static A: OnceLock<Result<PathBuf, String>> = OnceLock::new();
    A.get_or_init(setup).as_ref().map_err(|e| format!("the Python package cannot be built: {e}"))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Call {
    /// which of the package's functions
    n: usize,
    /// Python type of the arguments
    kind: u8,
    f: Fa,
    /// followed by the same call at the complex conjugate arguments (on the cut: equal, on its other side)
    #[serde(default)]
    conj: bool,
}
fn python(cs: &Vec<Call>) -> Res {
    let cs: Vec<Call> = cs
        .iter()
        .flat_map(|c| {
            let mut d = c.clone();
            d.f.z.iter_mut().for_each(|z| z.1 .0 = -z.1 .0);
            std::iter::once(c.clone()).chain(c.conj.then_some(d))
        })
        .collect();
    let d = dir()?;
    let mut names: Vec<String> = NAMES.iter().map(|s| s.to_string()).collect();
    let exec = |cases: &[serde_json::Value]| -> Result<Vec<serde_json::Value>, String> {
        let mut ch = Command::new("python3-vt")
            .arg("driver.py")
            .current_dir(d)
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::piped())
            .spawn()
            .map_err(|e| e.to_string())?;
        let mut si = ch.stdin.take().unwrap();
        let js = serde_json::to_string(cases).unwrap();
        let t = std::thread::spawn(move || {
            let _ = si.write_all(js.as_bytes());
        });
        let o = ch.wait_with_output().map_err(|e| e.to_string())?;
        let _ = t.join();
        serde_json::from_slice(&o.stdout).map_err(|e| format!("Python package: {e} {}", String::from_utf8_lossy(&o.stderr).chars().take(1500).collect::<String>()))
    };
    // functions added to the package which wrap exported ones are compared too
    static MORE: OnceLock<Result<Vec<String>, String>> = OnceLock::new();
    let more = MORE
        .get_or_init(|| {
            let v = exec(&[serde_json::json!(["?", 0, []])])?;
            Ok(v[0].as_array().into_iter().flatten().filter_map(|x| x.as_str().map(String::from)).collect())
        })
        .clone()?;
    for n in &names {
        if !more.contains(n) {
            return Err(format!("qcd_sme.ffi has no function {n}"));
        }
    }
    names.extend(more.into_iter().filter(|n| !NAMES.contains(&n.as_str()) && FFI.iter().any(|f| f.name == n)));
    let mut fas = vec![];
    let mut cases = vec![];
    for c in &cs {
        let name = &names[c.n % names.len()];
        let k = FFI.iter().position(|f| f.name == name).ok_or(format!("{name} is not exported"))?;
        let f = Fa { k, ..c.f.clone() };
        let (args, _) = vals(&f);
        let a: Vec<_> = args.iter().enumerate().map(|(i, z)| (z.re.to_bits(), z.im.to_bits(), FFI[k].mask >> i & 1 == 1)).collect();
        let kind = if NAMES.contains(&name.as_str()) { c.kind } else { c.kind.min(1) };
        cases.push(serde_json::json!([name, kind, a]));
        fas.push(f);
    }
    let out = exec(&cases)?;
    let mut hits = 0;
    for ((f, o), c) in fas.iter().zip(&out).zip(&cs) {
        let how = format!("the Python package ({})", ["float/complex", "numpy", "int, by keyword", "float, by keyword"][c.kind as usize & 3]);
        let (Some(re), Some(im), Some(ty)) = (o[0].as_u64(), o[1].as_u64(), o[2].as_str()) else { return Err(format!("{how}: {o}")) };
        let cplx = FFI[f.k].mask != 0;
        if (ty == "complex") != cplx || (ty == "float") == cplx {
            return Err(format!("{} returns a {ty} from {how}", FFI[f.k].name));
        }
        if let Hit(_) = agree(f, Complex::new(f64::from_bits(re), f64::from_bits(im)), &how)? {
            hits += 1;
        }
    }
    Ok(if hits > 0 { Hit("batch") } else { Triv("nothing finite") })
}
fn calls() -> BoxedStrategy<Vec<Call>> {
    let int = (-50i32..50).prop_map(f64::from);
    let c = (0..64usize, 0..4u8, fa(FFI.len()), int.clone(), int, any::<bool>(), any::<bool>()).prop_map(|(n, kind, mut f, a, b, whole, conj)| {
        if kind >= 2 && whole {
            for (i, z) in f.z.iter_mut().enumerate() {
                z.0 .0 = if i % 2 == 0 { a } else { b };
                z.1 .0 = 0.;
            }
        }
        Call { n, kind, f, conj }
    });
    prop::collection::vec(c, 1..400).boxed()
}

pub fn properties() -> Vec<Property> {
    vec![Property {
        id: "C31",
        rule: "a case is a batch of up to 400 calls from a fresh Python interpreter; it counts when at least one call returned a finite, non-zero value which was compared",
        assumptions: &["Cython 3, Python 3.12 and gcc of this sandbox; the package is laid out as python/qcd_sme with the extension module inside it, as its relative import requires"],
        subs: || vec![Box::new(sub("c31-python", (250, 6000), calls, python).shrink(40))],
        init: None,
    }]
}
