//! C23: the Python module against the Rust library. Python interpreters (one per worker) load the
//! extension module built from the working tree and answer requests over a pipe.
#[path = "../mc_sg/cat.rs"]
#[allow(dead_code)]
mod cat;
use cat::*;
use crystsymm::analyzer::SymmetryAnalyzer;
use crystsymm::reduce::Reducer;
use crystsymm::structure::Structure;
use mc::alpha::*;
use mc::conc::*;
use mc::engine::*;
use mc::model::*;
use nalgebra::{Matrix3, Vector3};
use std::cell::RefCell;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};

const DRIVER: &str = r#"
import sys, signal, importlib.util, json
spec = importlib.util.spec_from_file_location("crystsymm", sys.argv[1])
mod = importlib.util.module_from_spec(spec)
spec.loader.exec_module(mod)
# answers are flat lists of tokens: i<int> f<float> s<string> ( ) for the nesting
def flat(x, out):
    if isinstance(x, bool):
        out.append("b%d" % x)
    elif isinstance(x, int):
        out.append("i%d" % x)
    elif isinstance(x, float):
        out.append("f" + repr(x))
    elif isinstance(x, str):
        out.append("s" + x.replace(" ", "\x01"))
    elif isinstance(x, (list, tuple)):
        out.append("(")
        for y in x:
            flat(y, out)
        out.append(")")
    else:
        out.append("?" + type(x).__name__)
for line in sys.stdin:
    name, args = json.loads(line)
    signal.alarm(60)
    try:
        out = ["ok"]
        flat(getattr(mod, name)(*args), out)
    except AttributeError as e:
        out = ["missing", str(e).replace(" ", "_")]
    except BaseException as e:
        out = ["exception", type(e).__name__]
    signal.alarm(0)
    print(" ".join(out).replace("\n", "\x01"), flush=True)
"#;

struct Py {
    child: Child,
    to: ChildStdin,
    from: BufReader<ChildStdout>,
}

impl Drop for Py {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

thread_local! {
    static PY: RefCell<Option<Py>> = const { RefCell::new(None) };
}

fn start() -> Py {
    let so = std::env::current_exe().unwrap().with_file_name("crystsymm.so");
    let mut child = Command::new("python3")
        .args(["-S", "-c", DRIVER])
        .arg(so)
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .unwrap_or_else(|e| {
            eprintln!("cannot start python3: {}", e);
            std::process::exit(3)
        });
    let to = child.stdin.take().unwrap();
    let from = BufReader::new(child.stdout.take().unwrap());
    Py { child, to, from }
}

/// Send a request, return the tokens of the answer.
fn ask(line: &str) -> Result<Vec<String>, String> {
    PY.with(|p| {
        let mut p = p.borrow_mut();
        let py = p.get_or_insert_with(start);
        let mut s = String::new();
        let ok = writeln!(py.to, "{}", line).and_then(|_| py.to.flush()).is_ok() && matches!(py.from.read_line(&mut s), Ok(n) if n > 0);
        if !ok {
            *p = None;
            return Err("the Python interpreter died".into());
        }
        Ok(s.trim_end_matches('\n').split(' ').map(|x| x.to_string()).collect())
    })
}

#[derive(Debug, Clone, PartialEq)]
enum Val {
    I(i64),
    F(f64),
    S(String),
    L(Vec<Val>),
}

fn parse(t: &[String], i: &mut usize) -> Result<Val, String> {
    let x = t.get(*i).ok_or("short answer")?;
    *i += 1;
    Ok(match x.chars().next() {
        Some('(') => {
            let mut v = vec![];
            while t.get(*i).map(|s| s.as_str()) != Some(")") {
                v.push(parse(t, i)?);
            }
            *i += 1;
            Val::L(v)
        }
        Some('i') => Val::I(x[1..].parse().map_err(|_| "bad integer")?),
        Some('f') => Val::F(x[1..].parse().map_err(|_| "bad float")?),
        Some('s') => Val::S(x[1..].replace('\u{1}', " ")),
        _ => return Err(format!("unexpected value {}", x)),
    })
}

fn list(v: &Val) -> Result<&Vec<Val>, String> {
    match v {
        Val::L(l) => Ok(l),
        _ => Err(format!("expected a list, got {:?}", v)),
    }
}

fn floats(v: &Val) -> Result<Vec<f64>, String> {
    list(v)?.iter().map(|x| if let Val::F(f) = x { Ok(*f) } else { Err(format!("expected a float, got {:?}", x)) }).collect()
}

/// Decoded answer of one function.
#[derive(Debug, Clone)]
enum Ans {
    Cell(Vec<f64>, Vec<String>, Vec<Vec<f64>>),
    Group(i64, String, Vec<(Vec<i64>, Vec<f64>)>),
    Refused,
}

const FUNS: [&str; 5] = ["find_primitive", "niggli_reduce", "get_standard_conventional_structure", "get_standard_primitive_structure", "get_space_group_info"];

fn decode(f: usize, t: &[String]) -> Result<Ans, String> {
    match t[0].as_str() {
        "exception" => return Ok(Ans::Refused),
        "ok" => {}
        _ => return Err(format!("function {} is missing", FUNS[f])),
    }
    let mut i = 1;
    let v = parse(t, &mut i)?;
    let l = list(&v)?;
    if l.len() != 3 {
        return Err(format!("{} values returned", l.len()));
    }
    if f == 4 {
        let (Val::I(n), Val::S(s)) = (&l[0], &l[1]) else { return Err("number and symbol expected".into()) };
        let mut ops = vec![];
        for o in list(&l[2])? {
            let o = list(o)?;
            let r: Result<Vec<i64>, String> = list(&o[0])?.iter().map(|x| if let Val::I(i) = x { Ok(*i) } else { Err("rotation entry is not an integer".to_string()) }).collect();
            ops.push((r?, floats(&o[1])?));
        }
        return Ok(Ans::Group(*n, s.clone(), ops));
    }
    let sp: Result<Vec<String>, String> = list(&l[1])?.iter().map(|x| if let Val::S(s) = x { Ok(s.clone()) } else { Err("species is not a string".to_string()) }).collect();
    let c: Result<Vec<Vec<f64>>, String> = list(&l[2])?.iter().map(floats).collect();
    Ok(Ans::Cell(floats(&l[0])?, sp?, c?))
}

struct Input {
    lattice: Matrix3<f64>,
    species: Vec<String>,
    frac: Vec<Vector3<f64>>,
}

fn js(x: f64) -> String {
    format!("{:?}", x)
}

fn arr(v: impl Iterator<Item = f64>) -> String {
    format!("[{}]", v.map(js).collect::<Vec<_>>().join(","))
}

fn python(f: usize, s: &Input, cart: bool, tols: &[f64]) -> Result<Ans, String> {
    // consecutive basis vectors, written without the library
    let l: Vec<f64> = (0..3).flat_map(|j| (0..3).map(move |i| (i, j))).map(|(i, j)| s.lattice[(i, j)]).collect();
    let coords: Vec<String> = s.frac.iter().map(|x| if cart { s.lattice * x } else { *x }).map(|x| arr(x.iter().cloned())).collect();
    let sp: Vec<String> = s.species.iter().map(|x| format!("\"{}\"", x)).collect();
    let line = format!(
        "[\"{}\",[{},[{}],[{}],{},{}]]",
        FUNS[f],
        arr(l.into_iter()),
        sp.join(","),
        coords.join(","),
        cart,
        tols.iter().map(|x| js(*x)).collect::<Vec<_>>().join(",")
    );
    decode(f, &ask(&line)?)
}

fn cell(s: Structure) -> Ans {
    let l = (0..3).flat_map(|j| (0..3).map(move |i| (i, j))).map(|(i, j)| s.lattice[(i, j)]).collect();
    Ans::Cell(l, s.species.clone(), s.frac_coords.iter().map(|x| vec![x[0], x[1], x[2]]).collect())
}

fn rust(f: usize, s: &Input, cart: bool, tols: &[f64]) -> Ans {
    let coords = s.frac.iter().map(|x| if cart { s.lattice * x } else { *x }).collect();
    let st = Structure::new(s.lattice, s.species.clone(), coords, cart);
    let r = |t: &[f64]| Reducer { dtol: t[0], atol: t[1] };
    let a = |t: &[f64]| SymmetryAnalyzer { dtol: t[0], atol: t[1] };
    let res = match f {
        0 => call(|| cell(r(tols).find_primitive_cell(&st))),
        1 => call(|| cell(Reducer::default().niggli_reduce(&st, &tols[0]))),
        2 => call(|| cell(a(tols).get_standard_conventional_structure(&st))),
        3 => call(|| cell(a(tols).get_standard_primitive_structure(&st))),
        _ => call(|| {
            let (n, t, g) = a(tols).get_space_group_info(&st);
            let ops = g
                .operations
                .iter()
                .map(|o| {
                    let m = im(&o.rotation);
                    (m.concat().to_vec(), vec![o.translation[0], o.translation[1], o.translation[2]])
                })
                .collect();
            Ans::Group(n as i64, t, ops)
        }),
    };
    res.unwrap_or(Ans::Refused)
}

fn near(a: &[f64], b: &[f64], tol: f64) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| (x - y).abs() <= tol)
}

fn near_mod(a: &[f64], b: &[f64], tol: f64) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| (x - y - (x - y).round()).abs() <= tol)
}

/// Pair every element of a with a different one of b.
fn matched<T>(a: &[T], b: &[T], eq: impl Fn(&T, &T) -> bool) -> bool {
    let mut used = vec![false; b.len()];
    a.len() == b.len()
        && a.iter().enumerate().all(|(i, x)| {
            let j = if !used[i] && eq(x, &b[i]) { Some(i) } else { (0..b.len()).find(|j| !used[*j] && eq(x, &b[*j])) };
            j.map(|j| used[j] = true).is_some()
        })
}

/// `tol`: zero where the same computation was made, small where only the input differs by rounding.
fn same(a: &Ans, b: &Ans, tol: f64) -> Result<(), String> {
    match (a, b) {
        (Ans::Refused, Ans::Refused) => Ok(()),
        (Ans::Refused, _) => Err("refused instead of answered".into()),
        (_, Ans::Refused) => Err("answered instead of refused".into()),
        (Ans::Cell(l, s, c), Ans::Cell(l2, s2, c2)) => {
            if !near(l, l2, tol) {
                return Err(format!("lattice {:?} instead of {:?}", l, l2));
            }
            if s.len() != c.len() || s2.len() != c2.len() || c.iter().any(|x| x.len() != 3) {
                return Err("lists of different lengths".into());
            }
            let v: Vec<_> = s.iter().zip(c).collect();
            let v2: Vec<_> = s2.iter().zip(c2).collect();
            let eq = |x: &(&String, &Vec<f64>), y: &(&String, &Vec<f64>)| x.0 == y.0 && if tol == 0.0 { near(x.1, y.1, tol) } else { near_mod(x.1, y.1, tol) };
            if !matched(&v, &v2, eq) {
                return Err(format!("sites {:?} instead of {:?}", v, v2));
            }
            Ok(())
        }
        (Ans::Group(n, s, o), Ans::Group(n2, s2, o2)) => {
            if n != n2 || s != s2 {
                return Err(format!("space group {} {} instead of {} {}", n, s, n2, s2));
            }
            // the translation of an operation may depend on hash order in the last digits
            if !matched(o, o2, |x, y| x.0 == y.0 && near_mod(&x.1, &y.1, tol.max(1e-6))) {
                return Err(format!("different operations: {:?} instead of {:?}", o, o2));
            }
            Ok(())
        }
        _ => Err("answers of different kinds".into()),
    }
}

fn input(s: &Structure) -> Input {
    Input { lattice: s.lattice, species: s.species.clone(), frac: s.frac_coords.clone() }
}

fn check(f: usize, s: &Input, tols: &[f64], kinds: bool, rec: &mut Rec) -> Result<(), String> {
    let mut got = vec![];
    for cart in [false, true] {
        rec.steps(2);
        let p = python(f, s, cart, tols)?;
        let r = rust(f, s, cart, tols);
        rec.label(match p {
            Ans::Refused => "refused",
            Ans::Cell(..) => "cell",
            Ans::Group(..) => "group",
        });
        same(&p, &r, 0.0).map_err(|m| format!("{} ({}): {}", FUNS[f], if cart { "cartesian" } else { "fractional" }, m))?;
        got.push(p);
    }
    if kinds {
        same(&got[0], &got[1], 1e-6).map_err(|m| format!("{}: cartesian input gives another answer: {}", FUNS[f], m))?;
    }
    Ok(())
}

fn c23(ctx: &Ctx) -> Space<'static> {
    let all = Fam {
        name: "types",
        dims: vec![ctx.pick(2, 8), ctx.pick(1, 6), 230, 5],
        run: Box::new(|ix, rec| {
            let (b, k, n, f) = (ix[0], ix[1], ix[2] + 1, ix[3]);
            if k >= metrics(n).len() {
                return Ok(());
            }
            let Some(kn) = known(n, k, 0) else { return Ok(()) };
            let Some(p) = bases(n, k).get(b) else { return Ok(()) };
            if kn.c.atoms.len() as i64 * det(p).abs() > 64 {
                return Ok(());
            }
            rec.state(&ix);
            let s = realize(&kn.c, &lattice(&kn.c.g, kn.unit, &orientations()[4]), p);
            check(f, &input(&s), if f == 1 { &[1e-5] } else { &[0.05, 5.0] }, true, rec)
        }),
        desc: Box::new(|ix| format!("{} type {} metric {} basis {}", FUNS[ix[3]], ix[2] + 1, ix[1], ix[0])),
    };
    // asymmetric lattices in all bases and decorations
    let forms: &'static Vec<M> = Box::leak(Box::new(niggli_forms(ctx.pick(4, 6))));
    let us: &'static Vec<M> = Box::leak(Box::new(matrices(1, |d| d.abs() == 1)));
    let nu = ctx.pick(6, 120);
    let lats = Fam {
        name: "lattices",
        dims: vec![ctx.pick(3, motifs().len()), forms.len(), nu, 5],
        run: Box::new(move |ix, rec| {
            let m = motifs();
            let c = crystal(&forms[ix[1]], 12, &m[[1, 5, 2, 0, 3, 4, 6, 7, 8, 9][ix[0]]]);
            let p = &us[ix[2] * (us.len() / nu)];
            rec.state(&ix);
            let s = realize(&c, &lattice(&c.g, 2.5, &orientations()[5]), p);
            check(ix[3], &input(&s), if ix[3] == 1 { &[1e-5] } else { &[0.05, 5.0] }, false, rec)
        }),
        desc: Box::new(move |ix| format!("{} form {:?} basis {:?} motif {}", FUNS[ix[3]], forms[ix[1]], us[ix[2] * (us.len() / nu)], ix[0])),
    };
    // tolerances: a displaced copy is or is not accepted
    let dt = [0.02, 0.05, 0.2, 0.5];
    let at = [5.0, 0.5];
    let nt = [1e-5, 1e-3, 0.05, 0.3];
    let tol = Fam {
        name: "tolerances",
        dims: vec![ctx.pick(4, 12), forms.len().min(ctx.pick(40, 400)), 4, 2, 5],
        run: Box::new(move |ix, rec| {
            let c = crystal(&forms[forms.len() - 1 - ix[1]], 12, &[([0, 0, 0], 0), ([6, 6, 6], 0), ([1, 2, 3], 1), ([7, 8, 9], 1)]);
            let mut s = realize(&c, &lattice(&c.g, 2.5, &orientations()[5]), &ID);
            let d = Vector3::new(0.6, 0.48, 0.64) * [0.0, 0.045, 0.13, 0.3, 0.01, 0.03, 0.07, 0.1, 0.2, 0.5, 0.8, 1.1][ix[0]];
            let f = s.lattice.try_inverse().unwrap() * d;
            s.frac_coords[1] += f;
            rec.state(&ix);
            let t = if ix[4] == 1 { vec![nt[ix[2]]] } else { vec![dt[ix[2]], at[ix[3]]] };
            check(ix[4], &input(&s), &t, false, rec)
        }),
        desc: Box::new(move |ix| format!("{} form {:?} displacement {} tolerances {} {}", FUNS[ix[4]], forms[forms.len() - 1 - ix[1]], ix[0], ix[2], ix[3])),
    };
    // lattices a small way from reduced, where the answer depends on the tolerance
    let nf = ctx.pick(30, 200);
    let fine = Fam {
        name: "fine-tolerances",
        dims: vec![4, 6, nf],
        run: Box::new(move |ix, rec| {
            let g = &forms[ix[2] * forms.len() / nf];
            let c = crystal(g, 12, &motifs()[1]);
            let mut s = realize(&c, &lattice(g, 2.5, &orientations()[0]), &ID);
            // the first vector made longer than the second, or the angles slightly wrong
            let w = [3e-3, 3e-5, 3e-7, 3e-9][ix[0]];
            let m = [[1.0 + w, 0.0, w], [1.0 - w, w, 0.0], [1.0 + w, -w, -w]][ix[1] % 3];
            s.lattice *= Matrix3::new(m[0], m[1], m[2], 0.0, 1.0, m[1], 0.0, 0.0, 1.0 - m[2]);
            rec.state(&ix);
            check(1, &input(&s), &[[1e-2, 1e-4, 1e-6, 1e-8, 1e-10, 1e-12][ix[1]]], false, rec)
        }),
        desc: Box::new(move |ix| format!("Niggli reduction, form {}, deviation {}, tolerance {}", ix[2], ix[0], ix[1])),
    };
    // a rotated or transposed lattice, unusual species names, coordinates outside the cell
    let odd = Fam {
        name: "input-forms",
        dims: vec![7, 4, 6, 5],
        run: Box::new(move |ix, rec| {
            let g = [[[9, 1, 2], [1, 11, 3], [2, 3, 14]], [[16, 0, 0], [0, 16, 0], [0, 0, 25]], [[16, -8, 0], [-8, 16, 0], [0, 0, 25]], [[9, 0, -2], [0, 11, 0], [-2, 0, 14]]][ix[1]];
            let m = motifs();
            let c = crystal(&g, 12, &m[[1, 4, 5, 7, 2, 0][ix[2]]]);
            let mut s = realize(&c, &lattice(&g, 1.0, &orientations()[ix[0]]), &ID);
            for (i, x) in s.frac_coords.iter_mut().enumerate() {
                *x += Vector3::new((i % 3) as f64 - 1.0, (i % 2) as f64 * -2.0, (i % 4) as f64);
            }
            for x in s.species.iter_mut() {
                *x = format!("{}{}", x, ["", "_2", "3+", " x"][ix[1]]);
            }
            rec.state(&ix);
            check(ix[3], &input(&s), if ix[3] == 1 { &[1e-5] } else { &[0.05, 5.0] }, false, rec)
        }),
        desc: Box::new(|ix| format!("{} orientation {} metric {} motif {}", FUNS[ix[3]], ix[0], ix[1], ix[2])),
    };
    // many sites and operations
    let many = Fam {
        name: "many",
        dims: vec![4, ctx.pick(3, 5), 5],
        run: Box::new(move |ix, rec| {
            let g = [[[9, 0, 0], [0, 9, 0], [0, 0, 9]], [[9, 4, 3], [4, 11, 3], [3, 3, 14]], [[16, -8, 0], [-8, 16, 0], [0, 0, 25]], [[9, 0, -2], [0, 11, 0], [-2, 0, 14]]][ix[0]];
            let c = crystal(&g, 12, &[([0; 3], 0)]);
            let p = [[[2, 0, 0], [0, 2, 0], [0, 0, 2]], [[3, 0, 0], [0, 3, 0], [0, 0, 3]], [[1, 0, 0], [0, 8, 0], [1, 0, 9]], [[4, 0, 0], [0, 4, 0], [0, 0, 4]], [[5, 0, 0], [0, 5, 0], [0, 0, 6]]][ix[1]];
            rec.state(&ix);
            let s = realize(&c, &lattice(&g, 1.0, &orientations()[5]), &p);
            check(ix[2], &input(&s), if ix[2] == 1 { &[1e-5] } else { &[0.05, 5.0] }, false, rec)
        }),
        desc: Box::new(|ix| format!("{} metric {} supercell {}", FUNS[ix[2]], ix[0], ix[1])),
    };
    Space {
        fams: vec![odd, many, all, lats, tol, fine],
        bounds: "five functions x fractional and cartesian input x: 230 types in 2 (8) bases and 1 (6) metrics; all integer Niggli forms up to 4 (6) in 6 (120) bases x 3 (10) decorations; 4 (12) displacements x 40 (400) forms x 8 tolerance pairs; 30 (200) forms deformed by 4 amounts x 6 reduction tolerances from 1e-2 to 1e-12; 7 orientations x 4 metrics x 6 decorations with coordinates outside the cell and unusual species names; 4 metrics in supercells of up to 72 (150) cells, up to 1296 (7200) operations".into(),
        assumptions: vec!["site order of returned cells and operation order are not compared".into()],
        post: Some(Box::new(|l| {
            for k in ["refused", "cell", "group"] {
                if !l.contains_key(k) {
                    return Err(format!("no answer of kind {}", k));
                }
            }
            Ok(())
        })),
    }
}

/// Arguments as JSON texts; replaced one by one with malformed ones.
#[derive(Clone)]
struct Args {
    lattice: Vec<String>,
    species: Vec<String>,
    coords: Vec<Vec<String>>,
    cart: String,
    tols: Vec<String>,
}

fn good(f: usize, form: &M, cart: bool) -> Args {
    let c = crystal(form, 12, &[([0; 3], 0), ([6; 3], 1), ([6, 0, 0], 2), ([0, 6, 0], 2), ([0, 0, 6], 3)]);
    let s = realize(&c, &lattice(&c.g, 3.0, &orientations()[4]), &ID);
    Args {
        lattice: (0..9).map(|k| js(s.lattice[(k % 3, k / 3)])).collect(),
        species: s.species.iter().map(|x| format!("\"{}\"", x)).collect(),
        coords: (0..s.num_sites()).map(|i| if cart { s.coords[i] } else { s.frac_coords[i] }.iter().map(|x| js(*x)).collect()).collect(),
        cart: cart.to_string(),
        tols: if f == 1 { vec!["1e-05".into()] } else { vec!["0.05".into(), "5.0".into()] },
    }
}

fn line(f: usize, a: &Args) -> String {
    let l = |v: &[String]| format!("[{}]", v.join(","));
    let rows: Vec<String> = a.coords.iter().map(|r| l(r)).collect();
    let mut v = vec![l(&a.lattice), l(&a.species), l(&rows), a.cart.clone()];
    v.extend(a.tols.clone());
    format!("[\"{}\",{}]", FUNS[f], l(&v))
}

/// The call has to raise an exception, and the module has to work afterwards as before.
fn raises(f: usize, bad: &Args, form: &M, cart: bool, rec: &mut Rec) -> Result<(), String> {
    rec.steps(3);
    let ok = line(f, &good(f, form, cart));
    let before = ask(&ok)?;
    match decode(f, &ask(&line(f, bad))?)? {
        Ans::Refused => rec.label("exception"),
        _ => return Err(format!("{}: malformed arguments are answered: {}", FUNS[f], line(f, bad))),
    }
    let after = ask(&ok)?;
    same(&decode(f, &after)?, &decode(f, &before)?, 1e-9).map_err(|m| format!("after an exception {}", m))?;
    rec.label(&format!("then {}", after[0]));
    Ok(())
}

const WRONG: [&str; 6] = ["null", "\"x\"", "[]", "[1.0]", "{}", "true"];

fn c33(ctx: &Ctx) -> Space<'static> {
    let forms: &'static Vec<M> = Box::leak(Box::new(niggli_forms(ctx.pick(3, 4))));
    let nf = forms.len();
    let lens = Fam {
        name: "lattice-lengths",
        dims: vec![20, nf, 2, 5],
        run: Box::new(move |ix, rec| {
            if ix[0] == 9 {
                return Ok(());
            }
            let (f, cart, form) = (ix[3], ix[2] == 1, &forms[ix[1]]);
            let mut a = good(f, form, cart);
            a.lattice = (0..ix[0]).map(|k| a.lattice[k % 9].clone()).collect();
            rec.state(&line(f, &a));
            raises(f, &a, form, cart, rec)
        }),
        desc: Box::new(move |ix| format!("{} lattice of {} numbers", FUNS[ix[3]], ix[0])),
    };
    let rows = Fam {
        name: "coordinate-lengths",
        dims: vec![7, 5, nf, 2, 5],
        run: Box::new(move |ix, rec| {
            if ix[0] == 3 {
                return Ok(());
            }
            let (f, cart, form) = (ix[4], ix[3] == 1, &forms[ix[2]]);
            let mut a = good(f, form, cart);
            let i = ix[1] % a.coords.len();
            a.coords[i] = (0..ix[0]).map(|k| a.coords[i][k % 3].clone()).collect();
            rec.state(&line(f, &a));
            raises(f, &a, form, cart, rec)
        }),
        desc: Box::new(move |ix| format!("{} site {} with {} coordinates", FUNS[ix[4]], ix[1], ix[0])),
    };
    let counts = Fam {
        name: "list-lengths",
        dims: vec![7, 7, nf, 2, 5],
        run: Box::new(move |ix, rec| {
            if ix[0] == ix[1] {
                return Ok(());
            }
            let (f, cart, form) = (ix[4], ix[3] == 1, &forms[ix[2]]);
            let mut a = good(f, form, cart);
            let n = a.coords.len();
            a.species = (0..ix[0]).map(|i| a.species[i % n].clone()).collect();
            a.coords = (0..ix[1]).map(|i| a.coords[i % n].clone()).collect();
            rec.state(&line(f, &a));
            raises(f, &a, form, cart, rec)
        }),
        desc: Box::new(move |ix| format!("{} with {} species and {} sites", FUNS[ix[4]], ix[0], ix[1])),
    };
    // values of a wrong type at every place: lattice, species, coordinates, flag, tolerances, whole lists
    let types = Fam {
        name: "types",
        dims: vec![WRONG.len(), 20, nf, 2, 5],
        run: Box::new(move |ix, rec| {
            let (f, cart, form) = (ix[4], ix[3] == 1, &forms[ix[2]]);
            let mut a = good(f, form, cart);
            let w = WRONG[ix[0]].to_string();
            let n = a.coords.len();
            // a truth value is a number, a text is a species
            match ix[1] {
                i if i < 9 && w != "true" => a.lattice[i] = w,
                i if (9..13).contains(&i) && w != "\"x\"" => a.species[(i - 9) % n] = w,
                i if (13..17).contains(&i) && w != "true" => a.coords[(i - 13) % n][i % 3] = w,
                17 if w != "true" => a.cart = w,
                i if i >= 18 && w != "true" => {
                    let k = (i - 18) % a.tols.len();
                    a.tols[k] = w
                }
                _ => return Ok(()),
            }
            rec.state(&line(f, &a));
            raises(f, &a, form, cart, rec)
        }),
        desc: Box::new(move |ix| format!("{} with {} at place {}", FUNS[ix[4]], WRONG[ix[0]], ix[1])),
    };
    // too few and too many arguments
    let arity = Fam {
        name: "arguments",
        dims: vec![4, nf, 2, 5],
        run: Box::new(move |ix, rec| {
            let (f, cart, form) = (ix[3], ix[2] == 1, &forms[ix[1]]);
            let mut a = good(f, form, cart);
            let n = [0, a.tols.len() - 1, a.tols.len() + 1, a.tols.len() + 2][ix[0]];
            if n == a.tols.len() {
                return Ok(());
            }
            a.tols = (0..n).map(|i| if i == 0 { a.tols[0].clone() } else { "5.0".into() }).collect();
            rec.state(&line(f, &a));
            raises(f, &a, form, cart, rec)
        }),
        desc: Box::new(move |ix| format!("{} number of tolerances, variant {}", FUNS[ix[3]], ix[0])),
    };
    Space {
        fams: vec![lens, rows, counts, types, arity],
        bounds: "five functions x fractional and cartesian input x lattices C<=3 (4) x: lattices of 0 to 19 numbers, sites of 0 to 6 coordinates, all pairs of different list lengths up to 6, six wrong values at each of 20 places, other numbers of tolerances".into(),
        assumptions: vec!["one argument malformed at a time".into()],
        post: None,
    }
}

fn main() {
    mc::cli::run_main(|ctx| match ctx.prop.as_str() {
        "C23" => Some(c23(ctx)),
        "C33" => Some(c33(ctx)),
        _ => None,
    })
}
