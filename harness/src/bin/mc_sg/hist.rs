//! C35 results do not depend on earlier or simultaneous calls.
use crate::cat::*;
use crate::ident::{analyzer, DTOL};
use crystsymm::pointgroup::PointGroup;
use crystsymm::reduce::Reducer;
use crystsymm::spacegroup::SpaceGroup;
use crystsymm::structure::Structure;
use mc::alpha::*;
use mc::conc::*;
use mc::engine::*;
use mc::model::*;
use nalgebra::{Matrix3, Vector3};
use std::sync::{Barrier, OnceLock};

/// Texts and numbers of a result, or an error.
type Out = Result<(Vec<String>, Vec<f64>), String>;

pub const CALLS: [&str; 10] = ["primitive cell", "Niggli cell", "Delaunay cell", "standard conventional cell", "standard primitive cell", "space group", "supercell", "formulas", "point group", "group from generators"];

/// Inputs close to each other: same volume, same cell with other sites, same sites in another cell, one that is refused.
fn inputs() -> &'static Vec<Structure> {
    static I: OnceLock<Vec<Structure>> = OnceLock::new();
    I.get_or_init(|| {
        let mut v = vec![];
        for n in [225, 221, 62, 152, 14] {
            let k = (0..metrics(n).len()).find_map(|m| known(n, m, 0)).unwrap();
            v.push(realize(&k.c, &lattice(&k.c.g, k.unit, &orientations()[3]), &ID));
        }
        let g = [[4, 0, 0], [0, 4, 0], [0, 0, 4]];
        let h = [[2, 0, 0], [0, 4, 0], [0, 0, 8]];
        for (g, atoms) in [(g, vec![([0; 3], 0), ([6; 3], 1)]), (g, vec![([0; 3], 0), ([6; 3], 0)]), (h, vec![([0; 3], 0), ([6; 3], 1)]), (g, vec![([0; 3], 1), ([1, 2, 5], 0)])] {
            let c = crystal(&g, 12, &atoms);
            v.push(realize(&c, &lattice(&c.g, 2.0, &orientations()[4]), &ID));
        }
        // equal diagonals and another volume, equal metrics in two orientations
        for l in [Matrix3::new(4.0, 1.0, 0.5, 1.0, 5.0, 0.0, 0.0, 0.5, 6.0), Matrix3::new(4.0, -1.0, 0.5, 1.0, 5.0, 0.0, 0.0, 0.5, 6.0)] {
            v.push(Structure::new(l, vec!["C".into(), "O".into()], vec![Vector3::zeros(), Vector3::new(0.25, 0.5, 0.125)], false));
        }
        let mut t = v[2].clone();
        t = Structure::new(fm(&[[0, 0, -1], [1, 0, 0], [0, -1, 0]]) * t.lattice, t.species, t.frac_coords, false);
        v.push(t);
        v
    })
}

fn flat(s: Structure) -> (Vec<String>, Vec<f64>) {
    let mut v: Vec<f64> = s.lattice.iter().copied().collect();
    v.push(s.num_sites() as f64);
    for (x, y) in s.frac_coords.iter().zip(&s.coords) {
        v.extend(x.iter());
        v.extend(y.iter());
    }
    (s.species, v)
}

/// Structures with many sites: supercells of inputs with two species and with one.
fn large() -> &'static Vec<Structure> {
    static I: OnceLock<Vec<Structure>> = OnceLock::new();
    I.get_or_init(|| {
        let mut v = vec![];
        for (i, m) in [(6, [[4, 0, 0], [0, 4, 0], [0, 0, 4]]), (7, [[3, 0, 0], [0, 4, 0], [0, 0, 5]])] {
            let mut t = inputs()[i].clone();
            t.apply_transformation(&fm(&m), &DTOL);
            v.push(t);
        }
        v
    })
}

fn ask(f: usize, i: usize) -> Out {
    ask_of(f, i, &inputs()[i])
}

fn ask_of(f: usize, i: usize, s: &Structure) -> Out {
    let r = Reducer { dtol: DTOL, atol: 5.0 };
    let listed = |ops: Vec<(M, [f64; 3])>| {
        let mut ops: Vec<(M, [i64; 3])> = ops.into_iter().map(|(m, t)| (m, t.map(|x| (x * 1e6).round().rem_euclid(1e6) as i64))).collect();
        ops.sort_unstable();
        ops.iter().map(|o| format!("{:?}", o)).collect::<Vec<_>>()
    };
    match f {
        0 => call(|| r.find_primitive_cell(s)).map(flat),
        1 => call(|| r.niggli_reduce(s, &1e-5)).map(flat),
        2 => call(|| r.delaunay_reduce(s, true)).map(flat),
        3 => call(|| analyzer(DTOL).get_standard_conventional_structure(s)).map(flat),
        4 => call(|| analyzer(DTOL).get_standard_primitive_structure(s)).map(flat),
        5 => call(|| analyzer(DTOL).get_space_group_info(s)).map(|(n, t, g)| {
            let mut v = listed(g.operations.iter().map(|o| (im(&o.rotation), [0, 1, 2].map(|k| o.translation[k]))).collect());
            v.push(format!("{} {}", n, t));
            (v, vec![])
        }),
        6 => {
            let mut t = s.clone();
            call(|| t.apply_transformation(&fm(&hnfs(2)[i % 3]), &DTOL)).map(|_| flat(t))
        }
        7 => call(|| {
            let (a, b) = s.formulas();
            (vec![a, b, s.get_min_element().0], vec![s.volume()])
        }),
        8 => {
            let mut g = PointGroup::from_number(&((i as u8 * 3 + 4) % 32 + 1));
            call(|| g.apply_transformation(&fm(&few_bases()[i % 8]))).map(|_| (listed(g.operations.iter().map(|o| (im(o), [0.0; 3])).collect()), vec![]))
        }
        _ => {
            let ops: Vec<_> = reference((i * 20 + 13) % 230 + 1).iter().rev().take(3).map(|(r, t)| symmop(r, t, DEN)).collect();
            call(|| SpaceGroup::from_generators(&ops, &Vector3::new(0.01, 0.01, 0.01))).map(|g| (listed(g.operations.iter().map(|o| (im(&o.rotation), [0, 1, 2].map(|k| o.translation[k]))).collect()), vec![]))
        }
    }
}

/// One call in a process of its own.
pub fn single(k: &str) {
    std::panic::set_hook(Box::new(|_| {}));
    let (k, n): (usize, usize) = (k.parse().unwrap(), inputs().len());
    match ask(k / n, k % n) {
        Err(_) => println!("refused"),
        Ok((t, v)) => {
            println!("answer");
            t.iter().for_each(|x| println!("t{}", x));
            v.iter().for_each(|x| println!("n{:e}", x));
        }
    }
}

/// Answers of processes that have made no other call.
fn fresh() -> &'static Vec<Out> {
    static F: OnceLock<Vec<Out>> = OnceLock::new();
    F.get_or_init(|| {
        let exe = std::env::current_exe().unwrap();
        let run = |k: usize| {
            let out = std::process::Command::new("timeout").arg("20").arg(&exe).env("MC_SINGLE", k.to_string()).output().unwrap();
            let text = String::from_utf8(out.stdout).unwrap();
            let mut lines = text.lines();
            match (lines.next(), out.status.success()) {
                (Some("answer"), true) => {
                    let (mut t, mut v) = (vec![], vec![]);
                    for l in lines {
                        match l.strip_prefix('t') {
                            Some(x) => t.push(x.to_string()),
                            None => v.push(l[1..].parse().unwrap()),
                        }
                    }
                    Ok((t, v))
                }
                (Some("refused"), true) => Err("refused".into()),
                _ => Err("no answer".into()),
            }
        };
        (0..inputs().len() * CALLS.len()).map(run).collect()
    })
}

fn same(k: usize, got: &Out) -> Result<(), String> {
    let n = inputs().len();
    let ok = match (got, &fresh()[k]) {
        (Err(_), Err(_)) => true,
        (Ok(a), Ok(b)) => a.0 == b.0 && a.1.len() == b.1.len() && a.1.iter().zip(&b.1).all(|(x, y)| (x - y).abs() <= 1e-9),
        _ => false,
    };
    if !ok {
        return Err(format!("{} of input {}: {:?} instead of {:?}", CALLS[k / n], k % n, got, fresh()[k]));
    }
    Ok(())
}

pub fn c35(ctx: &Ctx) -> Space<'static> {
    let before: &'static Vec<Structure> = Box::leak(Box::new(inputs().clone()));
    let n = inputs().len();
    let all = n * CALLS.len();
    fresh();
    let name = move |k: usize| format!("{} of input {}", CALLS[k / n], k % n);
    let unchanged = move || {
        for (a, b) in before.iter().zip(inputs()) {
            if flat(a.clone()) != flat(b.clone()) {
                return Err("an input structure was changed".to_string());
            }
        }
        Ok(())
    };
    let seq = |name: &'static str, len: usize, pick: &'static Vec<usize>| Fam {
        name,
        dims: vec![pick.len(); len],
        run: Box::new(move |ix, rec| {
            for (j, i) in ix.iter().enumerate() {
                rec.step();
                rec.state(&&ix[..=j]);
                same(pick[*i], &ask(pick[*i] / n, pick[*i] % n))?;
            }
            rec.label("same answers");
            unchanged()
        }),
        desc: Box::new(move |ix| ix.iter().map(|i| format!("{} of input {}", CALLS[pick[*i] / n], pick[*i] % n)).collect::<Vec<_>>().join(", then ")),
    };
    let every: &'static Vec<usize> = Box::leak(Box::new((0..all).collect()));
    // analyses only: their inner steps are the other calls
    let few: &'static Vec<usize> = Box::leak(Box::new((0..all).filter(|k| ctx.pick([0, 1, 3, 4, 5].contains(&(k / n)), k / n < 6)).collect()));
    let par = Fam {
        name: "at-the-same-time",
        dims: vec![every.len(), every.len()],
        run: Box::new(move |ix, rec| {
            rec.state(&ix);
            rec.steps(4);
            let b = Barrier::new(2);
            let go = |k: usize| {
                b.wait();
                for _ in 0..2 {
                    same(k, &ask(k / n, k % n))?;
                }
                Ok::<_, String>(())
            };
            let (x, y) = std::thread::scope(|sc| {
                let h = sc.spawn(|| go(ix[0]));
                let y = go(ix[1]);
                (h.join().unwrap_or(Err("thread died".into())), y)
            });
            x.and(y)?;
            rec.label("same answers");
            unchanged()
        }),
        desc: Box::new(move |ix| format!("{} and {}", name(ix[0]), name(ix[1]))),
    };
    let after = Fam {
        name: "after-large",
        dims: vec![large().len(), 8, all],
        run: Box::new(move |ix, rec| {
            rec.state(&ix);
            rec.steps(2);
            // what it answers is the matter of other properties
            let _ = ask_of(ix[1], ix[0], &large()[ix[0]]);
            same(ix[2], &ask(ix[2] / n, ix[2] % n))?;
            rec.label("same answers");
            unchanged()
        }),
        desc: Box::new(move |ix| format!("{} of large input {} ({} sites), then {}", CALLS[ix[1]], ix[0], large()[ix[0]].num_sites(), name(ix[2]))),
    };
    Space {
        fams: vec![seq("pairs", 2, every), seq("triples", 3, few), par, after],
        bounds: format!("all sequences of 2 of {} calls (10 functions, 12 inputs), each of the calls after each of 8 functions of 2 structures of 120 and 128 sites, all sequences of 3 of {} calls of analyses; all pairs of the {} calls at the same time in two threads", all, few.len(), all),
        assumptions: vec!["two threads: the operating system chooses the interleaving; the sequences are exhaustive".into()],
        post: None,
    }
}
