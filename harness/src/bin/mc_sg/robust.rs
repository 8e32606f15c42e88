//! C21 independence of hash order, site order and names; C22 small displacements.
use crate::cat::*;
use crate::ident::{analyzer, DTOL};
use crystsymm::analyzer::SymmetryAnalyzer;
use crystsymm::reduce::Reducer;
use crystsymm::structure::Structure;
use mc::alpha::*;
use mc::conc::*;
use mc::engine::*;
use mc::model::*;
use nalgebra::Vector3;
use std::collections::{BTreeMap, BTreeSet};

/// Site list independent of order: species and fractional position on a fine grid, folded.
fn sites(s: &Structure) -> Vec<(String, [i64; 3])> {
    let mut v: Vec<(String, [i64; 3])> = (0..s.num_sites())
        .map(|i| (s.species[i].clone(), [0, 1, 2].map(|k| ((s.frac_coords[i][k] * 1e6).round() as i64).rem_euclid(1_000_000))))
        .collect();
    v.sort();
    v
}

fn lat(s: &Structure) -> Vec<i64> {
    s.lattice.iter().map(|x| (x * 1e7).round() as i64).collect()
}

#[derive(PartialEq, Debug, Clone)]
struct Answer {
    group: Option<(usize, String, Ops)>,
    cells: Vec<Option<(Vec<i64>, Vec<(String, [i64; 3])>)>>,
}

/// Everything the library says about a structure.
fn answer(s: &Structure, den: i64, rec: &mut Rec) -> Result<Answer, String> {
    rec.steps(5);
    let group = match call(|| analyzer(DTOL).get_space_group_info(s)) {
        Ok((n, t, g)) => Some((n as usize, t, read_ops(&g, den, 1e-5)?)),
        Err(_) => None,
    };
    let r = Reducer { dtol: DTOL, atol: 5.0 };
    let cell = |x: Result<Structure, String>| x.ok().map(|x| (lat(&x), sites(&x)));
    let cells = vec![
        cell(call(|| r.find_primitive_cell(s))),
        cell(call(|| r.niggli_reduce(s, &1e-5))),
        cell(call(|| analyzer(DTOL).get_standard_conventional_structure(s))),
        cell(call(|| analyzer(DTOL).get_standard_primitive_structure(s))),
    ];
    Ok(Answer { group, cells })
}

fn same_answer(a: &Answer, b: &Answer) -> Result<(), String> {
    let show = |x: &Answer| x.group.as_ref().map_or("refused".to_string(), |g| format!("{} {} with {} operations", g.0, g.1, g.2.len()));
    if a.group != b.group {
        return Err(format!("space group differs: {} / {}", show(a), show(b)));
    }
    for (i, (x, y)) in a.cells.iter().zip(&b.cells).enumerate() {
        if x != y {
            return Err(format!("{} differs", ["primitive cell", "Niggli cell", "standard conventional cell", "standard primitive cell"][i]));
        }
    }
    Ok(())
}

/// Crystals for the robustness checks: (type, basis index).
pub fn input(n: usize, k: usize, b: usize, cap: usize) -> Option<(&'static Known, M)> {
    let k2 = known(n, k, 0)?;
    let p = *bases(n, k).get(b)?;
    if k2.c.atoms.len() as i64 * det(&p).abs() > cap as i64 {
        return None;
    }
    Some((k2, p))
}

fn perms(n: usize) -> Vec<Vec<usize>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut out = vec![];
    for p in perms(n - 1) {
        for i in 0..n {
            let mut q = p.clone();
            q.insert(i, n - 1);
            out.push(q);
        }
    }
    out.sort();
    out
}

fn reorder(s: &Structure, p: &[usize]) -> Structure {
    Structure::new(s.lattice, p.iter().map(|i| s.species[*i].clone()).collect(), p.iter().map(|i| s.frac_coords[*i]).collect(), false)
}

/// Site orders tried for a crystal with n sites: all of them up to 5 sites, otherwise rotations, reversal and swaps.
fn orders(n: usize) -> Vec<Vec<usize>> {
    if n <= 5 {
        return perms(n);
    }
    let id: Vec<usize> = (0..n).collect();
    let mut v = vec![];
    for k in 1..n {
        let mut p = id.clone();
        p.rotate_left(k);
        v.push(p);
        let mut p = id.clone();
        p.swap(0, k);
        v.push(p);
    }
    v.push(id.iter().rev().cloned().collect());
    v
}

pub fn c21(ctx: &Ctx) -> Space<'static> {
    // the seeds must really change iteration order
    let order = |seed: u64| with_hash_seed(seed, || (0..50).collect::<std::collections::HashSet<i32>>().into_iter().collect::<Vec<_>>());
    if order(1) == order(2) || order(1) != order(1) {
        eprintln!("hash seeds are not under control");
        std::process::exit(3);
    }
    let cap = ctx.pick(12, 32);
    let ns = ctx.pick(10, 60);
    let nb = ctx.pick(4, 8);
    let seeds = Fam {
        name: "hash-order",
        dims: vec![nb, 230],
        run: Box::new(move |ix, rec| {
            let Some((k, p)) = input(ix[1] + 1, 0, ix[0], cap) else { return Ok(()) };
            let s = realize(&k.c, &lattice(&k.c.g, k.unit, &orientations()[3]), &p);
            let den = DEN * det(&p).abs();
            let mut first: Option<Answer> = None;
            for seed in 0..ns {
                let (s2, mut r2) = (&s, Rec::default());
                let (a, r2) = with_hash_seed(seed as u64 * 7919 + 1, move || {
                    let a = answer(s2, den, &mut r2);
                    (a, r2)
                });
                rec.steps(r2.transitions);
                let a = a?;
                rec.state(&(ix, seed));
                if a.group.is_some() {
                    rec.label("identified");
                } else {
                    rec.label("refused");
                }
                match &first {
                    None => first = Some(a),
                    Some(f) => same_answer(f, &a).map_err(|m| format!("hash seed {}: {}", seed, m))?,
                }
            }
            Ok(())
        }),
        desc: Box::new(|ix| format!("type {} basis {}", ix[1] + 1, ix[0])),
    };
    let order_fam = Fam {
        name: "site-order",
        dims: vec![ctx.pick(4, 10), ctx.pick(3, 6), 230],
        run: Box::new(move |ix, rec| {
            let n = ix[2] + 1;
            if ix[1] >= metrics(n).len() {
                return Ok(());
            }
            let Some((k, p)) = input(n, ix[1], ix[0], cap) else { return Ok(()) };
            let s = realize(&k.c, &lattice(&k.c.g, k.unit, &orientations()[3]), &p);
            let den = DEN * det(&p).abs();
            let group = |s: &Structure, rec: &mut Rec| {
                rec.step();
                match call(|| analyzer(DTOL).get_space_group_info(s)) {
                    Ok((n, _, g)) => Ok(Some((n, read_ops(&g, den, 1e-5)?))),
                    Err(_) => Ok::<_, String>(None),
                }
            };
            let first = group(&s, rec)?;
            for o in orders(s.num_sites()) {
                rec.state(&(ix, &o));
                let got = group(&reorder(&s, &o), rec)?;
                if got != first {
                    let f = |x: &Option<(u8, Ops)>| x.as_ref().map_or("refused".into(), |g| format!("{} with {} operations", g.0, g.1.len()));
                    return Err(format!("site order {:?}: {} instead of {}", o, f(&got), f(&first)));
                }
            }
            Ok(())
        }),
        desc: Box::new(|ix| format!("type {} metric {} basis {}", ix[2] + 1, ix[1], ix[0])),
    };
    let pool = ["S", "Si", "C", "Cl", "Sn", "Zr", "x", "Ss"];
    let name_fam = Fam {
        name: "names",
        dims: vec![ctx.pick(3, 10), ctx.pick(2, 3), 230],
        run: Box::new(move |ix, rec| {
            let n = ix[2] + 1;
            if ix[1] >= metrics(n).len() {
                return Ok(());
            }
            let Some((k, p)) = input(n, ix[1], ix[0], cap) else { return Ok(()) };
            let s = realize(&k.c, &lattice(&k.c.g, k.unit, &orientations()[3]), &p);
            // the species in turn, not one after the other
            let mut turn: Vec<usize> = (0..s.num_sites()).collect();
            turn.sort_by_key(|i| s.species[..*i].iter().filter(|x| **x == s.species[*i]).count());
            let s = reorder(&s, &turn);
            let den = DEN * det(&p).abs();
            let present: BTreeSet<String> = s.species.iter().cloned().collect();
            let present: Vec<String> = present.into_iter().collect();
            let mut first = None;
            // every injective assignment of names
            let m = present.len();
            for code in 0..pool.len().pow(m as u32) {
                let pick: Vec<usize> = (0..m).map(|i| code / pool.len().pow(i as u32) % pool.len()).collect();
                if pick.iter().collect::<BTreeSet<_>>().len() < m || m > 2 && pick.iter().any(|i| *i > 4) {
                    continue;
                }
                let mut t = s.clone();
                for x in t.species.iter_mut() {
                    *x = pool[pick[present.iter().position(|y| y == x).unwrap()]].to_string();
                }
                rec.step();
                rec.state(&(ix, &pick));
                let got = match call(|| analyzer(DTOL).get_space_group_info(&t)) {
                    Ok((n, _, g)) => Some((n, read_ops(&g, den, 1e-5)?)),
                    Err(_) => None,
                };
                match &first {
                    None => first = Some(got),
                    Some(f) if *f != got => {
                        let sh = |x: &Option<(u8, Ops)>| x.as_ref().map_or("refused".to_string(), |g| format!("{} with {} operations", g.0, g.1.len()));
                        return Err(format!("named {:?}: {} instead of {}", pick.iter().map(|i| pool[*i]).collect::<Vec<_>>(), sh(&got), sh(f)));
                    }
                    _ => {}
                }
            }
            Ok(())
        }),
        desc: Box::new(|ix| format!("type {} metric {} basis {}", ix[2] + 1, ix[1], ix[0])),
    };
    // sites off their ideal places, where the order in which candidates are tried could show
    let nd = ctx.pick(6, 30);
    let off = Fam {
        name: "displaced",
        dims: vec![ctx.pick(3, 8), 4, 2, 230],
        run: Box::new(move |ix, rec| {
            let Some((k, p)) = input(ix[3] + 1, 0, ix[0], cap) else { return Ok(()) };
            let s = realize(&k.c, &lattice(&k.c.g, k.unit, &orientations()[3]), &p);
            let (dirs, dtol) = (directions(), [0.05, 0.4][ix[2]]);
            let size = [0.5, 0.9, 1.3, 2.1][ix[1]] * dtol;
            let m: Vec<(usize, Vector3<f64>)> = (0..s.num_sites()).map(|i| (i, dirs[(ix[3] + i * 7) % 26] * size)).collect();
            let s = displaced(&s, &m);
            let first = crate::more::said(&s, dtol, rec);
            rec.label(if first.group.is_ok() { "identified" } else { "refused" });
            for seed in 0..nd {
                rec.state(&(ix, seed));
                let (got, n) = with_hash_seed(seed as u64 * 7919 + 1, || {
                    let mut r2 = Rec::default();
                    (crate::more::said(&s, dtol, &mut r2), r2.transitions)
                });
                rec.steps(n);
                crate::more::agree(&first, &got, 1.0, 1e-9).map_err(|m| format!("hash seed {}: {}", seed, m))?;
            }
            Ok(())
        }),
        desc: Box::new(|ix| format!("type {} basis {} displaced by {} at tolerance {}", ix[3] + 1, ix[0], ix[1], [0.05, 0.4][ix[2]])),
    };
    Space {
        fams: vec![order_fam, name_fam, seeds, off],
        bounds: "230 types: 10 (60) hash seeds x 4 (8) bases, all outputs compared; all site orders up to 5 sites, otherwise rotations, swaps with the first and reversal, x 4 (10) bases x 3 (6) metrics; all assignments of names from a pool of 8 (5 for more than two species); displaced sites: 4 sizes x 2 tolerances x 3 (8) bases x 6 (30) hash seeds".into(),
        assumptions: vec!["cells up to 12 (32) sites".into()],
        post: None,
    }
}

/// The 26 directions to faces, edges and corners of a cube, simplest first.
pub fn directions() -> Vec<Vector3<f64>> {
    let mut v: Vec<V> = (0..27).map(|i| [i % 3 - 1, i / 3 % 3 - 1, i / 9 - 1]).filter(|v| *v != [0, 0, 0]).collect();
    v.sort_by_key(|v| (v.iter().map(|x| x.abs()).sum::<i64>(), *v));
    v.iter().map(|v| v3(v, 1).normalize()).collect()
}

fn displaced(s: &Structure, moves: &[(usize, Vector3<f64>)]) -> Structure {
    let mut c = s.coords.clone();
    for (i, d) in moves {
        c[*i] += d;
    }
    Structure::new(s.lattice, s.species.clone(), c, true)
}

#[derive(PartialEq, Debug, Clone)]
struct Coarse {
    sites: Option<usize>,
    group: Option<(usize, String, Vec<M>)>,
}

fn coarse(s: &Structure, dtol: f64, rec: &mut Rec) -> Coarse {
    rec.steps(2);
    let r = Reducer { dtol, atol: 5.0 };
    let sites = call(|| r.find_primitive_cell(s)).ok().map(|x| x.num_sites());
    let group = call(|| analyzer(dtol).get_space_group_info(s)).ok().map(|(n, t, g)| {
        let mut v: Vec<M> = g.operations.iter().map(|o| im(&o.rotation)).collect();
        v.sort();
        (n as usize, t, v)
    });
    Coarse { sites, group }
}

fn compare(a: &Coarse, b: &Coarse) -> Result<(), String> {
    if a.sites != b.sites {
        return Err(format!("primitive cell has {:?} sites instead of {:?}", b.sites, a.sites));
    }
    if a.group != b.group {
        let f = |x: &Coarse| x.group.as_ref().map_or("refused".to_string(), |g| format!("{} with {} operations", g.0, g.2.len()));
        return Err(format!("space group {} instead of {}", f(b), f(a)));
    }
    Ok(())
}

fn note(c: &Coarse, rec: &mut Rec) {
    rec.label(if c.group.is_some() { "identified" } else { "refused" });
}

const TOLS: [f64; 3] = [0.05, 0.01, 0.1];

pub fn c22(ctx: &Ctx) -> Space<'static> {
    let sizes: &'static [f64] = ctx.pick(&[0.2], &[0.2, 0.05, 0.001]);
    let cap = ctx.pick(12, 32);
    let nb = ctx.pick(2, 8);
    let single = Fam {
        name: "single",
        dims: vec![nb, sizes.len(), ctx.pick(1, 3), ctx.pick(2, 6), 230],
        run: Box::new(move |ix, rec| {
            let n = ix[4] + 1;
            if ix[3] >= metrics(n).len() {
                return Ok(());
            }
            let Some((k, p)) = input(n, ix[3], ix[0], cap) else { return Ok(()) };
            let s = realize(&k.c, &lattice(&k.c.g, k.unit, &orientations()[3]), &p);
            let dtol = TOLS[ix[2]];
            let want = coarse(&s, dtol, rec);
            note(&want, rec);
            for dir in directions() {
                let d = dir * (sizes[ix[1]] * dtol);
                for i in 0..s.num_sites() {
                    let got = coarse(&displaced(&s, &[(i, d)]), dtol, rec);
                    rec.state(&(ix, i, d.map(|x| (x * 1e9) as i64).as_slice(), got.sites));
                    compare(&want, &got).map_err(|m| format!("site {} displaced by {:?}: {}", i, d.as_slice(), m))?;
                }
            }
            Ok(())
        }),
        desc: Box::new(move |ix| format!("type {} metric {} basis {} size {} tolerance {}", ix[4] + 1, ix[3], ix[0], sizes[ix[1]], TOLS[ix[2]])),
    };
    let pcap = ctx.pick(4, 8);
    let pair = Fam {
        name: "pair",
        dims: vec![ctx.pick(2, 4), ctx.pick(1, 3), 230],
        run: Box::new(move |ix, rec| {
            let n = ix[2] + 1;
            if ix[1] >= metrics(n).len() {
                return Ok(());
            }
            let Some((k, p)) = input(n, ix[1], ix[0], pcap) else { return Ok(()) };
            let s = realize(&k.c, &lattice(&k.c.g, k.unit, &orientations()[3]), &p);
            let want = coarse(&s, DTOL, rec);
            note(&want, rec);
            let dirs = directions();
            for i in 0..s.num_sites() {
                for j in 0..i {
                    for a in 0..6 {
                        for b in 0..6 {
                            let m = [(i, dirs[a] * (0.1 * DTOL)), (j, dirs[b] * (0.1 * DTOL))];
                            let got = coarse(&displaced(&s, &m), DTOL, rec);
                            rec.state(&(ix, i, j, a, b));
                            compare(&want, &got).map_err(|m| format!("sites {} and {} displaced along {} and {}: {}", i, j, a, b, m))?;
                        }
                    }
                }
            }
            Ok(())
        }),
        desc: Box::new(|ix| format!("type {} metric {} basis {}", ix[2] + 1, ix[1], ix[0])),
    };
    // all sites at once, each along its own direction
    let steps: &'static [usize] = ctx.pick(&[1, 7], &[0, 1, 3, 5, 7, 9, 11]);
    let all = Fam {
        name: "all-sites",
        dims: vec![nb, steps.len(), ctx.pick(1, 3), 230],
        run: Box::new(move |ix, rec| {
            let n = ix[3] + 1;
            if ix[2] >= metrics(n).len() {
                return Ok(());
            }
            let Some((k, p)) = input(n, ix[2], ix[0], cap * 2) else { return Ok(()) };
            let s = realize(&k.c, &lattice(&k.c.g, k.unit, &orientations()[3]), &p);
            let want = coarse(&s, DTOL, rec);
            note(&want, rec);
            let dirs = directions();
            for o in 0..26 {
                let m: Vec<(usize, Vector3<f64>)> = (0..s.num_sites()).map(|i| (i, dirs[(o + i * steps[ix[1]]) % 26] * (0.2 * DTOL))).collect();
                let got = coarse(&displaced(&s, &m), DTOL, rec);
                rec.state(&(ix, o));
                compare(&want, &got).map_err(|m| format!("direction offset {}: {}", o, m))?;
            }
            Ok(())
        }),
        desc: Box::new(move |ix| format!("type {} metric {} basis {} direction step {}", ix[3] + 1, ix[2], ix[0], steps[ix[1]])),
    };
    // supercells in which one copy of a site is displaced
    let sup: &'static Vec<M> = Box::leak(Box::new((2..=ctx.pick(2, 4)).flat_map(hnfs).collect::<Vec<M>>()));
    let ndir = ctx.pick(6, 26);
    let scell = Fam {
        name: "supercell",
        dims: vec![sup.len(), 230],
        run: Box::new(move |ix, rec| {
            let n = ix[1] + 1;
            let h = sup[ix[0]];
            let Some(k) = known(n, 0, 0) else { return Ok(()) };
            if k.c.atoms.len() as i64 * det(&h) > cap as i64 {
                return Ok(());
            }
            let s = realize(&k.c, &lattice(&k.c.g, k.unit, &orientations()[3]), &h);
            let want = coarse(&s, DTOL, rec);
            note(&want, rec);
            if want.sites != Some(k.c.atoms.len()) {
                return Err(format!("primitive cell has {:?} sites instead of {}", want.sites, k.c.atoms.len()));
            }
            for dir in &directions()[..ndir] {
                for i in 0..s.num_sites() {
                    let got = coarse(&displaced(&s, &[(i, dir * (0.1 * DTOL))]), DTOL, rec);
                    rec.state(&(ix, i, dir.map(|x| (x * 1e9) as i64).as_slice()));
                    compare(&want, &got).map_err(|m| format!("site {} displaced along {:?}: {}", i, dir.as_slice(), m))?;
                }
            }
            Ok(())
        }),
        desc: Box::new(move |ix| format!("type {} supercell {:?}", ix[1] + 1, sup[ix[0]])),
    };
    Space {
        fams: vec![single, pair, all, scell],
        bounds: "230 types: one site displaced by 0.2 (0.2, 0.05, 0.001) of the tolerance along 26 directions, every site, 2 (8) bases, 2 (6) metrics, 1 (3) tolerances; two sites by 0.1 along 6x6 directions, cells up to 4 (8) sites; all sites by 0.2 along 26 offsets of 2 (7) direction patterns; supercells of index 2 (2-4) with one displaced copy".into(),
        assumptions: vec![
            "displacements up to 0.2 of the distance tolerance, interatomic distances many times the tolerance".into(),
            "cells up to 12 (32) sites, 24 (64) when all sites move".into(),
        ],
        post: None,
    }
}

/// An answer for a distorted crystal: rotations form a group, each with equally many translations.
fn consistent(ops: &[(M, Vector3<f64>)]) -> Result<(), String> {
    let mut count: BTreeMap<M, usize> = BTreeMap::new();
    for (r, _) in ops {
        *count.entry(*r).or_default() += 1;
    }
    let n = *count.get(&ID).ok_or("no identity among the operations")?;
    for (r, m) in &count {
        if *m != n {
            return Err(format!("rotation {:?} occurs {} times, the identity {} times", r, m, n));
        }
        for q in count.keys() {
            if !count.contains_key(&mul(r, q)) {
                return Err(format!("the product of rotations {:?} and {:?} is missing", r, q));
            }
        }
    }
    Ok(())
}

type Loose = Option<(u8, String, Vec<(M, [i64; 3])>)>;

fn loose(s: &Structure, dtol: f64, rec: &mut Rec) -> Result<Loose, String> {
    rec.step();
    let Ok((n, t, g)) = call(|| analyzer(dtol).get_space_group_info(s)) else { return Ok(None) };
    let ops: Vec<(M, Vector3<f64>)> = g.operations.iter().map(|o| (im(&o.rotation), o.translation)).collect();
    consistent(&ops)?;
    let mut v: Vec<(M, [i64; 3])> = ops.iter().map(|(r, t)| (*r, [0, 1, 2].map(|k| ((t[k] * 1e6).round() as i64).rem_euclid(1_000_000)))).collect();
    v.sort();
    Ok(Some((n, t, v)))
}

/// Each species occurs as often per volume as in the input.
fn same_density(s: &Structure, x: &Structure) -> Result<(), String> {
    let mut names = s.species.clone();
    names.sort();
    names.dedup();
    for n in names {
        let count = |t: &Structure| t.species.iter().filter(|y| **y == n).count() as f64;
        if (count(x) - count(s) * x.volume() / s.volume()).abs() > 0.05 {
            return Err(format!("{} sites of {} in volume {} instead of {} in {}", count(x), n, x.volume(), count(s), s.volume()));
        }
    }
    Ok(())
}

fn ends(s: &Structure, dtol: f64, seeds: usize, rec: &mut Rec) -> Result<(), String> {
    rec.steps(4);
    let r = Reducer { dtol, atol: 5.0 };
    let _ = call(|| r.delaunay_reduce(s, true));
    for (name, x) in [
        ("primitive", call(|| r.find_primitive_cell(s))),
        ("conventional", call(|| analyzer(dtol).get_standard_conventional_structure(s))),
        ("standard primitive", call(|| analyzer(dtol).get_standard_primitive_structure(s))),
    ] {
        let Ok(x) = x else { continue };
        same_density(s, &x).map_err(|m| format!("{} cell: {}", name, m))?;
    }
    let first = loose(s, dtol, rec)?;
    rec.label(if first.is_some() { "answered" } else { "refused" });
    for seed in 0..seeds {
        let (got, n) = with_hash_seed(seed as u64 * 7919 + 5, || {
            let mut r2 = Rec::default();
            (loose(s, dtol, &mut r2), r2.transitions)
        });
        rec.steps(n);
        if got? != first {
            return Err("another run gives another answer".into());
        }
    }
    Ok(())
}

pub fn c27(ctx: &Ctx) -> Space<'static> {
    const SIZES: [f64; 10] = [0.9, 2.1, 0.5, 1.3, 0.7, 1.7, 1.0, 2.0, 3.0, 5.0];
    let sizes = ctx.pick(4, 10);
    let tols: &'static [f64] = ctx.pick(&[0.05, 0.4], &[0.05, 0.1, 0.2, 0.4, 0.8]);
    let cap = ctx.pick(8, 24);
    let types = Fam {
        name: "types",
        dims: vec![ctx.pick(2, 6), sizes, tols.len(), 230],
        run: Box::new(move |ix, rec| {
            let n = ix[3] + 1;
            let Some((k, p)) = input(n, 0, ix[0], cap) else { return Ok(()) };
            let s = realize(&k.c, &lattice(&k.c.g, k.unit, &orientations()[3]), &p);
            let dtol = tols[ix[2]];
            for dir in directions().iter().skip(ix[0]).step_by(5) {
                let d = dir * (SIZES[ix[1]] * dtol);
                for i in 0..s.num_sites() {
                    rec.state(&(ix, i, dir.map(|x| (x * 1e9) as i64).as_slice()));
                    ends(&displaced(&s, &[(i, d)]), dtol, 1, rec).map_err(|m| format!("site {} displaced by {:?}: {}", i, d.as_slice(), m))?;
                }
            }
            Ok(())
        }),
        desc: Box::new(move |ix| format!("type {} basis {} displacement {} x tolerance {}", ix[3] + 1, ix[0], SIZES[ix[1]], tols[ix[2]])),
    };
    let forms: &'static Vec<M> = Box::leak(Box::new(niggli_forms(ctx.pick(3, 5))));
    let motif: [&[(V, u8)]; 4] = [
        &[([0, 0, 0], 0), ([6, 6, 6], 0), ([1, 2, 3], 1), ([7, 8, 9], 1)],
        &[([0, 0, 0], 0), ([6, 0, 0], 0), ([0, 6, 0], 0), ([6, 6, 0], 0)],
        &[([0, 0, 0], 0), ([6, 6, 6], 1), ([0, 6, 6], 1)],
        &[([0, 0, 0], 0), ([4, 4, 4], 0), ([8, 8, 8], 0)],
    ];
    let lats = Fam {
        name: "lattices",
        dims: vec![4, forms.len(), sizes, tols.len(), 26],
        run: Box::new(move |ix, rec| {
            let c = crystal(&forms[ix[1]], 12, motif[ix[0]]);
            let s = realize(&c, &lattice(&c.g, 2.5, &orientations()[5]), &ID);
            let dtol = tols[ix[3]];
            rec.state(&ix);
            ends(&displaced(&s, &[(1, directions()[ix[4]] * (SIZES[ix[2]] * dtol))]), dtol, 1, rec)
        }),
        desc: Box::new(move |ix| format!("form {:?} motif {} displacement {} x tolerance {} direction {}", forms[ix[1]], ix[0], SIZES[ix[2]], tols[ix[3]], ix[4])),
    };
    // every site moved on its own way
    let all = Fam {
        name: "all-sites",
        dims: vec![ctx.pick(1, 4), ctx.pick(2, 6), tols.len(), 26, 230],
        run: Box::new(move |ix, rec| {
            let n = ix[4] + 1;
            let Some((k, p)) = input(n, 0, ix[0], cap * 2) else { return Ok(()) };
            let s = realize(&k.c, &lattice(&k.c.g, k.unit, &orientations()[3]), &p);
            let (dirs, dtol) = (directions(), tols[ix[2]]);
            let m: Vec<(usize, Vector3<f64>)> = (0..s.num_sites()).map(|i| (i, dirs[(ix[3] + i * 7) % 26] * (SIZES[ix[1]] * dtol))).collect();
            rec.state(&ix);
            ends(&displaced(&s, &m), dtol, 1, rec)
        }),
        desc: Box::new(move |ix| format!("type {} basis {} all sites displaced {} x tolerance {} offset {}", ix[4] + 1, ix[0], SIZES[ix[1]], tols[ix[2]], ix[3])),
    };
    Space {
        fams: vec![lats, types, all],
        bounds: "displacements of 4 (10) sizes from 0.5 to 5 tolerances at 2 (5) tolerances from 0.05 to 0.8: all lattices C<=3 (5) x 4 decorations x 26 directions; 230 types x 2 (6) bases x every site x 6 directions; 230 types x 26 patterns that move all sites; each analysis under two hash seeds".into(),
        assumptions: vec!["cells up to 8 (24) sites, 16 (48) when all sites move".into()],
        post: None,
    }
}

/// Tolerances that make no sense or are extreme.
const ODD: [f64; 16] = [0.0, -0.05, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, -0.0, 1e-300, 1e-12, 1e-7, 1e-5, 1.0, 2.0, 5.0, 50.0, 1e6, f64::MAX];

/// Everything that takes a tolerance ends; a cell that is returned holds what the crystal holds.
fn ends_with(s: &Structure, dtol: f64, atol: f64, rec: &mut Rec) -> Result<(), String> {
    rec.steps(8);
    let r = Reducer { dtol, atol };
    let a = SymmetryAnalyzer { dtol, atol };
    let mut x = vec![
        ("primitive", call(|| r.find_primitive_cell(s))),
        ("conventional", call(|| a.get_standard_conventional_structure(s))),
        ("standard primitive", call(|| a.get_standard_primitive_structure(s))),
        ("Niggli", call(|| r.niggli_reduce(s, &dtol))),
    ];
    let mut t = s.clone();
    x.push(("doubled", call(|| t.apply_transformation(&fm(&hnfs(2)[1]), &dtol)).map(|_| t)));
    let mut t = s.clone();
    x.push(("normalised", call(|| t.normalize_coords(&dtol)).map(|_| t)));
    for (name, x) in x {
        let Ok(x) = x else {
            rec.label("refused");
            continue;
        };
        rec.label("cell returned");
        if !(x.volume() > 0.0 && x.volume().is_finite()) || x.coords.iter().chain(&x.frac_coords).any(|v| v.iter().any(|y| !y.is_finite())) {
            return Err(format!("{} cell is not a cell: {:?} {:?}", name, x.lattice, x.frac_coords));
        }
        same_density(s, &x).map_err(|m| format!("{} cell: {}", name, m))?;
    }
    if let Ok((n, _, sg)) = call(|| a.get_space_group_info(s)) {
        rec.label("identified");
        if !(1..=230).contains(&n) || sg.operations.is_empty() {
            return Err(format!("space group {} with {} operations", n, sg.operations.len()));
        }
    }
    Ok(())
}

pub fn c37(ctx: &Ctx) -> Space<'static> {
    let cap = ctx.pick(16, 48);
    let types = Fam {
        name: "types",
        dims: vec![ctx.pick(4, 8), ctx.pick(3, 6), ODD.len(), 2, 230],
        run: Box::new(move |ix, rec| {
            let n = ix[4] + 1;
            if ix[1] >= metrics(n).len() {
                return Ok(());
            }
            let Some((k, p)) = input(n, ix[1], ix[0], cap) else { return Ok(()) };
            let s = realize(&k.c, &lattice(&k.c.g, k.unit, &orientations()[3]), &p);
            rec.state(&ix);
            if ix[3] == 0 { ends_with(&s, ODD[ix[2]], 5.0, rec) } else { ends_with(&s, 0.05, ODD[ix[2]], rec) }
        }),
        desc: Box::new(|ix| format!("type {} metric {} basis {} {} tolerance {}", ix[4] + 1, ix[1], ix[0], ["length", "angle"][ix[3]], ODD[ix[2]])),
    };
    let forms: &'static Vec<M> = Box::leak(Box::new(niggli_forms(ctx.pick(6, 8))));
    let lats = Fam {
        name: "lattices",
        dims: vec![forms.len(), ctx.pick(4, 10), ODD.len(), 3],
        run: Box::new(move |ix, rec| {
            let c = crystal(&forms[ix[0]], 12, &motifs()[[1, 4, 6, 0, 2, 3, 5, 7, 8, 9][ix[1]]]);
            let s = realize(&c, &lattice(&c.g, 3.0, &orientations()[5]), &[ID, few_bases()[6], hnfs(2)[2]][ix[3]]);
            rec.state(&ix);
            ends_with(&s, ODD[ix[2]], 5.0, rec)
        }),
        desc: Box::new(move |ix| format!("form {:?} motif {} cell {} tolerance {}", forms[ix[0]], ix[1], ix[3], ODD[ix[2]])),
    };
    Space {
        fams: vec![types, lats],
        bounds: "16 extreme values of the length and of the angle tolerance: 230 types x 3 (6) metrics x 4 (8) bases; all integer Niggli forms C<=6 (8) x 4 (10) motifs x 3 cells (length only)".into(),
        assumptions: vec!["cells up to 16 (48) sites".into()],
        post: None,
    }
}
