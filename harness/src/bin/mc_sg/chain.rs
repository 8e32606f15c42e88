//! C39 chains of changes of basis, C40 large cells, C41 tolerances for exact crystals.
use crate::cat::*;
use crate::ident::DTOL;
use crate::more::{agree, note, said, Said};
use crate::robust::input;
use crystsymm::pointgroup::PointGroup;
use crystsymm::spacegroup::SpaceGroup;
use crystsymm::structure::Structure;
use mc::alpha::*;
use mc::conc::*;
use mc::engine::*;
use mc::model::*;
use nalgebra::{Matrix3, Vector3};
use std::collections::{BTreeSet, HashMap};

/// Matrices m/k: changes of basis, larger cells and the way back from these.
fn letters() -> Vec<(M, i64)> {
    let larger: [M; 4] = [
        [[2, 0, 0], [0, 1, 0], [0, 0, 1]],
        [[1, 1, 0], [-1, 1, 0], [0, 0, 1]],
        [[1, 0, 0], [0, 1, 0], [0, 0, 3]],
        [[0, 1, 1], [1, 0, 1], [1, 1, 0]],
    ];
    let mut v: Vec<(M, i64)> = vec![
        ([[0, 0, 1], [1, 0, 0], [0, 1, 0]], 1),
        ([[1, 1, 0], [0, 1, 0], [0, 0, 1]], 1),
        ([[1, 0, 0], [0, 1, 0], [-1, 0, 1]], 1),
        ([[0, 1, 0], [1, 0, 0], [0, 0, 1]], 1),
        ([[-1, 0, 0], [0, -1, 0], [0, 0, -1]], 1),
    ];
    for m in larger {
        v.push((m, 1));
        let d = det(&m);
        v.push((adj(&m).map(|r| r.map(|x| x * d.signum())), d.abs()));
    }
    v
}

fn gcd(a: i64, b: i64) -> i64 {
    if b == 0 {
        a.abs()
    } else {
        gcd(b, a % b)
    }
}

/// The group in the basis m/k, translations over the least common denominator.
fn turned(ops: &Ops, den: i64, m: &M, k: i64) -> (Ops, i64) {
    let (a, d) = (adj(m), det(m));
    let nd = den * d.abs();
    let mut out = BTreeSet::new();
    'op: for (r, t) in ops {
        let x = mul(&mul(&a, r), m);
        if x.iter().flatten().any(|x| x % d != 0) {
            continue 'op;
        }
        let q = x.map(|r| r.map(|x| x / d));
        for i in 0..d.abs() {
            for j in 0..d.abs() {
                for l in 0..d.abs() {
                    let y = mulv(&a, &[t[0] + i * den, t[1] + j * den, t[2] + l * den]).map(|z| z * d.signum() * k);
                    out.insert((q, vmod(&y, nd)));
                }
            }
        }
    }
    let g = out.iter().flat_map(|(_, t)| t.iter()).fold(nd, |g, x| gcd(g, *x));
    (out.into_iter().map(|(q, t)| (q, t.map(|x| x / g))).collect(), nd / g)
}

/// Whether the columns of m/k are translations of the group.
fn fits(ops: &Ops, den: i64, m: &M, k: i64) -> bool {
    (0..3).all(|j| {
        let c = [0, 1, 2].map(|i| m[i][j] * den);
        c.iter().all(|x| x % k == 0) && ops.contains(&(ID, vmod(&c.map(|x| x / k), den)))
    })
}

fn copy(sg: &SpaceGroup) -> SpaceGroup {
    SpaceGroup { operations: sg.operations.clone() }
}

fn chain_sg(n: usize, depth: usize, most: usize, rec: &mut Rec) -> Result<(), String> {
    let tv = Vector3::new(1e-3, 1e-3, 1e-3);
    let list = reference(n).iter().map(|(r, t)| symmop(r, t, DEN)).collect();
    let start = SpaceGroup { operations: list };
    let (ops0, den0) = turned(reference(n), DEN, &ID, 1);
    let mut seen: HashMap<(Ops, i64), ()> = HashMap::from([((ops0.clone(), den0), ())]);
    let all = letters();
    // what the library holds, what it should hold, the product of the changes, all rotations kept
    let mut layer = vec![(copy(&start), ops0, den0, Matrix3::<f64>::identity(), true, vec![])];
    for _ in 0..depth {
        let mut next = vec![];
        for (sg, ops, den, product, kept, path) in &layer {
            for (l, (m, k)) in all.iter().enumerate() {
                if *k > 1 && !fits(ops, *den, m, *k) {
                    continue;
                }
                let (want, nd) = turned(ops, *den, m, *k);
                if want.len() > most || want.iter().any(|(r, _)| r.iter().flatten().any(|x| x.abs() > 100)) {
                    rec.label("beyond the bounds");
                    continue;
                }
                let mut path: Vec<usize> = path.clone();
                path.push(l);
                let at = |m: String| format!("after the changes {:?}: {}", path.iter().map(|l| all[*l]).collect::<Vec<_>>(), m);
                let t = fm(m) / *k as f64;
                rec.step();
                let mut got = copy(sg);
                call(|| got.apply_transformation(&t, &tv)).map_err(|m| at(format!("stopped: {}", m)))?;
                let read = read_ops(&got, nd, 1e-6).map_err(at)?;
                if read != want {
                    return Err(at(describe_diff(&read, &want)));
                }
                let rots = |o: &Ops| o.iter().map(|x| x.0).collect::<BTreeSet<M>>().len();
                let kept = *kept && rots(&want) == rots(ops);
                if seen.insert((want.clone(), nd), ()).is_some() {
                    continue;
                }
                rec.state(&(n, &want, nd));
                let product = product * t;
                if kept {
                    // all changes at once
                    rec.step();
                    let mut once = copy(&start);
                    call(|| once.apply_transformation(&product, &tv)).map_err(|m| at(format!("all at once stopped: {}", m)))?;
                    if read_ops(&once, nd, 1e-6).map_err(at)? != want {
                        return Err(at("all changes at once give another group".into()));
                    }
                } else {
                    rec.label("rotations lost");
                }
                next.push((got, want, nd, product, kept, path));
            }
        }
        layer = next;
    }
    Ok(())
}

fn chain_pg(n: u8, depth: usize, rec: &mut Rec) -> Result<(), String> {
    let start = call(|| PointGroup::from_number(&n)).map_err(|m| format!("construction stopped: {}", m))?;
    let lists = |p: &PointGroup| (p.operations.iter().map(im).collect::<Vec<M>>(), p.generators.iter().map(im).collect::<Vec<M>>());
    let copy = |p: &PointGroup| PointGroup { symbol: p.symbol, operations: p.operations.clone(), generators: p.generators.clone() };
    let mut seen = BTreeSet::from([lists(&start)]);
    let all = letters();
    let mut layer = vec![(copy(&start), lists(&start), Matrix3::<f64>::identity(), vec![])];
    for _ in 0..depth {
        let mut next = vec![];
        for (pg, now, product, path) in &layer {
            for (l, (m, k)) in all.iter().enumerate() {
                let (a, d) = (adj(m), det(m));
                let conj = |r: &M| mul(&mul(&a, r), m);
                if now.0.iter().chain(&now.1).any(|r| conj(r).iter().flatten().any(|x| x % d != 0 || (x / d).abs() > 100)) {
                    rec.label("does not fit the cell");
                    continue;
                }
                let want = |v: &Vec<M>| v.iter().map(|r| conj(r).map(|r| r.map(|x| x / d))).collect::<Vec<M>>();
                let want = (want(&now.0), want(&now.1));
                let mut path: Vec<usize> = path.clone();
                path.push(l);
                let at = |m: String| format!("after the changes {:?}: {}", path.iter().map(|l| all[*l]).collect::<Vec<_>>(), m);
                let t = fm(m) / *k as f64;
                rec.step();
                let mut got = copy(pg);
                call(|| got.apply_transformation(&t)).map_err(|m| at(format!("stopped: {}", m)))?;
                let sorted = |(mut x, mut y): (Vec<M>, Vec<M>)| {
                    x.sort();
                    y.sort();
                    (x, y)
                };
                if sorted(lists(&got)) != sorted(want.clone()) {
                    return Err(at("operations or generators are not the conjugates".into()));
                }
                if got.symbol != start.symbol {
                    return Err(at("the symbol changed".into()));
                }
                if !seen.insert(want.clone()) {
                    continue;
                }
                rec.state(&(n, &want));
                let product = product * t;
                rec.step();
                let mut once = copy(&start);
                call(|| once.apply_transformation(&product)).map_err(|m| at(format!("all at once stopped: {}", m)))?;
                if sorted(lists(&once)) != sorted(want.clone()) {
                    return Err(at("all changes at once give another group".into()));
                }
                let now = lists(&got);
                next.push((got, now, product, path));
            }
        }
        layer = next;
    }
    Ok(())
}

pub fn c39(ctx: &Ctx) -> Space<'static> {
    let (ds, dp, most) = (ctx.pick(4, 5), ctx.pick(4, 5), ctx.pick(400, 800));
    let pg = Fam {
        name: "point-groups",
        dims: vec![32],
        run: Box::new(move |ix, rec| chain_pg(ix[0] as u8 + 1, dp, rec)),
        desc: Box::new(move |ix| format!("point group {}: all chains of up to {} changes", ix[0] + 1, dp)),
    };
    let sg = Fam {
        name: "space-groups",
        dims: vec![230],
        run: Box::new(move |ix, rec| chain_sg(ix[0] + 1, ds, most, rec)),
        desc: Box::new(move |ix| format!("space group {}: all chains of up to {} changes", ix[0] + 1, ds)),
    };
    Space {
        fams: vec![pg, sg],
        bounds: "all chains over 13 changes of basis (5 of equal volume, 4 larger cells, the 4 ways back) of up to 4 (5) changes for the 32 point groups and the 230 space groups in their primitive cells, up to 400 (800) operations".into(),
        assumptions: vec!["a change to a smaller cell is made only when the group has its translations; rotation entries up to 100".into()],
        post: None,
    }
}

/// The 24 cells with the same axes, right-handed.
fn turns() -> Vec<M> {
    let mut v = vec![];
    for k in 0..48 {
        let (p, s) = ([[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]][k / 8], k % 8);
        let mut m = [[0; 3]; 3];
        for j in 0..3 {
            m[p[j]][j] = if s >> j & 1 == 1 { -1 } else { 1 };
        }
        if det(&m) == 1 {
            v.push(m);
        }
    }
    v
}

/// The same crystal in a basis of equal volume.
fn recell(s: &Structure, t: &M) -> Structure {
    let m = fm(t);
    let inverse = m.try_inverse().unwrap();
    Structure::new(s.lattice * m, s.species.clone(), s.frac_coords.iter().map(|x| inverse * x).collect(), false)
}

/// The answer for a supercell compared with that for the crystal itself.
fn same_crystal_said(one: &Said, big: &Said, one_cell: &Structure, index: i64, number: Option<u8>, rec: &mut Rec) -> Result<(), String> {
    let mut a = one.clone();
    let mut b = big.clone();
    match (&a.group, &b.group) {
        (Ok(x), Ok(y)) => {
            if x.0 != y.0 || x.1 != y.1 {
                return Err(format!("space group {} {} instead of {} {}", y.0, y.1, x.0, x.1));
            }
            if y.2.iter().filter(|o| o.0 == ID).count() as i64 != index {
                return Err(format!("{} translations instead of {}", y.2.iter().filter(|o| o.0 == ID).count(), index));
            }
            if y.2.len() as i64 > x.2.len() as i64 * index || y.2.len() as i64 % index != 0 {
                return Err(format!("{} operations from {} in {} cells", y.2.len(), x.2.len(), index));
            }
            a.group = Err(String::new());
            b.group = Err(String::new());
        }
        (Err(_), Err(_)) => {}
        // the origin is found in some equivalent cells only
        (Err(_), Ok(y)) => {
            rec.label("identified in the larger cell only");
            if number.map_or(true, |n| n != y.0) {
                return Err(format!("space group {} {}, not identified in the small cell", y.0, y.1));
            }
            a.group = Err(String::new());
            b.group = Err(String::new());
        }
        (Ok(x), Err(m)) => {
            rec.label("identified in the smaller cell only");
            let smaller: Vec<Said> = turns().iter().map(|t| said(&recell(one_cell, t), DTOL, rec)).collect();
            if smaller.iter().all(|x| x.group.is_ok()) {
                return Err(format!("space group {} {} in all small cells, now {}", x.0, x.1, m));
            }
            a.group = Err(String::new());
            b.group = Err(String::new());
        }
    }
    agree(&a, &b, 1.0, 1e-6)
}

fn ctx_rows(k: usize) -> i64 {
    [30, 37, 26, 9, 12, 15, 18, 21, 24, 28, 33, 41][k]
}

pub fn c40(ctx: &Ctx) -> Space<'static> {
    let cap = ctx.pick(260, 600);
    let shapes: &'static Vec<M> = Box::leak(Box::new(vec![
        [[4, 0, 0], [0, 4, 0], [0, 0, 4]],
        [[130, 0, 0], [0, 1, 0], [0, 0, 1]],
        [[5, 0, 0], [0, 5, 0], [0, 0, 5]],
        [[1, 0, 0], [0, 260, 0], [0, 0, 1]],
        [[8, 0, 0], [0, 8, 0], [0, 0, 2]],
        [[6, 1, 0], [0, 6, 0], [0, 0, 3]],
        [[16, 5, 0], [0, 16, 0], [0, 0, 1]],
        [[3, 0, 0], [0, 3, 0], [0, 0, 3]],
        [[2, 0, 0], [0, 2, 0], [0, 0, 2]],
        [[-1, 0, 0], [0, 7, 0], [2, 0, 7]],
        [[6, 0, 0], [0, 6, 0], [0, 0, 6]],
        [[8, 0, 0], [0, 8, 0], [0, 0, 5]],
        [[1, 0, 0], [0, 1, 0], [0, 0, 401]],
    ]));
    let ns = ctx.pick(5, 8);
    let types = Fam {
        name: "types",
        dims: vec![ns, 230],
        run: Box::new(move |ix, rec| {
            let p = shapes[[8, 7, 0, 5, 9, 4, 2, 10][ix[0]]];
            let Some((k, _)) = input(ix[1] + 1, 0, 0, 400) else { return Ok(()) };
            if k.c.atoms.len() as i64 * det(&p).abs() > cap {
                return Ok(());
            }
            let l0 = lattice(&k.c.g, k.unit, &orientations()[3]);
            let small = realize(&k.c, &l0, &ID);
            let one = said(&small, DTOL, rec);
            rec.state(&ix);
            note(&one, rec);
            let big = said(&realize(&k.c, &l0, &p), DTOL, rec);
            same_crystal_said(&one, &big, &small, det(&p).abs(), Some(ix[1] as u8 + 1), rec)
        }),
        desc: Box::new(move |ix| format!("type {} in the cell {:?}", ix[1] + 1, shapes[[8, 7, 0, 5, 9, 4, 2, 10][ix[0]]])),
    };
    let forms: &'static Vec<M> = Box::leak(Box::new(niggli_forms(2)));
    let most = ctx.pick(1, forms.len());
    let lats = Fam {
        name: "lattices",
        dims: vec![shapes.len(), 2, ctx.pick(8, forms.len())],
        run: Box::new(move |ix, rec| {
            if ix[0] > 10 && (ix[1] > 0 || ix[2] >= most) {
                return Ok(());
            }
            let c = crystal(&forms[ix[2] * 7 % forms.len()], 12, [&[([0; 3], 0)][..], &[([0; 3], 0), ([1, 2, 5], 1)]][ix[1]]);
            let p = shapes[ix[0]];
            let l0 = lattice(&c.g, 4.0, &orientations()[5]);
            let small = realize(&c, &l0, &ID);
            let one = said(&small, DTOL, rec);
            rec.state(&ix);
            note(&one, rec);
            let s = realize(&c, &l0, &p);
            let big = said(&s, DTOL, rec);
            same_crystal_said(&one, &big, &small, det(&p).abs(), None, rec)
        }),
        desc: Box::new(move |ix| format!("form {:?} with {} sites in the cell {:?}", forms[ix[2] * 7 % forms.len()], ix[1] + 1, shapes[ix[0]])),
    };
    // no translations: n sites on a line of slope, in groups 1 and 2
    let many: &'static [usize] = ctx.pick(&[30, 80], &[30, 64, 80, 100, 130]);
    let sites = Fam {
        name: "sites",
        dims: vec![many.len(), 3, 4],
        run: Box::new(move |ix, rec| {
            // with 13 species the cells are larger
            let n = many[ix[0]] as i64 + if ix[2] == 3 { 182 } else { 0 };
            let den = 4 * n + 2;
            let mut atoms: Vec<(V, u8)> = vec![];
            for i in 0..n / 2 {
                let x = vmod(&[2 * i + 1, (7 * i * i + 3 * i + 1) % den, (5 * i * i * i + i) % den], den);
                let s = (i % [1, 2, 3, 13][ix[2]]) as u8;
                atoms.push((x, s));
                let y = match ix[1] {
                    0 => x.map(|z| -z),
                    1 => [-x[0], x[1] + 3, x[2] + i],
                    // one site off
                    _ => [-x[0], -x[1] + if i == n / 4 { 9 } else { 0 }, -x[2]],
                };
                let y = vmod(&y, den);
                atoms.push((y, s));
            }
            let c = crystal(&[[40, 3, 5], [3, 47, 7], [5, 7, 55]], den, &atoms);
            let want = c.space_group().len() as u8;
            let l0 = lattice(&c.g, 3.0, &orientations()[2]);
            let s = realize(&c, &l0, &ID);
            rec.steps(2);
            rec.state(&ix);
            let p = call(|| crystsymm::reduce::Reducer { dtol: 1e-3, atol: 5.0 }.find_primitive_cell(&s)).map_err(|m| format!("primitive cell: {}", m))?;
            if p.num_sites() != atoms.len() {
                return Err(format!("{} of {} sites in the primitive cell", p.num_sites(), atoms.len()));
            }
            let (num, _, g) = call(|| crate::ident::analyzer(1e-3).get_space_group_info(&s)).map_err(|m| format!("not identified: {}", m))?;
            if num != want || g.operations.len() != want as usize {
                return Err(format!("space group {} with {} operations instead of {}", num, g.operations.len(), want));
            }
            rec.label(if want == 1 { "P1" } else { "P-1" });
            Ok(())
        }),
        desc: Box::new(move |ix| format!("{} sites of {} species, {}", many[ix[0]] + if ix[2] == 3 { 182 } else { 0 }, [1, 2, 3, 13][ix[2]], ["inversion", "no symmetry", "inversion but for one site"][ix[1]])),
    };
    // spacings within a cell smaller than the tolerance over the primitive cell length
    let few: &'static Vec<M> = Box::leak(Box::new(vec![[[4, 1, 1], [1, 5, 2], [1, 2, 6]], [[4, 0, 0], [0, 5, 0], [0, 0, 7]], [[4, 0, -2], [0, 5, 0], [-2, 0, 7]]]));
    let rows = Fam {
        name: "rows",
        dims: vec![ctx.pick(3, 12), 3, 3],
        run: Box::new(move |ix, rec| {
            let c = crystal(&few[ix[2]], 12, &[([0; 3], 0), ([6, 0, 0], 1)]);
            let mut p = ID;
            p[ix[1]][ix[1]] = ctx_rows(ix[0]);
            let l0 = lattice(&c.g, 1.5, &orientations()[5]);
            let small = realize(&c, &l0, &ID);
            let one = said(&small, 0.12, rec);
            rec.state(&ix);
            note(&one, rec);
            let big = said(&realize(&c, &l0, &p), 0.12, rec);
            same_crystal_said(&one, &big, &small, det(&p), None, rec)
        }),
        desc: Box::new(move |ix| format!("lattice {:?} in a row of {} cells along axis {}, tolerance 0.12", few[ix[2]], ctx_rows(ix[0]), ix[1])),
    };
    Space {
        fams: vec![types, lats, rows, sites],
        bounds: "230 types in 5 (8) supercells of 8 to 108 (216) cells with up to 260 (600) sites; 8 (all 27) lattices x 1 or 2 sites x 11 supercells of up to 260 cells, 1 (all) of them with one site in 320 and 401 cells; 3 lattices in rows of 26 to 37 (9 to 41) cells along each axis at a tolerance of 0.12; primitive cells of 30 and 80 (to 130) sites of up to 3 species, 212 and 262 (to 312) of 13 species, in P-1, P1 and P-1 but for one site".into(),
        assumptions: vec!["an analysis is given 30 s per step".into()],
        post: None,
    }
}

/// The shortest step on the grid that all positions of the crystal lie on, in metric units.
fn finest(c: &Crystal) -> f64 {
    let mut best = f64::INFINITY;
    for k in 0..343i64 {
        let s = [k % 7 - 3, k / 7 % 7 - 3, k / 49 - 3];
        if s != [0; 3] {
            let q: i64 = (0..3).map(|i| (0..3).map(|j| s[i] * c.g[i][j] * s[j]).sum::<i64>()).sum();
            best = best.min(q as f64);
        }
    }
    best.sqrt() / c.den as f64
}

pub fn c41(ctx: &Ctx) -> Space<'static> {
    // fractions of the finest step
    let parts: &'static [f64] = ctx.pick(&[1e-5, 1e-3, 0.1, 0.2], &[1e-6, 1e-5, 1e-4, 1e-3, 0.01, 0.1, 0.15, 0.2]);
    let cap = ctx.pick(16, 48);
    let types = Fam {
        name: "types",
        dims: vec![ctx.pick(4, 16), ctx.pick(3, 12), 230],
        run: Box::new(move |ix, rec| {
            let n = ix[2] + 1;
            if ix[1] >= metrics(n).len() {
                return Ok(());
            }
            let Some((k, p)) = input(n, ix[1], ix[0], cap) else { return Ok(()) };
            let d = finest(&k.c) * k.unit;
            let s = realize(&k.c, &lattice(&k.c.g, k.unit, &orientations()[3]), &p);
            let one = said(&s, 0.02 * d, rec);
            note(&one, rec);
            for x in parts {
                rec.state(&(ix, x.to_bits()));
                agree(&one, &said(&s, x * d, rec), 1.0, 1e-6).map_err(|m| format!("tolerance {} of the finest step: {}", x, m))?;
            }
            Ok(())
        }),
        desc: Box::new(move |ix| format!("type {} metric {} basis {} at {} tolerances", ix[2] + 1, ix[1], ix[0], parts.len())),
    };
    let forms: &'static Vec<M> = Box::leak(Box::new(niggli_forms(ctx.pick(6, 8))));
    let hs: &'static Vec<M> = Box::leak(Box::new(vec![ID, hnfs(2)[2], hnfs(3)[4], few_bases()[6]]));
    let lats = Fam {
        name: "lattices",
        dims: vec![forms.len(), ctx.pick(6, 10), 4, 2],
        run: Box::new(move |ix, rec| {
            let c = crystal(&forms[ix[0]], 12, &motifs()[[1, 4, 6, 0, 2, 3, 5, 7, 8, 9][ix[1]]]);
            let unit = [4.0, 0.5][ix[3]];
            let d = finest(&c) * unit;
            let s = realize(&c, &lattice(&c.g, unit, &orientations()[5]), &hs[ix[2]]);
            let one = said(&s, 0.02 * d, rec);
            note(&one, rec);
            for x in parts {
                rec.state(&(ix, x.to_bits()));
                agree(&one, &said(&s, x * d, rec), 1.0, 1e-6).map_err(|m| format!("tolerance {} of the finest step: {}", x, m))?;
            }
            Ok(())
        }),
        desc: Box::new(move |ix| format!("form {:?} motif {} cell {:?} unit {} at {} tolerances", forms[ix[0]], ix[1], hs[ix[2]], ix[3], parts.len())),
    };
    // lattices of one and two sites in supercells, where the finest step is as long as a cell vector
    let mut sup: Vec<M> = vec![];
    for n in 1..=ctx.pick(4, 6) {
        sup.extend(hnfs(n));
    }
    let sup: &'static Vec<M> = Box::leak(Box::new(sup));
    let few: &'static Vec<M> = Box::leak(Box::new(niggli_forms(ctx.pick(4, 6))));
    let coarse = Fam {
        name: "coarse",
        dims: vec![few.len(), sup.len(), 2],
        run: Box::new(move |ix, rec| {
            let a: &[(V, u8)] = if ix[2] == 0 { &[([0, 0, 0], 0)] } else { &[([0, 0, 0], 0), ([1, 1, 1], 1)] };
            let c = crystal(&few[ix[0]], 1 + ix[2] as i64, a);
            let d = finest(&c) * 2.0;
            let s = realize(&c, &lattice(&c.g, 2.0, &orientations()[4]), &sup[ix[1]]);
            let one = said(&s, 0.002 * d, rec);
            note(&one, rec);
            for x in parts {
                rec.state(&(ix, x.to_bits()));
                agree(&one, &said(&s, x * d, rec), 1.0, 1e-6).map_err(|m| format!("tolerance {} of the finest step: {}", x, m))?;
            }
            Ok(())
        }),
        desc: Box::new(move |ix| format!("form {:?} of {} sites, supercell {:?} at {} tolerances", few[ix[0]], ix[2] + 1, sup[ix[1]], parts.len())),
    };
    Space {
        fams: vec![lats, coarse, types],
        bounds: "4 (8) tolerances from 1e-5 (1e-6) to 0.2 of the finest step between positions: all integer Niggli forms C<=6 (8) x 6 (10) motifs x 4 cells x 2 units of length; forms C<=4 (6) of one and two sites in all supercells up to index 4 (6); 230 types x 3 (12) metrics x 4 (16) bases".into(),
        assumptions: vec!["cells up to 16 (48) sites".into()],
        post: None,
    }
}
