//! C15 single operations, C16 generation of space groups, C17 their transformation.
use crate::cat::*;
use crystsymm::spacegroup::SpaceGroup;
use crystsymm::symmop::SymmOp;
use mc::conc::fm;
use mc::engine::*;
use mc::model::*;
use mc::sgdata::SG;
use nalgebra::{Matrix3, Vector3};
use std::collections::BTreeSet;

/// All rotations of the cubic and hexagonal holohedries (64 matrices).
fn rotations() -> Vec<M> {
    let mut s: BTreeSet<M> = sg_ops(221, 12).into_iter().map(|o| o.0).collect();
    s.extend(sg_ops(191, 12).into_iter().map(|o| o.0));
    let mut v: Vec<M> = s.into_iter().collect();
    v.sort_by_key(|m| (*m != ID, *m));
    v
}

const OFF: [f64; 11] = [0.0, 0.5, -0.5, 0.9, -0.9, 1.1, -1.1, 2.0, -2.0, 5.0, -5.0];

fn op(r: &M, t: Vector3<f64>) -> SymmOp {
    SymmOp { rotation: Matrix3::from_fn(|i, j| r[i][j] as i8), translation: t }
}

pub fn c15(ctx: &Ctx) -> Space<'static> {
    let rots = rotations();
    let mut fams = vec![];
    // action on positions
    let grid: Vec<f64> = vec![0.0, 0.5, -0.75, 1.0 / 3.0, 2.25];
    let r1 = rots.clone();
    fams.push(Fam {
        name: "action",
        dims: vec![rots.len(), 125, 27],
        run: Box::new(move |ix, rec| {
            let r = &r1[ix[0]];
            let t = Vector3::new(grid[ix[1] % 5], grid[ix[1] / 5 % 5], grid[ix[1] / 25]);
            let p = [0.0, 0.3, -1.7];
            let x = Vector3::new(p[ix[2] % 3] + 0.01, p[ix[2] / 3 % 3] + 0.02, p[ix[2] / 9] - 0.05);
            let want = Vector3::from_fn(|i, _| r[i][0] as f64 * x[0] + r[i][1] as f64 * x[1] + r[i][2] as f64 * x[2] + t[i]);
            rec.state(&(r, ix[1], ix[2]));
            rec.step();
            let y: Vector3<f64> = call(|| op(r, t) * x)?;
            if !((y - want).amax() < 1e-12) {
                return Err(format!("{:?} + {:?} applied to {:?} gives {:?}", r, t, x, y));
            }
            Ok(())
        }),
        desc: Box::new(|ix| format!("rotation {} translation {} position {}", ix[0], ix[1], ix[2])),
    });
    // comparison: equal rotations, all offsets in all components
    let tols = [0.05, 1e-3, 0.01];
    let base = [0.0, 0.5, 0.999, 1.0 / 3.0];
    let shift: Vec<V> = vec![[0, 0, 0], [1, 0, 0], [0, -1, 0], [-2, 3, 1]];
    let s1 = shift.clone();
    fams.push(Fam {
        name: "compare",
        dims: vec![11, 11, 11, 4, 4, 3],
        run: Box::new(move |ix, rec| {
            let tol = tols[ix[5]];
            let tv = Vector3::new(tol, tol * 0.5, tol * 1.5);
            let r = &ID;
            let b = Vector3::new(base[ix[3]], base[(ix[3] + 1) % 4], base[(ix[3] + 2) % 4]);
            let o = [OFF[ix[0]], OFF[ix[1]], OFF[ix[2]]];
            let s = s1[ix[4]];
            let t = Vector3::from_fn(|i, _| b[i] + o[i] * tv[i] + s[i] as f64);
            let want = o.iter().all(|x| x.abs() < 1.0);
            rec.state(&(ix, 1));
            rec.steps(2);
            for (x, y) in [(op(r, b), op(r, t)), (op(r, t), op(r, b))] {
                if call(|| x.is_approx_eq(&y, &tv))? != want {
                    return Err(format!("translations {:?} and {:?} with tolerances {:?}: equal is not {}", x.translation, y.translation, tv, want));
                }
            }
            rec.label(if want { "equal" } else { "different" });
            Ok(())
        }),
        desc: Box::new(move |ix| format!("offsets {} {} {} base {} shift {:?} tol {}", OFF[ix[0]], OFF[ix[1]], OFF[ix[2]], ix[3], shift[ix[4]], tols[ix[5]])),
    });
    let r1 = rots.clone();
    fams.push(Fam {
        name: "compare-rotations",
        dims: vec![rots.len(), rots.len(), 4],
        run: Box::new(move |ix, rec| {
            let tv = Vector3::new(0.01, 0.02, 0.03);
            let t = Vector3::new(0.25, 0.5, 0.995);
            let u = t + [Vector3::zeros(), Vector3::new(1.0, 0.0, -1.0), Vector3::new(0.004, 0.0, 0.01), Vector3::new(0.0, 0.1, 0.0)][ix[2]];
            let want = ix[0] == ix[1] && ix[2] < 3;
            rec.state(&(ix, 2));
            rec.step();
            let (a, b) = (op(&r1[ix[0]], t), op(&r1[ix[1]], u));
            if call(|| a.is_approx_eq(&b, &tv))? != want {
                return Err(format!("comparison of rotations {:?} and {:?} is not {}", r1[ix[0]], r1[ix[1]], want));
            }
            Ok(())
        }),
        desc: Box::new(|ix| format!("rotations {} and {} offset kind {}", ix[0], ix[1], ix[2])),
    });
    let r1 = rots.clone();
    fams.push(Fam {
        name: "normalise",
        dims: vec![44, 44, 44, 2],
        run: Box::new(move |ix, rec| {
            let tol = tols[ix[3]];
            let tv = Vector3::new(tol, tol * 0.5, tol * 1.5);
            let val = |i: usize, k: usize| [0.0, 1.0, -1.0, 3.3][k / 11] + OFF[k % 11] * tv[i];
            let t = Vector3::new(val(0, ix[0]), val(1, ix[1]), val(2, ix[2]));
            let r = r1[(ix[0] + ix[1] * 3 + ix[2] * 7) % 64];
            let mut o = op(&r, t);
            rec.state(&(ix, 3));
            rec.step();
            call(|| o.normalize(&tv))?;
            if im(&o.rotation) != r {
                return Err("normalising changed the rotation".into());
            }
            for i in 0..3 {
                let y = o.translation[i];
                let k = t[i] - y;
                if !((k - k.round()).abs() < 1e-9) {
                    return Err(format!("translation component {} became {}", t[i], y));
                }
                if !(y >= -tv[i] - 1e-12 && y <= 1.0 + 1e-12) {
                    return Err(format!("translation component {} became {}, outside the cell", t[i], y));
                }
            }
            Ok(())
        }),
        desc: Box::new(|ix| format!("value codes {:?}", ix)),
    });
    // products
    let r1 = rots.clone();
    fams.push(Fam {
        name: "product-rotation",
        dims: vec![rots.len(), rots.len(), 4],
        run: Box::new(move |ix, rec| {
            let (a, b) = (&r1[ix[0]], &r1[ix[1]]);
            let z = Vector3::zeros();
            let t = Vector3::new(0.5, 0.25, -0.125);
            let (t1, t2) = [(z, z), (t, z), (z, t), (t, t)][ix[2]];
            rec.state(&(ix, 4));
            rec.step();
            let p: SymmOp = call(|| op(a, t1) * op(b, t2))?;
            if im(&p.rotation) != mul(a, b) {
                return Err(format!("rotation of the product of {:?} and {:?} is {:?}", a, b, im(&p.rotation)));
            }
            let ra = Matrix3::from_fn(|i, j| a[i][j] as f64);
            // pure translations, and operations without translation
            if ix[2] == 0 || (*a == ID && *b == ID) {
                if !((p.translation - (ra * t2 + t1)).amax() < 1e-12) {
                    return Err("translation of the product is wrong".into());
                }
            }
            Ok(())
        }),
        desc: Box::new(|ix| format!("rotations {} and {} translations {}", ix[0], ix[1], ix[2])),
    });
    // an operation times itself and times its inverse
    let r1 = rots.clone();
    fams.push(Fam {
        name: "product-powers",
        dims: vec![rots.len(), 125],
        run: Box::new(move |ix, rec| {
            let a = &r1[ix[0]];
            let t = Vector3::from_fn(|i, _| [0.0, 0.25, -0.375, 0.5, 1.125][ix[1] / 5usize.pow(i as u32) % 5]);
            let ra = Matrix3::from_fn(|i, j| a[i][j] as f64);
            let b = inv_uni(a);
            let rb = Matrix3::from_fn(|i, j| b[i][j] as f64);
            rec.state(&(ix, 5));
            rec.steps(2);
            let p: SymmOp = call(|| op(a, t) * op(a, t))?;
            if im(&p.rotation) != mul(a, a) || !((p.translation - (ra * t + t)).amax() < 1e-12) {
                return Err(format!("square of {:?} {:?} is {:?}", a, t.as_slice(), p));
            }
            let p: SymmOp = call(|| op(a, t) * op(&b, -(rb * t)))?;
            if im(&p.rotation) != ID || !(p.translation.amax() < 1e-12) {
                return Err(format!("{:?} {:?} times its inverse is {:?}", a, t.as_slice(), p));
            }
            Ok(())
        }),
        desc: Box::new(|ix| format!("rotation {} translation {}", ix[0], ix[1])),
    });
    fams.push(Fam {
        name: "product-translation",
        dims: vec![1],
        run: Box::new(move |_, rec| {
            let a = [[0, 0, 1], [0, -1, 0], [1, 0, 0]];
            let b = [[0, 1, 0], [1, 0, 0], [0, 0, 1]];
            let (t1, t2) = (Vector3::new(0.0, 0.5, -0.75), Vector3::new(0.0, 0.50001, -0.74999));
            rec.steps(3);
            let p: SymmOp = call(|| op(&a, t1) * op(&b, t2))?;
            let x = Vector3::new(0.1, 0.2, 0.3);
            let one: Vector3<f64> = op(&a, t1) * (op(&b, t2) * x);
            let two: Vector3<f64> = p * x;
            if !((one - two).amax() < 1e-9) {
                return Err(format!("the product moves {:?} to {:?}, its factors one after the other to {:?}", x, two, one));
            }
            Ok(())
        }),
        desc: Box::new(|_| "product of [001/0-10/100](0,.5,-.75) and [010/100/001](0,.50001,-.74999)".into()),
    });
    Space {
        fams,
        bounds: "64 rotations x 125 translations x 27 positions; comparisons at 11 offsets in each component x 4 bases x 4 lattice shifts x 3 tolerances; all 64x64 rotation pairs; normalisation of 44 values per component; all rotation pairs of products".into(),
        assumptions: vec!["offsets exactly on the tolerance are left open".into()],
        post: None,
    }
}

/// Closure of operations modulo lattice translations.
fn closure(gens: &[(M, V)], den: i64) -> Ops {
    let mut s: Ops = gens.iter().map(|(r, t)| (*r, vmod(t, den))).collect();
    let mut queue: Vec<(M, V)> = s.iter().cloned().collect();
    while let Some((r, t)) = queue.pop() {
        for (q, u) in gens {
            let x = mulv(&r, u);
            let p = (mul(&r, q), vmod(&[x[0] + t[0], x[1] + t[1], x[2] + t[2]], den));
            if s.insert(p) {
                queue.push(p);
            }
        }
    }
    s
}

fn check_generate(gens: &[(M, V)], den: i64, tol: f64, rec: &mut Rec) -> Result<(), String> {
    rec.state(&gens);
    rec.step();
    let list: Vec<SymmOp> = gens.iter().map(|(r, t)| symmop(r, t, den)).collect();
    let tv = Vector3::new(tol, tol, tol);
    let sg = call(|| SpaceGroup::from_generators(&list, &tv)).map_err(|m| format!("generation stopped: {}", m))?;
    let got = read_ops(&sg, den, 1e-7)?;
    let want = closure(gens, den);
    rec.steps(got.len() as u64);
    if got != want {
        return Err(describe_diff(&got, &want));
    }
    Ok(())
}

/// Operations of type n in the primitive (0) or conventional (1) basis.
fn setting(n: usize, conv: usize) -> Vec<(M, V)> {
    if conv == 0 {
        reference(n).iter().cloned().collect()
    } else {
        sg_ops(n, DEN)
    }
}

/// A short list of operations generating the group, picked greedily.
fn generators(n: usize, conv: usize) -> Vec<(M, V)> {
    let all = setting(n, conv);
    let mut gens: Vec<(M, V)> = vec![];
    let mut have = 0;
    while have < all.len() {
        let best = all
            .iter()
            .map(|o| {
                let mut g = gens.clone();
                g.push(*o);
                (closure(&g, DEN).len(), *o)
            })
            .max_by_key(|x| x.0)
            .unwrap();
        gens.push(best.1);
        have = best.0;
    }
    gens
}

fn permutations(n: usize) -> Vec<Vec<usize>> {
    let mut out = vec![vec![]];
    for _ in 0..n {
        out = out
            .into_iter()
            .flat_map(|p: Vec<usize>| {
                (0..n).filter(|i| !p.contains(i)).map(|i| {
                    let mut q = p.clone();
                    q.push(i);
                    q
                }).collect::<Vec<_>>()
            })
            .collect();
    }
    out
}

pub fn c16(ctx: &Ctx) -> Space<'static> {
    let mut fams = vec![];
    fams.push(Fam {
        name: "full",
        dims: vec![230, 2],
        run: Box::new(|ix, rec| check_generate(&setting(ix[0] + 1, ix[1]), DEN, 0.01, rec)),
        desc: Box::new(|ix| format!("all operations of {} setting {}", ix[0] + 1, ix[1])),
    });
    fams.push(Fam {
        name: "generators",
        dims: vec![230, 2],
        run: Box::new(|ix, rec| {
            let g = generators(ix[0] + 1, ix[1]);
            for p in permutations(g.len()) {
                let list: Vec<(M, V)> = p.iter().map(|i| g[*i]).collect();
                check_generate(&list, DEN, 0.01, rec)?;
            }
            Ok(())
        }),
        desc: Box::new(|ix| format!("every order of a generator list of {} setting {}", ix[0] + 1, ix[1])),
    });
    fams.push(Fam {
        name: "redundant",
        dims: vec![230, 6, 2],
        run: Box::new(|ix, rec| {
            let g = generators(ix[0] + 1, ix[2]);
            let mut list = g.clone();
            match ix[1] {
                // identity added, products added, a generator repeated, shifted by lattice vectors, everything
                0 => list.insert(0, (ID, [0, 0, 0])),
                1 => {
                    let c: Vec<(M, V)> = closure(&g, DEN).into_iter().take(6).collect();
                    for o in c {
                        if !list.contains(&o) {
                            list.push(o);
                        }
                    }
                }
                2 => list.push(g[0]),
                3 => list.extend(g.iter().map(|(r, t)| (*r, [t[0] + DEN, t[1] - DEN, t[2]])).collect::<Vec<_>>()),
                4 => {
                    for o in list.iter_mut() {
                        o.1 = [o.1[0] - 2 * DEN, o.1[1], o.1[2] + DEN];
                    }
                }
                _ => {
                    list.extend(g.iter().rev().cloned().collect::<Vec<_>>());
                    list.push((ID, [0, 0, 0]));
                }
            }
            check_generate(&list, DEN, 0.01, rec)
        }),
        desc: Box::new(|ix| format!("redundant generator list {} of {} setting {}", ix[1], ix[0] + 1, ix[2])),
    });
    let limit = 48;
    fams.push(Fam {
        name: "pairs",
        dims: vec![230, 48],
        run: Box::new(move |ix, rec| {
            let all = setting(ix[0] + 1, 0);
            if all.len() > limit || ix[1] >= all.len() {
                return Ok(());
            }
            for (j, o) in all.iter().enumerate() {
                if j == ix[1] {
                    check_generate(&[*o], DEN, 0.01, rec)?;
                } else {
                    check_generate(&[all[ix[1]], *o], DEN, 0.01, rec)?;
                }
            }
            Ok(())
        }),
        desc: Box::new(|ix| format!("operation {} of {} with every other one", ix[1], ix[0] + 1)),
    });
    if ctx.tier == Tier::Thorough {
        fams.push(Fam {
            name: "triples",
            dims: vec![230, 16, 16],
            run: Box::new(move |ix, rec| {
                let all = setting(ix[0] + 1, 0);
                if all.len() > 16 || ix[1] >= all.len() || ix[2] >= all.len() || ix[1] == ix[2] {
                    return Ok(());
                }
                for (j, o) in all.iter().enumerate() {
                    if j != ix[1] && j != ix[2] {
                        check_generate(&[all[ix[1]], all[ix[2]], *o], DEN, 0.01, rec)?;
                    }
                }
                Ok(())
            }),
            desc: Box::new(|ix| format!("operations {} and {} of {} with every other one", ix[1], ix[2], ix[0] + 1)),
        });
    }
    // screws and translations of many steps
    let screws: Vec<M> = vec![ID, [[-1, 0, 0], [0, -1, 0], [0, 0, 1]], [[0, -1, 0], [1, -1, 0], [0, 0, 1]], [[0, -1, 0], [1, 0, 0], [0, 0, 1]], [[1, -1, 0], [1, 0, 0], [0, 0, 1]], [[-1, 0, 0], [0, 1, 0], [0, 0, 1]]];
    let most = ctx.pick(96, 150);
    fams.push(Fam {
        name: "screws",
        dims: vec![most as usize - 1, screws.len(), 3],
        run: Box::new(move |ix, rec| {
            let n = ix[0] as i64 + 2;
            let t = [[0, 0, 1], [0, 0, n - 1], [n / 2, 0, 2]][ix[2]];
            let list = [(screws[ix[1]], t)];
            if closure(&list, n).len() > 200 {
                return Ok(());
            }
            check_generate(&list, n, 0.002, rec)
        }),
        desc: Box::new(move |ix| format!("screw {} with translation {} over {}", ix[1], ix[2], ix[0] + 2)),
    });
    let tols = [1e-4, 0.001, 0.03, 0.05];
    fams.push(Fam {
        name: "tolerance",
        dims: vec![230, 4],
        run: Box::new(move |ix, rec| check_generate(&generators(ix[0] + 1, 0), DEN, tols[ix[1]], rec)),
        desc: Box::new(move |ix| format!("generators of {} tolerance {}", ix[0] + 1, tols[ix[1]])),
    });
    Space {
        fams,
        bounds: "230 types in primitive and conventional basis: full lists, every order of a greedy generator list, 6 kinds of redundant lists, 4 tolerances; 6 rotations with 3 translations of every order up to 96 (150), groups up to 200 operations; all single operations and ordered pairs of types of any primitive order; all ordered triples up to order 16 (thorough)".into(),
        assumptions: vec![],
        post: None,
    }
}

/// Exact transformation: all operations of the group that fit the lattice m/k, with all its translations.  Translations over den*|det|.
pub fn transform(ops: &Ops, den: i64, m: &M) -> (Ops, i64) {
    let (a, d) = (adj(m), det(m));
    let ad = d.abs();
    let nd = den * ad;
    let mut cos = BTreeSet::new();
    let mut reps = vec![];
    for i in 0..ad {
        for j in 0..ad {
            for k in 0..ad {
                let v = [i, j, k];
                if cos.insert(vmod(&mulv(&a, &v).map(|x| x * d.signum()), ad)) {
                    reps.push(v);
                }
            }
        }
    }
    let mut out = BTreeSet::new();
    'op: for (r, t) in ops {
        let x = mul(&mul(&a, r), m);
        let mut q = [[0; 3]; 3];
        for i in 0..3 {
            for j in 0..3 {
                if x[i][j] % d != 0 {
                    continue 'op;
                }
                q[i][j] = x[i][j] / d;
            }
        }
        for v in &reps {
            let y = mulv(&a, &[t[0] + v[0] * den, t[1] + v[1] * den, t[2] + v[2] * den]).map(|z| z * d.signum());
            out.insert((q, vmod(&y, nd)));
        }
    }
    (out, nd)
}

fn check_transform(ops: &Ops, den: i64, m: &M, tol: f64, rec: &mut Rec) -> Result<(), String> {
    let list: Vec<SymmOp> = ops.iter().map(|(r, t)| symmop(r, t, den)).collect();
    let (want, nd) = transform(ops, den, m);
    if want.iter().any(|(r, _)| r.iter().flatten().any(|x| x.abs() > 127)) {
        rec.label("entries beyond 8 bits");
        return Ok(());
    }
    rec.state(&(ops.len(), &want));
    rec.steps(1);
    let tv = Vector3::new(tol, tol, tol);
    let mut sg = SpaceGroup { operations: list };
    let t = fm(m);
    call(|| sg.apply_transformation(&t, &tv)).map_err(|m| format!("transformation stopped: {}", m))?;
    let got = read_ops(&sg, nd, 1e-7)?;
    if got != want {
        return Err(describe_diff(&got, &want));
    }
    rec.steps(got.len() as u64);
    // back to the smaller cell, if nothing was lost
    if want.len() as i64 == ops.len() as i64 * det(m).abs() {
        rec.step();
        let back = t.try_inverse().unwrap();
        call(|| sg.apply_transformation(&back, &tv)).map_err(|m| format!("transformation back stopped: {}", m))?;
        let got = read_ops(&sg, den, 1e-7)?;
        if &got != ops {
            return Err(format!("after transforming back: {}", describe_diff(&got, ops)));
        }
    }
    Ok(())
}

pub fn c17(ctx: &Ctx) -> Space<'static> {
    let mut fams = vec![];
    let us = matrices(1, |d| d.abs() == 1);
    let n = ctx.pick(1500, us.len());
    let u2 = us.clone();
    fams.push(Fam {
        name: "basis",
        dims: vec![n, 230],
        run: Box::new(move |ix, rec| check_transform(reference(ix[1] + 1), DEN, &us[ix[0]], 0.01, rec)),
        desc: Box::new(move |ix| format!("space group {} in basis {:?}", ix[1] + 1, u2[ix[0]])),
    });
    let mut hs = vec![];
    for k in 2..=ctx.pick(5, 7) {
        hs.extend(hnfs(k));
    }
    let h2 = hs.clone();
    fams.push(Fam {
        name: "supercell",
        dims: vec![hs.len(), 230],
        run: Box::new(move |ix, rec| check_transform(reference(ix[1] + 1), DEN, &hs[ix[0]], 0.01, rec)),
        desc: Box::new(move |ix| format!("space group {} in supercell {:?}", ix[1] + 1, h2[ix[0]])),
    });
    // primitive to conventional and back, also with tight and loose tolerances
    let tols = [0.01, 1e-4, 0.03];
    fams.push(Fam {
        name: "centring",
        dims: vec![230, 3],
        run: Box::new(move |ix, rec| {
            let n = ix[0] + 1;
            let (m, k) = cent_matrix(SG[n - 1].0);
            // conventional basis in terms of the primitive one
            let d = det(&m);
            let inv = adj(&m).map(|r| r.map(|x| x * k / d));
            check_transform(reference(n), DEN, &inv, tols[ix[1]], rec)?;
            // and the conventional table turned into the primitive one
            let mut sg = SpaceGroup { operations: sg_ops(n, DEN).iter().map(|(r, t)| symmop(r, t, DEN)).collect() };
            let t = fm(&m) / k as f64;
            let tv = Vector3::new(tols[ix[1]], tols[ix[1]], tols[ix[1]]);
            rec.step();
            call(|| sg.apply_transformation(&t, &tv)).map_err(|m| format!("reduction stopped: {}", m))?;
            let got = read_ops(&sg, DEN, 1e-7)?;
            if &got != reference(n) {
                return Err(format!("conventional to primitive: {}", describe_diff(&got, reference(n))));
            }
            Ok(())
        }),
        desc: Box::new(move |ix| format!("space group {} conventional and primitive cell, tolerance {}", ix[0] + 1, tols[ix[1]])),
    });
    // supercells in other bases and long cells
    let long: Vec<M> = (2..=ctx.pick(16, 30)).flat_map(|n| vec![[[n, 0, 0], [0, 1, 0], [0, 0, 1]], [[1, 0, 0], [0, n, 0], [0, 0, 1]], [[1, 0, 0], [0, 1, 0], [0, 0, n]], [[0, 1, 0], [1, 0, 0], [0, -1, n]], [[1, n, 0], [0, 1, 0], [0, 0, -1]]]).collect();
    let l2 = long.clone();
    fams.push(Fam {
        name: "long",
        dims: vec![long.len(), 230],
        run: Box::new(move |ix, rec| check_transform(reference(ix[1] + 1), DEN, &long[ix[0]], 0.01, rec)),
        desc: Box::new(move |ix| format!("space group {} in cell {:?}", ix[1] + 1, l2[ix[0]])),
    });
    let few: &'static [usize] = ctx.pick(&[1, 2, 4, 7], &[1, 2, 4, 7, 16, 25, 75, 81]);
    let far: &'static [i64] = ctx.pick(&[97, 250, 601], &[97, 128, 250, 360, 601, 800, 997]);
    fams.push(Fam {
        name: "very-long",
        dims: vec![far.len(), 3, few.len()],
        run: Box::new(move |ix, rec| {
            if far[ix[0]] > 200 && few[ix[2]] > 2 || far[ix[0]] > 500 && few[ix[2]] > 1 {
                return Ok(());
            }
            let mut t = ID;
            t[ix[1]][ix[1]] = far[ix[0]];
            check_transform(reference(few[ix[2]]), DEN, &t, 1e-4, rec)
        }),
        desc: Box::new(move |ix| format!("space group {} elongated {} times along axis {}", few[ix[2]], far[ix[0]], ix[1])),
    });
    let ts = matrices(1, |d| d.abs() > 1);
    let n = ctx.pick(400, 4000);
    let t2 = ts.clone();
    fams.push(Fam {
        name: "entries1",
        dims: vec![n, 230],
        run: Box::new(move |ix, rec| check_transform(reference(ix[1] + 1), DEN, &ts[ix[0]], 0.01, rec)),
        desc: Box::new(move |ix| format!("space group {} in cell {:?}", ix[1] + 1, t2[ix[0]])),
    });
    Space {
        fams,
        bounds: "230 types x the 1500 simplest (all 6960) unimodular {-1,0,1} matrices, all supercells up to index 5 (7), centring reductions and their inverses at 3 tolerances, long and skewed cells up to 16 (30), 4 (8) types in cells 97 (128) times as long, triclinic ones up to 601 (997) times, 400 (4000) {-1,0,1} matrices with |det|>1; back transformation of each".into(),
        assumptions: vec!["the rotations in the new basis fit 8-bit entries; others are the subject of C34".into()],
        post: None,
    }
}
