//! C04 transformation, C05 operation sequences, C06 geometry, C07 composition.
use crate::reduce::{analyzer, reducer, DTOL};
use crystsymm::structure::Structure;
use mc::alpha::*;
use mc::conc::*;
use mc::engine::*;
use mc::model::*;
use nalgebra::{Matrix3, Vector3};
use std::collections::{BTreeMap, BTreeSet, VecDeque};

/// Describe the crystal in basis `from`, transform it to basis `to`, compare.
fn check_transform(c: &Crystal, scale: f64, qi: usize, from: &M, to: &M, tol: f64, rec: &mut Rec) -> Result<(), String> {
    let l0 = lattice(&c.g, scale, &orientations()[qi]);
    let mut s = realize(c, &l0, from);
    let t = fm(from).try_inverse().unwrap() * fm(to);
    rec.state(&(c.g, &c.atoms, from, to));
    rec.step();
    call(|| s.apply_transformation(&t, &tol)).map_err(|m| format!("transformation stopped: {}", m))?;
    let want = l0 * fm(to);
    if !((s.lattice - want).amax() < 1e-7 * (1.0 + want.amax())) {
        return Err("new lattice is not the transformed lattice".into());
    }
    let seen = see(&s, c, &l0, 1e-6)?;
    same_crystal(&seen, c)?;
    rec.state(&(seen.m, &seen.sites));
    // and back again
    rec.step();
    let back = fm(to).try_inverse().unwrap() * fm(from);
    call(|| s.apply_transformation(&back, &tol)).map_err(|m| format!("transformation back stopped: {}", m))?;
    let seen = see(&s, c, &l0, 1e-6)?;
    same_crystal(&seen, c)?;
    if seen.m != from.map(|r| r.map(|x| x * c.den)) {
        return Err("transforming back does not restore the lattice".into());
    }
    Ok(())
}

fn hs_len(n: i64) -> usize {
    (1..=n).map(|k| hnfs(k).len()).sum()
}

pub fn c04(ctx: &Ctx) -> Space<'static> {
    let mut fams = vec![];
    let forms = niggli_forms(2);
    // every integer matrix with entries -1, 0, 1
    let ts = matrices(1, |d| d != 0);
    let ms = motifs();
    let mk = {
        let (forms, ts, ms) = (forms.clone(), ts.clone(), ms.clone());
        move |ix: &[usize]| (crystal(&forms[[0, 6, 4, 1, 2, 3, 5][ix[1]]], 12, &ms[[1, 4, 7, 0, 2, 3][ix[2]]]), ts[ix[0]])
    };
    let mk2 = mk.clone();
    fams.push(Fam {
        name: "entries1",
        dims: vec![ts.len(), ctx.pick(5, 7), ctx.pick(4, 6)],
        run: Box::new(move |ix, rec| {
            let (c, t) = mk(ix);
            check_transform(&c, 3.0, 4, &ID, &t, DTOL, rec)
        }),
        desc: Box::new(move |ix| format!("{:?}", mk2(ix))),
    });
    let maxd = ctx.pick(2, 6);
    let ts = matrices(2, |d| d != 0 && d.abs() <= maxd);
    let n = ctx.pick(150_000.min(ts.len()), ts.len());
    let mk = {
        let (forms, ts, ms) = (forms.clone(), ts.clone(), ms.clone());
        move |ix: &[usize]| (crystal(&forms[3], 12, &ms[1]), ts[ix[0]])
    };
    let mk2 = mk.clone();
    fams.push(Fam {
        name: "entries2",
        dims: vec![n],
        run: Box::new(move |ix, rec| {
            let (c, t) = mk(ix);
            check_transform(&c, 3.0, 4, &ID, &t, DTOL, rec)
        }),
        desc: Box::new(move |ix| format!("{:?}", mk2(ix))),
    });
    let mut hs = vec![];
    for n in 1..=ctx.pick(20, 28) {
        hs.extend(hnfs(n));
    }
    let mk = {
        let (forms, hs, ms) = (forms.clone(), hs.clone(), ms.clone());
        move |ix: &[usize]| (crystal(&forms[[0, 6, 4, 1, 2, 3, 5][ix[1]]], 12, &ms[[1, 5, 2][ix[2]]]), hs[ix[0]])
    };
    let mk2 = mk.clone();
    fams.push(Fam {
        name: "supercell",
        dims: vec![hs.len(), ctx.pick(2, 7), ctx.pick(2, 3)],
        run: Box::new(move |ix, rec| {
            let (c, t) = mk(ix);
            check_transform(&c, 3.0, 0, &ID, &t, DTOL, rec)
        }),
        desc: Box::new(move |ix| format!("{:?}", mk2(ix))),
    });
    // more sites than fit small counters, back and forth
    let many: Vec<M> = vec![
        [[5, 0, 0], [0, 5, 0], [0, 0, 5]],
        [[40, 0, 0], [0, 1, 0], [0, 0, 1]],
        [[7, 0, 0], [1, 7, 0], [0, 0, 6]],
        [[1, 0, 0], [0, 12, 0], [5, 0, 13]],
        [[0, 6, 0], [-6, 0, 0], [0, 0, 8]],
        [[7, 7, 0], [-7, 7, 0], [0, 0, 3]],
    ];
    let mk = {
        let (forms, ms, many) = (forms.clone(), ms.clone(), many.clone());
        move |ix: &[usize]| (crystal(&forms[[6, 0, 4][ix[1]]], 12, &ms[[1, 4, 0][ix[2]]]), many[ix[0]], [ID, [[3, 0, 0], [0, 3, 0], [0, 0, 3]], [[1, 0, 0], [0, 1, 0], [0, 0, 27]]][ix[3]], ix[4] == 1)
    };
    let mk2 = mk.clone();
    fams.push(Fam {
        name: "many",
        dims: vec![many.len(), ctx.pick(2, 3), ctx.pick(2, 3), 3, 2],
        run: Box::new(move |ix, rec| {
            let (c, t, f, back) = mk(ix);
            // from a larger cell to a still larger one
            let t = mul(&f, &t.map(|r| r.map(|x| if f == ID { x } else { x.clamp(-2, 2) })));
            if back {
                check_transform(&c, 3.0, 3, &t, &f, DTOL, rec)
            } else {
                check_transform(&c, 3.0, 3, &f, &t, DTOL, rec)
            }
        }),
        desc: Box::new(move |ix| format!("{:?}", mk2(ix))),
    });
    // between any two supercells: rational matrices, growing and shrinking
    let mut hs = vec![];
    for n in 1..=ctx.pick(6, 7) {
        hs.extend(hnfs(n));
    }
    let mk = {
        let (forms, hs, ms) = (forms.clone(), hs.clone(), ms.clone());
        move |ix: &[usize]| (crystal(&forms[[3, 6][ix[2]]], 12, &ms[[1, 4][ix[2]]]), hs[ix[0]], hs[ix[1]])
    };
    let mk2 = mk.clone();
    fams.push(Fam {
        name: "between",
        dims: vec![hs.len(), hs.len(), 2],
        run: Box::new(move |ix, rec| {
            let (c, f, t) = mk(ix);
            check_transform(&c, 3.0, 3, &f, &t, DTOL, rec)
        }),
        desc: Box::new(move |ix| format!("{:?}", mk2(ix))),
    });
    // elongated cells and shears
    let long = move |j: usize, n: i64| -> M {
        match j {
            0 => [[n, 0, 0], [0, 1, 0], [0, 0, 1]],
            1 => [[1, 0, 0], [0, n, 0], [0, 0, 1]],
            2 => [[1, 0, 0], [0, 1, 0], [0, 0, n]],
            3 => [[1, 0, n], [0, 1, 0], [0, 0, 1]],
            4 => [[1, 0, 0], [-n, 1, 0], [0, 0, 1]],
            5 => [[n, 0, 1], [0, 1, 0], [0, 0, 1]],
            6 => [[1, 1, 0], [0, n, 0], [0, 0, 1]],
            _ => [[-1, 0, 0], [0, 1, 0], [0, 0, -n]],
        }
    };
    let mk = {
        let (forms, ms) = (forms.clone(), ms.clone());
        move |ix: &[usize]| (crystal(&forms[[0, 6, 4, 1, 2, 3, 5][ix[2]]], 12, &ms[[1, 4][ix[3]]]), long(ix[1], ix[0] as i64 + 1))
    };
    let mk2 = mk.clone();
    fams.push(Fam {
        name: "elongated",
        dims: vec![ctx.pick(30, 60), 8, ctx.pick(3, 7), 2],
        run: Box::new(move |ix, rec| {
            let (c, t) = mk(ix);
            check_transform(&c, 3.0, 3, &ID, &t, DTOL, rec)
        }),
        desc: Box::new(move |ix| format!("{:?}", mk2(ix))),
    });
    let mk = {
        let (forms, ms) = (forms.clone(), ms.clone());
        move |ix: &[usize]| (crystal(&forms[[0, 6][ix[2]]], 12, &ms[1]), long(ix[1], [97, 128, 250, 397, 600][ix[0]]))
    };
    let mk2 = mk.clone();
    fams.push(Fam {
        name: "very-long",
        dims: vec![ctx.pick(3, 5), 8, 2],
        run: Box::new(move |ix, rec| {
            let (c, t) = mk(ix);
            check_transform(&c, 3.0, 3, &ID, &t, DTOL, rec)
        }),
        desc: Box::new(move |ix| format!("{:?}", mk2(ix))),
    });
    // blocks of many cells with many sites
    let n = ctx.pick(4, 6);
    let mk = {
        let (forms, ms) = (forms.clone(), ms.clone());
        move |ix: &[usize]| (crystal(&forms[[3, 6][ix[1]]], 12, &ms[7]), [[ix[0] as i64 / n / n + 1, 0, 0], [0, ix[0] as i64 / n % n + 1, 0], [0, 0, ix[0] as i64 % n + 1]])
    };
    let mk2 = mk.clone();
    fams.push(Fam {
        name: "block",
        dims: vec![(n * n * n) as usize, 2],
        run: Box::new(move |ix, rec| {
            let (c, t) = mk(ix);
            check_transform(&c, 6.0, 3, &ID, &t, DTOL, rec)
        }),
        desc: Box::new(move |ix| format!("{:?}", mk2(ix))),
    });
    // two sites a few tolerances apart, in all directions
    let mut hs = vec![];
    for n in 1..=ctx.pick(3, 4) {
        hs.extend(hnfs(n));
    }
    let mk = move |ix: &[usize]| {
        let k = ix[0] as i64;
        let d = [k % 3 - 1, k / 3 % 3 - 1, k / 9 - 1].map(|x| x * [3, 5][ix[2]]);
        (crystal(&[[16, 1, 0], [1, 17, 2], [0, 2, 20]], 240, &[([0; 3], 0), (d, [0, 1][ix[3]]), ([100, 70, 30], 1)]), hs[ix[1]])
    };
    let mk2 = mk.clone();
    fams.push(Fam {
        name: "close",
        dims: vec![27, hs_len(ctx.pick(3, 4)), 2, 2],
        run: Box::new(move |ix, rec| {
            if ix[0] == 13 {
                return Ok(());
            }
            let (c, t) = mk(ix);
            check_transform(&c, 1.0, 6, &ID, &t, 0.02, rec)
        }),
        desc: Box::new(move |ix| format!("{:?}", mk2(ix))),
    });
    // tolerances and scales
    let tols = [0.05, 0.01, 0.1, 1e-3, 1e-5];
    let scales = [3.0, 6.5, 20.0, 0.03];
    let mut hs = vec![];
    for n in 1..=3 {
        hs.extend(hnfs(n));
    }
    let mk = move |ix: &[usize]| (crystal(&forms[ix[1]], 12, &ms[ix[4]]), hs[ix[0]], tols[ix[2]], scales[ix[3]]);
    let mk2 = mk.clone();
    fams.push(Fam {
        name: "tolerance",
        dims: vec![21, 7, 5, 4, 10],
        run: Box::new(move |ix, rec| {
            let (c, t, tol, sc) = mk(ix);
            if tol > 1e-3 * sc * 40.0 {
                return Ok(());
            }
            check_transform(&c, sc, 5, &ID, &t, tol, rec)
        }),
        desc: Box::new(move |ix| format!("{:?}", mk2(ix))),
    });
    Space {
        fams,
        bounds: "all non-singular {-1,0,1} matrices; {-2..2} matrices with |det|<=2 (6; quick: the 150000 with the smallest entries); all supercells up to index 20 (28); all pairs of supercells up to index 6 (7); elongations and shears up to 30 (60) and of 97, 128, 250 (397, 600); all blocks of up to 4x4x4 (6x6x6) cells with 8 sites each; 6 cells of up to 294 cells, also from and to cells of 27; sites 2.5 to 8 tolerances apart in 26 directions; 5 tolerances x 4 scales; several lattices and motifs; every transformation also undone".into(),
        assumptions: vec!["sites at least 0.2 and four tolerances apart".into()],
        post: None,
    }
}

#[derive(Clone, Copy, Debug)]
enum Op {
    T(usize),
    Normalize,
    Primitive,
    Niggli,
    Delaunay,
    DelaunayFull,
    Conventional,
    StdPrimitive,
}

fn t_list() -> Vec<M> {
    vec![
        [[0, 1, 0], [1, 0, 0], [0, 0, 1]],
        [[1, 1, 0], [0, 1, 0], [0, 0, 1]],
        [[1, 0, -1], [1, 1, 0], [0, 1, 0]],
        [[2, 0, 0], [0, 1, 0], [0, 0, 1]],
        [[1, 0, 0], [0, 1, 0], [0, 1, 2]],
        [[1, 1, 0], [-1, 1, 0], [0, 0, 1]],
        [[3, 0, 1], [0, 1, 0], [0, 0, -1]],
    ]
}

fn ops() -> Vec<Op> {
    let mut v = vec![Op::Normalize, Op::Primitive, Op::Niggli, Op::Delaunay, Op::DelaunayFull, Op::Conventional, Op::StdPrimitive];
    v.extend((0..t_list().len()).map(Op::T));
    v
}

/// Apply one operation; None if it is outside the bound.
fn apply(s: &Structure, op: Op, cap: f64) -> Option<Result<Structure, String>> {
    Some(match op {
        Op::T(i) => {
            let t = fm(&t_list()[i]);
            if s.lattice.determinant().abs() * t.determinant().abs() > cap {
                return None;
            }
            call(|| {
                let mut x = s.clone();
                x.apply_transformation(&t, &DTOL);
                x
            })
        }
        Op::Normalize => call(|| {
            let mut x = s.clone();
            x.normalize_coords(&DTOL);
            x
        }),
        Op::Primitive => call(|| reducer().find_primitive_cell(s)),
        Op::Niggli => call(|| reducer().niggli_reduce(s, &1e-5)),
        Op::Delaunay => call(|| reducer().delaunay_reduce(s, false)),
        Op::DelaunayFull => call(|| reducer().delaunay_reduce(s, true)),
        Op::Conventional => call(|| analyzer().get_standard_conventional_structure(s)),
        Op::StdPrimitive => call(|| analyzer().get_standard_primitive_structure(s)),
    })
}

fn tidy(s: &Structure, dtol: f64) -> Result<(), String> {
    for (i, f) in s.frac_coords.iter().enumerate() {
        for k in 0..3 {
            let tol = dtol / s.lattice.column(k).norm();
            if !(f[k] >= -tol - 1e-9 && f[k] <= 1.0 + 1e-9) {
                return Err(format!("site {} has fractional coordinate {} outside the cell", i, f[k]));
            }
        }
    }
    let mut done = BTreeSet::new();
    for w in s.species.windows(2) {
        if w[0] != w[1] {
            done.insert(w[0].clone());
            if done.contains(&w[1]) {
                return Err(format!("sites are not grouped by species: {:?}", s.species));
            }
        }
    }
    Ok(())
}

fn bfs(c: &Crystal, l0: &Matrix3<f64>, p: &M, first: Op, depth: usize, rec: &mut Rec) -> Result<(), String> {
    let start = realize(c, l0, p);
    let cap = l0.determinant().abs() * det(p).abs().max(1) as f64 * 12.5;
    let mut seen: BTreeSet<(M, Vec<(V, u8)>)> = BTreeSet::new();
    let mut queue: VecDeque<(Structure, Vec<Op>)> = VecDeque::new();
    queue.push_back((start, vec![]));
    let all = ops();
    while let Some((s, path)) = queue.pop_front() {
        if path.len() == depth {
            continue;
        }
        let next: Vec<Op> = if path.is_empty() { vec![first] } else { all.clone() };
        for op in next {
            let Some(r) = apply(&s, op, cap) else { continue };
            rec.step();
            let mut path2 = path.clone();
            path2.push(op);
            let at = |m: String| format!("after {:?}: {}", path2, m);
            let out = match r {
                Ok(x) => x,
                // Delaunay reduction may give up on a strongly skewed cell
                Err(_) if matches!(op, Op::Delaunay | Op::DelaunayFull) => {
                    rec.label("refused");
                    continue;
                }
                Err(m) => return Err(at(format!("stopped: {}", m))),
            };
            let v = see(&out, c, l0, 1e-6).map_err(at)?;
            same_crystal(&v, c).map_err(at)?;
            tidy(&out, DTOL).map_err(at)?;
            rec.label(&format!("{:?}", op));
            let key = (v.m, v.sites.clone());
            rec.state(&(c.g, &key));
            if seen.insert(key) {
                queue.push_back((out, path2));
            }
        }
    }
    Ok(())
}

pub fn c05(ctx: &Ctx) -> Space<'static> {
    let forms = niggli_forms(ctx.pick(3, 3));
    let ms = motifs();
    let all = ops();
    let depth = ctx.pick(3, 4);
    let starts = [ID, [[2, 1, 0], [1, 1, 0], [0, -3, 1]], [[0, 1, 0], [1, 0, 0], [0, 0, 2]]];
    let mk = move |ix: &[usize]| {
        let mut c = crystal(&forms[ix[1]], 12, &ms[ix[2]]);
        // an untidy start: sites outside the cell and out of order
        for (k, a) in c.atoms.iter_mut().enumerate() {
            a.0[k % 3] += 12 * (k as i64 % 3 - 1);
        }
        (c, starts[ix[3]], ops()[ix[0]])
    };
    let mk2 = mk.clone();
    let nf = niggli_forms(ctx.pick(3, 3)).len();
    let a = Fam {
        name: "sequences",
        dims: vec![all.len(), nf, motifs().len(), 3],
        run: Box::new(move |ix, rec| {
            let (c, p, op) = mk(ix);
            bfs(&c, &lattice(&c.g, 3.0, &orientations()[3]), &p, op, depth, rec)
        }),
        desc: Box::new(move |ix| format!("{:?} then all sequences", mk2(ix))),
    };
    // construction from cartesian and fractional coordinates, sites in any cell
    let forms = niggli_forms(2);
    let mut shifts: Vec<V> = (0..125).map(|i| [i % 5 - 2, i / 5 % 5 - 2, i / 25 - 2]).collect();
    shifts.extend([[60, -35, 7], [-90, 0, 300], [0, 1000, -65], [5000, -5000, 1]]);
    let s2 = shifts.clone();
    let b = Fam {
        name: "construction",
        dims: vec![shifts.len(), forms.len(), 10],
        run: Box::new(move |ix, rec| {
            let c = crystal(&forms[ix[1]], 12, &motifs()[ix[2]]);
            let l0 = lattice(&c.g, 3.0, &orientations()[4]);
            let fr: Vec<Vector3<f64>> = c.atoms.iter().enumerate().map(|(k, a)| v3(&a.0, 12) + v3(&shifts[ix[0]], 1) * if k % 2 == 0 { 1.0 } else { -1.0 }).collect();
            let names: Vec<String> = c.atoms.iter().map(|a| NAMES[a.1 as usize].to_string()).collect();
            let ca: Vec<Vector3<f64>> = fr.iter().map(|f| l0 * f).collect();
            rec.steps(2);
            let x = call(|| Structure::new(l0, names.clone(), fr.clone(), false))?;
            let y = call(|| Structure::new(l0, names.clone(), ca.clone(), true))?;
            for (k, s) in [&x, &y].into_iter().enumerate() {
                if s.num_sites() != fr.len() || s.species != names {
                    return Err("species changed".into());
                }
                for i in 0..fr.len() {
                    if !((s.frac_coords[i] - fr[i]).norm() < 1e-9) || !((s.coords[i] - ca[i]).norm() < 1e-8) {
                        return Err(format!("site {} differs when given in {} coordinates", i, ["fractional", "cartesian"][k]));
                    }
                }
                let mut t = s.clone();
                rec.step();
                call(|| t.normalize_coords(&DTOL))?;
                let v = see(&t, &c, &l0, 1e-6)?;
                same_crystal(&v, &c)?;
                tidy(&t, DTOL)?;
                rec.state(&(v.m, v.sites));
                let mut u = t.clone();
                rec.step();
                call(|| u.normalize_coords(&DTOL))?;
                if u.species != t.species || u.frac_coords.iter().zip(&t.frac_coords).any(|(p, q)| !((p - q).norm() < 1e-12)) {
                    return Err("tidying twice changes the structure".into());
                }
            }
            Ok(())
        }),
        desc: Box::new(move |ix| format!("shift {:?} form {} motif {}", s2[ix[0]], ix[1], ix[2])),
    };
    Space {
        fams: vec![a, b],
        bounds: "all sequences up to length 3 (4) over 14 operations (7 basis changes and supercells, tidying, primitive, Niggli, Delaunay in both modes, standard conventional and primitive), cells up to 12 times the start, from lattices C<=3 x 10 motifs x 3 bases; all shifts of sites by up to 2 cells and some by up to 5000".into(),
        assumptions: vec!["distance tolerance 0.05".into()],
        post: None,
    }
}

fn digits(mut n: usize, k: i64) -> M {
    let w = (2 * k + 1) as usize;
    let mut m = [[0; 3]; 3];
    for i in 0..9 {
        // 0, 1, -1, 2, -2 ...: simplest first
        let d = (n % w) as i64;
        m[i / 3][i % 3] = if d % 2 == 1 { (d + 1) / 2 } else { -d / 2 };
        n /= w;
    }
    m
}

fn check_geometry(m: &M, scale: f64, q: &Matrix3<f64>, rec: &mut Rec) -> Result<(), String> {
    let d = det(m);
    let l = q * fm(m) * scale;
    let g = gram(&ID, m);
    let pts: Vec<Vector3<f64>> = [[0, 0, 0], [3, 8, 15], [-5, 12, 6], [12, 12, 12], [1, -25, 7]].iter().map(|v| v3(v, 12)).collect();
    let names = vec!["Na".to_string(); pts.len()];
    rec.state(&(m, scale.to_bits()));
    rec.steps(12);
    let s = Structure::new(l, names, pts.clone(), false);
    let len = [0, 1, 2].map(|i| (g[i][i] as f64).sqrt());
    let near = |what: &str, got: f64, want: f64, tol: f64| -> Result<(), String> {
        if (got - want).abs() <= tol {
            Ok(())
        } else {
            Err(format!("{} = {} but the lattice has {}", what, got, want))
        }
    };
    near("a", s.a(), len[0] * scale, 1e-9 * scale)?;
    near("b", s.b(), len[1] * scale, 1e-9 * scale)?;
    near("c", s.c(), len[2] * scale, 1e-9 * scale)?;
    let ang = |i: usize, j: usize| (g[i][j] as f64 / (len[i] * len[j])).acos().to_degrees();
    near("alpha", s.alpha(), ang(1, 2), 1e-6)?;
    near("beta", s.beta(), ang(0, 2), 1e-6)?;
    near("gamma", s.gamma(), ang(0, 1), 1e-6)?;
    near("volume", s.volume(), d.abs() as f64 * scale.powi(3), 1e-9 * scale.powi(3) * 100.0f64.max(d.abs() as f64 * 1e-3))?;
    let mt = s.metric_tensor();
    let rl = s.reciprocal_lattice();
    let prod = l.transpose() * rl;
    for i in 0..3 {
        for j in 0..3 {
            near("metric tensor entry", mt[(i, j)], g[i][j] as f64 * scale * scale, 1e-8 * scale * scale * 1f64.max(g[i][j].abs() as f64 * 1e-3))?;
            near("a_i . b_j", prod[(i, j)], if i == j { 2.0 * std::f64::consts::PI } else { 0.0 }, 1e-8)?;
        }
    }
    let dm = s.delaunay_matrix();
    for i in 0..3 {
        for j in 0..3 {
            near("Delaunay vector", dm[(i, j)], l[(i, j)], 1e-12 * scale)?;
        }
        near("fourth Delaunay vector", dm[(i, 3)], -(l[(i, 0)] + l[(i, 1)] + l[(i, 2)]), 1e-9 * scale)?;
    }
    // coordinates there and back
    let cart = Structure::get_cart_coords(&l, &pts);
    let back = Structure::get_frac_coords(&l, &cart);
    for (i, p) in pts.iter().enumerate() {
        near("cartesian conversion error", (cart[i] - l * p).norm(), 0.0, 1e-9 * scale)?;
        near("stored cartesian error", (s.coords[i] - l * p).norm(), 0.0, 1e-9 * scale)?;
        near("round trip error", (back[i] - p).norm(), 0.0, 1e-8)?;
    }
    Ok(())
}

pub fn c06(ctx: &Ctx) -> Space<'static> {
    let k = 1;
    let n = ((2 * k + 1) as usize).pow(9);
    let scales = [1.0, 3.7, 0.2, 40.0, 0.002, 5000.0];
    let qs = orientations();
    let q2 = qs.clone();
    let mut fams = vec![];
    fams.push(Fam {
        name: "lattice",
        dims: vec![n, 6, 7],
        run: Box::new(move |ix, rec| {
            let m = digits(ix[0], k);
            if det(&m) == 0 {
                return Ok(());
            }
            check_geometry(&m, scales[ix[1]], &qs[[0, 5, 4, 1, 2, 3, 6][ix[2]]], rec)
        }),
        desc: Box::new(move |ix| format!("lattice columns of {:?} x {}", digits(ix[0], k), scales[ix[1]])),
    });
    let n = 5usize.pow(9);
    let k = 2;
    fams.push(Fam {
        name: "wide",
        dims: vec![n, ctx.pick(1, 4)],
        run: Box::new(move |ix, rec| {
            let m = digits(ix[0], k);
            if det(&m) == 0 {
                return Ok(());
            }
            check_geometry(&m, [3.7, 0.2, 40.0, 1.0][ix[1]], &q2[[4, 1, 5, 0][ix[1]]], rec)
        }),
        desc: Box::new(move |ix| format!("lattice columns of {:?} x 3.7", digits(ix[0], k))),
    });
    let ms: Vec<M> = matrices(1, |d| d != 0);
    let small: Vec<M> = ms.iter().take(ctx.pick(1000, 4000)).cloned().collect();
    let n = small.len();
    let s2 = small.clone();
    // almost, but not quite, an integer transformation
    let s3 = small.clone();
    let s4 = small.clone();
    fams.push(Fam {
        name: "almost",
        dims: vec![ctx.pick(200, 1000), ctx.pick(200, 1000), 4],
        run: Box::new(move |ix, rec| {
            let (a, b) = (&s3[ix[0]], &s3[ix[1]]);
            let w = [2e-7, 1e-4, 4e-3, 0.03][ix[2]];
            let mk = |l: Matrix3<f64>| Structure::new(l, vec!["Na".into()], vec![Vector3::zeros()], false);
            let k = |m: &M| fm(m) * 3.3;
            // the second lattice strained along each axis by a different amount
            let strain = Matrix3::new(1.0 + w, 0.5 * w, 0.0, 0.0, 1.0 - w, 0.25 * w, -w, 0.0, 1.0 + 2.0 * w);
            let (x, y) = (mk(k(a)), mk(strain * k(b)));
            rec.state(&(a, b, ix[2]));
            rec.step();
            let t = call(|| x.get_transformation_matrix(&y))?;
            let e = (t - fm(&adj(a)) / det(a) as f64 * strain * fm(b)).amax();
            if !(e < 1e-9) {
                return Err(format!("transformation matrix is off by {}", e));
            }
            Ok(())
        }),
        desc: Box::new(move |ix| format!("{:?} -> {:?} strain {}", s4[ix[0]], s4[ix[1]], ix[2])),
    });
    fams.push(Fam {
        name: "pairs",
        dims: vec![n, n],
        run: Box::new(move |ix, rec| {
            let (a, b) = (&small[ix[0]], &small[ix[1]]);
            let mk = |m: &M| Structure::new(fm(m) * 3.3, vec!["Na".into()], vec![Vector3::zeros()], false);
            let (x, y) = (mk(a), mk(b));
            rec.state(&(a, b));
            rec.step();
            let t = call(|| x.get_transformation_matrix(&y))?;
            let d = det(a) as f64;
            let e = (t - fm(&mul(&adj(a), b)) / d).amax();
            if !(e < 1e-9) {
                return Err(format!("transformation matrix is off by {}", e));
            }
            rec.step();
            let mut z = x.clone();
            call(|| z.apply_transformation(&fm(&ID), &0.01))?;
            Ok(())
        }),
        desc: Box::new(move |ix| format!("{:?} -> {:?}", s2[ix[0]], s2[ix[1]])),
    });
    let long: Vec<M> = ms.iter().take(ctx.pick(1500, 12000)).cloned().collect();
    let l2 = long.clone();
    let stretched = |m: &M, ix: &[usize]| m.map(|r| [0, 1, 2].map(|j| r[j] * [1, 20, 300][ix[j + 1]]));
    let q3 = orientations();
    fams.push(Fam {
        name: "elongated",
        dims: vec![long.len(), 3, 3, 3],
        run: Box::new(move |ix, rec| check_geometry(&stretched(&long[ix[0]], ix), 0.5, &q3[3], rec)),
        desc: Box::new(move |ix| format!("lattice columns of {:?} x 0.5", stretched(&l2[ix[0]], ix))),
    });
    // angles close to 0 and 180 degrees
    let few: Vec<M> = ms.iter().take(ctx.pick(1500, 12000)).cloned().collect();
    let l2 = few.clone();
    let sheared = |m: &M, ix: &[usize]| {
        let (i, j) = [(0, 1), (1, 2), (2, 0), (1, 0), (2, 1), (0, 2)][ix[1]];
        m.map(|r| {
            let mut r = r;
            r[j] += [6, -6, 25, -25, 90, -90][ix[2]] * r[i];
            r
        })
    };
    let q5 = orientations();
    fams.push(Fam {
        name: "sheared",
        dims: vec![few.len(), 6, 6],
        run: Box::new(move |ix, rec| check_geometry(&sheared(&few[ix[0]], ix), 2.5, &q5[5], rec)),
        desc: Box::new(move |ix| format!("lattice columns of {:?} x 2.5", sheared(&l2[ix[0]], ix))),
    });
    // no inverse, also when only rounding errors make the determinant differ from zero
    let flat: Vec<M> = matrices(1, |d| d == 0);
    let f2 = flat.clone();
    let q4 = orientations();
    fams.push(Fam {
        name: "flat",
        dims: vec![flat.len(), 7, 3],
        run: Box::new(move |ix, rec| {
            let l = q4[ix[1]] * fm(&flat[ix[0]]) * [4.0, 0.3, 60.0][ix[2]];
            let other = Structure::new(Matrix3::identity() * 3.0, vec!["Na".into()], vec![Vector3::zeros()], false);
            let s = Structure::new(l, vec!["Na".into()], vec![Vector3::new(0.1, 0.2, 0.3)], false);
            rec.state(&ix);
            rec.steps(3);
            if let Ok(x) = call(|| s.reciprocal_lattice()) {
                return Err(format!("reciprocal lattice {:?} of a flat lattice", x.as_slice()));
            }
            if let Ok(x) = call(|| Structure::get_frac_coords(&l, &[Vector3::new(1.0, 2.0, 3.0)])) {
                return Err(format!("fractional coordinates {:?} in a flat lattice", x[0].as_slice()));
            }
            if let Ok(x) = call(|| s.get_transformation_matrix(&other)) {
                return Err(format!("transformation {:?} from a flat lattice", x.as_slice()));
            }
            Ok(())
        }),
        desc: Box::new(move |ix| format!("flat lattice {:?} in orientation {}", f2[ix[0]], ix[1])),
    });
    Space {
        fams,
        bounds: "all lattice matrices with entries in {-1,0,1} x 6 scales from 0.002 to 5000 x 7 orientations; all with entries in {-2..2} (x 4 scales and orientations); all pairs of the 1000 (4000) simplest {-1,0,1} lattices; all pairs of the 200 (1000) simplest with the second strained by 4 amounts from 2e-7 to 0.03; 1500 (12000) of them with columns stretched 1, 20 or 300 times or sheared up to 90 times; all flat {-1,0,1} lattices in 7 orientations x 3 scales".into(),
        assumptions: vec![],
        post: None,
    }
}

const SP: [&str; 4] = ["C", "Cl", "Ca", "B"];

fn gcd(a: usize, b: usize) -> usize {
    if b == 0 {
        a
    } else {
        gcd(b, a % b)
    }
}

fn check_formula(seq: &[usize], rec: &mut Rec) -> Result<(), String> {
    rec.state(&seq);
    check_names(seq.iter().map(|i| SP[*i].to_string()).collect(), rec)
}

fn check_names(names: Vec<String>, rec: &mut Rec) -> Result<(), String> {
    let n = names.len();
    let s = Structure::new(Matrix3::identity() * 5.0, names.clone(), vec![Vector3::zeros(); n], false);
    let mut count: BTreeMap<&str, usize> = BTreeMap::new();
    let mut first: BTreeMap<&str, usize> = BTreeMap::new();
    for (i, x) in names.iter().enumerate() {
        *count.entry(x).or_insert(0) += 1;
        first.entry(x).or_insert(i);
    }
    let g = count.values().fold(0, |a, b| gcd(a, *b));
    let show = |d: usize| {
        let mut o = String::new();
        for (k, v) in &count {
            o.push_str(k);
            if v / d != 1 {
                o.push_str(&(v / d).to_string());
            }
        }
        o
    };
    rec.steps(2);
    let (f, r) = call(|| s.formulas()).map_err(|m| format!("formula stopped: {}", m))?;
    if f != show(1) {
        return Err(format!("formula {} instead of {}", f, show(1)));
    }
    if r != show(g) {
        return Err(format!("reduced formula {} instead of {}", r, show(g)));
    }
    let (m, inds, counts) = match call(|| s.get_min_element()) {
        Ok(x) => x,
        Err(_) if n > 65535 => {
            rec.label("too many sites, refused");
            return Ok(());
        }
        Err(m) => return Err(format!("rarest element stopped: {}", m)),
    };
    let want = count.iter().min_by_key(|(k, v)| (**v, k.to_string())).unwrap().0;
    if m != *want {
        return Err(format!("rarest element {} instead of {}", m, want));
    }
    if counts.len() != count.len() || inds.len() != count.len() {
        return Err("wrong number of species".into());
    }
    for (k, v) in &count {
        if counts.get(*k).map(|x| *x as usize) != Some(*v) {
            return Err(format!("count of {} is not {}", k, v));
        }
        if inds.get(*k).map(|x| *x as usize) != Some(first[k]) {
            return Err(format!("first position of {} is not {}", k, first[k]));
        }
    }
    Ok(())
}

pub fn c07(ctx: &Ctx) -> Space<'static> {
    let mut fams = vec![];
    for (name, len) in [("len1", 1usize), ("len2", 2), ("len3", 3), ("len4", 4), ("len5", 5), ("len6", 6), ("len7", 7), ("len8", 8), ("len9", 9), ("len10", 10), ("len11", 11)] {
        if len <= ctx.pick(9, 11) {
            fams.push(Fam {
                name,
                dims: vec![4; len],
                run: Box::new(|ix, rec| check_formula(ix, rec)),
                desc: Box::new(|ix| format!("species {:?}", ix.iter().map(|i| SP[*i]).collect::<Vec<_>>())),
            });
        }
    }
    let k = ctx.pick(30, 60);
    let build = |c: &[usize], how: usize| -> Vec<usize> {
        let mut v: Vec<usize> = vec![];
        for (s, n) in c.iter().enumerate() {
            v.extend(vec![s; *n]);
        }
        match how {
            0 => {}
            1 => v.reverse(),
            _ => {
                // interleaved
                let mut out = vec![];
                let mx = *c.iter().max().unwrap();
                for i in 0..mx {
                    for (s, n) in c.iter().enumerate() {
                        if i < *n {
                            out.push(s);
                        }
                    }
                }
                v = out;
            }
        }
        v
    };
    fams.push(Fam {
        name: "counts",
        dims: vec![k, k, k, 3],
        run: Box::new(move |ix, rec| {
            let seq = build(&ix[..3], ix[3]);
            if seq.is_empty() {
                return Ok(());
            }
            check_formula(&seq, rec)
        }),
        desc: Box::new(|ix| format!("counts {:?}", ix)),
    });
    let big = [0usize, 1, 2, 3, 64, 100, 126, 127, 128, 129, 200, 254, 255, 256, 257, 300, 384, 1000, 1024, 4096, 10000, 32767, 32768];
    let nb = ctx.pick(20, big.len());
    fams.push(Fam {
        name: "large",
        dims: vec![nb, nb, 3],
        run: Box::new(move |ix, rec| {
            let c = [big[ix[0]], big[ix[1]]];
            if c[0] + c[1] == 0 || c[0] + c[1] > 65535 {
                return Ok(());
            }
            check_formula(&build(&c, ix[2]), rec)
        }),
        desc: Box::new(move |ix| format!("counts {} {} arrangement {}", big[ix[0]], big[ix[1]], ix[2])),
    });
    let huge = [0usize, 1, 2, 30000, 32768, 65534, 65535, 65536, 65537, 70000, 131072];
    fams.push(Fam {
        name: "huge",
        dims: vec![huge.len(), huge.len(), 3, ctx.pick(2, 3)],
        run: Box::new(move |ix, rec| {
            let c = [huge[ix[0]], huge[ix[1]], ix[2]];
            if c[0] + c[1] < 60000 {
                return Ok(());
            }
            rec.state(&ix);
            check_names(build(&c, ix[3]).iter().map(|i| SP[*i].to_string()).collect(), rec)
        }),
        desc: Box::new(move |ix| format!("counts {} {} {} arrangement {}", huge[ix[0]], huge[ix[1]], ix[2], ix[3])),
    });
    // names that begin alike, differ in length only, or are no element symbols
    let odd = ["C", "Co", "Cobalt", "Fe", "Fe2+", "Fe3+", "H", "H1", "H10", "H2", "He", "X", "Xx", "", " "];
    fams.push(Fam {
        name: "names",
        dims: vec![odd.len(), odd.len(), odd.len(), 3, 3, 3],
        run: Box::new(move |ix, rec| {
            if ix[0] == ix[1] || ix[1] == ix[2] || ix[0] == ix[2] {
                return Ok(());
            }
            let mut v = vec![];
            for i in 0..3 {
                v.extend(vec![odd[ix[i]].to_string(); [1, 2, 6][ix[3 + i]]]);
            }
            rec.state(&ix);
            check_names(v, rec)
        }),
        desc: Box::new(move |ix| format!("{:?}", [0, 1, 2].map(|i| (odd[ix[i]], [1, 2, 6][ix[3 + i]])))),
    });
    fams.push(Fam {
        name: "many-species",
        dims: vec![ctx.pick(60, 120), 4, 4],
        run: Box::new(move |ix, rec| {
            let n = ix[0] + 1;
            let mut v = vec![];
            for i in 0..n {
                // 7 has no common factor with most of the counts, so that the names come in a mixed order
                let k = i * 7 % n;
                v.extend(vec![format!("{}{}", ["A", "Bb", "C"][k % 3], (b'a' + (k / 3 % 26) as u8) as char); [1, 1 + i % 4, 6, 2 * (n - i)][ix[1]]]);
            }
            if ix[2] % 2 == 1 {
                v.reverse();
            }
            if ix[2] / 2 == 1 {
                let l = v.len();
                v.rotate_left(l / 3);
            }
            rec.state(&ix);
            check_names(v, rec)
        }),
        desc: Box::new(|ix| format!("{} species, counts {}, arrangement {}", ix[0] + 1, ix[1], ix[2])),
    });
    Space {
        fams,
        bounds: "all species sequences up to length 9 (11) over 4 names; all counts below 30 (60) for three species in 3 arrangements; pairs of counts up to 4096 (32768); all triples of 15 names x 27 counts; up to 60 (120) species x 16 arrangements; pairs of counts up to 131072 with up to 2 of a third species".into(),
        assumptions: vec!["the rarest-element query may refuse more than 65535 sites".into()],
        post: None,
    }
}
