//! C28 unit of length, C29 differences above the tolerance, C30 noise in the lattice, C31 input that is no crystal,
//! C32 shared positions, C34 changes of basis that cannot be carried out.
use crate::cat::*;
use crate::ident::{analyzer, judge, Judge, DTOL};
use crate::robust::{directions, input};
use crystsymm::pointgroup::PointGroup;
use crystsymm::reduce::Reducer;
use crystsymm::spacegroup::SpaceGroup;
use crystsymm::structure::Structure;
use mc::alpha::*;
use mc::conc::*;
use mc::engine::*;
use mc::model::*;
use nalgebra::{Matrix3, Vector3};

fn cell(s: &Structure) -> [f64; 6] {
    let g = s.lattice.transpose() * s.lattice;
    let l = [0, 1, 2].map(|i| g[(i, i)].sqrt());
    let an = |i: usize, j: usize| (g[(i, j)] / l[i] / l[j]).clamp(-1.0, 1.0).acos().to_degrees();
    [l[0], l[1], l[2], an(1, 2), an(0, 2), an(0, 1)]
}

const CELLS: [&str; 3] = ["Niggli cell", "standard conventional cell", "standard primitive cell"];

/// What the library says, without the choices that are left open between equivalent cells.
#[derive(Clone)]
pub struct Said {
    pub cells: Vec<Result<([f64; 6], usize, bool), String>>,
    pub group: Result<(u8, String, Vec<(M, [f64; 3])>), String>,
}

pub fn said(s: &Structure, dtol: f64, rec: &mut Rec) -> Said {
    rec.steps(4);
    let cells = cells_said(s, dtol);
    let group = call(|| analyzer(dtol).get_space_group_info(s)).map(|(n, t, g)| {
        let mut v: Vec<(M, [f64; 3])> = g.operations.iter().map(|o| (im(&o.rotation), [0, 1, 2].map(|k| o.translation[k]))).collect();
        v.sort_by(|a, b| a.partial_cmp(b).unwrap());
        (n, t, v)
    });
    Said { cells, group }
}

/// The reduced and the two standard cells.
pub fn cells_said(s: &Structure, dtol: f64) -> Vec<Result<([f64; 6], usize, bool), String>> {
    let r = Reducer { dtol, atol: 5.0 };
    let brief = |x: Result<Structure, String>| x.map(|x| (cell(&x), x.num_sites(), x.lattice.determinant() > 0.0));
    vec![
        brief(call(|| r.niggli_reduce(&r.find_primitive_cell(s), &1e-5))),
        brief(call(|| analyzer(dtol).get_standard_conventional_structure(s))),
        brief(call(|| analyzer(dtol).get_standard_primitive_structure(s))),
    ]
}

/// Equal up to a factor of length and `slack`; translations of operations modulo lattice vectors.
pub fn agree(a: &Said, b: &Said, factor: f64, slack: f64) -> Result<(), String> {
    for (i, (x, y)) in a.cells.iter().zip(&b.cells).enumerate() {
        match (x, y) {
            (Ok(x), Ok(y)) => {
                let far = (0..6).any(|k| !((x.0[k] * if k < 3 { factor } else { 1.0 } - y.0[k]).abs() <= slack * if k < 3 { x.0[k] * factor } else { 90.0 }));
                if far || x.1 != y.1 || x.2 != y.2 {
                    return Err(format!("{} {:?} instead of {:?} x {}", CELLS[i], y, x, factor));
                }
            }
            (Err(_), Err(_)) => {}
            _ => return Err(format!("{}: {:?} instead of {:?}", CELLS[i], y, x)),
        }
    }
    match (&a.group, &b.group) {
        (Err(_), Err(_)) => Ok(()),
        (Ok(x), Ok(y)) => {
            if x.0 != y.0 || x.1 != y.1 {
                return Err(format!("space group {} {} instead of {} {}", y.0, y.1, x.0, x.1));
            }
            let near = |p: &(M, [f64; 3]), q: &(M, [f64; 3])| p.0 == q.0 && (0..3).all(|k| ((p.1[k] - q.1[k]) - (p.1[k] - q.1[k]).round()).abs() < slack.max(1e-6) * 10.0);
            if x.2.len() != y.2.len() || !x.2.iter().all(|p| y.2.iter().any(|q| near(p, q))) {
                return Err(format!("{} operations differ from {}", y.2.len(), x.2.len()));
            }
            Ok(())
        }
        (x, y) => Err(format!("space group {:?} instead of {:?}", y.as_ref().map(|g| g.0), x.as_ref().map(|g| g.0))),
    }
}

pub fn note(a: &Said, rec: &mut Rec) {
    rec.label(if a.group.is_ok() { "identified" } else { "refused" });
}

pub fn c28(ctx: &Ctx) -> Space<'static> {
    // nanometre, bohr, its inverse, picometre and further
    let factors: &'static [f64] = ctx.pick(&[0.02, 1.8897261246, 100.0], &[0.02, 0.1, 1.8897261246, 100.0, 0.529177210903, 10.0, 1000.0, 0.3, 7.0]);
    let cap = ctx.pick(16, 48);
    let nb = ctx.pick(8, 32);
    let nk = ctx.pick(6, 18);
    let types = Fam {
        name: "types",
        dims: vec![nb, nk, 230],
        run: Box::new(move |ix, rec| {
            let n = ix[2] + 1;
            if ix[1] >= metrics(n).len() {
                return Ok(());
            }
            let Some((k, p)) = input(n, ix[1], ix[0], cap) else { return Ok(()) };
            let l0 = lattice(&k.c.g, k.unit, &orientations()[3]);
            let one = said(&realize(&k.c, &l0, &p), DTOL, rec);
            rec.state(&ix);
            note(&one, rec);
            for (i, f) in factors.iter().enumerate() {
                rec.state(&(ix, i));
                agree(&one, &said(&realize(&k.c, &(l0 * *f), &p), DTOL * f, rec), *f, 1e-6).map_err(|m| format!("unit of length changed by {}: {}", f, m))?;
            }
            Ok(())
        }),
        desc: Box::new(move |ix| format!("type {} metric {} basis {} in {} units of length", ix[2] + 1, ix[1], ix[0], factors.len())),
    };
    let forms: &'static Vec<M> = Box::leak(Box::new(niggli_forms(ctx.pick(7, 8))));
    let hs: &'static Vec<M> = Box::leak(Box::new(vec![ID, hnfs(2)[2], hnfs(3)[4], few_bases()[6]]));
    let lats = Fam {
        name: "lattices",
        dims: vec![forms.len(), ctx.pick(6, 10), 4],
        run: Box::new(move |ix, rec| {
            let c = crystal(&forms[ix[0]], 12, &motifs()[[1, 4, 6, 0, 2, 3, 5, 7, 8, 9][ix[1]]]);
            let l0 = lattice(&c.g, 4.0, &orientations()[5]);
            let one = said(&realize(&c, &l0, &hs[ix[2]]), DTOL, rec);
            rec.state(&ix);
            note(&one, rec);
            for (i, f) in factors.iter().enumerate() {
                rec.state(&(ix, i));
                agree(&one, &said(&realize(&c, &(l0 * *f), &hs[ix[2]]), DTOL * f, rec), *f, 1e-6).map_err(|m| format!("unit of length changed by {}: {}", f, m))?;
            }
            Ok(())
        }),
        desc: Box::new(move |ix| format!("form {:?} motif {} cell {:?}", forms[ix[0]], ix[1], hs[ix[2]])),
    };
    // sites off their ideal places and lattices with rounding in the ninth digit
    let untidy = Fam {
        name: "untidy",
        dims: vec![ctx.pick(3, 8), ctx.pick(4, 12), 230],
        run: Box::new(move |ix, rec| {
            let Some((k, p)) = input(ix[2] + 1, 0, ix[0], cap) else { return Ok(()) };
            let l0 = lattice(&k.c.g, k.unit, &orientations()[3]);
            let s = realize(&k.c, &l0, &p);
            let dirs = directions();
            let size = [0.0, 0.37, 1.13, 3.1][ix[1] % 4] * DTOL;
            let lat = s.lattice.map_with_location(|i, j, x| x * (1.0 + 1e-9 * ((5 * i + 3 * j + ix[1]) % 3) as f64));
            let sites: Vec<Vector3<f64>> = s.frac_coords.iter().enumerate().map(|(i, f)| lat * f + dirs[(ix[1] + i * 7) % 26] * size).collect();
            let at = |f: f64| Structure::new(lat * f, s.species.clone(), sites.iter().map(|x| x * f).collect(), true);
            let one = said(&at(1.0), DTOL, rec);
            rec.state(&ix);
            note(&one, rec);
            for (i, f) in factors.iter().enumerate() {
                rec.state(&(ix, i));
                agree(&one, &said(&at(*f), DTOL * f, rec), *f, 1e-5).map_err(|m| format!("unit of length changed by {}: {}", f, m))?;
            }
            Ok(())
        }),
        desc: Box::new(move |ix| format!("type {} basis {} pattern {} in {} units of length", ix[2] + 1, ix[0], ix[1], factors.len())),
    };
    Space {
        fams: vec![lats, types, untidy],
        bounds: "3 (9) factors from 0.02 to 100 (1000): all integer Niggli forms C<=7 (8) x 6 (10) motifs x 4 cells; 230 types x 6 (18) metrics x 8 (32) bases; 230 types x 3 (8) bases x 4 (12) patterns of displaced sites and rounded lattices".into(),
        assumptions: vec!["tolerance changed with the unit; cells longer than 0.05".into()],
        post: None,
    }
}

/// Shortest non-zero vector of the lattice, squared.
fn shortest(g: &M) -> i64 {
    let mut best = i64::MAX;
    for i in -6..=6i64 {
        for j in -6..=6i64 {
            for k in -6..=6i64 {
                let v = [i, j, k];
                let w = mulv(g, &v);
                let n = v[0] * w[0] + v[1] * w[1] + v[2] * w[2];
                if n > 0 {
                    best = best.min(n);
                }
            }
        }
    }
    best
}

/// With a tolerance of a quarter of the grid spacing every difference on the grid counts.
fn sharp(c: &Crystal, qi: usize, rec: &mut Rec) -> Result<(), String> {
    let scale = 5.0 / (shortest(&c.g) as f64).sqrt();
    let dtol = 5.0 / c.den as f64 / 4.0;
    let l0 = lattice(&c.g, scale, &orientations()[qi]);
    let s = realize(c, &l0, &ID);
    rec.step();
    let r = Reducer { dtol, atol: 5.0 };
    let prim = call(|| r.find_primitive_cell(&s)).map_err(|m| format!("primitive search stopped: {}", m))?;
    let seen = see(&prim, c, &l0, 1e-6)?;
    same_crystal(&seen, c)?;
    if !primitive_volume(&seen, c) {
        return Err("cell volume is not the primitive volume".into());
    }
    judge(Judge::Sound, c, None, None, &l0, &ID, dtol, rec)?;
    judge(Judge::Ops, c, None, None, &l0, &ID, dtol, rec)
}

pub fn c29(ctx: &Ctx) -> Space<'static> {
    let forms: &'static Vec<M> = Box::leak(Box::new(niggli_forms(ctx.pick(2, 4))));
    let mut hs = vec![];
    for n in 1..=ctx.pick(3, 4) {
        hs.extend(hnfs(n));
    }
    let hs: &'static Vec<M> = Box::leak(Box::new(hs));
    let motif: [&[(V, u8)]; 4] = [&[([0, 0, 0], 0)], &[([0, 0, 0], 0), ([1, 1, 1], 0)], &[([0, 0, 0], 0), ([1, 1, 0], 1)], &[([0, 0, 0], 0), ([1, 0, 0], 1), ([0, 1, 1], 1)]];
    let mut dirs: Vec<V> = (0..27).map(|i| [i % 3 - 1, i / 3 % 3 - 1, i / 9 - 1]).collect();
    dirs.sort_by_key(|v| (v.iter().map(|x| x.abs()).sum::<i64>(), *v));
    let dirs: &'static Vec<V> = Box::leak(Box::new(dirs));
    let fine: &'static [i64] = ctx.pick(&[12], &[12, 8, 24]);
    let mk = move |ix: &[usize]| {
        // a supercell on a finer grid, one site moved by one step (or none)
        let mut c = crystal(&forms[ix[1]], 2, motif[ix[2]]).in_basis(&hs[ix[0]]);
        let m = fine[ix[4]];
        c.den *= m;
        for a in c.atoms.iter_mut() {
            a.0 = a.0.map(|x| x * m);
        }
        let last = c.atoms.len() - 1;
        for k in 0..3 {
            c.atoms[last].0[k] += dirs[ix[3]][k];
        }
        c
    };
    let one = Fam {
        name: "one-site",
        dims: vec![hs.len(), forms.len(), 4, 27, fine.len()],
        run: Box::new(move |ix, rec| sharp(&mk(ix), 4, rec)),
        desc: Box::new(move |ix| format!("{:?}", mk(ix))),
    };
    // like sites a step apart
    let pair = move |ix: &[usize]| {
        let d = dirs[ix[2] + 1];
        let mut atoms = vec![([0, 0, 0], 0), (d.map(|x| x.rem_euclid(24)), 0)];
        if ix[3] > 0 {
            atoms.push(([12, 0, 12], 1));
        }
        crystal(&forms[ix[1]], 24, &atoms).in_basis(&hs[ix[0]])
    };
    let near = Fam {
        name: "near",
        dims: vec![hs.len(), forms.len(), 26, 2],
        run: Box::new(move |ix, rec| sharp(&pair(ix), 2, rec)),
        desc: Box::new(move |ix| format!("{:?}", pair(ix))),
    };
    let cap = ctx.pick(8, 24);
    let types = Fam {
        name: "types",
        dims: vec![ctx.pick(2, 4), 230],
        run: Box::new(move |ix, rec| {
            let n = ix[1] + 1;
            if ix[0] >= metrics(n).len() {
                return Ok(());
            }
            let Some((k, _)) = input(n, ix[0], 0, cap) else { return Ok(()) };
            for i in 0..k.c.atoms.len() {
                for d in dirs.iter() {
                    let mut c = k.c.clone();
                    c.den *= 2;
                    for a in c.atoms.iter_mut() {
                        a.0 = a.0.map(|x| x * 2);
                    }
                    for j in 0..3 {
                        c.atoms[i].0[j] += d[j];
                    }
                    sharp(&c, 3, rec).map_err(|m| format!("site {} moved by {:?}/{}: {}", i, d, c.den, m))?;
                }
            }
            Ok(())
        }),
        desc: Box::new(move |ix| format!("type {} metric {}, each site moved in 26 directions", ix[1] + 1, ix[0])),
    };
    Space {
        fams: vec![one, near, types],
        bounds: "two like sites a step of four tolerances apart along 26 directions: all lattices C<=2 (4) x 2 decorations x supercells up to index 3 (4); one site moved by four tolerances or more along 26 directions: all lattices C<=2 (4) x 4 decorations x supercells up to index 3 (4) x 1 (3) grids; 230 types in 2 (4) metrics x every site, up to 8 (24) sites".into(),
        assumptions: vec!["any two positions that differ at all differ by at least four tolerances".into()],
        post: None,
    }
}

pub fn c30(ctx: &Ctx) -> Space<'static> {
    let sizes: &'static [f64] = ctx.pick(&[1e-8, 1e-10], &[1e-8, 1e-10, 1e-12]);
    // each matrix entry alone, both ways, and patterns that change all entries
    let noise = |k: usize, size: f64| -> Matrix3<f64> {
        if k < 18 {
            let mut m = Matrix3::zeros();
            m[k / 2] = if k % 2 == 0 { size } else { -size };
            m
        } else {
            Matrix3::from_fn(|i, j| if ((k - 17) * (7 * i + 3 * j + 5) / 2) % 2 == 0 { size } else { -size })
        }
    };
    let np = ctx.pick(26, 50);
    let forms: &'static Vec<M> = Box::leak(Box::new(niggli_forms(ctx.pick(5, 8))));
    let hs: &'static Vec<M> = Box::leak(Box::new(vec![ID, hnfs(2)[2], few_bases()[6], few_bases()[1], hnfs(3)[7]]));
    let lats = Fam {
        name: "lattices",
        dims: vec![forms.len(), ctx.pick(4, 6), ctx.pick(4, 5), sizes.len()],
        run: Box::new(move |ix, rec| {
            let c = crystal(&forms[ix[0]], 12, &motifs()[[1, 4, 2, 0, 6, 9][ix[1]]]);
            let s = realize(&c, &lattice(&c.g, 4.0, &orientations()[5]), &hs[ix[2]]);
            let one = said(&s, DTOL, rec);
            note(&one, rec);
            for k in 0..np {
                rec.state(&(ix, k));
                let t = Structure::new(s.lattice + noise(k, sizes[ix[3]]), s.species.clone(), s.frac_coords.clone(), false);
                agree(&one, &said(&t, DTOL, rec), 1.0, 1e-5).map_err(|m| format!("noise pattern {}: {}", k, m))?;
            }
            Ok(())
        }),
        desc: Box::new(move |ix| format!("form {:?} motif {} cell {:?} noise {}", forms[ix[0]], ix[1], hs[ix[2]], sizes[ix[3]])),
    };
    let cap = ctx.pick(12, 32);
    let types = Fam {
        name: "types",
        dims: vec![ctx.pick(4, 8), ctx.pick(3, 6), sizes.len(), 230],
        run: Box::new(move |ix, rec| {
            let n = ix[3] + 1;
            if ix[1] >= metrics(n).len() {
                return Ok(());
            }
            let Some((k, p)) = input(n, ix[1], ix[0], cap) else { return Ok(()) };
            let s = realize(&k.c, &lattice(&k.c.g, k.unit, &orientations()[3]), &p);
            let one = said(&s, DTOL, rec);
            note(&one, rec);
            for q in 0..np {
                rec.state(&(ix, q));
                let t = Structure::new(s.lattice + noise(q, sizes[ix[2]]), s.species.clone(), s.frac_coords.clone(), false);
                agree(&one, &said(&t, DTOL, rec), 1.0, 1e-5).map_err(|m| format!("noise pattern {}: {}", q, m))?;
            }
            Ok(())
        }),
        desc: Box::new(move |ix| format!("type {} metric {} basis {} noise {}", ix[3] + 1, ix[1], ix[0], sizes[ix[2]])),
    };
    Space {
        fams: vec![lats, types],
        bounds: "26 (50) patterns of changes of the nine matrix entries by 1e-8 and 1e-10 (1e-8, 1e-10, 1e-12): all integer Niggli forms C<=5 (8) x 4 (6) motifs x 4 (5) cells; 230 types x 3 (6) metrics x 4 (8) bases".into(),
        assumptions: vec!["cells of 3 to 30 length units".into()],
        post: None,
    }
}

/// Every analysis of something that is no crystal has to end with an error.
fn refused(lat: &Matrix3<f64>, species: &[&str], coords: &[Vector3<f64>], cart: bool, dtol: f64, rec: &mut Rec) -> Result<(), String> {
    rec.step();
    let sp: Vec<String> = species.iter().map(|x| x.to_string()).collect();
    let Ok(s) = call(|| Structure::new(*lat, sp, coords.to_vec(), cart)) else {
        rec.label("refused at construction");
        return Ok(());
    };
    rec.steps(4);
    let r = Reducer { dtol, atol: 5.0 };
    if let Ok(x) = call(|| r.find_primitive_cell(&s)) {
        return Err(format!("a primitive cell with {} sites is reported", x.num_sites()));
    }
    if let Ok(x) = call(|| analyzer(dtol).get_standard_conventional_structure(&s)) {
        return Err(format!("a conventional cell with {} sites is reported", x.num_sites()));
    }
    if let Ok(x) = call(|| analyzer(dtol).get_standard_primitive_structure(&s)) {
        return Err(format!("a standard primitive cell with {} sites is reported", x.num_sites()));
    }
    if let Ok(x) = call(|| analyzer(dtol).get_space_group_info(&s)) {
        return Err(format!("space group {} is reported", x.0));
    }
    // these two look at the lattice only; they have to end
    let _ = call(|| r.niggli_reduce(&s, &1e-5));
    let _ = call(|| r.delaunay_reduce(&s, true));
    rec.label("refused by every analysis");
    Ok(())
}

pub fn c31(ctx: &Ctx) -> Space<'static> {
    const S: [&str; 5] = ["C", "Ca", "C", "O", "C"];
    let pos: Vec<Vector3<f64>> = [[0.0, 0.0, 0.0], [0.5, 0.5, 0.5], [0.25, 0.0, 0.5], [0.75, 0.25, 0.1], [0.1, 0.7, 0.3]].iter().map(|v| Vector3::from_row_slice(v)).collect();
    let pos: &'static Vec<Vector3<f64>> = Box::leak(Box::new(pos));
    let forms: &'static Vec<M> = Box::leak(Box::new(niggli_forms(2)));
    let mut fams = vec![];
    fams.push(Fam {
        name: "list-lengths",
        dims: vec![6, 6, forms.len(), 2],
        run: Box::new(move |ix, rec| {
            if ix[0] == ix[1] && ix[0] > 0 {
                return Ok(());
            }
            rec.state(&ix);
            refused(&lattice(&forms[ix[2]], 4.0, &orientations()[4]), &S[..ix[0]], &pos[..ix[1]], ix[3] == 1, DTOL, rec)
        }),
        desc: Box::new(move |ix| format!("{} species and {} coordinates on form {:?}", ix[0], ix[1], forms[ix[2]])),
    });
    // numbers that are not finite, at every place
    const BAD: [f64; 3] = [f64::NAN, f64::INFINITY, f64::NEG_INFINITY];
    fams.push(Fam {
        name: "not-finite",
        dims: vec![18, 3, forms.len(), 2],
        run: Box::new(move |ix, rec| {
            let mut l = lattice(&forms[ix[2]], 4.0, &orientations()[4]);
            let mut p = pos[..3].to_vec();
            if ix[0] < 9 {
                l[ix[0]] = BAD[ix[1]];
            } else {
                p[(ix[0] - 9) / 3][ix[0] % 3] = BAD[ix[1]];
            }
            rec.state(&ix);
            refused(&l, &S[..3], &p, ix[3] == 1, DTOL, rec)
        }),
        desc: Box::new(move |ix| format!("{} at place {} on form {:?}", BAD[ix[1]], ix[0], forms[ix[2]])),
    });
    let ms: &'static Vec<M> = Box::leak(Box::new(matrices(1, |d| d == 0)));
    fams.push(Fam {
        name: "flat",
        dims: vec![ms.len(), 2],
        run: Box::new(move |ix, rec| {
            rec.state(&ix);
            refused(&(fm(&ms[ix[0]]) * 4.0), &S[..3], &pos[..3], ix[1] == 1, DTOL, rec)
        }),
        desc: Box::new(move |ix| format!("flat lattice {:?}", ms[ix[0]])),
    });
    // the same turned, so that they are flat up to rounding only
    fams.push(Fam {
        name: "nearly-flat",
        dims: vec![ms.len(), 6, 2],
        run: Box::new(move |ix, rec| {
            rec.state(&ix);
            refused(&(orientations()[ix[1] + 1] * fm(&ms[ix[0]]) * 4.0), &S[..3], &pos[..3], ix[2] == 1, DTOL, rec)
        }),
        desc: Box::new(move |ix| format!("flat lattice {:?} in orientation {}", ms[ix[0]], ix[1] + 1)),
    });
    let ms: &'static Vec<M> = Box::leak(Box::new(matrices(2, |d| d == 0)));
    fams.push(Fam {
        name: "flat2",
        dims: vec![ms.len()],
        run: Box::new(move |ix, rec| {
            rec.state(&ix);
            refused(&fm(&ms[ix[0]]), &S[..2], &pos[..2], false, DTOL, rec)
        }),
        desc: Box::new(move |ix| format!("flat lattice {:?}", ms[ix[0]])),
    });
    Space {
        fams,
        bounds: "all pairs of different list lengths up to 5 and no sites at all, on 7 lattices; NaN and both infinities at each of 9 lattice and 9 coordinate places; all singular matrices with entries in {-1,0,1} and in {-2..2}, the former also turned in 6 orientations, where they are flat up to rounding".into(),
        assumptions: vec!["lattices that are singular in exact arithmetic, as given or before turning".into()],
        post: None,
    }
}

/// Every cell that is reported holds all species of every position.
fn shared(c: &Crystal, ops: Option<&Ops>, known: Option<usize>, l0: &Matrix3<f64>, p: &M, supers: &[M], rec: &mut Rec) -> Result<(), String> {
    let s = realize(c, l0, p);
    rec.steps(3);
    let r = Reducer { dtol: DTOL, atol: 5.0 };
    let prim = call(|| r.find_primitive_cell(&s)).map_err(|m| format!("primitive search stopped: {}", m))?;
    let seen = see(&prim, c, l0, 1e-6)?;
    same_crystal(&seen, c).map_err(|m| format!("primitive cell: {}", m))?;
    if !primitive_volume(&seen, c) {
        return Err("cell volume is not the primitive volume".into());
    }
    for (name, x) in [("conventional", call(|| analyzer(DTOL).get_standard_conventional_structure(&s))), ("standard primitive", call(|| analyzer(DTOL).get_standard_primitive_structure(&s)))] {
        let x = x.map_err(|m| format!("{} cell is refused: {}", name, m))?;
        // the cells of the analyzer may be turned, so only what they hold is compared
        for sp in NAMES {
            let count = |t: &Structure| t.species.iter().filter(|y| *y == sp).count() as f64;
            if (count(&x) * s.volume() - count(&s) * x.volume()).abs() > 1e-3 * s.volume() {
                return Err(format!("{} cell: {} sites of {} in {} instead of {} in {}", name, count(&x), sp, x.volume(), count(&s), s.volume()));
            }
        }
    }
    for h in supers {
        rec.step();
        let mut t = s.clone();
        call(|| t.apply_transformation(&fm(h), &DTOL)).map_err(|m| format!("supercell {:?}: {}", h, m))?;
        same_crystal(&see(&t, c, l0, 1e-6)?, c).map_err(|m| format!("supercell {:?}: {}", h, m))?;
    }
    judge(Judge::Sound, c, ops, known, l0, p, DTOL, rec)?;
    judge(Judge::Complete, c, ops, known, l0, p, DTOL, rec)?;
    judge(Judge::Ops, c, ops, known, l0, p, DTOL, rec)
}

pub fn c32(ctx: &Ctx) -> Space<'static> {
    // each grid position holds none, one, the other or both species
    const GRIDS: [V; 6] = [[2, 2, 1], [4, 1, 1], [1, 1, 3], [1, 2, 3], [2, 2, 2], [6, 1, 1]];
    let forms: &'static Vec<M> = Box::leak(Box::new(niggli_forms(ctx.pick(2, 4))));
    let supers: &'static Vec<M> = Box::leak(Box::new(vec![hnfs(2)[1], hnfs(3)[5], [[1, 1, 0], [0, 1, 0], [0, 0, 2]]]));
    let mk = move |g: usize, f: usize, mut code: usize| {
        let n = GRIDS[g];
        let mut atoms = vec![];
        for i in 0..n[0] {
            for j in 0..n[1] {
                for k in 0..n[2] {
                    let v = [i * 12 / n[0], j * 12 / n[1], k * 12 / n[2]];
                    for sp in 0..2 {
                        if code >> sp & 1 == 1 {
                            atoms.push((v, sp as u8));
                        }
                    }
                    code >>= 2;
                }
            }
        }
        crystal(&forms[f], 12, &atoms)
    };
    let mut fams = vec![];
    for g in 0..ctx.pick(4, 6) {
        let codes = 4usize.pow((GRIDS[g][0] * GRIDS[g][1] * GRIDS[g][2]) as u32) - 1;
        let nf = if g == 3 { ctx.pick(3, forms.len()) } else if g > 3 { 5 } else { forms.len() };
        let nb = if g < 3 { ctx.pick(3, 8) } else { 1 };
        fams.push(Fam {
            name: ["grid-221", "grid-411", "grid-113", "grid-123", "grid-222", "grid-611"][g],
            dims: vec![nb, nf, codes],
            run: Box::new(move |ix, rec| {
                let c = mk(g, ix[1], ix[2] + 1);
                rec.state(&ix);
                shared(&c, None, None, &lattice(&c.g, 4.0, &orientations()[ix[0] % 7]), &few_bases()[ix[0]], supers, rec)
            }),
            desc: Box::new(move |ix| format!("{:?} basis {:?}", mk(g, ix[1], ix[2] + 1), few_bases()[ix[0]])),
        });
    }
    // crystals of all types, with further species on the positions of one or of all species
    let cap = ctx.pick(24, 96);
    fams.push(Fam {
        name: "types",
        dims: vec![3, ctx.pick(2, 12), ctx.pick(1, 4), 230],
        run: Box::new(move |ix, rec| {
            let n = ix[3] + 1;
            if ix[2] >= metrics(n).len() {
                return Ok(());
            }
            let Some((k, p)) = input(n, ix[2], ix[1], cap) else { return Ok(()) };
            let mut c = k.c.clone();
            let first = c.atoms[0].1;
            for (v, s) in k.c.atoms.iter() {
                if ix[0] > 0 || *s == first {
                    c.atoms.push((*v, 5));
                }
                if ix[0] == 2 {
                    c.atoms.push((*v, 4));
                }
            }
            if c.atoms.iter().filter(|a| a.1 >= 4).count() + k.c.atoms.len() != c.atoms.len() || k.c.atoms.iter().any(|a| a.1 >= 4) {
                return Ok(());
            }
            rec.state(&ix);
            shared(&c, Some(&k.ops), Some(n), &lattice(&k.c.g, k.unit, &orientations()[3]), &p, &supers[..1], rec)
        }),
        desc: Box::new(move |ix| format!("type {} metric {} basis {} with more species, variant {}", ix[3] + 1, ix[2], ix[1], ix[0])),
    });
    Space {
        fams,
        bounds: "all ways to put none, one, the other or both of two species on 2x2x1, 4x1x1, 1x1x3 and 1x2x3 (thorough also 2x2x2, 6x1x1) grids x all lattices C<=2 (4) x 3 (8) bases; 230 types x 1 (4) metrics x 2 (12) bases with a second or third species on one or all occupied positions; 3 supercells each".into(),
        assumptions: vec!["positions that differ are at least two tolerances apart".into()],
        post: None,
    }
}

/// T^-1 R T, if it is an integer matrix.
fn conjugate(r: &M, t: &M) -> Option<M> {
    let d = det(t);
    let x = mul(&mul(&adj(t), r), t);
    x.iter().flatten().all(|v| v % d == 0).then(|| x.map(|w| w.map(|v| v / d)))
}

fn beyond(r: &M) -> bool {
    r.iter().flatten().any(|v| !(-128..128).contains(v))
}

/// The lowest number of eight bits may be refused or not.
fn edge(r: &M) -> bool {
    r.iter().flatten().any(|v| *v == -128)
}

/// A point group in another basis: exact if it can be written there, refused otherwise.
fn exact_or_refused(n: u8, t: &M, rec: &mut Rec) -> Result<(), String> {
    let mut pg = PointGroup::from_number(&n);
    let all: Vec<M> = pg.operations.iter().chain(&pg.generators).map(im).collect();
    let want: Vec<Option<M>> = all.iter().map(|r| conjugate(r, t)).collect();
    rec.state(&(n, t));
    rec.step();
    let bad = want.iter().any(|x| x.is_none_or(|r| beyond(&r)));
    let edge = want.iter().flatten().any(edge);
    match (call(|| pg.apply_transformation(&fm(t))), bad) {
        (Err(_), true) => rec.label("refused"),
        (Err(_), false) if edge => rec.label("refused at the edge"),
        (Err(m), false) => return Err(format!("refused: {}", m)),
        (Ok(_), true) => return Err(format!("operations without a form in basis {:?} are reported", t)),
        (Ok(_), false) => {
            let mut got: Vec<M> = pg.operations.iter().chain(&pg.generators).map(im).collect();
            let mut want: Vec<M> = want.into_iter().flatten().collect();
            got.sort_unstable();
            want.sort_unstable();
            if got != want {
                return Err(format!("wrong operations in basis {:?}", t));
            }
            rec.label("exact");
        }
    }
    Ok(())
}

fn wide(n: usize, t: &M, rec: &mut Rec) -> Result<(), String> {
    let ops = reference(n);
    let mut want: Vec<M> = ops.iter().map(|(r, _)| conjugate(r, t).unwrap()).collect();
    let mut sg = SpaceGroup { operations: ops.iter().map(|(r, v)| symmop(r, v, DEN)).collect() };
    rec.state(&(n, t));
    rec.step();
    let tv = Vector3::new(0.01, 0.01, 0.01);
    match (call(|| sg.apply_transformation(&fm(t), &tv)), want.iter().any(beyond)) {
        (Err(_), true) => rec.label("refused"),
        (Err(_), false) if want.iter().any(edge) => rec.label("refused at the edge"),
        (Err(m), false) => return Err(format!("refused: {}", m)),
        (Ok(_), true) => return Err(format!("operations that do not fit eight bits are reported in basis {:?}", t)),
        (Ok(_), false) => {
            let mut got: Vec<M> = sg.operations.iter().map(|o| im(&o.rotation)).collect();
            got.sort_unstable();
            want.sort_unstable();
            if got != want {
                return Err(format!("wrong rotations in basis {:?}", t));
            }
            rec.label("exact");
        }
    }
    Ok(())
}

/// Nothing can be described in this basis.
fn no_basis(t: &Matrix3<f64>, s: &Structure, rec: &mut Rec) -> Result<(), String> {
    rec.steps(3);
    let mut x = s.clone();
    if call(|| x.apply_transformation(t, &DTOL)).is_ok() {
        return Err(format!("a crystal with {} sites is transformed to {} sites by {:?}", s.num_sites(), x.num_sites(), t));
    }
    for n in [1, 5, 21, 32] {
        if call(|| PointGroup::from_number(&n).apply_transformation(t)).is_ok() {
            return Err(format!("point group {} is transformed by {:?}", n, t));
        }
    }
    for n in [1, 14, 148, 225] {
        let mut sg = SpaceGroup { operations: reference(n).iter().map(|(r, v)| symmop(r, v, DEN)).collect() };
        if call(|| sg.apply_transformation(t, &Vector3::new(0.01, 0.01, 0.01))).is_ok() {
            return Err(format!("space group {} is transformed by {:?}", n, t));
        }
    }
    rec.label("refused");
    Ok(())
}

fn shear(i: usize, k: i64) -> M {
    let mut t = ID;
    let (a, b) = [(0, 1), (0, 2), (1, 0), (1, 2), (2, 0), (2, 1)][i];
    t[a][b] = k;
    t
}

pub fn c34(ctx: &Ctx) -> Space<'static> {
    let forms: &'static Vec<M> = Box::leak(Box::new(niggli_forms(2)));
    let put = move |f: usize, m: usize| {
        let c = crystal(&forms[f], 12, &motifs()[m]);
        realize(&c, &lattice(&c.g, 3.0, &orientations()[4]), &ID)
    };
    let mut fams = vec![];
    let ms: &'static Vec<M> = Box::leak(Box::new(matrices(1, |d| d == 0)));
    let turn = |i: usize| if i == 0 { Matrix3::identity() } else { orientations()[i] };
    fams.push(Fam {
        name: "singular",
        dims: vec![7, ms.len(), ctx.pick(2, 6)],
        run: Box::new(move |ix, rec| {
            rec.state(&ix);
            let f = ix[1] % forms.len();
            no_basis(&(turn(ix[0]) * fm(&ms[ix[1]])), &put(f, ix[2]), rec)
        }),
        desc: Box::new(move |ix| format!("singular matrix {:?} turned {}", ms[ix[1]], ix[0])),
    });
    const BAD: [f64; 3] = [f64::NAN, f64::INFINITY, f64::NEG_INFINITY];
    let us: &'static Vec<M> = Box::leak(Box::new(matrices(1, |d| d != 0)));
    let nu = ctx.pick(400, us.len());
    fams.push(Fam {
        name: "not-finite",
        dims: vec![9, 3, nu],
        run: Box::new(move |ix, rec| {
            rec.state(&ix);
            let mut t = fm(&us[ix[2]]);
            t[ix[0]] = BAD[ix[1]];
            no_basis(&t, &put(ix[2] % forms.len(), ix[2] % 6), rec)
        }),
        desc: Box::new(move |ix| format!("{:?} with {} at place {}", us[ix[2]], BAD[ix[1]], ix[0])),
    });
    fams.push(Fam {
        name: "point-groups",
        dims: vec![us.len(), 32],
        run: Box::new(move |ix, rec| exact_or_refused(ix[1] as u8 + 1, &us[ix[0]], rec)),
        desc: Box::new(move |ix| format!("point group {} basis {:?}", ix[1] + 1, us[ix[0]])),
    });
    let mut hs = vec![];
    for k in 2..=ctx.pick(9, 16) {
        hs.extend(hnfs(k));
    }
    let hs: &'static Vec<M> = Box::leak(Box::new(hs));
    fams.push(Fam {
        name: "point-group-supercells",
        dims: vec![hs.len(), 32],
        run: Box::new(move |ix, rec| exact_or_refused(ix[1] as u8 + 1, &hs[ix[0]], rec)),
        desc: Box::new(move |ix| format!("point group {} basis {:?}", ix[1] + 1, hs[ix[0]])),
    });
    fams.push(Fam {
        name: "point-group-shears",
        dims: vec![6, 401, 32],
        run: Box::new(move |ix, rec| exact_or_refused(ix[2] as u8 + 1, &shear(ix[0], ix[1] as i64 - 200), rec)),
        desc: Box::new(move |ix| format!("point group {} basis {:?}", ix[2] + 1, shear(ix[0], ix[1] as i64 - 200))),
    });
    fams.push(Fam {
        name: "space-group-shears",
        dims: vec![6, ctx.pick(141, 401), 230],
        run: Box::new(move |ix, rec| wide(ix[2] + 1, &shear(ix[0], ix[1] as i64), rec)),
        desc: Box::new(move |ix| format!("space group {} basis {:?}", ix[2] + 1, shear(ix[0], ix[1] as i64))),
    });
    // the analysis of crystals in such cells
    let ks: &'static [i64] = ctx.pick(&[12, 65, 130], &[8, 11, 12, 16, 63, 64, 65, 127, 128, 129, 200]);
    fams.push(Fam {
        name: "skewed-crystals",
        dims: vec![6, ks.len(), 230],
        run: Box::new(move |ix, rec| {
            let n = ix[2] + 1;
            let Some((k, _)) = input(n, 0, 0, 24) else { return Ok(()) };
            let l0 = lattice(&k.c.g, k.unit, &orientations()[4]);
            let p = shear(ix[0], ks[ix[1]]);
            rec.step();
            let s = realize(&k.c, &l0, &p);
            if call(|| analyzer(DTOL).get_space_group_info(&s)).is_err() {
                rec.state(&(n, p));
                rec.label("refused, skewed crystal");
                return Ok(());
            }
            judge(Judge::Ops, &k.c, Some(&k.ops), Some(n), &l0, &p, DTOL, rec)
        }),
        desc: Box::new(move |ix| format!("type {} in basis {:?}", ix[2] + 1, shear(ix[0], ks[ix[1]]))),
    });
    Space {
        fams,
        bounds: "all singular {-1,0,1} matrices as they are and in six orientations, where they are singular up to rounding; NaN and infinities at each place of 400 (all) others; 32 point groups in all {-1,0,1} bases, all supercells up to index 9 (16) and all shears up to 200; 230 space groups in all shears up to 140 (400); 230 crystals in cells sheared by 12, 65, 130 (11 values)".into(),
        assumptions: vec!["an entry of exactly -128 may be refused or not".into()],
        post: None,
    }
}

const STEPS: [&str; 7] = ["primitive cell", "Niggli cell", "Delaunay cell", "shortest Delaunay cell", "standard conventional cell", "standard primitive cell", "doubled cell"];

fn take(i: usize, s: &Structure) -> Result<Structure, String> {
    let r = Reducer { dtol: DTOL, atol: 5.0 };
    match i {
        0 => call(|| r.find_primitive_cell(s)),
        1 => call(|| r.niggli_reduce(s, &1e-5)),
        2 | 3 => call(|| r.delaunay_reduce(s, i == 3)),
        4 => call(|| analyzer(DTOL).get_standard_conventional_structure(s)),
        5 => call(|| analyzer(DTOL).get_standard_primitive_structure(s)),
        _ => {
            let mut t = s.clone();
            call(|| t.apply_transformation(&fm(&[[1, 1, 0], [0, 2, 0], [0, 1, 1]]), &DTOL)).map(|_| t)
        }
    }
}

/// The same cells; the same number and symbol, if both are identified: that depends on the setting.
/// Operations per volume are the same, unless a cell (of volume `va`) may be less symmetric than the crystal.
fn consistent(a: &Said, va: Option<f64>, b: &Said, vb: f64) -> Result<(), String> {
    let cells = |x: &Said| Said { cells: x.cells.clone(), group: Err(String::new()) };
    agree(&cells(a), &cells(b), 1.0, 1e-6)?;
    if let (Ok(x), Ok(y)) = (&a.group, &b.group) {
        if x.0 != y.0 || x.1 != y.1 {
            return Err(format!("space group {} {} instead of {} {}", y.0, y.1, x.0, x.1));
        }
        match va {
            Some(va) if (x.2.len() as f64 * vb - y.2.len() as f64 * va).abs() > 0.01 * va => {
                return Err(format!("{} operations in volume {} instead of {} in {}", y.2.len(), vb, x.2.len(), va));
            }
            _ => {}
        }
    }
    Ok(())
}

/// Every cell handed out, and the cells handed out for it, are analysed as the crystal they came from.
fn fed_back(s: &Structure, start: &[usize], depth: usize, path: &mut Vec<usize>, one: &Said, v: Option<f64>, rec: &mut Rec) -> Result<(), String> {
    if depth == 0 {
        return Ok(());
    }
    for i in 0..STEPS.len() {
        rec.step();
        path.push(i);
        let named = |path: &[usize]| path.iter().map(|k| STEPS[*k]).collect::<Vec<_>>().join(" -> ");
        match take(i, s) {
            Err(m) => {
                // a lattice without a standard setting has no standard cells; strongly skewed cells have no Delaunay cell
                if (i < 2 || i == 6) || (one.cells[1].is_ok() && (i == 4 || i == 5)) {
                    return Err(format!("{} is refused: {}", named(path), m));
                }
                rec.label("no such cell");
            }
            Ok(t) => {
                rec.state(&(&start, &path));
                rec.label(STEPS[i]);
                // the doubled cell may be less symmetric than the crystal
                let v = v.filter(|_| !path.contains(&6));
                consistent(one, v, &said(&t, DTOL, rec), t.volume()).map_err(|m| format!("{}: {}", named(path), m))?;
                fed_back(&t, start, depth - 1, path, one, v, rec)?;
            }
        }
        path.pop();
    }
    Ok(())
}

pub fn c36(ctx: &Ctx) -> Space<'static> {
    let cap = ctx.pick(12, 24);
    let depth = ctx.pick(2, 3);
    let types = Fam {
        name: "types",
        dims: vec![ctx.pick(4, 8), ctx.pick(3, 6), 230],
        run: Box::new(move |ix, rec| {
            let n = ix[2] + 1;
            if ix[1] >= metrics(n).len() {
                return Ok(());
            }
            let Some((k, p)) = input(n, ix[1], ix[0], cap) else { return Ok(()) };
            let s = realize(&k.c, &lattice(&k.c.g, k.unit, &orientations()[3]), &p);
            let one = said(&s, DTOL, rec);
            rec.state(&ix);
            note(&one, rec);
            fed_back(&s, &ix, depth, &mut vec![], &one, Some(s.volume()), rec)
        }),
        desc: Box::new(move |ix| format!("type {} metric {} basis {}", ix[2] + 1, ix[1], ix[0])),
    };
    let forms: &'static Vec<M> = Box::leak(Box::new(niggli_forms(ctx.pick(5, 6))));
    let lats = Fam {
        name: "lattices",
        dims: vec![forms.len(), ctx.pick(3, 10), 2],
        run: Box::new(move |ix, rec| {
            let c = crystal(&forms[ix[0]], 12, &motifs()[[1, 4, 6, 0, 2, 3, 5, 7, 8, 9][ix[1]]]);
            let s = realize(&c, &lattice(&c.g, 4.0, &orientations()[5]), &[ID, few_bases()[6]][ix[2]]);
            let one = said(&s, DTOL, rec);
            rec.state(&ix);
            note(&one, rec);
            fed_back(&s, &ix, depth, &mut vec![], &one, None, rec)
        }),
        desc: Box::new(move |ix| format!("form {:?} motif {} cell {}", forms[ix[0]], ix[1], ix[2])),
    };
    Space {
        fams: vec![types, lats],
        bounds: "all chains of up to 2 (3) of 7 cells handed out: 230 types x 3 (6) metrics x 4 (8) bases; all integer Niggli forms C<=5 (6) x 3 (10) motifs x 2 cells".into(),
        assumptions: vec!["whether the group is identified depends on the setting, so a refusal is compared with nothing".into()],
        post: None,
    }
}

/// Lattice vectors added to the sites.
const IMAGES: [&str; 7] = ["as they are", "next cell", "all over", "far away", "upper faces", "below the faces", "symmetric"];

fn image(i: usize, k: usize, x: f64) -> f64 {
    match i {
        0 => x,
        1 => x + 1.0,
        2 => x + [0.0, -1.0, 2.0, 1.0, -3.0][k % 5],
        3 => x + [60.0, -35.0, 700.0, -90.0][k % 4],
        4 if x.abs() < 1e-9 => 1.0,
        5 if x.abs() < 1e-9 => -1e-9,
        6 => x - x.round(),
        _ => x,
    }
}

/// The crystal moved by `shift`, rotated by `q` and with other periodic images of its sites.
fn redrawn(s: &Structure, q: &Matrix3<f64>, images: usize, cart: bool, shift: &Vector3<f64>) -> Structure {
    let lat = q * s.lattice;
    let mut k = 0;
    let mut coords: Vec<Vector3<f64>> = vec![];
    for x in &s.frac_coords {
        coords.push((x + shift).map(|x| {
            k += 1;
            image(images, k, x)
        }));
    }
    if cart {
        coords = coords.iter().map(|x| lat * x).collect();
    }
    Structure::new(lat, s.species.clone(), coords, cart)
}

/// The usual orientations and two that turn the crystal by a hair.
fn turns() -> Vec<Matrix3<f64>> {
    let mut out = orientations();
    for w in [1e-4, 3e-7] {
        out.push(nalgebra::Rotation3::from_scaled_axis(Vector3::new(0.6, -0.48, 0.64) * w).into_inner());
    }
    out
}

fn shifts() -> Vec<Vector3<f64>> {
    vec![Vector3::zeros(), Vector3::new(0.5, 0.0, 0.5), Vector3::new(0.25, 0.25, 0.25), Vector3::new(1.0 / 3.0, 2.0 / 3.0, 0.0), Vector3::new(0.137, -0.291, 0.419), Vector3::new(0.0, 0.0, 0.77)]
}

/// The same cells, number and symbol, and the operations moved along with the origin.
/// Away from the standard origin the group need not be identified.
fn moved(a: &Said, b: &Said, shift: &Vector3<f64>) -> Result<(), String> {
    if shift.norm() == 0.0 {
        return agree(a, b, 1.0, 1e-6);
    }
    let group = match (&a.group, &b.group) {
        (Ok(x), Ok(_)) => {
            let ops = x.2.iter().map(|(r, t)| {
                let d = shift - fm(r) * shift;
                (*r, [0, 1, 2].map(|i| t[i] + d[i]))
            });
            Ok((x.0, x.1.clone(), ops.collect()))
        }
        _ => Err(String::new()),
    };
    let other = if group.is_ok() { b.group.clone() } else { Err(String::new()) };
    agree(&Said { cells: a.cells.clone(), group }, &Said { cells: b.cells.clone(), group: other }, 1.0, 1e-6)
}

/// The identity, quarter turns, turns about the diagonal and generic rotations.
fn all_ways(s: &Structure, start: &[usize], ways: &[[usize; 4]], rec: &mut Rec) -> Result<(), String> {
    let one = said(s, DTOL, rec);
    rec.state(&start);
    note(&one, rec);
    for w in ways {
        let shift = shifts()[w[3]];
        let two = said(&redrawn(s, &turns()[w[0]], w[1], w[2] == 1, &shift), DTOL, rec);
        rec.state(&(start, w));
        moved(&one, &two, &shift).map_err(|m| format!("orientation {}, images {}, {}, origin moved by {:?}: {}", w[0], IMAGES[w[1]], ["fractional", "cartesian"][w[2]], shift.as_slice(), m))?;
    }
    Ok(())
}

pub fn c38(ctx: &Ctx) -> Space<'static> {
    let mut every = vec![];
    for o in 0..9 {
        for i in 0..IMAGES.len() {
            for f in 0..2 {
                for g in 0..shifts().len() {
                    every.push([o, i, f, g]);
                }
            }
        }
    }
    let every: &'static Vec<[usize; 4]> = Box::leak(Box::new(every));
    // one of the four changed, and all pairs of changes
    let pairs: &'static Vec<[usize; 4]> = Box::leak(Box::new(every.iter().copied().filter(|w| w.iter().filter(|x| **x != 0).count() <= ctx.pick(1, 2)).collect()));
    let cap = ctx.pick(16, 32);
    let types = Fam {
        name: "types",
        dims: vec![ctx.pick(2, 12), ctx.pick(2, 6), 230],
        run: Box::new(move |ix, rec| {
            let n = ix[2] + 1;
            if ix[1] >= metrics(n).len() {
                return Ok(());
            }
            let Some((k, p)) = input(n, ix[1], ix[0], cap) else { return Ok(()) };
            let s = realize(&k.c, &lattice(&k.c.g, k.unit, &orientations()[0]), &p);
            all_ways(&s, &ix, pairs, rec)
        }),
        desc: Box::new(move |ix| format!("type {} metric {} basis {} in {} ways", ix[2] + 1, ix[1], ix[0], pairs.len())),
    };
    let forms: &'static Vec<M> = Box::leak(Box::new(niggli_forms(ctx.pick(3, 5))));
    let hs: &'static Vec<M> = Box::leak(Box::new(vec![ID, hnfs(2)[2], few_bases()[6]]));
    let lats = Fam {
        name: "lattices",
        dims: vec![forms.len(), ctx.pick(2, 10), 3],
        run: Box::new(move |ix, rec| {
            let c = crystal(&forms[ix[0]], 12, &motifs()[[1, 4, 6, 0, 2, 3, 5, 7, 8, 9][ix[1]]]);
            let s = realize(&c, &lattice(&c.g, 4.0, &orientations()[0]), &hs[ix[2]]);
            all_ways(&s, &ix, every, rec)
        }),
        desc: Box::new(move |ix| format!("form {:?} motif {} cell {:?} in {} ways", forms[ix[0]], ix[1], hs[ix[2]], every.len())),
    };
    Space {
        fams: vec![types, lats],
        bounds: "9 orientations, two of them a hair away from the first, x 7 choices of periodic images x fractional or cartesian input x 6 origins, all 756 together for all integer Niggli forms C<=3 (5) x 2 (10) motifs x 3 cells; one (two) of them at a time for 230 types x 2 (6) metrics x 2 (12) bases".into(),
        assumptions: vec!["away from the standard origin the group need not be identified".into()],
        post: None,
    }
}
