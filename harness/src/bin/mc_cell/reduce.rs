//! C01 primitive cell, C02 Niggli, C03 Delaunay, C12 conventional, C13 standard primitive, C14 invariance.
use mc::alpha::*;
use mc::conc::*;
use mc::engine::*;
use mc::model::*;
use crystsymm::analyzer::SymmetryAnalyzer;
use crystsymm::reduce::Reducer;
use crystsymm::structure::Structure;

pub const DTOL: f64 = 0.05;
thread_local! {
    static TOL: std::cell::Cell<f64> = const { std::cell::Cell::new(DTOL) };
}
/// Run with another distance tolerance in `reducer` and `analyzer`.
pub fn with_tol<T>(tol: f64, f: impl FnOnce() -> T) -> T {
    TOL.with(|t| t.set(tol));
    let r = f();
    TOL.with(|t| t.set(DTOL));
    r
}
pub fn reducer() -> Reducer {
    Reducer { dtol: TOL.with(|t| t.get()), atol: 5.0 }
}
pub fn analyzer() -> SymmetryAnalyzer {
    SymmetryAnalyzer { dtol: TOL.with(|t| t.get()), atol: 5.0 }
}

fn check_primitive(c: &Crystal, l0: &nalgebra::Matrix3<f64>, p: &M, rec: &mut Rec) -> Result<(), String> {
    let s = realize(c, l0, p);
    rec.state(&(c.g, c.den, &c.atoms, p));
    rec.step();
    let out = call(|| reducer().find_primitive_cell(&s)).map_err(|m| format!("primitive search stopped: {}", m))?;
    let seen = see(&out, c, l0, 1e-6)?;
    rec.state(&(seen.m, &seen.sites));
    same_crystal(&seen, c)?;
    if !primitive_volume(&seen, c) {
        return Err(format!("cell volume is not the primitive volume: {:?}/{}", seen.m, c.den));
    }
    if out.lattice.determinant() <= 0.0 {
        return Err("cell is not right-handed".into());
    }
    rec.label(&format!("index {}", c.translations().len() as i64 * det(p).abs()));
    // a primitive cell stays primitive
    rec.step();
    let again = call(|| reducer().find_primitive_cell(&out)).map_err(|m| format!("second primitive search stopped: {}", m))?;
    let seen = see(&again, c, l0, 1e-6)?;
    same_crystal(&seen, c)?;
    if !primitive_volume(&seen, c) {
        return Err("second search: not primitive".into());
    }
    Ok(())
}

pub fn c01(ctx: &Ctx) -> Space<'static> {
    let codes = grid_codes(8);
    let forms = niggli_forms(2);
    let bases = few_bases();
    let nb = ctx.pick(2, 8);
    let dims_a = vec![codes.len(), forms.len(), nb];
    let mk = move |ix: &[usize]| {
        let fsel = [0usize, 3, 6, 1, 2, 4, 5];
        (crystal(&forms[fsel[ix[1]]], 2, &grid_motif(codes[ix[0]])), bases[[0, 6, 1, 2, 3, 4, 5, 7][ix[2]]])
    };
    let mk2 = mk.clone();
    let a = Fam {
        name: "grid",
        dims: dims_a,
        run: Box::new(move |ix, rec| {
            let (c, p) = mk(ix);
            check_primitive(&c, &lattice(&c.g, 3.0, &orientations()[4]), &p, rec)
        }),
        desc: Box::new(move |ix| format!("{:?}", mk2(ix))),
    };
    // decorations of other grids by more species: (points along the axes, species)
    let grids: Vec<([i64; 3], usize)> = vec![([4, 2, 1], 3), ([1, 6, 1], 4), ([2, 1, 3], 4), ([1, 3, 3], 2), ([1, 1, 10], 2), ([2, 2, 2], 3), ([1, 2, 6], 2), ([3, 1, 3], 3)];
    let grids: Vec<_> = grids.into_iter().take(ctx.pick(5, 8)).collect();
    let g2 = grids.clone();
    let forms = niggli_forms(2);
    let mk = move |ix: &[usize]| {
        // which grid and which decoration of it
        let mut n = ix[0];
        let mut at = 0;
        while n >= (g2[at].1 + 1).pow(g2[at].0.iter().product::<i64>() as u32) {
            n -= (g2[at].1 + 1).pow(g2[at].0.iter().product::<i64>() as u32);
            at += 1;
        }
        let (p, k) = g2[at];
        let mut atoms = vec![];
        for a in 0..p[0] {
            for b in 0..p[1] {
                for c in 0..p[2] {
                    if n % (k + 1) > 0 {
                        atoms.push(([a * 60 / p[0], b * 60 / p[1], c * 60 / p[2]], (n % (k + 1)) as u8 - 1));
                    }
                    n /= k + 1;
                }
            }
        }
        // cells as long as they have points
        let mut g = forms[6];
        for i in 0..3 {
            for j in 0..3 {
                g[i][j] *= p[i] * p[j];
            }
        }
        crystal(&g, 60, &atoms)
    };
    let mk2 = mk.clone();
    let total: usize = grids.iter().map(|(p, k)| (k + 1).pow(p.iter().product::<i64>() as u32)).sum();
    let d = Fam {
        name: "species",
        dims: vec![total],
        run: Box::new(move |ix, rec| {
            let c = mk(ix);
            if c.atoms.is_empty() {
                return Ok(());
            }
            check_primitive(&c, &lattice(&c.g, 1.5, &orientations()[4]), &ID, rec)
        }),
        desc: Box::new(move |ix| format!("{:?}", mk2(ix))),
    };
    let forms = niggli_forms(ctx.pick(3, 4));
    let mut hs: Vec<M> = vec![];
    for n in 1..=ctx.pick(6, 8) {
        hs.extend(hnfs(n));
    }
    let ms = motifs();
    let bases = few_bases();
    let dims = vec![hs.len(), forms.len(), ms.len(), ctx.pick(2, 8)];
    let mk = move |ix: &[usize]| {
        let m = &ms[ix[2]];
        let c = crystal(&forms[ix[1]], 12, m);
        (c, mul(&hs[ix[0]], &bases[[0, 1, 6, 2, 3, 4, 5, 7][ix[3]]]))
    };
    let mk2 = mk.clone();
    let b = Fam {
        name: "supercell",
        dims,
        run: Box::new(move |ix, rec| {
            let (c, p) = mk(ix);
            check_primitive(&c, &lattice(&c.g, 3.0, &orientations()[0]), &p, rec)
        }),
        desc: Box::new(move |ix| format!("{:?}", mk2(ix))),
    };
    let forms = niggli_forms(ctx.pick(3, 3));
    let us = matrices(1, |d| d.abs() == 1);
    let ms = motifs();
    let dims = vec![us.len(), forms.len(), ctx.pick(1, 3)];
    let mk = move |ix: &[usize]| (crystal(&forms[ix[1]], 12, &ms[[6, 1, 8][ix[2]]]), us[ix[0]]);
    let mk2 = mk.clone();
    let c = Fam {
        name: "basis",
        dims,
        run: Box::new(move |ix, rec| {
            let (c, p) = mk(ix);
            check_primitive(&c, &lattice(&c.g, 4.0, &orientations()[5]), &p, rec)
        }),
        desc: Box::new(move |ix| format!("{:?}", mk2(ix))),
    };
    // long rows of cells
    let forms = niggli_forms(2);
    let ms = motifs();
    let row = |j: usize, n: i64| -> M {
        match j {
            0 => [[n, 0, 0], [0, 1, 0], [0, 0, 1]],
            1 => [[1, 0, 0], [0, n, 0], [0, 0, 1]],
            2 => [[1, 0, 0], [0, 1, 0], [0, 0, n]],
            3 => [[n, 0, 0], [1, 1, 0], [0, 0, 1]],
            _ => [[1, 0, 0], [0, 2, 0], [1, 0, n]],
        }
    };
    let dims = vec![ctx.pick(40, 64), 5, ctx.pick(5, forms.len()), ctx.pick(2, 4)];
    let mk = move |ix: &[usize]| (crystal(&forms[[0, 6, 4, 1, 2, 3, 5][ix[2]]], 12, &ms[[1, 4, 0, 6][ix[3]]]), row(ix[1], ix[0] as i64 + 1));
    let mk2 = mk.clone();
    let e = Fam {
        name: "row",
        dims,
        run: Box::new(move |ix, rec| {
            let (c, p) = mk(ix);
            check_primitive(&c, &lattice(&c.g, 3.0, &orientations()[4]), &p, rec)
        }),
        desc: Box::new(move |ix| format!("{:?}", mk2(ix))),
    };
    // more cells than fit small counters
    let forms = niggli_forms(2);
    let ms = motifs();
    let many: Vec<M> = vec![
        [[5, 0, 0], [0, 5, 0], [0, 0, 5]],
        [[101, 0, 0], [0, 1, 0], [0, 0, 1]],
        [[1, 0, 0], [0, 130, 0], [0, 0, 1]],
        [[16, 3, 0], [0, 16, 0], [0, 0, 1]],
        [[1, 0, 0], [0, 1, 0], [0, 0, 257]],
        [[8, 0, 0], [0, 1, 0], [0, 3, 33]],
        [[6, 0, 0], [0, 6, 0], [0, 0, 6]],
        [[1, 0, 0], [0, 20, 0], [7, 0, 15]],
        [[8, 0, 0], [0, 8, 0], [0, 0, 8]],
    ];
    let dims = vec![ctx.pick(6, 9), ctx.pick(3, forms.len()), ctx.pick(2, 3)];
    let mk = move |ix: &[usize]| (crystal(&forms[[0, 6, 4, 1, 2, 3, 5][ix[1]]], 12, &ms[[0, 1, 3][ix[2]]]), many[ix[0]]);
    let mk2 = mk.clone();
    let g = Fam {
        name: "many",
        dims,
        run: Box::new(move |ix, rec| {
            let (c, p) = mk(ix);
            check_primitive(&c, &lattice(&c.g, 3.0, &orientations()[4]), &p, rec)
        }),
        desc: Box::new(move |ix| format!("{:?}", mk2(ix))),
    };
    // tolerances and scales
    let forms = niggli_forms(2);
    let ms = motifs();
    let mut hs = vec![];
    for n in 1..=ctx.pick(4, 5) {
        hs.extend(hnfs(n));
    }
    let tols = [0.05, 1e-4, 0.01, 0.1];
    let scales = [3.0, 7.5, 25.0];
    let dims = vec![hs.len(), forms.len(), ms.len(), 4, 3];
    let mk = move |ix: &[usize]| (crystal(&forms[ix[1]], 12, &ms[ix[2]]), hs[ix[0]], tols[ix[3]], scales[ix[4]]);
    let mk2 = mk.clone();
    let f = Fam {
        name: "tolerance",
        dims,
        run: Box::new(move |ix, rec| {
            let (c, p, t, s) = mk(ix);
            with_tol(t, || check_primitive(&c, &lattice(&c.g, s, &orientations()[2]), &p, rec))
        }),
        desc: Box::new(move |ix| format!("{:?}", mk2(ix))),
    };
    // a tolerance of a tenth of the shortest vector in rows of cells
    let forms = niggli_forms(ctx.pick(3, 5));
    let dims = vec![ctx.pick(30, 50), 4, forms.len(), 2];
    let mk = move |ix: &[usize]| {
        let n = ix[0] as i64 + 2;
        let p: M = [[[n, 0, 0], [0, 1, 0], [0, 0, 1]], [[1, 0, 0], [0, n, 0], [0, 0, 1]], [[1, 0, 0], [0, 1, 0], [0, 0, n]], [[1, 0, 0], [0, 1, 0], [1, 2, n]]][ix[1]];
        let a: &[(V, u8)] = if ix[3] == 0 { &[([0, 0, 0], 0)] } else { &[([0, 0, 0], 0), ([1, 1, 1], 1)] };
        (crystal(&forms[ix[2]], 2, a), p)
    };
    let mk2 = mk.clone();
    let h = Fam {
        name: "loose",
        dims,
        run: Box::new(move |ix, rec| {
            let (c, p) = mk(ix);
            with_tol(0.3, || check_primitive(&c, &lattice(&c.g, 3.0 / (c.g[0][0] as f64).sqrt(), &orientations()[1]), &p, rec))
        }),
        desc: Box::new(move |ix| format!("{:?}", mk2(ix))),
    };
    Space {
        fams: vec![a, b, c, d, e, g, f, h],
        bounds: "all 6560 decorations of a 2x2x2 grid by <=2 species x lattices with C<=2 x bases; all decorations of 4x2x1 (3 species), 1x6x1 (4), 2x1x3 (4), 1x3x3 (2), 1x1x10 (2; thorough also 2x2x2 (3), 1x2x6 (2), 3x1x3 (3)) grids; all HNF supercells up to index 6 (8) x all Niggli forms C<=3 (4) x 10 motifs x bases; all 6960 {-1,0,1} bases; rows of up to 40 (64) cells in 5 directions; 6 (9) supercells of 101 to 264 (512) cells; supercells up to index 4 (5) x 4 tolerances x 3 scales; rows of 2 to 31 (51) cells in 4 directions on all lattices C<=3 (5) with a tolerance of a tenth of the shortest vector".into(),
        assumptions: vec!["distance tolerance 1e-4..0.3; sites at least 0.2 and two tolerances apart".into()],
        post: None,
    }
}

fn unit(seen: &Seen, c: &Crystal) -> Result<M, String> {
    let mut u = seen.m;
    for r in u.iter_mut() {
        for x in r.iter_mut() {
            if *x % c.den != 0 {
                return Err("lattice changed".into());
            }
            *x /= c.den;
        }
    }
    Ok(u)
}

/// `g` enlarged n times, each entry changed by -1, 0 or 1.
fn nudged(g: &M, n: i64, ix: &[usize]) -> M {
    let mut g = g.map(|r| r.map(|x| x * n));
    for (k, (i, j)) in [(0, 0), (1, 1), (2, 2), (1, 2), (0, 2), (0, 1)].into_iter().enumerate() {
        g[i][j] += ix[k] as i64 - 1;
        g[j][i] = g[i][j];
    }
    g
}

/// The reduced cell of any metric is a Niggli cell of the same lattice.
fn check_reduced(g: &M, p: &M, scale: f64, rec: &mut Rec) -> Result<(), String> {
    let c = crystal(g, 1, &[([0; 3], 0)]);
    let l0 = lattice(g, scale, &orientations()[4]);
    let s = realize(&c, &l0, p);
    rec.state(&(g, p));
    rec.step();
    let out = call(|| reducer().niggli_reduce(&s, &1e-5)).map_err(|m| format!("Niggli reduction stopped: {}", m))?;
    let seen = see(&out, &c, &l0, 1e-6)?;
    same_crystal(&seen, &c)?;
    if det(&seen.m) != det(p) {
        return Err(format!("handedness or volume changed: det {} -> {}", det(p), det(&seen.m)));
    }
    let n = gram(g, &seen.m);
    rec.state(&n);
    if !is_niggli(&n) {
        return Err(format!("cell is not the Niggli cell: got {:?}", n));
    }
    Ok(())
}

fn check_niggli(g: &M, p: &M, atoms: &[(V, u8)], scale: f64, qi: usize, rec: &mut Rec) -> Result<(), String> {
    let c = crystal(g, 12, atoms);
    let l0 = lattice(g, scale, &orientations()[qi]);
    let s = realize(&c, &l0, p);
    rec.state(&(g, p, atoms.len()));
    rec.step();
    let out = call(|| reducer().niggli_reduce(&s, &1e-5)).map_err(|m| format!("Niggli reduction stopped: {}", m))?;
    let seen = see(&out, &c, &l0, 1e-6)?;
    same_crystal(&seen, &c)?;
    let u = unit(&seen, &c)?;
    rec.state(&(g, u));
    if det(&u) != det(p) {
        return Err(format!("handedness or volume changed: det {} -> {}", det(p), det(&u)));
    }
    let n = gram(g, &u);
    if n != *g {
        return Err(format!("cell is not the Niggli cell: got {:?}, Niggli form {:?}", n, g));
    }
    let z = (out.metric_tensor() / (scale * scale) - fm(g)).amax();
    if !(z < 1e-6 * g[2][2] as f64) {
        return Err("metric differs from the Niggli form".into());
    }
    rec.step();
    let again = call(|| reducer().niggli_reduce(&out, &1e-5)).map_err(|m| format!("second reduction stopped: {}", m))?;
    let seen2 = see(&again, &c, &l0, 1e-6)?;
    if gram(g, &unit(&seen2, &c)?) != *g {
        return Err("reducing twice changes the cell".into());
    }
    same_crystal(&seen2, &c)?;
    Ok(())
}

/// Bases sheared along one or two axes.
fn shears() -> Vec<M> {
    let mut v = vec![];
    for n in [4, -9, 30, -60, 200, -1000] {
        for (i, j, k) in [(0, 1, 2), (1, 2, 0), (2, 0, 1), (1, 0, 2), (2, 1, 0), (0, 2, 1)] {
            let mut m = ID;
            m[i][j] = n;
            v.push(m);
            m[i][k] = -n / 2;
            v.push(m);
            m[i][k] = 0;
            let mut o = ID;
            o[j][k] = 5;
            v.push(mul(&m, &o));
        }
    }
    v
}

/// Sites of three species on different points of the grid of twelfths, without order.
fn crowd(n: usize) -> Vec<(V, u8)> {
    (0..n as i64).map(|i| ([(i * 5 + 1) % 12, (i / 12 * 7 + i) % 12, (i / 3 + i * i) % 12], (i % 3) as u8)).collect::<std::collections::BTreeMap<_, _>>().into_iter().collect()
}

pub fn c02(ctx: &Ctx) -> Space<'static> {
    let mut fams = vec![];
    let forms = niggli_forms(ctx.pick(6, 6));
    let us = matrices(1, |d| d.abs() == 1);
    let dims = vec![us.len(), forms.len(), ctx.pick(1, 2)];
    let scales = [3.0, 0.8];
    let (f2, u2) = (forms.clone(), us.clone());
    fams.push(Fam {
        name: "basis",
        dims,
        run: Box::new(move |ix, rec| check_niggli(&forms[ix[1]], &us[ix[0]], &motifs()[1], scales[ix[2]], 4, rec)),
        desc: Box::new(move |ix| format!("Niggli form {:?} basis {:?} scale {}", f2[ix[1]], u2[ix[0]], scales[ix[2]])),
    });
    let forms = niggli_forms(ctx.pick(14, 16));
    let few = few_bases();
    let dims = vec![forms.len(), few.len(), 2];
    let scales = [4.5, 17.0];
    let (f2, u2) = (forms.clone(), few.clone());
    fams.push(Fam {
        name: "form",
        dims,
        run: Box::new(move |ix, rec| check_niggli(&forms[ix[0]], &few[ix[1]], &motifs()[4], scales[ix[2]], 3, rec)),
        desc: Box::new(move |ix| format!("Niggli form {:?} basis {:?} scale {}", f2[ix[0]], u2[ix[1]], scales[ix[2]])),
    });
    let forms = niggli_forms(ctx.pick(2, 2));
    let us: Vec<M> = matrices(2, |d| d.abs() == 1);
    let dims = vec![us.len(), forms.len()];
    let (f2, u2) = (forms.clone(), us.clone());
    fams.push(Fam {
        name: "skew",
        dims,
        run: Box::new(move |ix, rec| check_niggli(&forms[ix[1]], &us[ix[0]], &motifs()[0], 3.0, 0, rec)),
        desc: Box::new(move |ix| format!("Niggli form {:?} basis {:?}", f2[ix[1]], u2[ix[0]])),
    });
    // very skew cells
    let forms = niggli_forms(ctx.pick(3, 5));
    let f2 = forms.clone();
    fams.push(Fam {
        name: "very-skew",
        dims: vec![forms.len(), shears().len()],
        run: Box::new(move |ix, rec| check_niggli(&forms[ix[0]], &shears()[ix[1]], &motifs()[1], 3.0, 5, rec)),
        desc: Box::new(move |ix| format!("Niggli form {:?} basis {:?}", f2[ix[0]], shears()[ix[1]])),
    });
    // many sites
    let forms = niggli_forms(ctx.pick(3, 6));
    let f2 = forms.clone();
    fams.push(Fam {
        name: "sites",
        dims: vec![forms.len(), few_bases().len(), 3],
        run: Box::new(move |ix, rec| check_niggli(&forms[ix[0]], &few_bases()[ix[1]], &crowd([31, 65, 130][ix[2]]), 9.0, 3, rec)),
        desc: Box::new(move |ix| format!("Niggli form {:?} basis {:?} with {} sites", f2[ix[0]], few_bases()[ix[1]], [31, 65, 130][ix[2]])),
    });
    // cells that miss a special shape by little
    let mut forms = niggli_forms(ctx.pick(2, 4));
    forms.extend(special_forms(ctx.pick(2, 4), ctx.pick(6, 8)));
    let dims = vec![forms.len(), 2, 3, 3, 3, 3, 3, 3, 2];
    let mk = move |ix: &[usize]| {
        let n = [1000, 10000][ix[1]];
        (nudged(&forms[ix[0]], n, &ix[2..8]), few_bases()[[0, 5][ix[8]]], 3.0 / (n as f64).sqrt())
    };
    let mk2 = mk.clone();
    fams.push(Fam {
        name: "almost-special",
        dims,
        run: Box::new(move |ix, rec| {
            let (g, p, s) = mk(ix);
            check_reduced(&g, &p, s, rec)
        }),
        desc: Box::new(move |ix| format!("{:?}", mk2(ix))),
    });
    // small and large units of length
    let forms = niggli_forms(ctx.pick(8, 12));
    let few = few_bases();
    let scales = [0.2, 0.5, 120.0, 1000.0];
    let (f2, u2) = (forms.clone(), few.clone());
    fams.push(Fam {
        name: "unit",
        dims: vec![forms.len(), few.len(), 4],
        run: Box::new(move |ix, rec| with_tol([0.002, 0.05, 1.2, 0.05][ix[2]], || check_niggli(&forms[ix[0]], &few[ix[1]], &motifs()[4], scales[ix[2]], 2, rec))),
        desc: Box::new(move |ix| format!("Niggli form {:?} basis {:?} scale {}", f2[ix[0]], u2[ix[1]], scales[ix[2]])),
    });
    Space {
        fams,
        bounds: "Niggli forms C<=6 x all 6960 {-1,0,1} bases of both hands x scales; forms C<=14 (16) x 8 bases x 2 scales; forms C<=2 x all {-2..2} bases; forms C<=3 (5) x 108 bases with entries up to 5000; forms C<=3 (6) x 8 bases with up to 130 sites; forms C<=2 (4), and those satisfying two of the special equations up to C<=6 (8), with each entry changed by -1, 0 or 1 thousandth and ten-thousandth x 2 bases; forms C<=8 (12) x 8 bases in 4 units of length from 0.2 to 1000".into(),
        assumptions: vec!["reduction tolerance 1e-5; integer-ratio metrics".into()],
        post: None,
    }
}

fn check_delaunay(g: &M, p: &M, atoms: &[(V, u8)], scale: f64, may_refuse: bool, rec: &mut Rec) -> Result<(), String> {
    let c = crystal(g, 12, atoms);
    let l0 = lattice(g, scale, &orientations()[4]);
    let s = realize(&c, &l0, p);
    rec.state(&(g, p));
    for full in [false, true] {
        rec.step();
        let out = match call(|| reducer().delaunay_reduce(&s, full)) {
            Ok(o) => o,
            Err(m) => {
                if may_refuse {
                    rec.label("refused");
                    continue;
                }
                return Err(format!("Delaunay reduction stopped: {}", m));
            }
        };
        let seen = see(&out, &c, &l0, 1e-6)?;
        same_crystal(&seen, &c)?;
        let u = unit(&seen, &c)?;
        rec.state(&(g, u, full));
        if det(&u).abs() != det(p).abs() {
            return Err("volume changed".into());
        }
        if !full {
            let vs: Vec<V> = (0..3).map(|j| [u[0][j], u[1][j], u[2][j]]).collect();
            let mut vs = vs;
            vs.push([0, 1, 2].map(|i| -(u[i][0] + u[i][1] + u[i][2])));
            for i in 0..4 {
                for j in 0..i {
                    let gv = mulv(g, &vs[j]);
                    let d: i64 = (0..3).map(|k| vs[i][k] * gv[k]).sum();
                    if d > 0 {
                        return Err(format!("vectors {:?} and {:?} have scalar product {} > 0", vs[i], vs[j], d));
                    }
                }
            }
            rec.label("obtuse superbase");
        }
    }
    Ok(())
}

pub fn c03(ctx: &Ctx) -> Space<'static> {
    let mut fams = vec![];
    let forms = niggli_forms(ctx.pick(6, 7));
    let us = matrices(1, |d| d.abs() == 1);
    let (f2, u2) = (forms.clone(), us.clone());
    fams.push(Fam {
        name: "basis",
        dims: vec![us.len(), forms.len()],
        run: Box::new(move |ix, rec| check_delaunay(&forms[ix[1]], &us[ix[0]], &motifs()[1], 3.0, false, rec)),
        desc: Box::new(move |ix| format!("form {:?} basis {:?}", f2[ix[1]], u2[ix[0]])),
    });
    let forms = niggli_forms(2);
    let ks: Vec<i64> = (1..=ctx.pick(1000, 1500)).collect();
    let skews = move |j: usize, k: i64| -> M {
        match j {
            0 => [[1, 0, k], [0, 1, 0], [0, 0, 1]],
            1 => [[1, -k, 0], [0, 1, 0], [0, 0, 1]],
            2 => [[1, 0, k], [0, 1, -k], [0, 0, 1]],
            3 => [[1, k, 0], [0, 1, k], [0, 0, 1]],
            _ => [[1, k, k], [0, 1, 0], [0, 0, 1]],
        }
    };
    let (f2, k2) = (forms.clone(), ks.clone());
    fams.push(Fam {
        name: "skew",
        dims: vec![ks.len(), 5, forms.len()],
        run: Box::new(move |ix, rec| check_delaunay(&forms[ix[2]], &skews(ix[1], ks[ix[0]]), &motifs()[1], 3.0, ix[1] == 3 && ks[ix[0]] > 60, rec)),
        desc: Box::new(move |ix| format!("form {:?} skew basis {:?}", f2[ix[2]], skews(ix[1], k2[ix[0]]))),
    });
    let forms = niggli_forms(ctx.pick(14, 18));
    let few = few_bases();
    let (f2, u2) = (forms.clone(), few.clone());
    fams.push(Fam {
        name: "form",
        dims: vec![forms.len(), few.len()],
        run: Box::new(move |ix, rec| check_delaunay(&forms[ix[0]], &few[ix[1]], &motifs()[5], 3.0, false, rec)),
        desc: Box::new(move |ix| format!("form {:?} basis {:?}", f2[ix[0]], u2[ix[1]])),
    });
    // small and large units of length
    let forms = niggli_forms(ctx.pick(8, 12));
    let few = few_bases();
    let scales = [0.2, 0.5, 120.0, 1000.0, 0.0004, 3e6];
    let (f2, u2) = (forms.clone(), few.clone());
    fams.push(Fam {
        name: "unit",
        dims: vec![forms.len(), few.len(), 6],
        run: Box::new(move |ix, rec| with_tol([0.05, 0.005, 1.2, 0.05, 4e-7, 3e3][ix[2]], || check_delaunay(&forms[ix[0]], &few[ix[1]], &motifs()[4], scales[ix[2]], false, rec))),
        desc: Box::new(move |ix| format!("form {:?} basis {:?} scale {}", f2[ix[0]], u2[ix[1]], scales[ix[2]])),
    });
    // many sites
    let forms = niggli_forms(ctx.pick(3, 6));
    let f2 = forms.clone();
    fams.push(Fam {
        name: "sites",
        dims: vec![forms.len(), few_bases().len(), 3],
        run: Box::new(move |ix, rec| check_delaunay(&forms[ix[0]], &few_bases()[ix[1]], &crowd([31, 65, 130][ix[2]]), 9.0, false, rec)),
        desc: Box::new(move |ix| format!("form {:?} basis {:?} with {} sites", f2[ix[0]], few_bases()[ix[1]], [31, 65, 130][ix[2]])),
    });
    Space {
        fams,
        bounds: "forms C<=3 (6) x 8 bases with up to 130 sites; forms C<=6 (7) x all 6960 {-1,0,1} bases; forms C<=14 (18) x 8 bases; 5 skew directions x strength up to 1000 (1500) x 7 forms; forms C<=8 (12) x 8 bases in 6 units of length from 0.0004 to 3000000; both modes".into(),
        assumptions: vec!["bases skewed along two axes in turn may be refused with an error where the strength is above 60 (cell entries of thousands)".into()],
        post: None,
    }
}

/// Exact conventional-cell oracle.  `m` = conventional basis over den in the base basis.
fn check_conv_cell(c: &Crystal, seen: &Seen) -> Result<(char, char), String> {
    // primitive lattice of the crystal: base lattice plus its translations
    let n = c.den;
    let tr = c.translations();
    let d = det(&seen.m);
    // centring vectors: all lattice translations expressed in the conventional cell (numerators over |d|/...)
    // x = m^-1 * t ; with t over den and m over den: x = adj(m)/d * t (t numerators)
    let a = adj(&seen.m);
    let mut pts = std::collections::BTreeSet::new();
    // translations of the crystal modulo the conventional lattice: generate from tr + base vectors
    let mut gens: Vec<V> = tr.clone();
    gens.extend([[n, 0, 0], [0, n, 0], [0, 0, n]]);
    let mut queue = vec![[0i64; 3]];
    pts.insert([0i64; 3]);
    while let Some(x) = queue.pop() {
        for t in &gens {
            let y = mulv(&a, t).map(|v| v * d.signum());
            let z = vmod(&[x[0] + y[0], x[1] + y[1], x[2] + y[2]], d.abs());
            if pts.insert(z) {
                queue.push(z);
            }
        }
    }
    let dd = d.abs();
    let frac = |num: [i64; 3], den: i64| -> Option<V> {
        if num.iter().any(|x| x * dd % den != 0) {
            None
        } else {
            Some(num.map(|x| x * dd / den))
        }
    };
    let set = |v: Vec<Option<V>>| -> Option<std::collections::BTreeSet<V>> {
        let mut s = std::collections::BTreeSet::from([[0i64; 3]]);
        for x in v {
            s.insert(x?);
        }
        Some(s)
    };
    let cent = if pts.len() == 1 {
        'P'
    } else if Some(&pts) == set(vec![frac([1, 1, 0], 2)]).as_ref() {
        'C'
    } else if Some(&pts) == set(vec![frac([1, 1, 1], 2)]).as_ref() {
        'I'
    } else if Some(&pts) == set(vec![frac([1, 1, 0], 2), frac([1, 0, 1], 2), frac([0, 1, 1], 2)]).as_ref() {
        'F'
    } else if Some(&pts) == set(vec![frac([2, 1, 1], 3), frac([1, 2, 2], 3)]).as_ref() {
        'R'
    } else {
        return Err(format!("{} lattice points per conventional cell in no standard centring", pts.len()));
    };
    // holohedry of the crystal's lattice from the conventional metric restricted to operations keeping the centring
    let gm = gram(&c.g, &seen.m);
    // system of the primitive lattice
    let prim = primitive_gram(c);
    let order = holohedry(&prim).len();
    let (x, y, z, xy, xz, yz) = (gm[0][0], gm[1][1], gm[2][2], gm[0][1], gm[0][2], gm[1][2]);
    let ok = match order {
        48 => x == y && y == z && xy == 0 && xz == 0 && yz == 0 && "PIF".contains(cent),
        24 => x == y && 2 * xy == -x && xz == 0 && yz == 0 && cent == 'P',
        12 => x == y && 2 * xy == -x && xz == 0 && yz == 0 && cent == 'R',
        16 => x == y && xy == 0 && xz == 0 && yz == 0 && "PI".contains(cent),
        8 => xy == 0 && xz == 0 && yz == 0 && "PCIF".contains(cent),
        4 => xy == 0 && yz == 0 && "PCI".contains(cent),
        2 => cent == 'P',
        _ => return Err(format!("model error: holohedry of order {}", order)),
    };
    if !ok {
        return Err(format!("conventional cell metric {:?}/{}^2 with centring {} does not have the shape of its system (lattice symmetry order {})", gm, n, cent, order));
    }
    let sys = match order {
        48 => 'c',
        24 => 'h',
        12 => 'r',
        16 => 't',
        8 => 'o',
        4 => 'm',
        _ => 'a',
    };
    Ok((sys, cent))
}

/// Integer Gram matrix (scaled by den^2) of some primitive basis of the crystal's full translation lattice.
pub fn primitive_gram(c: &Crystal) -> M {
    gram(&c.g, &primitive_basis(c))
}

/// A basis (numerators over den, columns) of the crystal's full translation lattice.
pub fn primitive_basis(c: &Crystal) -> M {
    // Hermite reduction of the generators
    let n = c.den;
    let mut rows: Vec<V> = c.translations();
    rows.extend([[n, 0, 0], [0, n, 0], [0, 0, n]]);
    let mut out: Vec<V> = vec![];
    for k in 0..3 {
        loop {
            rows.sort_by_key(|r| if r[k] == 0 { i64::MAX } else { r[k].abs() });
            if rows.len() < 2 || rows[1][k] == 0 {
                break;
            }
            let p = rows[0];
            for r in rows[1..].iter_mut() {
                let q = r[k].div_euclid(p[k]);
                for i in 0..3 {
                    r[i] -= q * p[i];
                }
            }
        }
        let p = rows.remove(0);
        out.push(p);
        rows.retain(|r| *r != [0, 0, 0]);
        if rows.is_empty() && out.len() < 3 {
            panic!("model error: rank");
        }
    }
    [[out[0][0], out[1][0], out[2][0]], [out[0][1], out[1][1], out[2][1]], [out[0][2], out[1][2], out[2][2]]]
}

fn check_conv(c: &Crystal, l0: &nalgebra::Matrix3<f64>, p: &M, rec: &mut Rec) -> Result<(), String> {
    let s = realize(c, l0, p);
    rec.state(&(c.g, &c.atoms, p));
    rec.step();
    let out = call(|| analyzer().get_standard_conventional_structure(&s)).map_err(|m| format!("conventional cell search stopped: {}", m))?;
    let seen = see(&out, c, l0, 1e-6)?;
    same_crystal(&seen, c)?;
    if out.lattice.determinant() <= 0.0 {
        return Err("cell is not right-handed".into());
    }
    let (sys, cent) = check_conv_cell(c, &seen)?;
    rec.state(&(seen.m, &seen.sites));
    rec.label(&format!("{}{}", sys, cent));
    // starting over from the conventional cell gives a conventional cell again
    rec.step();
    let again = call(|| analyzer().get_standard_conventional_structure(&out)).map_err(|m| format!("second conventional cell search stopped: {}", m))?;
    let seen = see(&again, c, l0, 1e-6)?;
    same_crystal(&seen, c)?;
    if check_conv_cell(c, &seen)? != (sys, cent) {
        return Err("a second search finds another type of conventional cell".into());
    }
    Ok(())
}

fn cent_matrix(c: char) -> (M, i64) {
    match c {
        'P' => (ID, 1),
        'C' => ([[1, 1, 0], [-1, 1, 0], [0, 0, 2]], 2),
        'I' => ([[-1, 1, 1], [1, -1, 1], [1, 1, -1]], 2),
        'F' => ([[0, 1, 1], [1, 0, 1], [1, 1, 0]], 2),
        'R' => ([[2, -1, -1], [1, 1, -2], [1, 1, 1]], 3),
        'A' => ([[2, 0, 0], [0, 1, -1], [0, 1, 1]], 2),
        _ => panic!(),
    }
}

fn check_prim(c: &Crystal, l0: &nalgebra::Matrix3<f64>, p: &M, rec: &mut Rec) -> Result<(), String> {
    let s = realize(c, l0, p);
    rec.state(&(c.g, &c.atoms, p));
    rec.steps(2);
    let out = call(|| analyzer().get_standard_primitive_structure(&s)).map_err(|m| format!("standard primitive search stopped: {}", m))?;
    let conv = call(|| analyzer().get_standard_conventional_structure(&s)).map_err(|m| format!("conventional cell search stopped: {}", m))?;
    let seen = see(&out, c, l0, 1e-6)?;
    same_crystal(&seen, c)?;
    if !primitive_volume(&seen, c) {
        return Err("standard primitive cell does not have primitive volume".into());
    }
    if out.lattice.determinant() <= 0.0 {
        return Err("cell is not right-handed".into());
    }
    let sc = see(&conv, c, l0, 1e-6)?;
    let (sys, cent) = check_conv_cell(c, &sc)?;
    let (m, d) = cent_matrix(cent);
    let want = mul(&sc.m, &m);
    if want != seen.m.map(|r| r.map(|x| x * d)) {
        return Err(format!("standard primitive basis {:?} is not the {} reduction of the conventional basis {:?} (over {})", seen.m, cent, sc.m, c.den));
    }
    rec.state(&(seen.m, &seen.sites));
    rec.label(&format!("{}{}", sys, cent));
    Ok(())
}

type Chk = fn(&Crystal, &nalgebra::Matrix3<f64>, &M, &mut Rec) -> Result<(), String>;

fn std_fams(ctx: &Ctx, chk: Chk, kq: i64, kt: i64) -> Vec<Fam<'static>> {
    let mut fams = vec![];
    let forms = niggli_forms(ctx.pick(kq, kt));
    let few = few_bases();
    let nb = ctx.pick(5, 8);
    let scales = [3.0, 7.3];
    let mk = move |ix: &[usize]| {
        let c = crystal(&forms[ix[0]], 12, &motifs()[[0, 1][ix[1]]]);
        (c, few[[0, 6, 1, 2, 3, 4, 5, 7][ix[2]]], scales[ix[3]])
    };
    let mk2 = mk.clone();
    fams.push(Fam {
        name: "form",
        dims: vec![niggli_forms(ctx.pick(kq, kt)).len(), 2, nb, 2],
        run: Box::new(move |ix, rec| {
            let (c, p, s) = mk(ix);
            chk(&c, &lattice(&c.g, s, &orientations()[4]), &p, rec)
        }),
        desc: Box::new(move |ix| format!("{:?}", mk2(ix))),
    });
    let forms = niggli_forms(ctx.pick(4, 5));
    let special = special_forms(ctx.pick(kq, kt), ctx.pick(16, 26));
    let dims = vec![special.len()];
    let mk = move |ix: &[usize]| (crystal(&special[ix[0]], 12, &motifs()[0]), [ID, few_bases()[6]][ix[0] % 2]);
    let mk2 = mk.clone();
    fams.push(Fam {
        name: "special",
        dims,
        run: Box::new(move |ix, rec| {
            let (c, p) = mk(ix);
            chk(&c, &lattice(&c.g, 3.0, &orientations()[6]), &p, rec)
        }),
        desc: Box::new(move |ix| format!("{:?}", mk2(ix))),
    });
    let us = matrices(1, |d| d.abs() == 1);
    let dims = vec![us.len(), forms.len()];
    let mk = move |ix: &[usize]| (crystal(&forms[ix[1]], 12, &motifs()[3]), us[ix[0]]);
    let mk2 = mk.clone();
    fams.push(Fam {
        name: "basis",
        dims,
        run: Box::new(move |ix, rec| {
            let (c, p) = mk(ix);
            chk(&c, &lattice(&c.g, 3.0, &orientations()[0]), &p, rec)
        }),
        desc: Box::new(move |ix| format!("{:?}", mk2(ix))),
    });
    let forms = niggli_forms(3);
    let ms = motifs();
    let mut hs = vec![];
    for n in 1..=ctx.pick(6, 8) {
        hs.extend(hnfs(n));
    }
    let dims = vec![hs.len(), forms.len(), ms.len()];
    let mk = move |ix: &[usize]| (crystal(&forms[ix[1]], 12, &ms[ix[2]]), hs[ix[0]]);
    let mk2 = mk.clone();
    fams.push(Fam {
        name: "supercell",
        dims,
        run: Box::new(move |ix, rec| {
            let (c, p) = mk(ix);
            chk(&c, &lattice(&c.g, 3.0, &orientations()[1]), &p, rec)
        }),
        desc: Box::new(move |ix| format!("{:?}", mk2(ix))),
    });
    // all grid decorations on a few lattices
    let codes = grid_codes(ctx.pick(5, 8));
    let forms = niggli_forms(2);
    let dims = vec![codes.len(), forms.len()];
    let mk = move |ix: &[usize]| crystal(&forms[ix[1]], 2, &grid_motif(codes[ix[0]]));
    let mk2 = mk.clone();
    fams.push(Fam {
        name: "grid",
        dims,
        run: Box::new(move |ix, rec| {
            let c = mk(ix);
            chk(&c, &lattice(&c.g, 3.0, &orientations()[3]), &ID, rec)
        }),
        desc: Box::new(move |ix| format!("{:?}", mk2(ix))),
    });
    // lattices that miss a special shape by a thousandth or less of a squared length
    let mut forms = niggli_forms(ctx.pick(2, 4));
    forms.extend(special_forms(ctx.pick(2, 4), ctx.pick(6, 8)));
    let dims = vec![forms.len(), 2, 3, 3, 3, 3, 3, 3];
    let mk = move |ix: &[usize]| {
        let n = [1000, 10000][ix[1]];
        let g = nudged(&forms[ix[0]], n, &ix[2..8]);
        (crystal(&g, 1, &[([0; 3], 0)]), 3.0 / (n as f64).sqrt())
    };
    let mk2 = mk.clone();
    fams.push(Fam {
        name: "almost-special",
        dims,
        run: Box::new(move |ix, rec| {
            let (c, s) = mk(ix);
            chk(&c, &lattice(&c.g, s, &orientations()[2]), &ID, rec)
        }),
        desc: Box::new(move |ix| format!("{:?}", mk2(ix))),
    });
    // tolerances and scales
    let forms = niggli_forms(ctx.pick(5, 6));
    let tols = [1e-4, 0.01, 0.1];
    let scales = [3.0, 7.3, 25.0];
    let hs = [ID, hnfs(2)[3], hnfs(3)[5], few_bases()[6]];
    let dims = vec![forms.len(), 4, 3, 3];
    let mk = move |ix: &[usize]| (crystal(&forms[ix[0]], 12, &motifs()[(ix[0] + ix[1]) % 10]), hs[ix[1]], tols[ix[2]], scales[ix[3]]);
    let mk2 = mk.clone();
    fams.push(Fam {
        name: "tolerance",
        dims,
        run: Box::new(move |ix, rec| {
            let (c, p, t, s) = mk(ix);
            with_tol(t, || chk(&c, &lattice(&c.g, s, &orientations()[2]), &p, rec))
        }),
        desc: Box::new(move |ix| format!("{:?}", mk2(ix))),
    });
    fams
}

const BRAVAIS: [&str; 14] = ["aP", "mP", "mC", "oP", "oC", "oI", "oF", "tP", "tI", "rR", "hP", "cP", "cI", "cF"];

fn all_bravais(l: &std::collections::BTreeMap<String, u64>) -> Result<(), String> {
    for b in BRAVAIS {
        let alt = b.replace("mC", "mI");
        if !l.contains_key(b) && !l.contains_key(&alt) {
            return Err(format!("no crystal of the enumeration got a standard cell of type {}", b));
        }
    }
    Ok(())
}

pub fn c12(ctx: &Ctx) -> Space<'static> {
    Space {
        fams: std_fams(ctx, check_conv, 10, 16),
        bounds: "all integer Niggli forms C<=10 (16) x 2 motifs x bases x 2 scales; all those with C<=16 (26) that satisfy two of the equations of the special lattice characters; forms C<=2 (4), and those satisfying two of the special equations up to C<=6 (8), with each entry changed by -1, 0 or 1 thousandth and ten-thousandth; forms C<=4 (5) x all 6960 {-1,0,1} bases; supercells up to index 6 (8) x 27 forms x 10 motifs; grid decorations with <=5 (8) atoms; forms C<=5 (6) x 4 cells x 3 tolerances x 3 scales".into(),
        assumptions: vec!["distance tolerance 1e-4..0.1; integer-ratio metrics".into()],
        post: Some(Box::new(all_bravais)),
    }
}

pub fn c13(ctx: &Ctx) -> Space<'static> {
    Space {
        fams: std_fams(ctx, check_prim, 10, 15),
        bounds: "all integer Niggli forms C<=10 (15) x 2 motifs x bases x 2 scales; all those with C<=16 (26) that satisfy two of the equations of the special lattice characters; forms C<=2 (4), and those satisfying two of the special equations up to C<=6 (8), with each entry changed by -1, 0 or 1 thousandth and ten-thousandth; forms C<=4 (5) x all 6960 {-1,0,1} bases; supercells up to index 6 (8) x 27 forms x 10 motifs; grid decorations with <=5 (8) atoms; forms C<=5 (6) x 4 cells x 3 tolerances x 3 scales".into(),
        assumptions: vec!["distance tolerance 1e-4..0.1; integer-ratio metrics".into()],
        post: Some(Box::new(all_bravais)),
    }
}

fn params(s: &Structure) -> [f64; 6] {
    [s.a(), s.b(), s.c(), s.alpha(), s.beta(), s.gamma()]
}

/// Cell parameters from the metric alone (independent of the attribute functions).
fn metric_params(s: &Structure) -> [f64; 6] {
    let g = s.lattice.transpose() * s.lattice;
    let l = [g[(0, 0)].sqrt(), g[(1, 1)].sqrt(), g[(2, 2)].sqrt()];
    let an = |i: usize, j: usize| (g[(i, j)] / l[i] / l[j]).acos().to_degrees();
    [l[0], l[1], l[2], an(1, 2), an(0, 2), an(0, 1)]
}

fn std_cells(s: &Structure, rec: &mut Rec) -> Result<[[f64; 6]; 3], String> {
    rec.steps(4);
    let n = call(|| reducer().niggli_reduce(&reducer().find_primitive_cell(s), &1e-5)).map_err(|m| format!("reduction stopped: {}", m))?;
    let c = call(|| analyzer().get_standard_conventional_structure(s)).map_err(|m| format!("conventional: {}", m))?;
    let p = call(|| analyzer().get_standard_primitive_structure(s)).map_err(|m| format!("primitive: {}", m))?;
    for x in [&n, &c, &p] {
        let (a, b) = (params(x), metric_params(x));
        if (0..6).any(|i| !((a[i] - b[i]).abs() < 1e-6)) {
            return Err(format!("attributes {:?} disagree with the lattice {:?}", a, b));
        }
    }
    Ok([metric_params(&n), metric_params(&c), metric_params(&p)])
}

pub fn c14(ctx: &Ctx) -> Space<'static> {
    // crystals: forms x motifs; descriptions: bases x supercells, rotations, shifts, orders
    let forms = niggli_forms(ctx.pick(4, 4));
    let ms = motifs();
    let mut descs: Vec<(M, usize, V, usize)> = vec![]; // basis, orientation, shift over 12, site rotation
    let few = few_bases();
    for u in few.iter() {
        descs.push((*u, 0, [0; 3], 0));
    }
    for n in 2..=ctx.pick(6, 8) {
        for h in hnfs(n) {
            descs.push((h, n as usize % 7, [0; 3], 1));
        }
    }
    for q in 1..7 {
        descs.push((ID, q, [0; 3], 0));
        descs.push((few[6], q, [1, 2, 3], 1));
    }
    for x in 0..ctx.pick(4, 12) {
        for y in 0..ctx.pick(4, 6) {
            descs.push((ID, 0, [x * 5 + 1, y * 2, 7], 0));
        }
    }
    for o in 1..4 {
        descs.push((ID, 0, [0; 3], o));
        descs.push((hnfs(2)[0], 0, [0; 3], o + 1));
    }
    let nd = descs.len();
    let dims = vec![forms.len(), ms.len()];
    let mk = move |ix: &[usize]| crystal(&forms[ix[0]], 12, &ms[ix[1]]);
    let mk2 = mk.clone();
    let a = Fam {
        name: "descriptions",
        dims,
        run: Box::new(move |ix, rec| {
            let c = mk(ix);
            let qs = orientations();
            let refs = std_cells(&realize(&c, &lattice(&c.g, 3.0, &qs[0]), &ID), rec)?;
            rec.state(&(c.g, &c.atoms));
            for (k, (p, q, sh, ord)) in descs.iter().enumerate() {
                let mut cc = c.clone();
                for a in cc.atoms.iter_mut() {
                    for i in 0..3 {
                        a.0[i] += sh[i];
                    }
                }
                let mut s = realize(&cc, &lattice(&c.g, 3.0, &qs[*q]), p);
                let n = s.species.len();
                match ord {
                    0 => {}
                    1 => {
                        s.species.reverse();
                        s.coords.reverse();
                        s.frac_coords.reverse();
                    }
                    o => {
                        s.species.rotate_left((o - 1) % n);
                        s.coords.rotate_left((o - 1) % n);
                        s.frac_coords.rotate_left((o - 1) % n);
                    }
                }
                rec.state(&(c.g, &c.atoms, k));
                let got = std_cells(&s, rec).map_err(|m| format!("description {:?}: {}", descs[k], m))?;
                for t in 0..3 {
                    for i in 0..6 {
                        if !((got[t][i] - refs[t][i]).abs() < 1e-5) {
                            return Err(format!("description {:?}: {} cell {:?} differs from {:?}", descs[k], ["Niggli", "conventional", "primitive"][t], got[t], refs[t]));
                        }
                    }
                }
            }
            Ok(())
        }),
        desc: Box::new(move |ix| format!("{:?} in {} descriptions", mk2(ix), nd)),
    };
    let forms = niggli_forms(ctx.pick(3, 4));
    let us = matrices(1, |d| d.abs() == 1);
    let dims = vec![forms.len(), us.len()];
    let (f2, u2) = (forms.clone(), us.clone());
    let b = Fam {
        name: "basis",
        dims,
        run: Box::new(move |ix, rec| {
            let c = crystal(&forms[ix[0]], 12, &motifs()[5]);
            let l0 = lattice(&c.g, 3.0, &orientations()[4]);
            let refs = std_cells(&realize(&c, &l0, &ID), rec)?;
            let got = std_cells(&realize(&c, &l0, &us[ix[1]]), rec)?;
            rec.state(&(c.g, us[ix[1]]));
            for t in 0..3 {
                for i in 0..6 {
                    if !((got[t][i] - refs[t][i]).abs() < 1e-5) {
                        return Err(format!("{} cell {:?} differs from {:?}", ["Niggli", "conventional", "primitive"][t], got[t], refs[t]));
                    }
                }
            }
            Ok(())
        }),
        desc: Box::new(move |ix| format!("form {:?} basis {:?}", f2[ix[0]], u2[ix[1]])),
    };
    Space {
        fams: vec![a, b],
        bounds: "forms C<=4 x 10 motifs, each in every listed basis, supercell up to index 6 (8), 6 rotations, origin shifts and site orders; forms C<=3 (4) x all 6960 {-1,0,1} bases".into(),
        assumptions: vec!["distance tolerance 0.05; integer-ratio metrics".into()],
        post: None,
    }
}
