//! C18 no wrong space group, C19 all types recognised, C20 reported operations, C26 mirror images.
use crate::cat::*;
use crate::ops::transform;
use crystsymm::analyzer::SymmetryAnalyzer;
use crystsymm::spacegroup::SpaceGroup;
use crystsymm::structure::Structure;
use mc::alpha::*;
use mc::conc::*;
use mc::engine::*;
use mc::model::*;
use mc::sgdata::{HM, SG};
use nalgebra::Matrix3;

pub const DTOL: f64 = 0.05;

pub fn analyzer(dtol: f64) -> SymmetryAnalyzer {
    SymmetryAnalyzer { dtol, atol: 5.0 }
}

fn norm_symbol(s: &str) -> String {
    s.chars().filter(|c| !c.is_whitespace() && *c != '_').collect::<String>()
}

fn symbol_ok(n: usize, got: &str) -> bool {
    let want = norm_symbol(HM[n - 1]);
    let got = norm_symbol(got);
    let origin = [48, 50, 59, 68, 70, 85, 86, 88, 125, 126, 129, 130, 133, 134, 137, 138, 141, 142, 201, 203, 222, 224, 227, 228].contains(&n);
    got == want || (origin && got == format!("{}1", want)) || (SG[n - 1].0 == 'R' && got == format!("{}H", want))
}

/// Number of the mirror image type.
pub fn partner(n: usize) -> usize {
    for (a, b) in [(76, 78), (91, 95), (92, 96), (144, 145), (151, 153), (152, 154), (169, 170), (171, 172), (178, 179), (180, 181), (212, 213)] {
        if n == a {
            return b;
        }
        if n == b {
            return a;
        }
    }
    n
}

/// What is exactly true of a described crystal, in the library's standard primitive basis.
pub struct Truth {
    /// standard primitive basis, columns over den of the crystal
    m: M,
    ops: Ops,
    den: i64,
    /// type whose standard setting these operations are
    std: Option<usize>,
}

/// `ops`: exact operations in the base basis if the base is primitive and they are known.
fn truth(s: &Structure, c: &Crystal, l0: &Matrix3<f64>, ops: Option<&Ops>, dtol: f64, rec: &mut Rec) -> Result<Truth, String> {
    rec.step();
    let std = call(|| analyzer(dtol).get_standard_primitive_structure(s)).map_err(|m| format!("standard primitive cell: {}", m))?;
    let seen = see(&std, c, l0, 1e-6)?;
    same_crystal(&seen, c)?;
    if !primitive_volume(&seen, c) || std.lattice.determinant() <= 0.0 {
        return Err("the standard primitive cell is not a right-handed primitive cell".into());
    }
    let (ops, den) = match ops {
        Some(o) => (rebase(o, c.den, &seen.m, c.den).ok_or("operations leave the grid")?, c.den),
        None => {
            let p = in_seen(c, &seen.m);
            (p.space_group().into_iter().collect(), p.den)
        }
    };
    // a lattice that is by accident more symmetric than the type needs puts the crystal outside the standard settings
    let h = holohedry(&gram(&c.g, &seen.m)).len();
    let std = to_den(&ops, den).and_then(|o| lookup(&o)).filter(|n| h == lattice_order(*n));
    Ok(Truth { m: seen.m, ops, den, std })
}

/// Number of symmetries of the lattices of type n.
fn lattice_order(n: usize) -> usize {
    match n {
        1..=2 => 2,
        3..=15 => 4,
        16..=74 => 8,
        75..=142 => 16,
        143..=167 if SG[n - 1].0 == 'R' => 12,
        143..=194 => 24,
        _ => 48,
    }
}

fn identify(s: &Structure, dtol: f64, rec: &mut Rec) -> Result<(usize, String, SpaceGroup), String> {
    rec.step();
    call(|| analyzer(dtol).get_space_group_info(s)).map(|(n, t, g)| (n as usize, t, g))
}

/// The group a right-handed primitive description really has must be type `n`.
fn check_sound(t: &Truth, n: usize, symbol: &str, known: Option<usize>) -> Result<(), String> {
    if let Some(k) = known {
        if n != k {
            return Err(format!("reported as space group {} ({}) but is {} ({})", n, symbol, k, HM[k - 1]));
        }
    } else if n == 0 || n > 230 || (t.std != Some(n) && !same_type(&t.ops, t.den, n)) {
        return Err(format!("reported as space group {} ({}) but has {} operations that are not of that type", n, symbol, t.ops.len()));
    }
    if !symbol_ok(n, symbol) {
        return Err(format!("space group {} reported with symbol {} instead of {}", n, symbol, HM[n - 1]));
    }
    Ok(())
}

fn check_ops(t: &Truth, sg: &SpaceGroup, c: &Crystal, p: &M, rec: &mut Rec) -> Result<(), String> {
    // input basis in terms of the standard primitive one: den * adj(m) * p / det(m)
    let d = det(&t.m);
    let x = mul(&adj(&t.m), p).map(|r| r.map(|v| v * c.den));
    if x.iter().any(|r| r.iter().any(|v| v % d != 0)) {
        return Err("input cell is not a supercell of the standard primitive cell".into());
    }
    let (want, nd) = transform(&t.ops, t.den, &x.map(|r| r.map(|v| v / d)));
    let got = read_ops(sg, nd, 1e-6)?;
    rec.steps(got.len() as u64);
    if got != want {
        return Err(format!("reported operations: {}", describe_diff(&got, &want)));
    }
    Ok(())
}

#[derive(Clone, Copy, PartialEq)]
pub enum Judge {
    Sound,
    Complete,
    Ops,
    Mirror,
}

/// Describe the crystal in basis p of l0 and judge the answer.
#[allow(clippy::too_many_arguments)]
pub fn judge(j: Judge, c: &Crystal, ops: Option<&Ops>, known: Option<usize>, l0: &Matrix3<f64>, p: &M, dtol: f64, rec: &mut Rec) -> Result<(), String> {
    let s = realize(c, l0, p);
    rec.state(&(c.g, &c.atoms, p, l0[(0, 0)] < 0.0));
    let t = truth(&s, c, l0, ops, dtol, rec)?;
    let r = identify(&s, dtol, rec);
    let kind = match (&r, t.std) {
        (Ok(_), _) => "identified",
        (Err(_), None) => "refused, not in a standard setting",
        (Err(_), Some(_)) => "refused, in a standard setting",
    };
    rec.label(kind);
    match j {
        Judge::Sound => {
            if let Ok((n, symbol, _)) = &r {
                check_sound(&t, *n, symbol, known)?;
                rec.label(&format!("type {:03}", n));
            }
        }
        Judge::Complete | Judge::Mirror => {
            if let (Some(k), Some(n)) = (known, t.std) {
                if k != n {
                    return Err(format!("standard primitive cell shows type {} for a crystal of type {}", n, k));
                }
            }
            if let Some(n) = t.std {
                match &r {
                    Ok((m, _, _)) if *m == n => {}
                    Ok((m, _, _)) => return Err(format!("type {} in its standard setting is reported as {}", n, m)),
                    Err(e) => return Err(format!("type {} in its standard setting is refused: {}", n, e)),
                }
                rec.label(&format!("type {:03}", n));
            }
            if j == Judge::Mirror {
                if let Ok((n, symbol, _)) = &r {
                    check_sound(&t, *n, symbol, known)?;
                }
            }
        }
        Judge::Ops => {
            match &r {
                Ok((n, _, sg)) => {
                    check_ops(&t, sg, c, p, rec)?;
                    rec.label(&format!("type {:03}", n));
                }
                Err(e) if t.std.is_some() => return Err(format!("no operations in a standard setting: {}", e)),
                Err(_) => {}
            }
        }
    }
    Ok(())
}

fn max_bases() -> usize {
    32
}

/// Crystals of all types: metrics x decorations x bases.
fn fam_types(j: Judge, nk: usize, nd: usize, cap: usize, mirror: bool) -> Fam<'static> {
    Fam {
        name: if mirror { "mirrored" } else { "types" },
        dims: vec![nd, nk, max_bases(), 230],
        run: Box::new(move |ix, rec| {
            let n = ix[3] + 1;
            if ix[1] >= metrics(n).len() || ix[2] >= bases(n, ix[1]).len() {
                return Ok(());
            }
            let Some(k) = known(n, ix[1], ix[0]) else { return Ok(()) };
            let p = &bases(n, ix[1])[ix[2]];
            if k.c.atoms.len() as i64 * det(p).abs() > cap as i64 {
                return Ok(());
            }
            let q = orientations()[(ix[2] + ix[1]) % 7];
            let mut l0 = lattice(&k.c.g, k.unit, &q);
            let mut ty = n;
            if mirror {
                l0 = Matrix3::from_diagonal(&nalgebra::Vector3::new(-1.0, 1.0, 1.0)) * l0;
                ty = partner(n);
            }
            judge(j, &k.c, Some(&k.ops), Some(ty), &l0, p, DTOL, rec)
        }),
        desc: Box::new(move |ix| {
            let n = ix[3] + 1;
            format!("type {} metric {} decoration {} basis {:?} {}", n, ix[1], ix[0], bases(n, ix[1]).get(ix[2]), if mirror { "mirrored" } else { "" })
        }),
    }
}

/// Supercells of all types.
fn fam_super(j: Judge, nk: usize, max: i64, cap: usize) -> Fam<'static> {
    let mut hs = vec![];
    for n in 2..=max {
        hs.extend(hnfs(n));
    }
    let h2 = hs.clone();
    Fam {
        name: "supercells",
        dims: vec![nk, hs.len(), 230],
        run: Box::new(move |ix, rec| {
            let n = ix[2] + 1;
            if ix[0] >= metrics(n).len() {
                return Ok(());
            }
            let Some(k) = known(n, ix[0], 0) else { return Ok(()) };
            let p = &hs[ix[1]];
            if k.c.atoms.len() as i64 * det(p).abs() > cap as i64 {
                return Ok(());
            }
            let l0 = lattice(&k.c.g, k.unit, &orientations()[ix[1] % 7]);
            judge(j, &k.c, Some(&k.ops), Some(n), &l0, p, DTOL, rec)
        }),
        desc: Box::new(move |ix| format!("type {} metric {} supercell {:?}", ix[2] + 1, ix[0], h2[ix[1]])),
    }
}

fn fam_scale(j: Judge) -> Fam<'static> {
    let scales = [1.0, 0.7, 2.5, 6.0];
    let tols = [0.05, 0.01, 0.1, 1e-3];
    Fam {
        name: "scales",
        dims: vec![4, 4, 230],
        run: Box::new(move |ix, rec| {
            let n = ix[2] + 1;
            let Some(k) = known(n, 0, 0) else { return Ok(()) };
            let l0 = lattice(&k.c.g, k.unit * scales[ix[0]], &orientations()[3]);
            judge(j, &k.c, Some(&k.ops), Some(n), &l0, &ID, tols[ix[1]], rec)
        }),
        desc: Box::new(move |ix| format!("type {} scale {} tolerance {}", ix[2] + 1, scales[ix[0]], tols[ix[1]])),
    }
}

/// All decorations of the 2x2x2 grid on simple lattices.
fn fam_grid(j: Judge, forms: Vec<M>, max_atoms: usize, nb: usize) -> Fam<'static> {
    let codes = grid_codes(max_atoms);
    let (f2, c2) = (forms.clone(), codes.clone());
    Fam {
        name: "grid",
        dims: vec![nb, forms.len(), codes.len()],
        run: Box::new(move |ix, rec| {
            let c = crystal(&forms[ix[1]], 2, &grid_motif(codes[ix[2]]));
            let l0 = lattice(&c.g, 4.0, &orientations()[ix[0] % 7]);
            judge(j, &c, None, None, &l0, &few_bases()[ix[0]], DTOL, rec)
        }),
        desc: Box::new(move |ix| format!("form {:?} decoration {:?} basis {:?}", f2[ix[1]], grid_motif(c2[ix[2]]), few_bases()[ix[0]])),
    }
}

/// Supercells elongated along one axis.
fn fam_long(j: Judge, ns: &'static [i64], nf: usize) -> Fam<'static> {
    // triclinic to cubic, shortest vectors of 3 to 5 length units
    const G: [M; 6] = [
        [[4, 0, 0], [0, 4, 0], [0, 0, 4]],
        [[4, 0, 0], [0, 5, 0], [0, 0, 6]],
        [[4, -2, 0], [-2, 4, 0], [0, 0, 5]],
        [[4, 0, -1], [0, 5, 0], [-1, 0, 6]],
        [[4, 1, 1], [1, 5, 2], [1, 2, 6]],
        [[4, 2, 2], [2, 4, 2], [2, 2, 4]],
    ];
    Fam {
        name: "long",
        dims: vec![ns.len(), 3, nf, 2],
        run: Box::new(move |ix, rec| {
            let a: &[(V, u8)] = if ix[3] == 0 { &[([0, 0, 0], 0)] } else { &[([0, 0, 0], 0), ([1, 1, 1], 1)] };
            // entries of the rotations have to fit eight bits
            if ns[ix[0]] > 127 && [2, 5].contains(&ix[2]) {
                return Ok(());
            }
            let c = crystal(&G[ix[2]], 2, a);
            let mut p = ID;
            p[ix[1]][ix[1]] = ns[ix[0]];
            judge(j, &c, None, None, &lattice(&c.g, 1.25, &orientations()[3]), &p, 0.1, rec)
        }),
        desc: Box::new(move |ix| format!("form {:?} elongated {} times along axis {}, {} sites", G[ix[2]], ns[ix[0]], ix[1], ix[3] + 1)),
    }
}

/// Crystals of all types with the origin elsewhere.
fn fam_origin(j: Judge, steps: &'static [i64], nk: usize, cap: usize) -> Fam<'static> {
    let shift = move |i: usize| -> V { [steps[i % steps.len()], steps[i / steps.len() % steps.len()], steps[i / steps.len() / steps.len()]] };
    Fam {
        name: "origins",
        dims: vec![steps.len().pow(3), nk, 230],
        run: Box::new(move |ix, rec| {
            let n = ix[2] + 1;
            if ix[1] >= metrics(n).len() {
                return Ok(());
            }
            let Some(k) = known(n, ix[1], 0) else { return Ok(()) };
            let p = &bases(n, ix[1])[ix[0] % bases(n, ix[1]).len()];
            if k.c.atoms.len() as i64 * det(p).abs() > cap as i64 {
                return Ok(());
            }
            let s = shift(ix[0]);
            let mut c = k.c.clone();
            for a in c.atoms.iter_mut() {
                a.0 = [0, 1, 2].map(|i| (a.0[i] + s[i]).rem_euclid(c.den));
            }
            // x -> R (x - s) + t + s
            let ops: Ops = k
                .ops
                .iter()
                .map(|(r, t)| {
                    let rs = mulv(r, &s);
                    (*r, [0, 1, 2].map(|i| (t[i] + s[i] - rs[i]).rem_euclid(c.den)))
                })
                .collect();
            judge(j, &c, Some(&ops), Some(n), &lattice(&c.g, k.unit, &orientations()[ix[0] % 7]), p, DTOL, rec)
        }),
        desc: Box::new(move |ix| format!("type {} metric {} origin moved by {:?}", ix[2] + 1, ix[1], shift(ix[0]))),
    }
}

fn grid_forms(k: i64) -> Vec<M> {
    niggli_forms(k)
}

pub fn c18(ctx: &Ctx) -> Space<'static> {
    let cap = ctx.pick(24, 64);
    Space {
        fams: vec![
            fam_types(Judge::Sound, ctx.pick(6, 36), ctx.pick(2, 3), cap, false),
            fam_grid(Judge::Sound, grid_forms(ctx.pick(2, 3)), ctx.pick(4, 8), ctx.pick(2, 4)),
            fam_super(Judge::Sound, ctx.pick(1, 3), ctx.pick(3, 4), cap),
            fam_scale(Judge::Sound),
            fam_origin(Judge::Sound, ctx.pick(&[0, 3, 10, 11], &[0, 1, 3, 6, 8, 10, 11, 12]), ctx.pick(1, 3), cap),
        ],
        bounds: "230 types x up to 6 (36) metrics x 2 (3) decorations x up to 32 bases (primitive, conventional, every distinct turn of the lattice, skewed, left-handed); every grid decoration up to 4 (8) atoms on all lattices C<=2 (3) in 2 (4) bases; supercells up to index 3 (4); 4 scales x 4 tolerances; 64 (512) origins of every type in 1 (3) metrics".into(),
        assumptions: vec!["crystals with exact coordinates".into()],
        post: None,
    }
}

pub fn c19(ctx: &Ctx) -> Space<'static> {
    let cap = ctx.pick(24, 64);
    Space {
        fams: vec![
            fam_types(Judge::Complete, ctx.pick(6, 36), ctx.pick(2, 3), cap, false),
            fam_super(Judge::Complete, ctx.pick(1, 3), ctx.pick(3, 4), cap),
            fam_grid(Judge::Complete, grid_forms(ctx.pick(2, 3)), ctx.pick(4, 8), ctx.pick(2, 4)),
            fam_scale(Judge::Complete),
            fam_long(Judge::Complete, ctx.pick(&[26], &[7, 11, 16, 24, 28, 34, 40]), ctx.pick(2, 6)),
        ],
        bounds: "as C18, and simple crystals elongated 26 (up to 40) times along each axis; a description is required to be identified when its exact operations in the standard primitive cell are those of the standard setting; every one of the 230 types has to occur".into(),
        assumptions: vec!["crystals with exact coordinates".into()],
        post: Some(Box::new(|l| {
            let missing: Vec<usize> = (1..=230).filter(|n| !l.contains_key(&format!("type {:03}", n))).collect();
            if missing.is_empty() {
                Ok(())
            } else {
                Err(format!("types never identified in any description: {:?}", missing))
            }
        })),
    }
}

pub fn c20(ctx: &Ctx) -> Space<'static> {
    let cap = ctx.pick(32, 96);
    Space {
        fams: vec![
            fam_long(Judge::Ops, ctx.pick(&[8, 26, 230], &[7, 11, 16, 24, 28, 34, 40, 125, 230]), ctx.pick(3, 6)),
            fam_types(Judge::Ops, ctx.pick(3, 18), ctx.pick(1, 2), cap, false),
            fam_super(Judge::Ops, ctx.pick(1, 3), ctx.pick(4, 6), cap),
            fam_grid(Judge::Ops, grid_forms(ctx.pick(2, 3)), ctx.pick(4, 8), ctx.pick(2, 8)),
            fam_scale(Judge::Ops),
            fam_origin(Judge::Ops, ctx.pick(&[0, 3, 10, 11], &[0, 1, 3, 6, 8, 10, 11, 12]), ctx.pick(1, 3), cap),
        ],
        bounds: "all operations of every identified description: 230 types x 3 (18) metrics x 1 (2) decorations x up to 32 bases; supercells up to index 4 (6); every grid decoration up to 4 (8) atoms on all lattices C<=2 (3) in 2 (8) bases; 4 scales x 4 tolerances; 64 (512) origins of every type in 1 (3) metrics; simple crystals elongated up to 26 (40) and 230 times along each axis".into(),
        assumptions: vec!["rotations whose entries fit eight bits".into(), "crystals with exact coordinates".into()],
        post: Some(Box::new(|l| {
            let n = (1..=230).filter(|n| l.contains_key(&format!("type {:03}", n))).count();
            if n == 230 {
                Ok(())
            } else {
                Err(format!("only {} types were identified in any description", n))
            }
        })),
    }
}

pub fn c26(ctx: &Ctx) -> Space<'static> {
    let cap = ctx.pick(24, 64);
    Space {
        fams: vec![fam_types(Judge::Mirror, ctx.pick(3, 12), ctx.pick(2, 3), cap, true), fam_types(Judge::Mirror, ctx.pick(2, 12), ctx.pick(1, 3), cap, false)],
        bounds: "230 types x up to 3 (12) metrics x 2 (3) decorations x up to 32 bases of both handedness, original and mirrored".into(),
        assumptions: vec!["crystals with exact coordinates".into()],
        post: Some(Box::new(|l| {
            let missing: Vec<usize> = (1..=230).filter(|n| partner(*n) != *n && !l.contains_key(&format!("type {:03}", n))).collect();
            if missing.is_empty() {
                Ok(())
            } else {
                Err(format!("chiral types never identified: {:?}", missing))
            }
        })),
    }
}
