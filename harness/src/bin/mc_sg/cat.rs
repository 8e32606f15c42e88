//! Catalogue of crystals with known space-group type, and exact space-group algebra.
use mc::model::*;
use mc::sgdata::SG;
use crystsymm::spacegroup::SpaceGroup;
use crystsymm::symmop::SymmOp;
use nalgebra::{Matrix3, Vector3};
use std::collections::BTreeSet;
use std::sync::OnceLock;

pub type Ops = BTreeSet<(M, V)>;
pub const DEN: i64 = 24;

pub fn cent_matrix(c: char) -> (M, i64) {
    match c {
        'P' => (ID, 1),
        'C' => ([[1, 1, 0], [-1, 1, 0], [0, 0, 2]], 2),
        'I' => ([[-1, 1, 1], [1, -1, 1], [1, 1, -1]], 2),
        'F' => ([[0, 1, 1], [1, 0, 1], [1, 1, 0]], 2),
        'R' => ([[2, -1, -1], [1, 1, -2], [1, 1, 1]], 3),
        'A' => ([[2, 0, 0], [0, 1, -1], [0, 1, 1]], 2),
        _ => panic!(),
    }
}

/// The operations (translations over `den`) written in the basis with columns m/k, translations again over `den`;
/// operations that do not map the new lattice onto itself are dropped, the translations of a larger cell are not added.
/// None if a translation leaves the grid.
pub fn rebase(ops: &Ops, den: i64, m: &M, k: i64) -> Option<Ops> {
    let (a, d) = (adj(m), det(m));
    let mut out = BTreeSet::new();
    'op: for (r, t) in ops {
        let x = mul(&mul(&a, r), m);
        let mut q = [[0; 3]; 3];
        for i in 0..3 {
            for j in 0..3 {
                if x[i][j] % d != 0 {
                    continue 'op;
                }
                q[i][j] = x[i][j] / d;
            }
        }
        let y = mulv(&a, t).map(|v| v * k);
        if y.iter().any(|v| v % d != 0) {
            return None;
        }
        out.insert((q, y.map(|v| (v / d).rem_euclid(den))));
    }
    Some(out)
}

/// Standard setting of type n in its primitive basis, translations over DEN.
pub fn reference(n: usize) -> &'static Ops {
    static R: OnceLock<Vec<Ops>> = OnceLock::new();
    &R.get_or_init(|| {
        (1..=230)
            .map(|n| {
                let (m, k) = cent_matrix(SG[n - 1].0);
                rebase(&sg_ops(n, DEN).into_iter().collect(), DEN, &m, k).unwrap()
            })
            .collect()
    })[n - 1]
}

/// The same with the axes of A-centred types renamed (c,-b,a) so that the cell is C-centred, as the lattice types list it.
pub fn reference_c(n: usize) -> &'static Ops {
    static R: OnceLock<Vec<Ops>> = OnceLock::new();
    &R.get_or_init(|| {
        (1..=230)
            .map(|n| {
                if SG[n - 1].0 != 'A' {
                    return reference(n).clone();
                }
                let ops: Ops = sg_ops(n, DEN).into_iter().collect();
                // new axes (c, -b, a) of the old cell
                let p = [[0, 0, 1], [0, -1, 0], [1, 0, 0]];
                let c = rebase(&ops, DEN, &p, 1).unwrap();
                let (m, k) = cent_matrix('C');
                rebase(&c, DEN, &m, k).unwrap()
            })
            .collect()
    })[n - 1]
}

/// Type whose standard setting has exactly these operations (primitive basis).
pub fn lookup(ops: &Ops) -> Option<usize> {
    static R: OnceLock<std::collections::BTreeMap<Ops, usize>> = OnceLock::new();
    let map = R.get_or_init(|| {
        let mut m = std::collections::BTreeMap::new();
        for n in 1..=230 {
            m.insert(reference_c(n).clone(), n);
        }
        assert_eq!(m.len(), 230);
        m
    });
    map.get(ops).copied()
}

pub fn im(m: &Matrix3<i8>) -> M {
    [0, 1, 2].map(|i| [0, 1, 2].map(|j| m[(i, j)] as i64))
}

pub fn symmop(r: &M, t: &V, den: i64) -> SymmOp {
    SymmOp {
        rotation: Matrix3::from_fn(|i, j| r[i][j] as i8),
        translation: Vector3::new(t[0] as f64, t[1] as f64, t[2] as f64) / den as f64,
    }
}

/// Read the operations of a returned space group onto the grid 1/den.
pub fn read_ops(sg: &SpaceGroup, den: i64, slack: f64) -> Result<Ops, String> {
    let mut out = BTreeSet::new();
    for o in &sg.operations {
        let mut t = [0; 3];
        for i in 0..3 {
            let x = o.translation[i] * den as f64;
            if !((x - x.round()).abs() <= slack * den as f64) {
                return Err(format!("translation {:?} of an operation is off the grid of the crystal", o.translation));
            }
            t[i] = (x.round() as i64).rem_euclid(den);
        }
        if !out.insert((im(&o.rotation), t)) {
            return Err(format!("operation {:?} {:?}/{} is listed twice", im(&o.rotation), t, den));
        }
    }
    Ok(out)
}

pub fn describe_diff(got: &Ops, want: &Ops) -> String {
    format!("{} operations instead of {}; missing {:?}; not a symmetry {:?}", got.len(), want.len(), want.difference(got).next(), got.difference(want).next())
}

/// Conventional metrics per crystal system, most generic first.
pub fn metrics(n: usize) -> Vec<M> {
    let perms = [[0, 1, 2], [1, 2, 0], [2, 0, 1], [0, 2, 1], [2, 1, 0], [1, 0, 2]];
    let mut v = vec![];
    match n {
        1..=2 => {
            v.push([[7, -1, -2], [-1, 9, -3], [-2, -3, 12]]);
            v.push([[7, 1, 2], [1, 9, 3], [2, 3, 12]]);
            v.push([[12, -3, -2], [-3, 9, -1], [-2, -1, 7]]);
            v.push([[9, 4, 1], [4, 10, 2], [1, 2, 30]]);
        }
        3..=15 => {
            for pd in [[7, 9, 12], [6, 14, 25]] {
                for off in [-2, -3, 2] {
                    for p in perms {
                        v.push([[pd[p[0]], 0, off], [0, pd[p[1]], 0], [off, 0, pd[p[2]]]]);
                    }
                }
            }
        }
        16..=74 => {
            for pd in [[7, 9, 12], [6, 14, 25], [10, 11, 30]] {
                for p in perms {
                    v.push([[pd[p[0]], 0, 0], [0, pd[p[1]], 0], [0, 0, pd[p[2]]]]);
                }
            }
        }
        75..=142 => {
            for (a, c) in [(7, 11), (11, 7), (7, 24), (9, 10), (30, 7), (7, 13)] {
                v.push([[a, 0, 0], [0, a, 0], [0, 0, c]]);
            }
        }
        143..=194 => {
            for (a, c) in [(8, 11), (12, 7), (8, 60), (8, 9), (40, 7), (8, 30)] {
                v.push([[a, -a / 2, 0], [-a / 2, a, 0], [0, 0, c]]);
            }
        }
        _ => {
            v.push([[8, 0, 0], [0, 8, 0], [0, 0, 8]]);
            v.push([[20, 0, 0], [0, 20, 0], [0, 0, 20]]);
        }
    }
    v
}

const SEEDS: [V; 47] = [
    [0, 0, 0], [6, 6, 6], [3, 3, 3], [12, 0, 0], [0, 12, 0], [0, 0, 12], [12, 12, 0], [0, 12, 12], [12, 0, 12], [12, 12, 12], [2, 0, 0], [0, 2, 0], [0, 0, 2], [3, 0, 0], [0, 3, 0], [0, 0, 3],
    [2, 2, 0], [2, 0, 2], [0, 2, 2], [2, 2, 2], [3, 5, 0], [0, 3, 5], [3, 0, 5], [3, 3, 5], [5, 3, 3], [3, 5, 3], [2, 3, 5], [2, 5, 9], [1, 4, 9], [8, 16, 0], [8, 16, 6], [8, 16, 3], [6, 0, 3],
    [6, 3, 0], [0, 6, 3], [3, 6, 0], [3, 0, 6], [0, 3, 6], [6, 6, 3], [12, 3, 0], [3, 12, 0], [0, 12, 3], [12, 0, 3], [6, 0, 0], [0, 6, 0], [0, 0, 6], [6, 12, 3],
];

/// Decorations of type n: 0 few atoms, 1 a general position, 2 two general positions of different species.
fn decoration(n: usize, d: usize) -> &'static Option<Vec<(V, u8)>> {
    static T: OnceLock<Vec<OnceLock<Option<Vec<(V, u8)>>>>> = OnceLock::new();
    let t = T.get_or_init(|| (0..230 * 3).map(|_| OnceLock::new()).collect());
    t[(n - 1) * 3 + d].get_or_init(|| {
        let g = metrics(n)[0];
        let ops = sg_ops(n, DEN);
        let seeds: Vec<V> = match d {
            0 => SEEDS.to_vec(),
            1 => vec![[2, 3, 5], [2, 5, 9], [1, 4, 9], [5, 1, 10], [7, 3, 2]],
            _ => vec![[1, 4, 10], [4, 9, 2], [3, 10, 5], [7, 1, 3]],
        };
        if d == 0 {
            let mut best = decorate(&g, &ops, DEN, &seeds, 4)?;
            best.atoms.sort();
            return Some(best.atoms);
        }
        // general positions, however symmetric the lattice they look like
        let mut gen: Vec<V> = vec![];
        for s in seeds {
            let o = orbit(&ops, &s, DEN);
            if o.len() == ops.len() {
                gen.push(s);
            }
        }
        for k in d..=gen.len() {
            let mut atoms: Vec<(V, u8)> = vec![];
            for (i, s) in gen[..k].iter().enumerate() {
                for v in orbit(&ops, s, DEN) {
                    if atoms.iter().any(|x| x.0 == v) {
                        return None;
                    }
                    atoms.push((v, i as u8));
                }
            }
            let c = Crystal { g, den: DEN, atoms: atoms.clone() };
            if c.space_group().len() == ops.len() {
                return Some(atoms);
            }
        }
        None
    })
}

/// A crystal of known type in its primitive basis, with its exact operations.
#[derive(Clone, Debug)]
pub struct Known {
    pub c: Crystal,
    pub ops: Ops,
    /// length of the metric's unit
    pub unit: f64,
}

/// Proper rotations of the conventional lattice that give distinct orientations of type n on it.
fn turns(n: usize, k: usize) -> &'static Vec<M> {
    static T: OnceLock<Vec<OnceLock<Vec<M>>>> = OnceLock::new();
    let t = T.get_or_init(|| (0..231 * 40).map(|_| OnceLock::new()).collect());
    t[n * 40 + k].get_or_init(|| {
        let ops: Ops = sg_ops(n, DEN).into_iter().collect();
        let mut seen: BTreeSet<Ops> = BTreeSet::new();
        let mut hs = holohedry(&metrics(n)[k]);
        hs.sort_by_key(|w| (w != &ID, *w));
        hs.retain(|w| det(w) == 1);
        hs.retain(|w| seen.insert(rebase(&ops, DEN, w, 1).unwrap()));
        hs
    })
}

/// Crystal number (metric k, decoration d) of type n.
pub fn known(n: usize, k: usize, d: usize) -> Option<&'static Known> {
    static T: OnceLock<Vec<OnceLock<Option<Known>>>> = OnceLock::new();
    let t = T.get_or_init(|| (0..231 * 40 * 3).map(|_| OnceLock::new()).collect());
    t[(n * 40 + k) * 3 + d]
        .get_or_init(|| {
            let g = *metrics(n).get(k)?;
            let atoms = decoration(n, d).as_ref()?;
            let (m, kk) = cent_matrix(SG[n - 1].0);
            let dm = det(&m);
            let conv = adj(&m).map(|r| r.map(|x| x * kk / dm));
            let set: BTreeSet<(V, u8)> = atoms.iter().map(|(v, s)| (vmod(&mulv(&conv, v), DEN), *s)).collect();
            let mut c = Crystal { g: gram(&g, &m), den: DEN, atoms: set.into_iter().collect() };
            c.atoms.sort_by_key(|a| (a.1, a.0));
            // the lattice must not be more symmetric by accident, nor the decoration
            let ops: Ops = c.space_group().into_iter().collect();
            if &ops != reference(n) {
                return None;
            }
            Some(Known { c, ops, unit: 3.0 / kk as f64 })
        })
        .as_ref()
}

/// Bases in which the crystal (n, metric k) is described: conventional, primitive, turned, skewed, left-handed.
pub fn bases(n: usize, k: usize) -> &'static Vec<M> {
    static T: OnceLock<Vec<OnceLock<Vec<M>>>> = OnceLock::new();
    let t = T.get_or_init(|| (0..231 * 40).map(|_| OnceLock::new()).collect());
    t[n * 40 + k].get_or_init(|| {
        let (m, kk) = cent_matrix(SG[n - 1].0);
        let dm = det(&m);
        let conv = adj(&m).map(|r| r.map(|x| x * kk / dm));
        let mut v = vec![ID, conv];
        for w in turns(n, k).iter().skip(1) {
            v.push(mul(&conv, w));
        }
        for u in mc::alpha::few_bases().iter().skip(1) {
            v.push(*u);
        }
        v
    })
}

/// The crystal in the basis with columns m/den (a returned cell), exact, on a grid that contains 1/24.
pub fn in_seen(c: &Crystal, m: &M) -> Crystal {
    let (a, d) = (adj(m), det(m));
    let ad = d.abs();
    let gcd = |mut x: i64, mut y: i64| {
        while y != 0 {
            (x, y) = (y, x % y);
        }
        x
    };
    let f = DEN / gcd(ad, DEN);
    let mut set = BTreeSet::new();
    // atoms of all base cells that fall into the returned cell
    for (v, s) in &c.atoms {
        set.insert((vmod(&mulv(&a, v).map(|x| x * d.signum() * f), ad * f), *s));
    }
    Crystal { g: gram(&c.g, m), den: ad * f, atoms: set.into_iter().collect() }
}

/// Translations moved from grid `den` to DEN, if they fit.
pub fn to_den(ops: &Ops, den: i64) -> Option<Ops> {
    ops.iter()
        .map(|(r, t)| if t.iter().all(|x| x * DEN % den == 0) { Some((*r, t.map(|x| x * DEN / den))) } else { None })
        .collect()
}

/// Is the group `ops` (primitive basis, over DEN) of type n?  Exhaustive over small basis changes and grid origins.
pub fn same_type(ops: &Ops, den: i64, n: usize) -> bool {
    let want = reference(n);
    if ops.len() != want.len() {
        return false;
    }
    let rots: BTreeSet<M> = want.iter().map(|o| o.0).collect();
    static U: OnceLock<Vec<M>> = OnceLock::new();
    for u in U.get_or_init(|| matrices(1, |d| d == 1)) {
        let Some(q) = rebase(ops, den, u, 1) else { continue };
        if q.iter().map(|o| o.0).collect::<BTreeSet<M>>() != rots {
            continue;
        }
        let w: std::collections::BTreeMap<M, V> = want.iter().map(|(r, t)| (*r, t.map(|x| x * (den / DEN)))).collect();
        for i in 0..den {
            for j in 0..den {
                for k in 0..den {
                    let s = [i, j, k];
                    // moving the origin by s changes t to t + (R - 1) s
                    if q.iter().all(|(r, t)| {
                        let x = mulv(r, &s);
                        let z = w[r];
                        (0..3).all(|a| (t[a] + x[a] - s[a] - z[a]).rem_euclid(den) == 0)
                    }) {
                        return true;
                    }
                }
            }
        }
    }
    false
}
