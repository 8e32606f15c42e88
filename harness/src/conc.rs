//! Bridge between the exact model and the code under test.
use crate::model::*;
use crystsymm::structure::Structure;
use nalgebra::{Matrix3, Vector3};
use std::collections::BTreeSet;

pub fn fm(p: &M) -> Matrix3<f64> {
    Matrix3::from_fn(|i, j| p[i][j] as f64)
}

/// A lattice matrix (columns = basis vectors) whose metric tensor is g.
pub fn chol(g: &M) -> Matrix3<f64> {
    fm(g).cholesky().unwrap().l().transpose()
}

/// Several with a common beginning, two that differ in case only.
pub const NAMES: [&str; 13] = ["Co", "CO", "C", "Cs", "O", "Zn", "Ag", "Os", "Ni", "H", "He", "Sn", "S"];

/// Concrete structure: base lattice `l0` (float, columns), described in basis p.
pub fn realize(c: &Crystal, l0: &Matrix3<f64>, p: &M) -> Structure {
    let mut cc = c.in_basis(p);
    // sites listed in an order that mixes the species
    cc.atoms.sort_by_key(|(v, _)| ((v[0] * 7 + v[1] * 11 + v[2] * 13).rem_euclid(17), *v));
    let lat = l0 * fm(p);
    let coords = cc.atoms.iter().map(|(v, _)| Vector3::from_iterator(v.iter().map(|x| *x as f64 / cc.den as f64))).collect();
    let species = cc.atoms.iter().map(|(_, s)| NAMES[*s as usize].to_string()).collect();
    Structure::new(lat, species, coords, false)
}

/// What the exact model sees of a structure returned by the code under test.
#[derive(Debug, Clone)]
pub struct Seen {
    /// lattice columns in the base basis, numerators over c.den
    pub m: M,
    /// sites in the base basis, numerators over c.den (not reduced)
    pub sites: Vec<(V, u8)>,
}

/// Round a returned structure onto the model grid.  Err if anything is off-grid by more than `slack` (in base fractional units).
pub fn see(s: &Structure, c: &Crystal, l0: &Matrix3<f64>, slack: f64) -> Result<Seen, String> {
    let inv = l0.try_inverse().unwrap();
    let n = c.den as f64;
    let mf = inv * s.lattice * n;
    let mut m = [[0i64; 3]; 3];
    for i in 0..3 {
        for j in 0..3 {
            let x = mf[(i, j)];
            if !x.is_finite() || (x - x.round()).abs() > slack * n {
                return Err(format!("lattice vector {} is not a translation of the crystal: base component {} = {}", j, i, x / n));
            }
            m[i][j] = x.round() as i64;
        }
    }
    if s.species.len() != s.coords.len() || s.species.len() != s.frac_coords.len() {
        return Err(format!("field lengths differ: {} {} {}", s.species.len(), s.coords.len(), s.frac_coords.len()));
    }
    let mut sites = vec![];
    for (i, f) in s.frac_coords.iter().enumerate() {
        let cart = s.lattice * f;
        if !((cart - s.coords[i]).norm() < 1e-6) {
            return Err(format!("site {}: coords {:?} != lattice*frac {:?}", i, s.coords[i], cart));
        }
        let b = inv * cart * n;
        let mut v = [0i64; 3];
        for k in 0..3 {
            if !b[k].is_finite() || (b[k] - b[k].round()).abs() > slack * n {
                return Err(format!("site {} is not on a crystal site: base component {} = {}", i, k, b[k] / n));
            }
            v[k] = b[k].round() as i64;
        }
        let sp = NAMES.iter().position(|x| *x == s.species[i]).ok_or(format!("unknown species {}", s.species[i]))?;
        sites.push((v, sp as u8));
    }
    Ok(Seen { m, sites })
}

/// Exactly the same infinite crystal?
pub fn same_crystal(o: &Seen, c: &Crystal) -> Result<(), String> {
    let n = c.den;
    let tr: BTreeSet<V> = c.translations().into_iter().collect();
    let d = det(&o.m);
    if d == 0 {
        return Err("singular output lattice".into());
    }
    for j in 0..3 {
        let col = [o.m[0][j], o.m[1][j], o.m[2][j]];
        if !tr.contains(&vmod(&col, n)) {
            return Err(format!("lattice vector {} = {:?}/{} is not a translation of the crystal", j, col, n));
        }
    }
    let set: BTreeSet<(V, u8)> = c.atoms.iter().map(|(v, s)| (vmod(v, n), *s)).collect();
    let a = adj(&o.m);
    let mut seen = BTreeSet::new();
    for (v, s) in &o.sites {
        if !set.contains(&(vmod(v, n), *s)) {
            return Err(format!("site {:?}/{} species {} is not an atom of the crystal", v, n, NAMES[*s as usize]));
        }
        // modulo the output lattice
        let y = mulv(&a, v).map(|x| (x * d.signum()).rem_euclid(d.abs()));
        if !seen.insert((y, *s)) {
            return Err(format!("site {:?} listed twice", v));
        }
    }
    // density: sites / volume
    if o.sites.len() as i64 * n * n * n != c.atoms.len() as i64 * d.abs() {
        return Err(format!("{} sites in a cell that holds {}/{}", o.sites.len(), c.atoms.len() as i64 * d.abs(), n * n * n));
    }
    Ok(())
}

pub fn primitive_volume(o: &Seen, c: &Crystal) -> bool {
    det(&o.m).abs() * c.translations().len() as i64 == c.den.pow(3)
}
