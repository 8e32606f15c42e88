//! Finite alphabets shared by the properties.
use crate::model::*;
use nalgebra::{Matrix3, Vector3};

/// Rotation matrices from small integer quaternions: the identity, axis swaps and generic orientations.
pub fn orientations() -> Vec<Matrix3<f64>> {
    [(1, 0, 0, 0), (1, 1, 0, 0), (1, 1, 1, 1), (2, 1, 0, 1), (1, 2, 3, -1), (3, -1, 2, 5), (0, 1, 2, 7)]
        .iter()
        .map(|&(w, x, y, z)| {
            let (w, x, y, z) = (w as f64, x as f64, y as f64, z as f64);
            let n = w * w + x * x + y * y + z * z;
            Matrix3::new(
                w * w + x * x - y * y - z * z,
                2.0 * (x * y - w * z),
                2.0 * (x * z + w * y),
                2.0 * (x * y + w * z),
                w * w - x * x + y * y - z * z,
                2.0 * (y * z - w * x),
                2.0 * (x * z - w * y),
                2.0 * (y * z + w * x),
                w * w - x * x - y * y + z * z,
            ) / n
        })
        .collect()
}

/// A lattice matrix with Gram matrix `scale^2 * g` in the given orientation.
pub fn lattice(g: &M, scale: f64, q: &Matrix3<f64>) -> Matrix3<f64> {
    q * crate::conc::chol(g) * scale
}

/// Decoration of the 2x2x2 grid of a cell: code in base 3 (0 empty, 1 first, 2 second species).
pub fn grid_motif(mut code: usize) -> Vec<(V, u8)> {
    let mut atoms = vec![];
    for i in 0..8i64 {
        let s = code % 3;
        code /= 3;
        if s > 0 {
            atoms.push(([i & 1, (i >> 1) & 1, (i >> 2) & 1], s as u8 - 1));
        }
    }
    atoms
}

/// Base-3 codes of all non-empty decorations with at most `max` atoms, fewest atoms first.
pub fn grid_codes(max: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (1..6561).filter(|c| grid_motif(*c).len() <= max).collect();
    v.sort_by_key(|c| (grid_motif(*c).len(), *c));
    v
}

/// Hand-picked decorations over twelfths: generic, centred, centrosymmetric, several species.
pub fn motifs() -> Vec<Vec<(V, u8)>> {
    vec![
        vec![([0, 0, 0], 0)],
        vec![([0, 0, 0], 0), ([3, 1, 5], 1)],
        vec![([0, 0, 0], 0), ([6, 6, 6], 0)],
        vec![([0, 0, 0], 1), ([6, 6, 6], 0)],
        vec![([2, 3, 4], 0), ([10, 9, 8], 0), ([0, 0, 0], 2)],
        vec![([1, 2, 7], 2), ([11, 5, 3], 0), ([6, 0, 2], 1), ([1, 8, 7], 2)],
        vec![([0, 0, 0], 0), ([4, 4, 4], 0), ([8, 8, 8], 0), ([1, 1, 1], 1), ([5, 5, 5], 1), ([9, 9, 9], 1)],
        vec![([0, 0, 11], 3), ([0, 6, 11], 3), ([6, 0, 5], 3), ([6, 6, 5], 3), ([3, 3, 2], 0), ([3, 9, 2], 0), ([9, 3, 8], 0), ([9, 9, 8], 0)],
        // a fourfold translation along c and a fivefold-looking motif that is not one
        vec![([5, 5, 0], 0), ([5, 5, 3], 0), ([5, 5, 6], 0), ([5, 5, 9], 0)],
        vec![([0, 0, 0], 0), ([0, 0, 3], 0), ([0, 0, 6], 0), ([0, 0, 9], 1)],
    ]
}

pub fn crystal(g: &M, den: i64, atoms: &[(V, u8)]) -> Crystal {
    Crystal { g: *g, den, atoms: atoms.to_vec() }
}

/// A few unimodular matrices: identity, swap (left-handed), cyclic, shears, skew, negative.
pub fn few_bases() -> Vec<M> {
    vec![
        ID,
        [[0, 1, 0], [1, 0, 0], [0, 0, 1]],
        [[0, 0, 1], [1, 0, 0], [0, 1, 0]],
        [[1, 1, 0], [0, 1, 0], [0, 0, 1]],
        [[-1, 0, 0], [0, -1, 0], [0, 0, -1]],
        [[1, 0, -1], [1, 1, 0], [0, 1, 0]],
        [[2, 1, 0], [1, 1, 0], [0, -3, 1]],
        [[1, 2, -1], [0, 1, 3], [0, 0, -1]],
    ]
}

pub fn v3(v: &V, den: i64) -> Vector3<f64> {
    Vector3::new(v[0] as f64 / den as f64, v[1] as f64 / den as f64, v[2] as f64 / den as f64)
}
