//! Exact (integer / rational) reference model of lattices and crystals.
//! Nothing in here calls the code under test.

pub type M = [[i64; 3]; 3];
pub type V = [i64; 3];

pub const ID: M = [[1, 0, 0], [0, 1, 0], [0, 0, 1]];

pub fn mul(a: &M, b: &M) -> M {
    let mut c = [[0; 3]; 3];
    for i in 0..3 {
        for j in 0..3 {
            c[i][j] = (0..3).map(|k| a[i][k] * b[k][j]).sum();
        }
    }
    c
}

pub fn mulv(a: &M, v: &V) -> V {
    [0, 1, 2].map(|i| a[i][0] * v[0] + a[i][1] * v[1] + a[i][2] * v[2])
}

pub fn tr(a: &M) -> M {
    let mut c = [[0; 3]; 3];
    for i in 0..3 {
        for j in 0..3 {
            c[j][i] = a[i][j];
        }
    }
    c
}

pub fn det(m: &M) -> i64 {
    m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1]) - m[0][1] * (m[1][0] * m[2][2] - m[1][2] * m[2][0])
        + m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0])
}

/// Adjugate: `m * adj(m) = det(m) * I`.
pub fn adj(m: &M) -> M {
    [
        [
            m[1][1] * m[2][2] - m[1][2] * m[2][1],
            m[0][2] * m[2][1] - m[0][1] * m[2][2],
            m[0][1] * m[1][2] - m[0][2] * m[1][1],
        ],
        [
            m[1][2] * m[2][0] - m[1][0] * m[2][2],
            m[0][0] * m[2][2] - m[0][2] * m[2][0],
            m[0][2] * m[1][0] - m[0][0] * m[1][2],
        ],
        [
            m[1][0] * m[2][1] - m[1][1] * m[2][0],
            m[0][1] * m[2][0] - m[0][0] * m[2][1],
            m[0][0] * m[1][1] - m[0][1] * m[1][0],
        ],
    ]
}

/// Inverse of a unimodular matrix.
pub fn inv_uni(m: &M) -> M {
    let d = det(m);
    assert!(d == 1 || d == -1);
    let a = adj(m);
    a.map(|r| r.map(|x| x * d))
}

pub fn gram(g: &M, p: &M) -> M {
    mul(&tr(p), &mul(g, p))
}

pub fn posdef(g: &M) -> bool {
    g[0][0] > 0 && g[0][0] * g[1][1] - g[0][1] * g[0][1] > 0 && det(g) > 0
}

/// Exact Niggli conditions on (A,B,C, xi=2b.c, eta=2a.c, zeta=2a.b), straight from the definition (ITA 9.2.2):
/// main conditions (reduced / Buerger) and special conditions, type I (all positive) or type II (all non-positive).
pub fn is_niggli(g: &M) -> bool {
    let (a, b, c) = (g[0][0], g[1][1], g[2][2]);
    let (xi, eta, zeta) = (2 * g[1][2], 2 * g[0][2], 2 * g[0][1]);
    if !(a <= b && b <= c) {
        return false;
    }
    if xi.abs() > b || eta.abs() > a || zeta.abs() > a {
        return false;
    }
    if a == b && xi.abs() > eta.abs() {
        return false;
    }
    if b == c && eta.abs() > zeta.abs() {
        return false;
    }
    if xi > 0 && eta > 0 && zeta > 0 {
        if xi == b && zeta > 2 * eta {
            return false;
        }
        if eta == a && zeta > 2 * xi {
            return false;
        }
        if zeta == a && eta > 2 * xi {
            return false;
        }
        true
    } else if xi <= 0 && eta <= 0 && zeta <= 0 {
        if xi + eta + zeta + a + b < 0 {
            return false;
        }
        if xi == -b && zeta != 0 {
            return false;
        }
        if eta == -a && zeta != 0 {
            return false;
        }
        if zeta == -a && eta != 0 {
            return false;
        }
        if xi + eta + zeta + a + b == 0 && 2 * (a + eta) + zeta > 0 {
            return false;
        }
        true
    } else {
        false
    }
}

/// All integer Niggli-reduced Gram matrices with C <= k (diagonal entries; off-diagonals integer).
pub fn niggli_forms(k: i64) -> Vec<M> {
    let mut out = vec![];
    for c in 1..=k {
        for b in 1..=c {
            for a in 1..=b {
                for d in -b..=b {
                    for e in -a..=a {
                        for f in -a..=a {
                            let g = [[a, f, e], [f, b, d], [e, d, c]];
                            if posdef(&g) && is_niggli(&g) {
                                out.push(g);
                            }
                        }
                    }
                }
            }
        }
    }
    out
}

/// The larger reduced forms, lo < C <= hi, that satisfy at least two of the equations
/// which set the special lattice characters apart.
pub fn special_forms(lo: i64, hi: i64) -> Vec<M> {
    let mut out = vec![];
    for c in lo + 1..=hi {
        for b in 1..=c {
            for a in 1..=b {
                for d in -b / 2..=b / 2 {
                    for e in -a / 2..=a / 2 {
                        for f in -a / 2..=a / 2 {
                            let eqs = [a == b, b == c, d == 0, e == 0, f == 0, 2 * d.abs() == b, 2 * e.abs() == a, 2 * f.abs() == a, -2 * (d + e + f) == a + b, (2 * d + f).abs() == b, d == e, e == f, 2 * d == f, 2 * e == f, 2 * e == d, 2 * f == e];
                            let g = [[a, f, e], [f, b, d], [e, d, c]];
                            if eqs.iter().filter(|x| **x).count() >= 2 && posdef(&g) && is_niggli(&g) {
                                out.push(g);
                            }
                        }
                    }
                }
            }
        }
    }
    out
}

/// All integer matrices with entries in [-k,k] and determinant accepted by `f`.
pub fn matrices(k: i64, f: impl Fn(i64) -> bool) -> Vec<M> {
    let w = 2 * k + 1;
    let mut out = vec![];
    for n in 0..w.pow(9) {
        let mut x = n;
        let mut m = [[0; 3]; 3];
        for i in 0..9 {
            m[i / 3][i % 3] = x % w - k;
            x /= w;
        }
        if f(det(&m)) {
            out.push(m);
        }
    }
    // simplest first: fewest / smallest entries
    out.sort_by_key(|m| (m.iter().flatten().map(|x| x.abs()).sum::<i64>(), *m));
    out
}

/// Column-style Hermite normal forms with determinant n: one basis per sublattice of index n.
pub fn hnfs(n: i64) -> Vec<M> {
    let mut out = vec![];
    for a in 1..=n {
        if n % a != 0 {
            continue;
        }
        for d in 1..=n / a {
            if (n / a) % d != 0 {
                continue;
            }
            let f = n / a / d;
            // lower triangular, columns are the basis; 0 <= b < d, 0 <= c,e < f
            for b in 0..d {
                for c in 0..f {
                    for e in 0..f {
                        out.push([[a, 0, 0], [b, d, 0], [c, e, f]]);
                    }
                }
            }
        }
    }
    out
}

/// A crystal: lattice (integer Gram matrix `g` of the base cell) and atoms at `num/den` fractional positions.
#[derive(Clone, Debug)]
pub struct Crystal {
    pub g: M,
    pub den: i64,
    pub atoms: Vec<(V, u8)>,
}

pub fn vmod(v: &V, n: i64) -> V {
    v.map(|x| x.rem_euclid(n))
}

impl Crystal {
    /// All translations t (numerators over `den`, reduced mod den) that map the crystal onto itself.
    pub fn translations(&self) -> Vec<V> {
        let set: std::collections::BTreeSet<(V, u8)> = self.atoms.iter().map(|(p, s)| (vmod(p, self.den), *s)).collect();
        let s0 = self.atoms[0];
        let mut out = std::collections::BTreeSet::new();
        for (p, s) in &self.atoms {
            if *s != s0.1 {
                continue;
            }
            let t = vmod(&[p[0] - s0.0[0], p[1] - s0.0[1], p[2] - s0.0[2]], self.den);
            if set.iter().all(|(q, sq)| set.contains(&(vmod(&[q[0] + t[0], q[1] + t[1], q[2] + t[2]], self.den), *sq))) {
                out.insert(t);
            }
        }
        out.into_iter().collect()
    }

    /// Same crystal described in the basis `base * p` (p integer, det != 0): returns (den', atoms').
    pub fn in_basis(&self, p: &M) -> Crystal {
        let d = det(p);
        let a = adj(p); // p^-1 = a / d
        let ad = d.abs();
        let den = self.den * ad;
        let mut set = std::collections::BTreeSet::new();
        // representatives of Z^3 / pZ^3: integer vectors with coordinates in [0,ad)
        let mut reps = std::collections::BTreeMap::new();
        'o: for i in 0..ad {
            for j in 0..ad {
                for k in 0..ad {
                    let n = [i, j, k];
                    let key = vmod(&mulv(&a, &n).map(|x| x * d.signum()), ad);
                    reps.entry(key).or_insert(n);
                    if reps.len() as i64 == ad {
                        break 'o;
                    }
                }
            }
        }
        for n in reps.values() {
            for (q, s) in &self.atoms {
                let x = [q[0] + n[0] * self.den, q[1] + n[1] * self.den, q[2] + n[2] * self.den];
                let y = mulv(&a, &x).map(|v| v * d.signum()); // over den*ad
                set.insert((*s, vmod(&y, den)));
            }
        }
        Crystal { g: gram(&self.g, p), den, atoms: set.into_iter().map(|(s, v)| (v, s)).collect() }
    }
}

/// All integer matrices R with R^T g R = g (the holohedry of the lattice in this basis).
pub fn holohedry(g: &M) -> Vec<M> {
    // |v_i| bound from the inverse Gram matrix: v_i^2 <= (g^-1)_ii * |v|^2
    let a = adj(g);
    let d = det(g);
    let maxn = g[0][0].max(g[1][1]).max(g[2][2]);
    let bound = [0, 1, 2].map(|i| {
        let mut b = 0;
        while (b + 1) * (b + 1) * d <= a[i][i] * maxn {
            b += 1;
        }
        b
    });
    let mut vs: [Vec<V>; 3] = Default::default();
    for x in -bound[0]..=bound[0] {
        for y in -bound[1]..=bound[1] {
            for z in -bound[2]..=bound[2] {
                let v = [x, y, z];
                let gv = mulv(g, &v);
                let n: i64 = (0..3).map(|i| v[i] * gv[i]).sum();
                for i in 0..3 {
                    if n == g[i][i] {
                        vs[i].push(v);
                    }
                }
            }
        }
    }
    let dot = |u: &V, v: &V| {
        let gv = mulv(g, v);
        u[0] * gv[0] + u[1] * gv[1] + u[2] * gv[2]
    };
    let mut out = vec![];
    for u in &vs[0] {
        for v in &vs[1] {
            if dot(u, v) != g[0][1] {
                continue;
            }
            for w in &vs[2] {
                if dot(u, w) == g[0][2] && dot(v, w) == g[1][2] {
                    out.push([[u[0], v[0], w[0]], [u[1], v[1], w[1]], [u[2], v[2], w[2]]]);
                }
            }
        }
    }
    out
}

impl Crystal {
    /// The full space group of the crystal in the base basis: rotation and translation (numerators mod den).
    pub fn space_group(&self) -> Vec<(M, V)> {
        let set: std::collections::BTreeSet<(V, u8)> = self.atoms.iter().map(|(p, s)| (vmod(p, self.den), *s)).collect();
        let mut count = [0usize; 256];
        for (_, s) in &self.atoms {
            count[*s as usize] += 1;
        }
        let s0 = self.atoms.iter().min_by_key(|(_, s)| count[*s as usize]).unwrap();
        let mut out = vec![];
        for r in holohedry(&self.g) {
            let r0 = mulv(&r, &s0.0);
            for (p, s) in &set {
                if *s != s0.1 {
                    continue;
                }
                let t = vmod(&[p[0] - r0[0], p[1] - r0[1], p[2] - r0[2]], self.den);
                let ok = set.iter().all(|(q, sq)| {
                    let x = mulv(&r, q);
                    set.contains(&(vmod(&[x[0] + t[0], x[1] + t[1], x[2] + t[2]], self.den), *sq))
                });
                if ok {
                    out.push((r, t));
                }
            }
        }
        out
    }
}

/// Space-group type n (1..=230) in the conventional setting, translations over `den` (a multiple of 12).
pub fn sg_ops(n: usize, den: i64) -> Vec<(M, V)> {
    crate::sgdata::SG[n - 1]
        .1
        .iter()
        .map(|o| {
            let o = o.map(|x| x as i64);
            ([[o[0], o[1], o[2]], [o[3], o[4], o[5]], [o[6], o[7], o[8]]], [o[9] * den / 12, o[10] * den / 12, o[11] * den / 12])
        })
        .collect()
}

pub fn orbit(ops: &[(M, V)], x: &V, den: i64) -> Vec<V> {
    let mut s = std::collections::BTreeSet::new();
    for (r, t) in ops {
        let y = mulv(r, x);
        s.insert(vmod(&[y[0] + t[0], y[1] + t[1], y[2] + t[2]], den));
    }
    s.into_iter().collect()
}

/// A small decoration whose exact symmetry is the given group (greedy over orbits of grid points), if any.
pub fn decorate(g: &M, ops: &[(M, V)], den: i64, seeds: &[V], max_species: usize) -> Option<Crystal> {
    let mut orbits: Vec<Vec<V>> = seeds.iter().map(|x| orbit(ops, x, den)).collect();
    orbits.sort_by_key(|o| o.len());
    orbits.dedup();
    let mut c = Crystal { g: *g, den, atoms: vec![] };
    let mut best = usize::MAX;
    for s in 0..max_species {
        let mut pick: Option<(usize, usize, Crystal)> = None;
        for o in orbits.iter() {
            if let Some((_, l, _)) = &pick { if o.len() > *l { break; } }
            if c.atoms.iter().any(|(v, _)| o.contains(v)) {
                continue;
            }
            let mut t = c.clone();
            t.atoms.extend(o.iter().map(|v| (*v, s as u8)));
            let n = t.space_group().len();
            if n < best && pick.as_ref().map_or(true, |(m, _, _)| n < *m) {
                pick = Some((n, o.len(), t));
            }
        }
        let (n, _, t) = pick?;
        c = t;
        best = n;
        if n == ops.len() {
            return Some(c);
        }
    }
    None
}
