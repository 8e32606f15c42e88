//! C08 generation of point groups, C09 their transformation.
use crystsymm::pointgroup::PointGroup;
use mc::conc::fm;
use mc::engine::*;
use mc::model::*;
use nalgebra::Matrix3;
use std::collections::{BTreeMap, BTreeSet};

/// Symbol and a space group whose rotation parts are that point group in its standard orientation.
pub const PG: [(&str, usize); 32] = [
    ("1", 1),
    ("-1", 2),
    ("-3", 147),
    ("-3m", 164),
    ("-4", 81),
    ("-42m", 111),
    ("-43m", 215),
    ("-6", 174),
    ("-6m2", 187),
    ("2", 3),
    ("2/m", 10),
    ("222", 16),
    ("23", 195),
    ("3", 143),
    ("32", 150),
    ("3m", 156),
    ("4", 75),
    ("4/m", 83),
    ("4/mmm", 123),
    ("422", 89),
    ("432", 207),
    ("4mm", 99),
    ("6", 168),
    ("6/m", 175),
    ("6/mmm", 191),
    ("622", 177),
    ("6mm", 183),
    ("m", 6),
    ("m-3", 200),
    ("m-3m", 221),
    ("mm2", 25),
    ("mmm", 47),
];

pub fn im(m: &Matrix3<i8>) -> M {
    [0, 1, 2].map(|i| [0, 1, 2].map(|j| m[(i, j)] as i64))
}

pub fn reference(sym: &str) -> Option<BTreeSet<M>> {
    let n = PG.iter().find(|x| x.0 == sym)?.1;
    Some(sg_ops(n, 12).into_iter().map(|o| o.0).collect())
}

/// Rotation type: (trace, determinant).
fn kind(m: &M) -> (i64, i64) {
    (m[0][0] + m[1][1] + m[2][2], det(m))
}

fn check_group(n: u8, rec: &mut Rec) -> Result<BTreeSet<M>, String> {
    rec.step();
    let pg = call(|| PointGroup::from_number(&n)).map_err(|m| format!("construction stopped: {}", m))?;
    let ops: Vec<M> = pg.operations.iter().map(im).collect();
    let set: BTreeSet<M> = ops.iter().cloned().collect();
    if set.len() != ops.len() {
        return Err(format!("{} operations are listed more than once", ops.len() - set.len()));
    }
    for a in &set {
        if !set.contains(&inv_uni(a)) {
            return Err(format!("inverse of {:?} is missing", a));
        }
        for b in &set {
            rec.step();
            if !set.contains(&mul(a, b)) {
                return Err(format!("product of {:?} and {:?} is missing", a, b));
            }
        }
    }
    for g in &pg.generators {
        if !set.contains(&im(g)) {
            return Err("a generator is not among the operations".into());
        }
    }
    // the generators generate the group
    let mut gen: BTreeSet<M> = [ID].into();
    loop {
        let k = gen.len();
        for a in gen.clone() {
            for g in &pg.generators {
                gen.insert(mul(&a, &im(g)));
            }
        }
        if gen.len() == k {
            break;
        }
    }
    if gen != set {
        return Err("the generators do not generate the operations".into());
    }
    let want = reference(pg.symbol).ok_or(format!("unknown symbol {}", pg.symbol))?;
    let count = |s: &BTreeSet<M>| {
        let mut c: BTreeMap<(i64, i64), usize> = BTreeMap::new();
        for m in s {
            *c.entry(kind(m)).or_default() += 1;
        }
        c
    };
    if count(&set) != count(&want) {
        return Err(format!("numbers of rotation types {:?} do not fit {}: {:?}", count(&set), pg.symbol, count(&want)));
    }
    if set != want {
        return Err(format!("operations are not those of {} in its standard orientation", pg.symbol));
    }
    rec.label(pg.symbol);
    Ok(set)
}

pub fn c08(ctx: &Ctx) -> Space<'static> {
    let a = Fam {
        name: "group",
        dims: vec![32],
        run: Box::new(|ix, rec| {
            let s = check_group(ix[0] as u8 + 1, rec)?;
            rec.state(&s);
            Ok(())
        }),
        desc: Box::new(|ix| format!("point group number {}", ix[0] + 1)),
    };
    let other = Fam {
        name: "other-numbers",
        dims: vec![256],
        run: Box::new(|ix, rec| {
            if (1..=32).contains(&ix[0]) {
                return Ok(());
            }
            rec.step();
            rec.state(&("other", ix[0]));
            match call(|| PointGroup::from_number(&(ix[0] as u8))) {
                Ok(pg) => Err(format!("{} is returned", pg.symbol)),
                Err(_) => Ok(()),
            }
        }),
        desc: Box::new(|ix| format!("point group number {}", ix[0])),
    };
    let b = Fam {
        name: "hash-order",
        dims: vec![ctx.pick(3000, 60000), 32],
        run: Box::new(|ix, rec| {
            let n = ix[1] as u8 + 1;
            rec.steps(1);
            let r = with_hash_seed(ix[0] as u64, move || call(move || PointGroup::from_number(&n)));
            let pg = r.map_err(|m| format!("construction stopped: {}", m))?;
            let ops: BTreeSet<M> = pg.operations.iter().map(im).collect();
            rec.state(&(n, pg.operations.iter().map(im).collect::<Vec<_>>()));
            if Some(&ops) != reference(pg.symbol).as_ref() || ops.len() != pg.operations.len() {
                return Err(format!("operations of {} change with the hash order", pg.symbol));
            }
            Ok(())
        }),
        desc: Box::new(|ix| format!("point group number {} with hash seed {}", ix[1] + 1, ix[0])),
    };
    let c = Fam {
        name: "distinct",
        dims: vec![32, 32],
        run: Box::new(|ix, rec| {
            rec.steps(2);
            let f = |i: usize| call(move || PointGroup::from_number(&(i as u8 + 1)));
            let (x, y) = (f(ix[0])?, f(ix[1])?);
            if ix[0] != ix[1] && x.symbol == y.symbol {
                return Err(format!("two numbers have the symbol {}", x.symbol));
            }
            let s = |p: &PointGroup| p.operations.iter().map(im).collect::<BTreeSet<M>>();
            if (s(&x) == s(&y)) != (ix[0] == ix[1]) {
                return Err("two numbers have the same operations, or one number has different ones when repeated".into());
            }
            Ok(())
        }),
        desc: Box::new(|ix| format!("point group numbers {} and {}", ix[0] + 1, ix[1] + 1)),
    };
    Space {
        fams: vec![a, other, b, c],
        bounds: "all 32 point groups: every pair of operations; 3000 (60000) hash seeds; all pairs of groups".into(),
        assumptions: vec![],
        post: None,
    }
}

fn conj(r: &M, t: &M) -> Option<M> {
    let d = det(t);
    let m = mul(&mul(&adj(t), r), t);
    for row in m {
        for x in row {
            if x % d != 0 {
                return None;
            }
        }
    }
    Some(m.map(|row| row.map(|x| x / d)))
}

fn check_conj(n: u8, t: &M, den: i64, rec: &mut Rec) -> Result<(), String> {
    let mut pg = call(|| PointGroup::from_number(&n)).map_err(|m| format!("construction stopped: {}", m))?;
    let before = (pg.operations.iter().map(im).collect::<Vec<_>>(), pg.generators.iter().map(im).collect::<Vec<_>>());
    let want = |v: &Vec<M>| v.iter().map(|r| conj(r, t)).collect::<Option<Vec<M>>>();
    let (Some(wo), Some(wg)) = (want(&before.0), want(&before.1)) else {
        rec.label("not integral");
        return Ok(());
    };
    if wo.iter().flatten().flatten().any(|x| x.abs() > 127) {
        rec.label("entries beyond 8 bits");
        return Ok(());
    }
    rec.state(&(n, t));
    rec.steps(2);
    let tf = fm(t) / den as f64;
    call(|| pg.apply_transformation(&tf)).map_err(|m| format!("transformation stopped: {}", m))?;
    let sorted = |mut v: Vec<M>| {
        v.sort();
        v
    };
    let got = |v: &Vec<Matrix3<i8>>| sorted(v.iter().map(im).collect());
    if got(&pg.operations) != sorted(wo) {
        return Err("an operation is not the conjugate of the original".into());
    }
    if got(&pg.generators) != sorted(wg) {
        return Err("a generator is not the conjugate of the original".into());
    }
    let back = tf.try_inverse().unwrap();
    call(|| pg.apply_transformation(&back)).map_err(|m| format!("transformation back stopped: {}", m))?;
    if got(&pg.operations) != sorted(before.0) || got(&pg.generators) != sorted(before.1) {
        return Err("transforming back does not restore the group".into());
    }
    Ok(())
}

pub fn c09(ctx: &Ctx) -> Space<'static> {
    let us = matrices(1, |d| d.abs() == 1);
    let u2 = us.clone();
    let mut fams = vec![Fam {
        name: "unimodular",
        dims: vec![us.len(), 32],
        run: Box::new(move |ix, rec| check_conj(ix[1] as u8 + 1, &us[ix[0]], 1, rec)),
        desc: Box::new(move |ix| format!("point group {} basis {:?}", ix[1] + 1, u2[ix[0]])),
    }];
    // centring reductions and their inverses, in every axis order and sign
    let cent: Vec<(M, i64)> = vec![
        ([[2, 0, 0], [0, 1, -1], [0, 1, 1]], 2),
        ([[1, 0, -1], [0, 2, 0], [1, 0, 1]], 2),
        ([[1, 1, 0], [-1, 1, 0], [0, 0, 2]], 2),
        ([[-1, 1, 1], [1, -1, 1], [1, 1, -1]], 2),
        ([[0, 1, 1], [1, 0, 1], [1, 1, 0]], 2),
        ([[2, -1, -1], [1, 1, -2], [1, 1, 1]], 3),
    ];
    let mut all: Vec<(M, i64)> = vec![];
    for (m, d) in &cent {
        all.push((*m, *d));
        // inverse: d * adj(m) / det(m), integral
        let k = det(m);
        all.push((adj(m).map(|r| r.map(|x| x * d / k)), 1));
    }
    for n in 2..=ctx.pick(5, 9) {
        for h in hnfs(n) {
            all.push((h, 1));
        }
    }
    let us1 = matrices(1, |d| d.abs() == 1);
    let take = ctx.pick(100, 800);
    let (all2, us3) = (all.clone(), us1.clone());
    fams.push(Fam {
        name: "centring",
        dims: vec![all.len(), take, 32],
        run: Box::new(move |ix, rec| check_conj(ix[2] as u8 + 1, &mul(&all[ix[0]].0, &us1[ix[1]]), all[ix[0]].1, rec)),
        desc: Box::new(move |ix| format!("point group {} cell {:?} x {:?}", ix[2] + 1, all2[ix[0]], us3[ix[1]])),
    });
    let us = matrices(2, |d| d.abs() == 1);
    let n = us.len().min(ctx.pick(100_000, usize::MAX));
    let u2 = us.clone();
    fams.push(Fam {
        name: "unimodular2",
        dims: vec![n, 4],
        run: Box::new(move |ix, rec| check_conj([30, 25, 4, 21][ix[1]], &us[ix[0]], 1, rec)),
        desc: Box::new(move |ix| format!("point group {} basis {:?}", [30, 25, 4, 21][ix[1]], u2[ix[0]])),
    });
    Space {
        fams,
        bounds: "32 groups x all 6960 unimodular {-1,0,1} matrices; x centring reductions, their inverses and supercells up to index 5 (9) in 100 (800) bases, where the group fits the cell; 4 groups x unimodular {-2..2} matrices (quick: the 100000 simplest)".into(),
        assumptions: vec!["the conjugates fit 8-bit entries; others are the subject of C34".into()],
        post: None,
    }
}
