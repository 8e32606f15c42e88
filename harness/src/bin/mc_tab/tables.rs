//! C10 space-group table, C24 names and small tables.
use crate::groups::{im, reference};
use crystsymm::data::core::*;
use crystsymm::data::pointgroup::{BRAVAIS_TO_HOLOHEDRY_NUM, PG_NUM_TO_SYMBOL};
use crystsymm::data::spacegroup::{SG_NUM_TO_FULL_MATRICES, SG_NUM_TO_SYMBOL};
use crystsymm::pointgroup::PointGroup;
use crystsymm::utils::decode_spg_op;
use mc::engine::*;
use mc::model::*;
use mc::sgdata::{HM, SG};
use std::collections::BTreeSet;
use std::str::FromStr;

const TWELFTHS: [i64; 8] = [0, 2, 3, 4, 6, 8, 9, 10];

/// Own reading of an encoded operation.
fn own_decode(code: u32) -> (M, V) {
    let mut m = [[0; 3]; 3];
    let mut r = code % 19683;
    for k in (0..9).rev() {
        m[k / 3][k % 3] = (r % 3) as i64 - 1;
        r /= 3;
    }
    let t = code / 19683;
    (m, [TWELFTHS[(t / 64 % 8) as usize], TWELFTHS[(t / 8 % 8) as usize], TWELFTHS[(t % 8) as usize]])
}

fn cent_matrix(c: char) -> (M, i64) {
    match c {
        'P' => (ID, 1),
        'C' => ([[1, 1, 0], [-1, 1, 0], [0, 0, 2]], 2),
        'I' => ([[-1, 1, 1], [1, -1, 1], [1, 1, -1]], 2),
        'F' => ([[0, 1, 1], [1, 0, 1], [1, 1, 0]], 2),
        'R' => ([[2, -1, -1], [1, 1, -2], [1, 1, 1]], 3),
        'A' => ([[2, 0, 0], [0, 1, -1], [0, 1, 1]], 2),
        _ => panic!(),
    }
}

/// Operations of type n (1..=230) in the primitive basis, translations in twelfths.
fn primitive_ops(n: usize) -> BTreeSet<(M, V)> {
    let (m, d) = cent_matrix(SG[n - 1].0);
    let (a, k) = (adj(&m), det(&m));
    // inverse of m/d is d*adj(m)/k
    sg_ops(n, 12)
        .iter()
        .map(|(r, t)| {
            let x = mul(&mul(&a, r), &m).map(|row| row.map(|v| v / k));
            let y = mulv(&a, t).map(|v| (v * d / k).rem_euclid(12));
            (x, y)
        })
        .collect()
}

fn system(n: usize) -> LatticeSystem {
    match n {
        1..=2 => LatticeSystem::Triclinic,
        3..=15 => LatticeSystem::Monoclinic,
        16..=74 => LatticeSystem::Orthorhombic,
        75..=142 => LatticeSystem::Tetragonal,
        143..=167 if SG[n - 1].0 == 'R' => LatticeSystem::Rhombohedral,
        143..=194 => LatticeSystem::Hexagonal,
        _ => LatticeSystem::Cubic,
    }
}

/// The entry of type n: (system, order, codes) for every place where it is filed.
fn entries(n: usize) -> Vec<(String, usize, Vec<u32>)> {
    let mut v = vec![];
    for (sys, groups) in SG_NUM_TO_FULL_MATRICES.iter() {
        for (order, nums) in groups.iter() {
            for (num, codes) in nums.iter() {
                if *num as usize == n {
                    v.push((format!("{}", sys), *order as usize, codes.to_vec()));
                }
            }
        }
    }
    v
}

fn norm_symbol(s: &str) -> String {
    s.chars().filter(|c| !c.is_whitespace() && *c != '_').collect::<String>()
}

pub fn symbol_ok(n: usize, got: &str) -> bool {
    let want = norm_symbol(HM[n - 1]);
    let got = norm_symbol(got);
    // the table marks origin choice 1 and hexagonal axes with a suffix
    let origin = [48, 50, 59, 68, 70, 85, 86, 88, 125, 126, 129, 130, 133, 134, 137, 138, 141, 142, 201, 203, 222, 224, 227, 228].contains(&n);
    let hex = SG[n - 1].0 == 'R';
    got == want || (origin && got == format!("{}1", want)) || (hex && got == format!("{}H", want))
}

pub fn c10(_ctx: &Ctx) -> Space<'static> {
    let a = Fam {
        name: "entry",
        dims: vec![230],
        run: Box::new(|ix, rec| {
            let n = ix[0] + 1;
            let e = entries(n);
            if e.len() != 1 {
                return Err(format!("filed {} times", e.len()));
            }
            let (sys, order, codes) = &e[0];
            if *sys != format!("{}", system(n)) {
                return Err(format!("filed under lattice system {}", sys));
            }
            let want = primitive_ops(n);
            if *order != want.len() || codes.len() != want.len() {
                return Err(format!("filed under order {} with {} operations instead of {}", order, codes.len(), want.len()));
            }
            let mut got = BTreeSet::new();
            for c in codes {
                rec.step();
                let (r, t) = call(|| decode_spg_op(*c))?;
                if r.len() != 9 || t.len() != 3 {
                    return Err("decoded operation has the wrong size".into());
                }
                let m = [0, 1, 2].map(|i| [0, 1, 2].map(|j| r[3 * i + j] as i64));
                got.insert((m, [0, 1, 2].map(|i| t[i] as i64)));
            }
            rec.state(&got);
            if got != want {
                let miss = want.difference(&got).next();
                let extra = got.difference(&want).next();
                return Err(format!("operations differ from the standard setting: missing {:?}, instead {:?}", miss, extra));
            }
            let sym = SG_NUM_TO_SYMBOL.get(&(n as u8)).ok_or("no symbol")?.to_string();
            if !symbol_ok(n, &sym) {
                return Err(format!("symbol {} instead of {}", sym, HM[n - 1]));
            }
            rec.label(sys);
            Ok(())
        }),
        desc: Box::new(|ix| format!("space group {}", ix[0] + 1)),
    };
    let b = Fam {
        name: "closure",
        dims: vec![230],
        run: Box::new(|ix, rec| {
            for (_, _, codes) in entries(ix[0] + 1) {
                let ops: BTreeSet<(M, V)> = codes.iter().map(|c| own_decode(*c)).collect();
                for (r, t) in &ops {
                    for (q, u) in &ops {
                        rec.step();
                        let x = mulv(r, u);
                        let p = (mul(r, q), vmod(&[x[0] + t[0], x[1] + t[1], x[2] + t[2]], 12));
                        if !ops.contains(&p) {
                            return Err(format!("product {:?} is missing", p));
                        }
                    }
                }
            }
            Ok(())
        }),
        desc: Box::new(|ix| format!("space group {}", ix[0] + 1)),
    };
    let c = Fam {
        name: "distinct",
        dims: vec![230, 230],
        run: Box::new(|ix, rec| {
            if ix[0] >= ix[1] {
                return Ok(());
            }
            rec.step();
            let s = |i: usize| entries(i + 1).into_iter().map(|e| (e.0, e.2.into_iter().collect::<BTreeSet<u32>>())).collect::<Vec<_>>();
            if s(ix[0]) == s(ix[1]) {
                return Err("two types share their operations".into());
            }
            let sym = |i: usize| SG_NUM_TO_SYMBOL.get(&(i as u8 + 1)).map(|x| x.to_string());
            if sym(ix[0]) == sym(ix[1]) {
                return Err("two types share their symbol".into());
            }
            Ok(())
        }),
        desc: Box::new(|ix| format!("space groups {} and {}", ix[0] + 1, ix[1] + 1)),
    };
    let d = Fam {
        name: "nothing-else",
        dims: vec![1],
        run: Box::new(|_, rec| {
            let mut n = 0;
            for (_, groups) in SG_NUM_TO_FULL_MATRICES.iter() {
                for (_, nums) in groups.iter() {
                    rec.step();
                    n += nums.len();
                }
            }
            if n != 230 || SG_NUM_TO_SYMBOL.len() != 230 {
                return Err(format!("{} entries and {} symbols", n, SG_NUM_TO_SYMBOL.len()));
            }
            Ok(())
        }),
        desc: Box::new(|_| "number of entries".into()),
    };
    Space {
        fams: vec![a, b, c, d],
        bounds: "all 230 entries, all products, all pairs; complete".into(),
        assumptions: vec!["reference generated from Hall symbols, independent of the library; origin choice 1 and hexagonal-axes suffixes of symbols accepted".into()],
        post: None,
    }
}

fn centrings() -> Vec<(&'static str, Centering)> {
    vec![("P", Centering::P), ("A", Centering::A), ("B", Centering::B), ("C", Centering::C), ("I", Centering::I), ("F", Centering::F), ("R", Centering::R)]
}

fn systems() -> Vec<(&'static str, &'static str, LatticeSystem)> {
    vec![
        ("Triclinic", "a", LatticeSystem::Triclinic),
        ("Monoclinic", "m", LatticeSystem::Monoclinic),
        ("Orthorhombic", "o", LatticeSystem::Orthorhombic),
        ("Tetragonal", "t", LatticeSystem::Tetragonal),
        ("Rhombohedral", "r", LatticeSystem::Rhombohedral),
        ("Hexagonal", "h", LatticeSystem::Hexagonal),
        ("Cubic", "c", LatticeSystem::Cubic),
    ]
}

/// Name, value, centring letter, system, centring multiplicity, point group of the lattice.
fn bravais() -> Vec<(&'static str, BravaisType, &'static str, &'static str, i64, &'static str)> {
    use BravaisType::*;
    vec![
        ("aP", aP, "P", "Triclinic", 1, "-1"),
        ("mP", mP, "P", "Monoclinic", 1, "2/m"),
        ("mC", mC, "C", "Monoclinic", 2, "2/m"),
        ("mI", mI, "I", "Monoclinic", 2, "2/m"),
        ("oP", oP, "P", "Orthorhombic", 1, "mmm"),
        ("oC", oC, "C", "Orthorhombic", 2, "mmm"),
        ("oI", oI, "I", "Orthorhombic", 2, "mmm"),
        ("oF", oF, "F", "Orthorhombic", 4, "mmm"),
        ("tP", tP, "P", "Tetragonal", 1, "4/mmm"),
        ("tI", tI, "I", "Tetragonal", 2, "4/mmm"),
        ("hR", hR, "R", "Rhombohedral", 3, "-3m"),
        ("hP", hP, "P", "Hexagonal", 1, "6/mmm"),
        ("cP", cP, "P", "Cubic", 1, "m-3m"),
        ("cI", cI, "I", "Cubic", 2, "m-3m"),
        ("cF", cF, "F", "Cubic", 4, "m-3m"),
    ]
}

/// Bravais types of the 44 lattice characters (International Tables A, 9.2.5); mI and mC name the same lattices.
const CHARS: [&str; 44] = [
    "cF", "hR", "cP", "hR", "cI", "tI", "tI", "oI", "hR", "mC", "tP", "hP", "oC", "mC", "tI", "oF", "mC", "tI", "oI", "mC", "tP", "hP", "oC", "hR", "mC", "oF", "mC", "mC", "mC", "mC", "aP", "oP", "mP", "mP", "mP", "oC", "mC", "oC",
    "mC", "oC", "mC", "oI", "mI", "aP",
];

fn text(ix: usize, len: usize) -> String {
    const AB: [char; 32] = [
        'P', 'A', 'B', 'C', 'I', 'F', 'R', 'a', 'm', 'o', 't', 'r', 'h', 'c', 'p', 'b', 'i', 'f', ' ', '1', 'T', 'M', 'O', 'H', 'e', 'n', 'l', 'S', 'd', '-', '\0', 'é',
    ];
    let mut n = ix;
    (0..len)
        .map(|_| {
            let c = AB[n % 32];
            n /= 32;
            c
        })
        .collect()
}

fn check_text(s: &str, rec: &mut Rec) -> Result<(), String> {
    rec.steps(2);
    let c = call(|| Centering::from_str(s).ok())?;
    let want = centrings().into_iter().find(|x| x.0 == s).map(|x| x.1);
    if c != want {
        return Err(format!("{:?} as a centring gives {:?}", s, c.map(|x| x.to_string())));
    }
    let l = call(|| LatticeSystem::from_str(s).ok())?;
    let want = systems().into_iter().find(|x| x.0 == s || (x.1 == s && s != "r")).map(|x| x.2);
    if s != "r" && l != want {
        return Err(format!("{:?} as a lattice system gives {:?}", s, l.map(|x| x.to_string())));
    }
    if c.is_some() || l.is_some() {
        rec.label("accepted");
    } else {
        rec.label("rejected");
    }
    rec.state(&s);
    Ok(())
}

pub fn c24(_ctx: &Ctx) -> Space<'static> {
    let mut fams = vec![];
    fams.push(Fam {
        name: "centring",
        dims: vec![7],
        run: Box::new(|ix, rec| {
            let (name, v) = &centrings()[ix[0]];
            rec.steps(2);
            if v.to_string() != *name {
                return Err(format!("prints as {}", v));
            }
            check_text(name, rec)?;
            if Centering::from_str(&v.to_string()).ok().as_ref() != Some(v) {
                return Err("does not parse back".into());
            }
            let m = CENTERING_TO_PRIM_TRANS.get(v).ok_or("no primitive-cell matrix")?;
            let mult = [1, 2, 2, 2, 2, 4, 3][ix[0]];
            let k = m.m44 as i64;
            let a = [0, 1, 2].map(|i| [0, 1, 2].map(|j| m[(i, j)] as i64));
            if det(&a) * mult != k.pow(3) {
                return Err(format!("primitive-cell matrix has determinant {}/{}", det(&a), k.pow(3)));
            }
            // its columns are lattice points of the centred cell
            let pts: Vec<V> = match *name {
                "P" => vec![[0, 0, 0]],
                "A" => vec![[0, 0, 0], [0, 3, 3]],
                "B" => vec![[0, 0, 0], [3, 0, 3]],
                "C" => vec![[0, 0, 0], [3, 3, 0]],
                "I" => vec![[0, 0, 0], [3, 3, 3]],
                "F" => vec![[0, 0, 0], [0, 3, 3], [3, 0, 3], [3, 3, 0]],
                _ => vec![[0, 0, 0], [4, 2, 2], [2, 4, 4]],
            };
            for j in 0..3 {
                let col = [0, 1, 2].map(|i| (a[i][j] * 6).rem_euclid(6 * k));
                if col.iter().any(|x| x % k != 0) || !pts.contains(&col.map(|x| x / k)) {
                    return Err(format!("column {} of the primitive-cell matrix is not a lattice point", j));
                }
            }
            for i in 0..3 {
                if m[(i, 3)] != 0 || m[(3, i)] != 0 {
                    return Err("matrix has an origin shift".into());
                }
            }
            Ok(())
        }),
        desc: Box::new(|ix| centrings()[ix[0]].0.into()),
    });
    fams.push(Fam {
        name: "system",
        dims: vec![7],
        run: Box::new(|ix, rec| {
            let (name, _, v) = &systems()[ix[0]];
            rec.steps(2);
            if v.to_string() != *name {
                return Err(format!("prints as {}", v));
            }
            if LatticeSystem::from_str(&v.to_string()).ok().as_ref() != Some(v) {
                return Err("does not parse back".into());
            }
            if !SG_NUM_TO_FULL_MATRICES.contains_key(v) {
                return Err("no space groups listed".into());
            }
            check_text(name, rec)
        }),
        desc: Box::new(|ix| systems()[ix[0]].0.into()),
    });
    fams.push(Fam {
        name: "bravais",
        dims: vec![15],
        run: Box::new(|ix, rec| {
            let (name, v, cent, sys, _, pg) = &bravais()[ix[0]];
            rec.steps(4);
            if v.to_string() != *name {
                return Err(format!("prints as {}", v));
            }
            let c = call(|| v.centering())?;
            if c.to_string() != *cent {
                return Err(format!("reports centring {}", c));
            }
            let s = call(|| v.lattice_system())?;
            if s.to_string() != *sys {
                return Err(format!("reports lattice system {}", s));
            }
            let n = BRAVAIS_TO_HOLOHEDRY_NUM.get(v).ok_or("no point group of the lattice")?;
            if PG_NUM_TO_SYMBOL.get(n).map(|x| x.to_string()) != Some(pg.to_string()) {
                return Err(format!("point group of the lattice is number {}", n));
            }
            let g = call(|| PointGroup::from_number(n))?;
            let ops: BTreeSet<M> = g.operations.iter().map(im).collect();
            if Some(ops) != reference(pg) {
                return Err("operations of the lattice point group are wrong".into());
            }
            rec.state(name);
            Ok(())
        }),
        desc: Box::new(|ix| bravais()[ix[0]].0.into()),
    });
    fams.push(Fam {
        name: "character",
        dims: vec![44],
        run: Box::new(|ix, rec| {
            let n = ix[0] as u8 + 1;
            rec.step();
            let b = LATTICE_CHAR_TO_BRAVAIS.get(&n).ok_or("no Bravais type")?;
            let name = b.to_string();
            let same = |x: &str, y: &str| x == y || (["mC", "mI"].contains(&x) && ["mC", "mI"].contains(&y));
            if !same(&name, CHARS[ix[0]]) {
                return Err(format!("Bravais type {} instead of {}", name, CHARS[ix[0]]));
            }
            let m = LATTICE_CHAR_TO_CONV_TRANS.get(&n).ok_or("no conventional-cell matrix")?;
            let mult = bravais().into_iter().find(|x| x.0 == name).ok_or("unknown Bravais type")?.4;
            if det(&im(m)) != mult {
                return Err(format!("conventional-cell matrix has determinant {} for {}", det(&im(m)), name));
            }
            if !CENTERING_TO_PRIM_TRANS.contains_key(&b.centering()) {
                return Err("no primitive-cell matrix for its centring".into());
            }
            rec.state(&n);
            Ok(())
        }),
        desc: Box::new(|ix| format!("lattice character {}", ix[0] + 1)),
    });
    fams.push(Fam {
        name: "completeness",
        dims: vec![256],
        run: Box::new(|ix, rec| {
            let n = ix[0] as u8;
            rec.step();
            let known = (1..=44).contains(&n);
            if LATTICE_CHAR_TO_BRAVAIS.contains_key(&n) != known || LATTICE_CHAR_TO_CONV_TRANS.contains_key(&n) != known {
                return Err("lattice character tables have the wrong keys".into());
            }
            let known = (1..=32).contains(&n);
            if PG_NUM_TO_SYMBOL.contains_key(&n) != known {
                return Err("point group symbols have the wrong keys".into());
            }
            rec.state(&(n, 1));
            Ok(())
        }),
        desc: Box::new(|ix| format!("number {}", ix[0])),
    });
    for (name, len) in [("text0", 0usize), ("text1", 1), ("text2", 2), ("text3", 3), ("text4", 4)] {
        if len <= 4 {
            fams.push(Fam {
                name,
                dims: vec![32usize.pow(len as u32)],
                run: Box::new(move |ix, rec| check_text(&text(ix[0], len), rec)),
                desc: Box::new(move |ix| format!("{:?}", text(ix[0], len))),
            });
        }
    }
    // every string one edit away from a full name
    fams.push(Fam {
        name: "misspelt",
        dims: vec![7, 14, 32, 3],
        run: Box::new(|ix, rec| {
            let mut s: Vec<char> = systems()[ix[0]].0.chars().collect();
            let c = text(ix[2], 1).chars().next().unwrap();
            let p = ix[1].min(s.len());
            match ix[3] {
                0 => s.insert(p, c),
                1 if p < s.len() => s[p] = c,
                2 if p < s.len() => {
                    s.remove(p);
                }
                _ => {}
            }
            check_text(&s.into_iter().collect::<String>(), rec)
        }),
        desc: Box::new(|ix| format!("{} edited at {}", systems()[ix[0]].0, ix[1])),
    });
    Space {
        fams,
        bounds: "all 7 centrings, 7 systems, 15 Bravais types, 44 lattice characters, all table keys; all strings up to length 4 over 32 characters and all strings one edit from a full system name".into(),
        assumptions: vec!["the single letter r is left open (the library gives no one-letter name to the rhombohedral system)".into()],
        post: None,
    }
}
