//! C25 folding into the cell and comparisons with a tolerance.
use crystsymm::utils::{approx_equal, approx_equal_iter, compare_matrices, cust_eq, normalize_frac_vectors, num_negative_zero};
use mc::engine::*;
use nalgebra::{Matrix3, Vector3};

/// Offsets in units of the tolerance, on both sides of each limit but not on it.
const OFF: [f64; 13] = [0.0, 0.5, -0.5, 0.99, -0.99, 1.01, -1.01, 1.5, -1.5, 2.0, -2.0, 0.1, -0.1];

/// Coordinate values: cell shifts x places x offsets.
fn values(tol: f64) -> Vec<f64> {
    let mut v = vec![];
    for cell in [0.0, 1.0, -1.0, 2.0, -2.0, 5.0, -7.0] {
        for o in OFF {
            v.push(cell + o * tol);
        }
        for p in [0.5, 0.3, 0.25, 0.9, 0.125] {
            v.push(cell + p);
        }
    }
    v.sort_by(|a, b| a.abs().partial_cmp(&b.abs()).unwrap());
    v
}

fn check_fold(x: f64, y: f64, tol: f64) -> Result<(), String> {
    let k = x - y;
    if !((k - k.round()).abs() < 1e-9) {
        return Err(format!("{} became {}, not a lattice translation away", x, y));
    }
    if !(y >= -tol - 1e-12 && y <= 1.0 - tol + 1e-12) {
        return Err(format!("{} became {}, outside the cell with tolerance {}", x, y, tol));
    }
    Ok(())
}

pub fn c25(ctx: &Ctx) -> Space<'static> {
    let tols = [0.05, 1e-3, 1e-6, 0.01, 0.2];
    let nv = values(0.05).len();
    let mut fams = vec![];
    fams.push(Fam {
        name: "fold",
        dims: vec![nv, nv, 3, 5],
        run: Box::new(move |ix, rec| {
            let t = [tols[ix[3]], tols[(ix[3] + ix[2]) % 5], tols[(ix[3] + 1) % 5]];
            let (va, vb, vc) = (values(t[0]), values(t[1]), values(t[2]));
            let tv = Vector3::new(t[0], t[1], t[2]);
            let a = va[ix[0]];
            let b = vb[ix[1]];
            let vecs: Vec<Vector3<f64>> = vc.iter().map(|c| Vector3::new(a, b, *c)).collect();
            let mut w = vecs.clone();
            rec.steps(2 * vecs.len() as u64);
            call(|| normalize_frac_vectors(&mut w, &tv))?;
            if w.len() != vecs.len() {
                return Err("number of vectors changed".into());
            }
            for (x, y) in vecs.iter().zip(&w) {
                for i in 0..3 {
                    check_fold(x[i], y[i], t[i])?;
                }
            }
            let mut u = w.clone();
            call(|| normalize_frac_vectors(&mut u, &tv))?;
            if u.iter().zip(&w).any(|(p, q)| !((p - q).amax() < 1e-13)) {
                return Err("folding twice changes the vectors".into());
            }
            rec.state(&(a.to_bits(), b.to_bits(), t[0].to_bits()));
            Ok(())
        }),
        desc: Box::new(move |ix| format!("first components {} {}, tolerance set {} {}", values(tols[ix[3]])[ix[0]], values(tols[(ix[3] + ix[2]) % 5])[ix[1]], ix[3], ix[2])),
    });
    // far away from the origin
    fams.push(Fam {
        name: "far",
        dims: vec![8, nv, 5],
        run: Box::new(move |ix, rec| {
            let far = [30.0, -60.0, 127.0, -255.0, 1000.0, -4096.0, 40000.0, -1e6][ix[0]];
            let t = tols[ix[2]];
            let v = values(t)[ix[1]];
            for k in 0..3 {
                let mut x = Vector3::new(0.25, 0.25, 0.25);
                x[k] = far + v;
                let mut y = vec![x];
                rec.step();
                call(|| normalize_frac_vectors(&mut y, &Vector3::new(t, t, t)))?;
                for i in 0..3 {
                    check_fold(x[i], y[0][i], t)?;
                }
            }
            rec.state(&ix);
            Ok(())
        }),
        desc: Box::new(move |ix| format!("{} moved by cell {}, tolerance {}", values(tols[ix[2]])[ix[1]], ix[0], tols[ix[2]])),
    });
    // pairs (a, a + offset)
    let eps = [1e-5, 1e-3, 0.05, 1e-6, 0.5];
    let base = [0.0, 1.0, -1.0, 0.3, -7.25, 12.5, 90.0, 120.0, 1e3, -1e3];
    fams.push(Fam {
        name: "pairs",
        dims: vec![10, 13, 5],
        run: Box::new(move |ix, rec| {
            let (a, o, e) = (base[ix[0]], OFF[ix[1]], eps[ix[2]]);
            let b = a + o * e;
            let want = o.abs() < 1.0;
            rec.steps(8);
            for (x, y) in [(a, b), (b, a)] {
                if call(|| cust_eq(&x, &y, &e))? != want {
                    return Err(format!("cust_eq({}, {}, {}) is not {}", x, y, e, want));
                }
                if call(|| approx_equal(&x, &y, &e))? != want {
                    return Err(format!("approx_equal({}, {}, {}) is not {}", x, y, e, want));
                }
            }
            rec.state(&(ix[0], ix[1], ix[2]));
            // every position of a differing entry in lists and matrices
            for n in [1usize, 2, 3, 4, 9, 13, 40] {
                for k in 0..n {
                    let xs = vec![a; n];
                    let mut ys = xs.clone();
                    ys[k] = b;
                    rec.step();
                    if call(|| approx_equal_iter(xs.iter(), ys.iter(), &e))? != want {
                        return Err(format!("lists of {} differing at {}: not {}", n, k, want));
                    }
                }
            }
            for k in 0..9 {
                let m = Matrix3::from_element(a);
                let mut q = m;
                q[k] = b;
                rec.step();
                if call(|| compare_matrices(&m, &q, &[e; 9]))? != want || call(|| compare_matrices(&q, &m, &[e; 9]))? != want {
                    return Err(format!("matrices differing at {}: not {}", k, want));
                }
                // each entry has its own tolerance
                let mut loose = [e * 4.0; 9];
                loose[k] = e;
                let mut tight = [e * 0.125; 9];
                tight[k] = e;
                for t in [loose, tight] {
                    rec.step();
                    if call(|| compare_matrices(&m, &q, &t))? != want {
                        return Err(format!("matrices differing at {}, tolerances {:?}: not {}", k, t, want));
                    }
                }
            }
            Ok(())
        }),
        desc: Box::new(move |ix| format!("{} +{}x{}", base[ix[0]], OFF[ix[1]], eps[ix[2]])),
    });
    // an infinite value equals no finite one
    fams.push(Fam {
        name: "infinite",
        dims: vec![10, 2, 5],
        run: Box::new(move |ix, rec| {
            let (a, b, e) = (base[ix[0]], [f64::INFINITY, f64::NEG_INFINITY][ix[1]], eps[ix[2]]);
            rec.steps(5);
            rec.state(&(ix, "infinite"));
            let (mut m, q) = (Matrix3::from_element(a), Matrix3::from_element(a));
            m[ix[0] % 9] = b;
            for r in [call(|| cust_eq(&a, &b, &e)), call(|| cust_eq(&b, &a, &e)), call(|| approx_equal(&a, &b, &e)), call(|| approx_equal(&b, &a, &e)), call(|| approx_equal_iter([a, a].iter(), [a, b].iter(), &e)), call(|| compare_matrices(&m, &q, &[e; 9]))] {
                if r == Ok(true) {
                    return Err(format!("{} equals {}", a, b));
                }
            }
            Ok(())
        }),
        desc: Box::new(move |ix| format!("{} and {}infinity, tolerance {}", base[ix[0]], ["", "minus "][ix[1]], eps[ix[2]])),
    });
    fams.push(Fam {
        name: "unequal-lists",
        dims: vec![5, 5],
        run: Box::new(|ix, rec| {
            let (x, y) = (vec![0.5; ix[0]], vec![0.5; ix[1]]);
            rec.step();
            let r = call(|| approx_equal_iter(x.iter(), y.iter(), &0.1));
            if ix[0] == ix[1] && r != Ok(true) || ix[0] != ix[1] && r == Ok(true) {
                return Err("lists of different length compare equal or equal lists differ".into());
            }
            rec.state(&(ix[0], ix[1], 7));
            Ok(())
        }),
        desc: Box::new(|ix| format!("lengths {} {}", ix[0], ix[1])),
    });
    for (name, len) in [("signs0", 0usize), ("signs1", 1), ("signs2", 2), ("signs3", 3), ("signs4", 4), ("signs5", 5), ("signs6", 6), ("signs7", 7)] {
        if len <= ctx.pick(6, 7) {
            let mut dims = vec![5];
            dims.extend(vec![9; len]);
            fams.push(Fam {
                name,
                dims,
                run: Box::new(move |ix, rec| {
                    let e = eps[ix[0]];
                    let t = [0.0, 0.5, -0.5, 0.99, -0.99, 1.01, -1.01, 3.0e6, -3.0e6];
                    let v: Vec<f64> = ix[1..].iter().map(|i| t[*i] * e).collect();
                    let neg = ix[1..].iter().filter(|i| t[**i] < -1.0).count();
                    let zero = ix[1..].iter().filter(|i| t[**i].abs() < 1.0).count();
                    rec.step();
                    let (a, b) = call(|| num_negative_zero(&v, &e))?;
                    if (a as usize, b as usize) != (neg, zero) {
                        return Err(format!("{:?} with tolerance {} counted as {} negative {} zero", v, e, a, b));
                    }
                    rec.state(&(ix, 3));
                    Ok(())
                }),
                desc: Box::new(|ix| format!("sign pattern {:?}", ix)),
            });
        }
    }
    Space {
        fams,
        bounds: "126 values per component (7 cells x 13 offsets around the faces and 5 interior places), all combinations of three components, 5 tolerances; pairs at 13 offsets around 10 bases and 5 tolerances in every position; the same values 30 to 1000000 cells away; all sign lists up to length 6 (7) over 9 values".into(),
        assumptions: vec!["values exactly on a limit are left open".into()],
        post: None,
    }
}
