//! Encoded operations and digits.
use crystsymm::utils::{decode, decode_spg_op};
use mc::engine::*;
use mc::model::*;

const TWELFTHS: [i64; 8] = [0, 2, 3, 4, 6, 8, 9, 10];

/// Own reading of an encoded operation.
fn own_decode(code: u32) -> (M, V) {
    let mut m = [[0; 3]; 3];
    let mut r = code % 19683;
    for k in (0..9).rev() {
        m[k / 3][k % 3] = (r % 3) as i64 - 1;
        r /= 3;
    }
    let t = code / 19683;
    (m, [TWELFTHS[(t / 64 % 8) as usize], TWELFTHS[(t / 8 % 8) as usize], TWELFTHS[(t % 8) as usize]])
}

fn encode(m: &M, t: &V) -> Option<u32> {
    let mut r = 0u32;
    for k in 0..9 {
        r = r * 3 + (m[k / 3][k % 3] + 1) as u32;
    }
    let mut x = 0u32;
    for k in 0..3 {
        x = x * 8 + TWELFTHS.iter().position(|y| *y == t[k])? as u32;
    }
    Some(x * 19683 + r)
}

pub fn c11(ctx: &Ctx) -> Space<'static> {
    let a = Fam {
        name: "operation",
        dims: vec![512, 27],
        run: Box::new(|ix, rec| {
            let base = ix[0] as u32 * 19683 + ix[1] as u32 * 729;
            for k in 0..729 {
                let code = base + k;
                rec.step();
                let (r, t) = call(|| decode_spg_op(code)).map_err(|m| format!("code {}: {}", code, m))?;
                let (m, v) = own_decode(code);
                if r.len() != 9 || t.len() != 3 {
                    return Err(format!("code {}: wrong size", code));
                }
                let gm = [0, 1, 2].map(|i| [0, 1, 2].map(|j| r[3 * i + j] as i64));
                let gt = [0, 1, 2].map(|i| t[i] as i64);
                if gm != m || gt != v {
                    return Err(format!("code {} decodes to {:?} {:?} instead of {:?} {:?}", code, gm, gt, m, v));
                }
                if encode(&gm, &gt) != Some(code) {
                    return Err(format!("code {} is not what its operation encodes to", code));
                }
            }
            rec.state(&base);
            Ok(())
        }),
        desc: Box::new(|ix| format!("codes from {}", ix[0] * 19683 + ix[1] * 729)),
    };
    let block = 1000;
    let nb = ctx.pick(600, 10000);
    let b = Fam {
        name: "digits",
        dims: vec![nb, 9, 11, 4],
        run: Box::new(move |ix, rec| {
            let (base, len, sub) = (ix[1] as u8 + 2, ix[2] as i8, [0i8, 1, 2, -1][ix[3]]);
            for e in (ix[0] * block) as u32..((ix[0] + 1) * block) as u32 {
                rec.step();
                let got = call(|| decode(e, base, sub, len))?;
                let mut want = vec![];
                let mut x = e;
                for _ in 0..len {
                    want.push((x % base as u32) as i8 - sub);
                    x /= base as u32;
                }
                want.reverse();
                if got != want {
                    return Err(format!("decode({}, base {}, shift {}, length {}) = {:?} instead of {:?}", e, base, sub, len, got, want));
                }
            }
            rec.state(&(ix[0], base, len, sub));
            Ok(())
        }),
        desc: Box::new(move |ix| format!("numbers from {} base {} length {}", ix[0] * block, ix[1] + 2, ix[2])),
    };
    let long = Fam {
        name: "long",
        dims: vec![ctx.pick(200, 4000), 9, 22, 4],
        run: Box::new(move |ix, rec| {
            let (base, len, sub) = (ix[1] as u8 + 2, ix[2] as i8 + 11, [0i8, 1, 2, -1][ix[3]]);
            // spread over all 32-bit numbers
            for e in (0..5).map(|k| (ix[0] as u32 * 5 + k).wrapping_mul(2654435761)) {
                rec.step();
                let got = call(|| decode(e, base, sub, len))?;
                let want: Vec<i8> = (0..len as u32).rev().map(|k| (e as u64 / (base as u64).checked_pow(k).unwrap_or(u64::MAX) % base as u64) as i8 - sub).collect();
                if got != want {
                    return Err(format!("decode({}, base {}, shift {}, length {}) = {:?} instead of {:?}", e, base, sub, len, got, want));
                }
            }
            rec.state(&(ix[0], base, len, sub));
            Ok(())
        }),
        desc: Box::new(move |ix| format!("five numbers {} base {} length {}", ix[0], ix[1] + 2, ix[2] + 11)),
    };
    let top = [u32::MAX, u32::MAX - 1, 1 << 31, (1 << 31) - 1, 3u32.pow(20), 3u32.pow(20) - 1, 8u32.pow(10), 10u32.pow(9)];
    let c = Fam {
        name: "large",
        dims: vec![8, 9, 33],
        run: Box::new(move |ix, rec| {
            let (e, base, len) = (top[ix[0]], ix[1] as u8 + 2, ix[2] as i8);
            rec.step();
            let got = call(|| decode(e, base, 0, len))?;
            let v = got.iter().fold(0u64, |a, d| a * base as u64 + *d as u64);
            let full = (base as u64).checked_pow(len as u32).map_or(e as u64, |m| e as u64 % m);
            if v != full || got.len() != len as usize || got.iter().any(|d| *d < 0 || *d >= base as i8) {
                return Err(format!("digits {:?} do not stand for {}", got, e));
            }
            rec.state(&(e, base, len));
            Ok(())
        }),
        desc: Box::new(move |ix| format!("decode {} base {} length {}", top[ix[0]], ix[1] + 2, ix[2])),
    };
    Space {
        fams: vec![a, b, c, long],
        bounds: "all 512 x 19683 operation codes (complete); digits of all numbers below 600000 (10000000) in bases 2..10, lengths 0..10, 4 shifts; 8 large numbers in lengths up to 32; 1000 (20000) numbers evenly spread over 32 bits in bases 2..10, lengths 11..32, 4 shifts".into(),
        assumptions: vec![],
        post: None,
    }
}
