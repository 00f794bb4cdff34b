//! Matrices, helper precomputations, hex parsing, field definitions.
use crate::fields::*;
use crate::out::*;
use crate::perms::{cauchy, coprime, edge_values};
use ark_ff::{BigInteger, FftField, PrimeField};
use serde_json::{json, Value};
use zkhash::fields::utils::from_hex;
use zkhash::poseidon::poseidon_params::PoseidonParams;
use zkhash::poseidon2::poseidon2_params::Poseidon2Params;
use zkhash::utils::{mat_inverse, mat_transpose};

fn opt_mat<F: PrimeField>(r: &Option<Vec<Vec<F>>>) -> (bool, Value) {
    match r {
        Some(m) => (true, mat_el(m)),
        None => (false, json!([])),
    }
}

// ------------------------------------------------------------ linear algebra
fn inv_event<F: PrimeField>(tr: &mut Trace, m: &[Vec<F>]) {
    let r = call("mat_inverse", || mat_inverse(m));
    let (ok, out) = opt_mat(&r);
    tr.ev(json!({"k": "inv", "F": field::<F>(), "m": mat_el(m), "ok": ok, "out": out}));
}
/// Every n x n matrix with entries below q, in blocks (row-major digits, first entry most significant).
fn inv_all<F: PrimeField>(tr: &mut Trace, n: usize, q: u64) {
    let q = if q == 0 { F::MODULUS.as_ref()[0] } else { q };
    let total = q.pow((n * n) as u32);
    let mut k = 0;
    while k < total {
        let end = (k + 256).min(total);
        let outs: Vec<Value> = (k..end)
            .map(|j| {
                let v: Vec<F> = (0..n * n).map(|i| F::from((j / q.pow((n * n - 1 - i) as u32)) % q)).collect();
                let m: Vec<Vec<F>> = v.chunks(n).map(|c| c.to_vec()).collect();
                opt_mat(&call("mat_inverse", || mat_inverse(&m))).1
            })
            .collect();
        tr.ev(json!({"k": "invtab", "F": field::<F>(), "n": n, "q": q, "from": k, "outs": outs}));
        k = end;
    }
}
fn algebra_rand<F: PrimeField>(tr: &mut Trace, rng: &mut Rng, sizes: &[usize], reps: usize) {
    for &n in sizes {
        for _ in 0..reps {
            let m: Vec<Vec<F>> = rng.mat(n, n);
            inv_event(tr, &m);
            // sparse: permutation-like matrices need pivoting at every step
            let mut perm: Vec<usize> = (0..n).collect();
            for i in (1..n).rev() {
                perm.swap(i, rng.below(i as u64 + 1) as usize);
            }
            let mut q = vec![vec![F::zero(); n]; n];
            for i in 0..n {
                q[i][perm[i]] = rng.nonzero();
                let c = rng.below(n as u64) as usize;
                if c > perm[i] {
                    q[i][c] = rng.el();
                }
            }
            inv_event(tr, &q);
            // singular: last row a combination of two others / a zero column / two equal rows
            if n > 1 {
                let mut s = rng.mat::<F>(n, n);
                let (a, b): (F, F) = (rng.el(), rng.el());
                for j in 0..n {
                    let x = s[0][j];
                    let y = s[n / 2][j];
                    s[n - 1][j] = if n > 2 { x * a + y * b } else { x * a };
                }
                inv_event(tr, &s);
                let mut s = rng.mat::<F>(n, n);
                let c = rng.below(n as u64) as usize;
                s.iter_mut().for_each(|r| r[c] = F::zero());
                inv_event(tr, &s);
            }
            // products and transposes
            let a: Vec<Vec<F>> = rng.mat(n, n);
            let b: Vec<Vec<F>> = rng.mat(n, n);
            let v: Vec<F> = rng.vec(n);
            let mm = call("mat_mat_mul", || PoseidonParams::<F>::mat_mat_mul(&a, &b));
            let (ok, out) = opt_mat(&mm);
            tr.ev(json!({"k": "matmul", "F": field::<F>(), "a": mat_el(&a), "b": mat_el(&b), "ok": ok, "out": out}));
            let mv = call("mat_vec_mul", || PoseidonParams::<F>::mat_vec_mul(&a, &v));
            let (ok, out) = res(&mv);
            tr.ev(json!({"k": "matvec", "F": field::<F>(), "a": mat_el(&a), "v": vec_el(&v), "ok": ok, "out": out}));
            let mv = call("mat_vec_mul", || Poseidon2Params::<F>::mat_vec_mul(&b, &v));
            let (ok, out) = res(&mv);
            tr.ev(json!({"k": "matvec", "F": field::<F>(), "a": mat_el(&b), "v": vec_el(&v), "ok": ok, "out": out}));
            for (r, c) in [(n, n), (n, n + 2), (n + 1, 1)] {
                let m: Vec<Vec<F>> = rng.mat(r, c);
                let (ok, out) = opt_mat(&call("mat_transpose", || mat_transpose(&m)));
                tr.ev(json!({"k": "transpose", "F": field::<F>(), "m": mat_el(&m), "ok": ok, "out": out}));
            }
        }
    }
}
/// Matrices by the place of their entries: what a shortcut would look for.
fn structured<F: PrimeField>(tr: &mut Trace, rng: &mut Rng, n: usize, singles: bool) {
    let z = F::zero();
    let mut all: Vec<Vec<Vec<F>>> = vec![];
    let mut shape = |rng: &mut Rng, f: &dyn Fn(usize, usize) -> bool| {
        all.push((0..n).map(|i| (0..n).map(|j| if f(i, j) { rng.nonzero() } else { z }).collect()).collect());
    };
    shape(rng, &|i, j| i == j);
    shape(rng, &|i, j| i + j == n - 1);
    shape(rng, &|i, j| i <= j);
    shape(rng, &|i, j| i >= j);
    shape(rng, &|i, j| i + j < n);
    shape(rng, &|i, j| i + j + 1 >= n);
    shape(rng, &|i, j| i.abs_diff(j) <= 1);
    shape(rng, &|i, j| i == j || i == 0);
    shape(rng, &|i, j| i == j || j == 0);
    shape(rng, &|i, j| i == j || i == 0 || j == 0);
    shape(rng, &|i, j| i == j || i + 1 == n || j + 1 == n);
    shape(rng, &|i, j| (i > 0 || j == n - 1) && (i == 0 || j + 1 == i || i == j));
    shape(rng, &|i, j| (i + 1) % n == j);
    shape(rng, &|i, j| i / 2 == j / 2);
    shape(rng, &|i, j| (2 * i < n) == (2 * j < n));
    shape(rng, &|i, j| (2 * i < n) != (2 * j < n));
    shape(rng, &|i, j| (i + j) % 2 == 0);
    if singles {
        for r in 0..n {
            for c in 0..n {
                if r != c {
                    shape(rng, &|i, j| i == j || (i, j) == (r, c));
                    shape(rng, &|i, j| i == j || (i, j) == (r, c) || (j, i) == (r, c));
                    shape(rng, &|i, j| (i == j && i != r) || (i, j) == (r, c) || (j, i) == (r, c));
                }
            }
        }
    }
    // symmetric, antisymmetric, circulant, Toeplitz, Hankel, Vandermonde, one plus a product, constant
    let base: Vec<F> = rng.vec(2 * n);
    let sq: Vec<Vec<F>> = rng.mat(n, n);
    let mut fill = |f: &dyn Fn(usize, usize) -> F| all.push((0..n).map(|i| (0..n).map(|j| f(i, j)).collect()).collect());
    fill(&|i, j| sq[i.min(j)][i.max(j)]);
    fill(&|i, j| if i == j { z } else if i < j { sq[i][j] } else { -sq[j][i] });
    fill(&|i, j| base[(i + n - j) % n]);
    fill(&|i, j| base[i + n - 1 - j]);
    fill(&|i, j| base[i + j]);
    fill(&|i, j| base[i].pow([j as u64]));
    fill(&|i, j| if i == j { F::one() + base[i] * base[n + j] } else { base[i] * base[n + j] });
    fill(&|i, j| base[i] * base[n + j]);
    fill(&|i, j| F::from((i == j) as u64));
    fill(&|i, j| -F::from((i == j) as u64));
    fill(&|i, j| if i == j { base[0] } else { F::zero() });
    fill(&|_, _| base[0]);
    fill(&|i, j| F::from((n * i + j) as u64));
    fill(&|i, j| if i == j { base[i] } else { F::one() });
    fill(&|_, _| z);
    let v: Vec<F> = rng.vec(n);
    for (i, m) in all.iter().enumerate() {
        inv_event(tr, m);
        let o = &all[(i * 7 + 3) % all.len()];
        for (a, b) in if singles { vec![(m, &sq), (&sq, m)] } else { vec![(m, &sq), (&sq, m), (m, m), (m, o)] } {
            let (ok, out) = opt_mat(&call("mat_mat_mul", || PoseidonParams::<F>::mat_mat_mul(a, b)));
            tr.ev(json!({"k": "matmul", "F": field::<F>(), "a": mat_el(a), "b": mat_el(b), "ok": ok, "out": out}));
        }
        let (ok, out) = res(&call("mat_vec_mul", || PoseidonParams::<F>::mat_vec_mul(m, &v)));
        tr.ev(json!({"k": "matvec", "F": field::<F>(), "a": mat_el(m), "v": vec_el(&v), "ok": ok, "out": out}));
        let (ok, out) = res(&call("mat_vec_mul", || Poseidon2Params::<F>::mat_vec_mul(m, &v)));
        tr.ev(json!({"k": "matvec", "F": field::<F>(), "a": mat_el(m), "v": vec_el(&v), "ok": ok, "out": out}));
        let (ok, out) = opt_mat(&call("mat_transpose", || mat_transpose(m)));
        tr.ev(json!({"k": "transpose", "F": field::<F>(), "m": mat_el(m), "ok": ok, "out": out}));
    }
}
pub fn c15(tr: &mut Trace, rng: &mut Rng, thorough: bool) {
    let k = if thorough { 8 } else { 1 };
    for n in 1..=3 {
        inv_all::<F3>(tr, n, 0);
    }
    for n in 1..=2 {
        inv_all::<F5>(tr, n, 0);
        inv_all::<F7>(tr, n, 0);
    }
    inv_all::<F3>(tr, 4, 2);
    for n in 2..=6 {
        structured::<F257>(tr, rng, n, true);
    }
    for n in [7, 8, 9, 12, 16, 17, 24] {
        structured::<F257>(tr, rng, n, false);
        structured::<F7>(tr, rng, n, false);
    }
    for n in 2..=5 {
        structured::<FpBLS12>(tr, rng, n, thorough);
        structured::<FpGoldiLocks>(tr, rng, n, thorough);
    }
    structured::<FpBN256>(tr, rng, 4, true);
    structured::<FpPallas>(tr, rng, 4, thorough);
    structured::<FpVesta>(tr, rng, 4, thorough);
    structured::<FpBabyBear>(tr, rng, 4, thorough);
    if thorough {
        inv_all::<F11>(tr, 2, 0);
        inv_all::<F13>(tr, 2, 0);
        inv_all::<F17>(tr, 2, 0);
    }
    algebra_rand::<F3>(tr, rng, &[1, 2, 3, 4, 5, 6, 7, 8, 9, 12], 6 * k);
    algebra_rand::<F257>(tr, rng, &[1, 2, 3, 4, 5, 8, 11, 16], 2 * k);
    algebra_rand::<F257>(tr, rng, &[25, 32, 33, 40, 64], 1);
    algebra_rand::<F7>(tr, rng, &[10, 17, 20, 28], k);
    algebra_rand::<F32749>(tr, rng, &[2, 3, 7, 12, 24], k);
    algebra_rand::<FpBLS12>(tr, rng, &[1, 2, 3, 4, 8], k);
    algebra_rand::<FpBN256>(tr, rng, &[2, 3], k);
    algebra_rand::<FpPallas>(tr, rng, &[3, 5], k);
    algebra_rand::<FpVesta>(tr, rng, &[3, 4], k);
    algebra_rand::<FpGoldiLocks>(tr, rng, &[3, 8, 12], k);
    algebra_rand::<FpBabyBear>(tr, rng, &[3, 16], k);
    crate::middle!(algebra_rand, tr, rng, &[1, 2, 3, 5], k);
}

// --------------------------------------------- precomputation helpers (C03)
fn helpers<F: PrimeField>(tr: &mut Trace, rng: &mut Rng, t: usize, d: usize, hf: usize, rp: usize, mds: Vec<Vec<F>>, nin: usize) {
    // the rows behind the section do not matter: none, as many as in front, or others
    let tail = [hf, 0, hf, 1, hf + 3][rng.below(5) as usize];
    let style = [0, 0, 2, 3, 4][rng.below(5) as usize];
    let rc: Vec<Vec<F>> = rng.styled_mat(hf + rp + tail, t, style);
    let em = call("equivalent_matrices", || PoseidonParams::<F>::equivalent_matrices(&mds, t, rp));
    let ec = call("equivalent_round_constants", || PoseidonParams::<F>::equivalent_round_constants(&rc, &mds, hf, rp));
    let e2 = call("p2 equivalent_round_constants", || Poseidon2Params::<F>::equivalent_round_constants(&rc, &mds, hf, rp));
    let ins: Vec<Vec<F>> = (0..nin)
        .map(|i| match i {
            0 => vec![F::zero(); t],
            1 => (0..t).map(|k| F::from(k as u64 + 1)).collect(),
            _ => rng.vec(t),
        })
        .collect();
    let (okm, okc, ok2) = (em.is_some(), ec.is_some(), e2.is_some());
    let (mi, v, w) = em.unwrap_or_default();
    tr.ev(json!({"k": "pre", "F": field::<F>(), "t": t, "d": d, "rf": 2 * hf, "rp": rp, "mds": mat_el(&mds),
        "rc": mat_el(&rc), "okm": okm, "okc": okc, "ok2": ok2, "mi": mat_el(&mi), "v": mat_el(&v), "w": mat_el(&w),
        "opt": mat_el(&ec.unwrap_or_default()), "opt2": mat_el(&e2.unwrap_or_default()), "ins": mat_el(&ins)}));
}
/// Matrices without a sparse factorisation, singular ones with one, triangular and permuted ones.
fn odd_matrices<F: PrimeField>(rng: &mut Rng, t: usize) -> Vec<Vec<Vec<F>>> {
    let (z, o) = (F::zero(), F::one());
    let anti: Vec<Vec<F>> = (0..t).map(|i| (0..t).map(|j| if i + j == t - 1 { o } else { z }).collect()).collect();
    let shift: Vec<Vec<F>> = (0..t).map(|i| (0..t).map(|j| if (i + 1) % t == j { rng.nonzero() } else { z }).collect()).collect();
    let tri: Vec<Vec<F>> = (0..t).map(|i| (0..t).map(|j| if i == j { rng.nonzero() } else if i < j { rng.el() } else { z }).collect()).collect();
    let ident: Vec<Vec<F>> = (0..t).map(|i| (0..t).map(|j| if i == j { o } else { z }).collect()).collect();
    // first column zero: singular, the block below can still be invertible
    let mut sing: Vec<Vec<F>> = rng.mat(t, t);
    for r in sing.iter_mut() {
        r[0] = z;
    }
    // zero in the corner of the block
    let mut corner: Vec<Vec<F>> = rng.mat(t, t);
    if t > 1 {
        corner[1][1] = z;
    }
    corner[0][0] = z;
    let diag: Vec<Vec<F>> = {
        let d: Vec<F> = rng.vec(t);
        (0..t).map(|i| (0..t).map(|j| if i == j { d[i] + o } else { o }).collect()).collect()
    };
    vec![anti, shift, tri, ident, sing, corner, diag]
}
pub fn c03(tr: &mut Trace, rng: &mut Rng, thorough: bool) {
    let k = if thorough { 8 } else { 1 };
    fn sweep<F: PrimeField>(tr: &mut Trace, rng: &mut Rng, ts: &[usize], reps: usize, nin: usize) {
        for &t in ts {
            for d in [3usize, 5, 7] {
                for (hf, rp) in [(0usize, 1usize), (1, 1), (1, 2), (2, 3), (0, 5), (3, 8)] {
                    for _ in 0..reps {
                        if let Some(m) = cauchy::<F>(rng, t) {
                            helpers(tr, rng, t, d, hf, rp, m, nin);
                        }
                        // an arbitrary matrix: the specification decides whether a factorisation exists
                        let m = rng.mat::<F>(t, t);
                        helpers(tr, rng, t, d, hf, rp, m, nin);
                    }
                }
            }
        }
    }
    sweep::<F5>(tr, rng, &[2], 4 * k, 6);
    sweep::<F7>(tr, rng, &[2, 3], 3 * k, 6);
    sweep::<F17>(tr, rng, &[2, 3, 4], 2 * k, 6);
    sweep::<F257>(tr, rng, &[2, 3, 4, 5, 8], k, 4);
    sweep::<F32749>(tr, rng, &[3, 6, 12, 16], k, 3);
    sweep::<FpBLS12>(tr, rng, &[2, 3, 4], k, 3);
    sweep::<FpGoldiLocks>(tr, rng, &[5, 8], k, 3);
    crate::middle!(sweep, tr, rng, &[2, 3], k, 2);
    // more partial rounds than any shipped set
    for (t, hf, rp) in [(2usize, 1usize, 71usize), (3, 4, 90), (3, 0, 133), (4, 2, 100), (2, 1, 260), (5, 1, 76)] {
        for i in 0..k {
            let d = [3usize, 5, 7][(rp + i) % 3];
            if let Some(m) = cauchy::<F257>(rng, t) {
                helpers(tr, rng, t, d, hf, rp, m, 3);
            }
        }
    }
    if let Some(m) = cauchy::<FpBN256>(rng, 3) {
        helpers(tr, rng, 3, 5, 2, 80, m, 2);
    }
    // every width up to beyond the widest shipped one
    for t in 2usize..=25 {
        if let Some(m) = cauchy::<F32749>(rng, t) {
            helpers(tr, rng, t, 3, 1, 4, m, 2);
        }
    }
    fn odd<F: PrimeField>(tr: &mut Trace, rng: &mut Rng, ts: &[usize], reps: usize) {
        for &t in ts {
            for i in 0..reps {
                for m in odd_matrices::<F>(rng, t) {
                    helpers(tr, rng, t, [3usize, 5, 7][i % 3], i % 4, 1 + (i + t) % 4, m, 3);
                }
            }
        }
    }
    odd::<F7>(tr, rng, &[2, 3, 4, 5], 3 * k);
    odd::<F257>(tr, rng, &[2, 3, 4, 8], 2 * k);
    odd::<FpVesta>(tr, rng, &[2, 3, 4], k);
    // wide and long
    for t in [33usize, 40] {
        if let Some(m) = cauchy::<F32749>(rng, t) {
            helpers(tr, rng, t, 3, 1, 2, m, 1);
        }
    }
    let _ = coprime::<F5>(3);
}

// ------------------------------------------------------------- from_hex (C16)
fn hex_event<F: PrimeField>(tr: &mut Trace, digits: &str, prefix: &str) {
    let s = format!("{}{}", prefix, digits);
    let r = call("from_hex", || from_hex::<F>(&s));
    let nib: Vec<i32> = digits.chars().map(|c| c.to_digit(16).map(|x| x as i32).unwrap_or(-1)).collect();
    let (ok, out) = match r {
        Some(x) => (true, el(&x)),
        None => (false, if is_small::<F>() { json!(0) } else { json!([]) }),
    };
    tr.ev(json!({"k": "hex", "F": field::<F>(), "s": s, "nib": nib, "ok": ok, "out": out}));
}
fn hex_sweep<F: PrimeField>(tr: &mut Trace, rng: &mut Rng, n: usize) {
    let hx = |rng: &mut Rng, len: usize, style: u64| -> String {
        (0..len)
            .map(|_| {
                let c = std::char::from_digit(rng.below(16) as u32, 16).unwrap();
                if style == 1 || (style == 2 && rng.below(2) == 0) { c.to_ascii_uppercase() } else { c }
            })
            .collect()
    };
    // every length, both parities, the three letter cases
    for len in 0..=70usize {
        let s = hx(rng, len, len as u64 % 3);
        hex_event::<F>(tr, &s, "0x");
    }
    for len in [80usize, 95, 96, 127, 128, 129, 200, 255, 256, 257, 510, 512, 514, 1022, 1024, 1026, 2050, 4098, 8194, 16386] {
        let s = hx(rng, len, 2);
        hex_event::<F>(tr, &s, "0x");
    }
    // every byte value once, leading zeros, all ones, powers of two
    for b in 0..256u32 {
        hex_event::<F>(tr, &format!("{:02x}", b), "0x");
    }
    for len in [2usize, 8, 16, 32, 62, 64, 66] {
        hex_event::<F>(tr, &"0".repeat(len), "0x");
        hex_event::<F>(tr, &"f".repeat(len), "0x");
        hex_event::<F>(tr, &"F".repeat(len), "0x");
        hex_event::<F>(tr, &format!("{}1", "0".repeat(len - 1)), "0x");
        hex_event::<F>(tr, &format!("8{}", "0".repeat(len - 1)), "0x");
    }
    // around multiples of the modulus
    let m = F::MODULUS.to_bytes_be();
    let hexs: String = m.iter().map(|b| format!("{:02x}", b)).collect();
    hex_event::<F>(tr, &hexs, "0x");
    for x in edge_values::<F>() {
        let b = x.into_bigint().to_bytes_be();
        let h: String = b.iter().map(|v| format!("{:02x}", v)).collect();
        hex_event::<F>(tr, &h, "0x");
        // x + p (one more byte, so that it never overflows)
        let mut carry = 0u16;
        let mut sum = vec![0u8; m.len() + 1];
        for i in 0..m.len() {
            let k = m.len() - 1 - i;
            let v = m[k] as u16 + b[k] as u16 + carry;
            sum[k + 1] = v as u8;
            carry = v >> 8;
        }
        sum[0] = carry as u8;
        let h: String = sum.iter().map(|v| format!("{:02x}", v)).collect();
        hex_event::<F>(tr, &h, "0x");
    }
    for _ in 0..n {
        let len = 2 * (1 + rng.below(40)) as usize;
        let style = rng.below(3);
        let s = hx(rng, len, style);
        hex_event::<F>(tr, &s, "0x");
        // one bad character somewhere
        let mut c: Vec<char> = s.chars().collect();
        let i = rng.below(c.len() as u64) as usize;
        c[i] = ['g', 'x', ' ', '-', 'G', '/', ':', '@', '`', '_', '+', 'O'][rng.below(12) as usize];
        hex_event::<F>(tr, &c.iter().collect::<String>(), "0x");
    }
    // characters added to an even number of digits: at the front, at the end, in the middle, one or two of them
    let odd = ["_", " ", "\t", "\n", "\r\n", "\0", "+", "-", "0x", "0X", "x", "#", ",", ".", "'", ":", "h", "H", "g", "\u{ff11}", "\u{0661}", "\u{e9}", "\u{1f600}", "\u{200b}"];
    for (k, o) in odd.iter().enumerate() {
        for len in [2usize, 16, 64] {
            let s = hx(rng, len, (k % 3) as u64);
            hex_event::<F>(tr, &format!("{}{}", o, s), "0x");
            hex_event::<F>(tr, &format!("{}{}", s, o), "0x");
            hex_event::<F>(tr, &format!("{}{}{}", &s[..len / 2], o, &s[len / 2..]), "0x");
            hex_event::<F>(tr, &format!("{}{}{}{}", &s[..1], o, &s[1..], o), "0x");
            hex_event::<F>(tr, &format!("{}{}{}", o, s, o), "0x");
        }
        hex_event::<F>(tr, o, "0x");
        hex_event::<F>(tr, &format!("{}{}", o, o), "0x");
    }
    // one digit replaced: the first, the second, a middle one, the last (the length stays even)
    for o in ["+", "-", "_", " ", "\n", "\0", "g", "G", "x", "/", ":", "@", "`", "h", "o", "O", "l"] {
        for len in [2usize, 4, 8, 16, 32, 62, 64] {
            let s = hx(rng, len, 0);
            for i in [0, 1, len / 2, len - 1] {
                hex_event::<F>(tr, &format!("{}{}{}", &s[..i], o, &s[i + 1..]), "0x");
            }
        }
    }
    // an odd number of digits, small and large, with and without leading zeros
    for len in [1usize, 3, 15, 17, 31, 33, 63, 65, 67] {
        hex_event::<F>(tr, &"0".repeat(len), "0x");
        hex_event::<F>(tr, &format!("{}1", "0".repeat(len - 1)), "0x");
        hex_event::<F>(tr, &"f".repeat(len), "0x");
    }
}
/// Similar strings, one right after the other.
fn hex_pairs<F: PrimeField>(tr: &mut Trace) {
    let v = ["0123456789abcdef", "0123456789ABCDEF", "0123456789abcdee", "f123456789abcdef", "0123456789abcd", "000123456789abcdef",
        "fedcba9876543210", "23456789abcdef01", "0123456789abcdeg", "0123456789abcde", "", "00", "01", "0000000000000000"];
    for a in v {
        for b in v {
            hex_event::<F>(tr, a, "0x");
            hex_event::<F>(tr, b, "0x");
        }
    }
}
pub fn c16(tr: &mut Trace, rng: &mut Rng, thorough: bool) {
    let n = if thorough { 800 } else { 40 };
    hex_pairs::<FpPallas>(tr);
    hex_pairs::<FpGoldiLocks>(tr);
    hex_sweep::<F7>(tr, rng, n);
    hex_sweep::<F32749>(tr, rng, n);
    hex_sweep::<FpBLS12>(tr, rng, n);
    hex_sweep::<FpBN256>(tr, rng, n);
    hex_sweep::<FpPallas>(tr, rng, n);
    hex_sweep::<FpVesta>(tr, rng, n);
    hex_sweep::<FpGoldiLocks>(tr, rng, n);
    hex_sweep::<FpBabyBear>(tr, rng, n);
    hex_sweep::<M17>(tr, rng, n / 4);
    hex_sweep::<M48>(tr, rng, n / 4);
    hex_sweep::<M64>(tr, rng, n / 4);
    hex_sweep::<M127>(tr, rng, n / 4);
    hex_sweep::<M160>(tr, rng, n / 4);
    hex_sweep::<M384>(tr, rng, n / 4);
}

// --------------------------------------------------------- field definitions
/// Conversions and less common operations of the field types.
fn field_more<F: PrimeField + FftField + From<i64>>(tr: &mut Trace, rng: &mut Rng, name: &str, n: usize) {
    use ark_ff::LegendreSymbol;
    use ark_std::string::ToString;
    let mut v = edge_values::<F>();
    for i in 0..n {
        v.push(if i % 2 == 0 { rng.el() } else { rng.sized() });
    }
    for i in 0..v.len() {
        let (a, b, c) = (v[i], v[(i * 3 + 1) % v.len()], v[(i * 7 + 2) % v.len()]);
        let mut r: Vec<Option<F>> = vec![];
        r.push(call("sum of products", || F::sum_of_products(&[a, b, c], &[b, c, a])));
        r.push(call("sum", || [a, b, c].iter().copied().sum::<F>()));
        r.push(call("product", || [a, b, c].iter().copied().product::<F>()));
        r.push(call("assign", || { let mut x = a; x += b; x *= c; x -= a; x }));
        r.push(call("in place", || { let mut x = a; x.double_in_place(); x.square_in_place(); x.neg_in_place(); x }));
        // ark prints zero as the empty string, which it does not read back: not this crate's doing
        r.push(if a.is_zero() { Some(a) } else { call("text", || F::from_str(&a.to_string()).ok().unwrap()) });
        r.push(call("bytes", || { let mut w = vec![]; a.serialize_compressed(&mut w).unwrap(); F::deserialize_compressed(&w[..]).unwrap() }));
        r.push(call("be bytes", || F::from_be_bytes_mod_order(&[a.into_bigint().to_bytes_be(), b.into_bigint().to_bytes_be()].concat())));
        r.push(call("frobenius", || a.frobenius_map(1)));
        let (s, t) = (rng.next() >> rng.below(64), rng.next() >> rng.below(64));
        r.push(call("from u64", || F::from(s)));
        r.push(call("from u128", || F::from(((s as u128) << 64) | t as u128)));
        r.push(call("from i64", || F::from(-((s >> 1) as i64))));
        let ok = r.iter().all(|x| x.is_some());
        let leg = call("legendre", || match a.legendre() { LegendreSymbol::Zero => 0, LegendreSymbol::QuadraticResidue => 1, _ => 2 }).unwrap_or(9);
        let sq = call("sqrt", || a.sqrt());
        let cmp = call("cmp", || match a.cmp(&b) { std::cmp::Ordering::Less => 0, std::cmp::Ordering::Equal => 1, _ => 2 }).unwrap_or(9);
        let back = sq.flatten();
        tr.ev(json!({"k": "more", "f": name, "a": el(&a), "b": el(&b), "c": el(&c), "ok": ok && sq.is_some(),
            "s": limbs24(&[s], 3), "st": limbs24(&[t, s], 6), "s1": limbs24(&[s >> 1], 3), "nbytes": F::MODULUS.to_bytes_be().len(),
            "r": r.iter().map(|x| x.map(|y| el(&y)).unwrap_or(json!([]))).collect::<Vec<_>>(),
            "leg": leg, "has_sqrt": back.is_some(), "sqrt": back.map(|y| el(&y)).unwrap_or(json!([])), "cmp": cmp}));
    }
}
fn field_def<F: PrimeField + FftField>(tr: &mut Trace, rng: &mut Rng, name: &str, n: usize) {
    let nl = nlimbs::<F>();
    let g = F::GENERATOR;
    tr.ev(json!({"k": "field", "f": name, "p": limbs24(F::MODULUS.as_ref(), nl), "bits": F::MODULUS_BIT_SIZE,
        "gen": el(&g), "two_adicity": F::TWO_ADICITY, "root": el(&F::TWO_ADIC_ROOT_OF_UNITY),
        "zero": el(&F::zero()), "one": el(&F::one()), "ext": F::extension_degree()}));
    let mut v = edge_values::<F>();
    v.extend((0..n).map(|_| rng.el::<F>()));
    for i in 0..v.len() {
        let a = v[i];
        for j in [i, (i * 5 + 1) % v.len(), (i * 11 + 3) % v.len()] {
            let b = v[j];
            let mut r = vec![];
            r.push(call("add", || a + b));
            r.push(call("sub", || a - b));
            r.push(call("mul", || a * b));
            r.push(call("neg", || -a));
            r.push(call("double", || a.double()));
            r.push(call("square", || a.square()));
            r.push(call("pow", || a.pow([5u64, 0, 3])));
            r.push(call("bytes", || F::from_le_bytes_mod_order(&a.into_bigint().to_bytes_le())));
            r.push(call("from_bigint", || F::from_bigint(a.into_bigint()).unwrap()));
            let inv = call("inv", || a.inverse()).flatten();
            let eq = call("eq", || (a == b, a.is_zero(), b.is_one())).unwrap_or((false, false, false));
            let all = r.iter().all(|x| x.is_some());
            tr.ev(json!({"k": "arith", "f": name, "a": el(&a), "b": el(&b), "ok": all,
                "r": r.iter().map(|x| x.map(|y| el(&y)).unwrap_or(json!([]))).collect::<Vec<_>>(),
                "has_inv": inv.is_some(), "inv": inv.map(|y| el(&y)).unwrap_or(json!([])),
                "eq": eq.0, "a_zero": eq.1, "b_one": eq.2}));
        }
    }
}
pub fn c18(tr: &mut Trace, rng: &mut Rng, thorough: bool) {
    let n = if thorough { 1500 } else { 60 };
    field_def::<FpBLS12>(tr, rng, "BLS", n);
    field_more::<FpBLS12>(tr, rng, "BLS", n / 2);
    field_def::<FpBN256>(tr, rng, "BN", n);
    field_more::<FpBN256>(tr, rng, "BN", n / 2);
    field_def::<FpPallas>(tr, rng, "PALLAS", n);
    field_more::<FpPallas>(tr, rng, "PALLAS", n / 2);
    field_def::<FpVesta>(tr, rng, "VESTA", n);
    field_more::<FpVesta>(tr, rng, "VESTA", n / 2);
    field_def::<FpGoldiLocks>(tr, rng, "GOLDILOCKS", n);
    field_more::<FpGoldiLocks>(tr, rng, "GOLDILOCKS", n / 2);
    field_def::<FpBabyBear>(tr, rng, "BABYBEAR", n);
    field_more::<FpBabyBear>(tr, rng, "BABYBEAR", n / 2);
}
