//! Inputs that lead to a chosen state *inside* a permutation. A random input meets a special
//! value (zero, one, minus one, equal cells, a vanishing sum) in front of an S-box or a linear
//! layer of a big field with negligible probability; here the rounds are run backwards from such
//! a state. This only chooses inputs: what the permutation makes of them is judged by TLC.
use crate::out::*;
use crate::perms::{P2Custom, PoCustom};
use crate::view::NeView;
use ark_ff::PrimeField;
use serde_json::Value;

type Mat<F> = Vec<Vec<F>>;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Alg {
    P2,
    Po,
    Gm,
    Ne,
}
pub struct Machine<F: PrimeField> {
    alg: Alg,
    t: usize,
    d: u64,
    rf: usize,
    rc: Mat<F>,
    /// matrices of full and partial rounds, and their inverses
    full: Mat<F>,
    part: Mat<F>,
    full_inv: Mat<F>,
    part_inv: Mat<F>,
    gamma: F,
    /// exponent of the inverse S-box
    e: Vec<u64>,
    /// Poseidon: constants moved behind the partial S-boxes
    moved: Vec<F>,
}

fn mul<F: PrimeField>(m: &Mat<F>, v: &[F]) -> Vec<F> {
    m.iter().map(|r| r.iter().zip(v).map(|(a, b)| *a * b).sum()).collect()
}
fn inverse<F: PrimeField>(m: &Mat<F>) -> Option<Mat<F>> {
    let n = m.len();
    let mut a: Mat<F> = (0..n)
        .map(|i| m[i].iter().copied().chain((0..n).map(|j| if i == j { F::one() } else { F::zero() })).collect())
        .collect();
    for c in 0..n {
        let p = (c..n).find(|&r| !a[r][c].is_zero())?;
        a.swap(c, p);
        let k = a[c][c].inverse()?;
        a[c].iter_mut().for_each(|x| *x *= k);
        for r in 0..n {
            if r != c && !a[r][c].is_zero() {
                let k = a[r][c];
                for j in 0..2 * n {
                    let s = a[c][j] * k;
                    a[r][j] -= s;
                }
            }
        }
    }
    Some(a.into_iter().map(|r| r[n..].to_vec()).collect())
}
/// e with d * e = 1 modulo p - 1, if there is one
fn root_exponent<F: PrimeField>(d: u64) -> Option<Vec<u64>> {
    let mut m: Vec<u64> = F::MODULUS.as_ref().to_vec();
    m[0] -= 1; // p is odd
    for k in 1..d {
        // k (p-1) + 1, divided by d
        let mut v = vec![];
        let mut carry: u128 = 1;
        for w in &m {
            let x = *w as u128 * k as u128 + carry;
            v.push(x as u64);
            carry = x >> 64;
        }
        v.push(carry as u64);
        let mut rem: u128 = 0;
        for w in v.iter_mut().rev() {
            let x = (rem << 64) | *w as u128;
            *w = (x / d as u128) as u64;
            rem = x % d as u128;
        }
        if rem == 0 {
            return Some(v);
        }
    }
    None
}
fn p2_external<F: PrimeField>(t: usize) -> Mat<F> {
    const M4: [[u64; 4]; 4] = [[5, 7, 1, 3], [4, 6, 1, 1], [1, 3, 5, 7], [1, 1, 4, 6]];
    (0..t)
        .map(|i| {
            (0..t)
                .map(|j| {
                    F::from(match t {
                        2 | 3 => 1 + (i == j) as u64,
                        4 => M4[i][j],
                        _ => M4[i % 4][j % 4] * (1 + (i / 4 == j / 4) as u64),
                    })
                })
                .collect()
        })
        .collect()
}
fn ones_plus<F: PrimeField>(diag_m_1: &[F]) -> Mat<F> {
    let t = diag_m_1.len();
    (0..t).map(|i| (0..t).map(|j| if i == j { F::one() + diag_m_1[i] } else { F::one() }).collect()).collect()
}

impl<F: PrimeField> Machine<F> {
    fn build(alg: Alg, t: usize, d: usize, rf: usize, rc: Mat<F>, full: Mat<F>, part: Mat<F>, gamma: F) -> Option<Self> {
        let full_inv = inverse(&full)?;
        let part_inv = inverse(&part)?;
        let e = if alg == Alg::Gm { vec![] } else { root_exponent::<F>(d as u64)? };
        let mut m = Machine { alg, t, d: d as u64, rf, rc, full, part, full_inv, part_inv, gamma, e, moved: vec![] };
        if alg == Alg::Po {
            m.moved = m.moved_constants();
        }
        Some(m)
    }
    pub fn p2(c: &P2Custom<F>) -> Option<Self> {
        let fixed: Vec<F> = match c.t {
            2 => vec![F::one(), F::from(2u64)],
            3 => vec![F::one(), F::one(), F::from(2u64)],
            _ => c.diag.clone(),
        };
        Self::build(Alg::P2, c.t, c.d, c.rf, c.rc.clone(), p2_external(c.t), ones_plus(&fixed), F::zero())
    }
    pub fn po(c: &PoCustom<F>) -> Option<Self> {
        Self::build(Alg::Po, c.t, c.d, c.rf, c.rc.clone(), c.mds.clone(), c.mds.clone(), F::zero())
    }
    pub fn gm(t: usize, d: usize, rc: &[F]) -> Option<Self> {
        let id = ones_plus(&[F::zero()]);
        Self::build(Alg::Gm, t, d, rc.len(), rc.iter().map(|c| vec![*c]).collect(), id.clone(), id, F::zero())
    }
    pub fn ne(d: usize, rf: usize, w: &NeView<F>) -> Option<Self> {
        let mu: Vec<F> = w.mu.iter().map(|m| *m - F::one()).collect();
        let t = w.me.len();
        if F::from(5u64).is_zero() || w.rc.iter().any(|r| r.len() != t) || mu.len() != t || w.rc.len() < rf {
            return None;
        }
        Self::build(Alg::Ne, t, d, rf, w.rc.clone(), w.me.clone(), ones_plus(&mu), w.gamma)
    }
    /// A published Poseidon or Poseidon2 set with the constants the specification derives.
    pub fn published(alg: &str, f: &str, t: usize) -> Option<Self> {
        let line = include_str!("../../spec/gen/params.ndjson").lines().find(|l| {
            l.starts_with(&format!("{{\"alg\":\"{}\",\"f\":\"{}\",\"t\":{},", alg, f, t))
        })?;
        let v: Value = serde_json::from_str(line).ok()?;
        fn num<F: PrimeField>(v: &Value) -> F {
            let base = F::from(1u64 << 24);
            v.as_array().unwrap().iter().rev().fold(F::zero(), |a, w| a * base + F::from(w.as_u64().unwrap()))
        }
        fn row<F: PrimeField>(v: &Value) -> Vec<F> {
            v.as_array().unwrap().iter().map(num).collect()
        }
        fn mat<F: PrimeField>(v: &Value) -> Mat<F> {
            v.as_array().unwrap().iter().map(row).collect()
        }
        let d = if ["GOLDILOCKS", "BABYBEAR"].contains(&f) { 7 } else { 5 };
        let rc: Mat<F> = mat(&v["rc"]);
        let rp = rc.len() - 8;
        if alg == "p2" {
            Self::p2(&P2Custom { t, d, rf: 8, rp, diag: row(&v["diag"]), rc })
        } else {
            Self::po(&PoCustom { t, d, rf: 8, rp, mds: mat(&v["mds"]), rc })
        }
    }

    fn rounds(&self) -> usize {
        self.rc.len()
    }
    fn rp(&self) -> usize {
        self.rc.len() - self.rf
    }
    fn is_full(&self, r: usize) -> bool {
        r < self.rf / 2 || r >= self.rf / 2 + self.rp()
    }
    fn moved_constants(&self) -> Vec<F> {
        // moved[i]: what is added to the first cell after the S-box of partial round i
        let (b, rp) = (self.rf / 2, self.rp());
        let mut out = vec![F::zero(); rp];
        if rp == 0 {
            return out;
        }
        let mut tmp = self.rc[b + rp - 1].clone();
        for i in (0..rp - 1).rev() {
            let inv = mul(&self.part_inv, &tmp);
            out[i] = inv[0];
            tmp = self.rc[b + i].clone();
            for k in 1..self.t {
                tmp[k] += inv[k];
            }
        }
        out
    }
    fn root(&self, x: F) -> F {
        x.pow(&self.e)
    }
    fn un_pair(&self, y1: F, y2: F) -> (F, F) {
        let u = y1 - y2;
        let w = u + self.gamma;
        let z = (y1 - w * w + u * F::from(3u64)) * F::from(5u64).inverse().unwrap();
        let y = z - z * z - u;
        (z + y, y)
    }
    /// The input for which the state in front of the S-boxes of round r is s; the output state for r = rounds.
    pub fn back(&self, mut s: Vec<F>, r: usize) -> Vec<F> {
        let t = self.t;
        let n = self.rounds();
        let sub_rc = |s: &mut Vec<F>, k: usize| match self.alg {
            Alg::Gm => s[0] -= self.rc[k][0],
            Alg::P2 if !self.is_full(k) => s[0] -= self.rc[k][0],
            _ => (0..t).for_each(|i| s[i] -= self.rc[k][i]),
        };
        if self.alg == Alg::Gm {
            if r < n {
                sub_rc(&mut s, r);
            }
            for k in (0..r).rev() {
                if k + 1 < n {
                    s.rotate_left(1);
                }
                let p = (s[0] + self.rc[k][0]).pow([self.d]);
                s.iter_mut().skip(1).for_each(|x| *x -= p);
            }
            return s;
        }
        if self.alg != Alg::Ne && r < n {
            sub_rc(&mut s, r);
        }
        for k in (0..r).rev() {
            if self.alg == Alg::Ne {
                sub_rc(&mut s, k);
            }
            s = mul(if self.is_full(k) { &self.full_inv } else { &self.part_inv }, &s);
            if !self.is_full(k) {
                s[0] = self.root(s[0]);
            } else if self.alg == Alg::Ne {
                for i in (0..t).step_by(2) {
                    let (a, b) = self.un_pair(s[i], s[i + 1]);
                    s[i] = a;
                    s[i + 1] = b;
                }
            } else {
                s = s.into_iter().map(|x| self.root(x)).collect();
            }
            if self.alg != Alg::Ne {
                sub_rc(&mut s, k);
            }
        }
        match self.alg {
            Alg::P2 | Alg::Ne => mul(&self.full_inv, &s),
            _ => s,
        }
    }
    fn spots(&self) -> Vec<usize> {
        let (n, b) = (self.rounds(), self.rf / 2);
        let p = b + self.rp();
        let mut v = vec![0, 1, 2, b.saturating_sub(1), b, b + 1, (b + p) / 2, p.saturating_sub(1), p, p + 1, n.saturating_sub(1), n];
        if self.alg == Alg::Gm {
            v = vec![0, 1, 2, self.t - 2, self.t - 1, self.t, self.t + 1, n / 2, n.saturating_sub(2), n.saturating_sub(1), n];
        }
        v.retain(|r| *r <= n);
        v.sort();
        v.dedup();
        v
    }
    /// One special state for the front of round r's S-boxes.
    fn special(&self, rng: &mut Rng, r: usize, style: u64) -> Vec<F> {
        let t = self.t;
        let mut s: Vec<F> = rng.vec(t);
        let x = s[t / 2];
        let k = rng.below(t as u64) as usize;
        let pick = [F::zero(), F::one(), -F::one(), F::from(2u64)][rng.below(4) as usize];
        match style {
            0 => s = vec![F::zero(); t],
            1 => s[0] = F::zero(),
            2 => s[0] = F::one(),
            3 => s[0] = -F::one(),
            4 => s = vec![x; t],
            5 => s[k] = pick,
            6 => s = vec![pick; t],
            7 => s = rng.styled(t, 2),
            8 => {
                // the sum entering the linear layer vanishes
                let y = s[0].pow([self.d]);
                let rest: F = s[1..t - 1].iter().sum();
                s[t - 1] = -(y + rest);
            }
            9 => {
                // zero behind the partial S-box once its moved constant is added
                let i = r.wrapping_sub(self.rf / 2);
                if i < self.moved.len() {
                    s[0] = self.root(-self.moved[i]);
                }
            }
            10 => {
                // equal neighbours (Lai-Massey difference zero)
                let i = 2 * rng.below(t as u64 / 2) as usize;
                s[i + 1] = s[i];
            }
            11 => {
                // the inner square of the Lai-Massey S-box vanishes: x - 2y - (x-y)^2 + gamma = 0
                let z: F = rng.el();
                let i = 2 * rng.below(t as u64 / 2) as usize;
                s[i + 1] = z - z * z + self.gamma;
                s[i] = s[i + 1] + z;
            }
            12 => {
                // all cells but one zero
                s = vec![F::zero(); t];
                s[k] = x;
            }
            _ => {
                // cells cancel in pairs
                for i in 0..t / 2 {
                    s[2 * i + 1] = -s[2 * i];
                }
            }
        }
        s
    }
    /// n inputs through special states, spread over the rounds (everything if n = 0).
    pub fn inputs(&self, rng: &mut Rng, n: usize) -> Vec<Vec<F>> {
        let spots = self.spots();
        let mut v = vec![];
        let from = rng.below(14);
        let total = if n == 0 { spots.len() * 14 } else { n };
        for k in 0..total {
            let r = spots[k % spots.len()];
            let style = if n == 0 { (k / spots.len()) as u64 } else { (from + 5 * (k / spots.len()) as u64 + 3 * (k % spots.len()) as u64) % 14 };
            let s = self.special(rng, r, style);
            v.push(self.back(s, r));
        }
        v
    }
    /// The state in front of round r's S-boxes, run forwards (to test `back`).
    #[cfg(debug_assertions)]
    pub fn forward(&self, input: &[F], upto: usize) -> Vec<F> {
        let t = self.t;
        let n = self.rounds();
        let mut s = input.to_vec();
        if matches!(self.alg, Alg::P2 | Alg::Ne) {
            s = mul(&self.full, &s);
        }
        for r in 0..=upto {
            if r == n {
                break;
            }
            match self.alg {
                Alg::Gm => s[0] += self.rc[r][0],
                Alg::P2 if !self.is_full(r) => s[0] += self.rc[r][0],
                Alg::Ne => {}
                _ => (0..t).for_each(|i| s[i] += self.rc[r][i]),
            }
            if r == upto {
                break;
            }
            match self.alg {
                Alg::Gm => {
                    let p = s[0].pow([self.d]);
                    s[0] -= self.rc[r][0];
                    s.iter_mut().skip(1).for_each(|x| *x += p);
                    if r + 1 < n {
                        s.rotate_right(1);
                    }
                    continue;
                }
                _ if !self.is_full(r) => s[0] = s[0].pow([self.d]),
                Alg::Ne => {
                    for i in (0..t).step_by(2) {
                        let (x, y) = (s[i], s[i + 1]);
                        let z2 = (x - y) * (x - y);
                        let w = x - y - y - z2 + self.gamma;
                        s[i] = x + x + y + z2 * F::from(3u64) + w * w;
                        s[i + 1] = x + y * F::from(3u64) + z2 * F::from(4u64) + w * w;
                    }
                }
                _ => s = s.into_iter().map(|x| x.pow([self.d])).collect(),
            }
            s = mul(if self.is_full(r) { &self.full } else { &self.part }, &s);
            if self.alg == Alg::Ne {
                (0..t).for_each(|i| s[i] += self.rc[r][i]);
            }
        }
        s
    }
}
