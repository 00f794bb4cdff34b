//! Executions of the four permutations: published instances and freely chosen parameters.
use crate::fields::*;
use crate::mid::Machine;
use crate::out::*;
use crate::published::{self, Visit};
use crate::view;
use ark_ff::PrimeField;
use serde_json::json;
use std::sync::Arc;
use zkhash::gmimc::{gmimc::Gmimc, gmimc_params::GmimcParams};
use zkhash::neptune::{neptune::Neptune, neptune_params::NeptuneParams};
use zkhash::poseidon::{poseidon::Poseidon, poseidon_params::PoseidonParams};
use zkhash::poseidon2::{poseidon2::Poseidon2, poseidon2_params::Poseidon2Params};

/// "POSEIDON2_BLS_8" -> "BLS", 8
pub fn fkey(name: &str) -> &str {
    name.split('_').nth(1).unwrap()
}
pub fn width(name: &str) -> usize {
    name.split('_').nth(2).unwrap().parse().unwrap()
}

pub type PermFn<'a, F> = &'a dyn Fn(&[F]) -> Vec<F>;

/// Edge values of a field: around 0, the modulus, its middle, and word boundaries.
pub fn edge_values<F: PrimeField>() -> Vec<F> {
    let one = F::one();
    let two = one + one;
    let half = two.inverse().unwrap_or(F::zero()); // (p+1)/2
    let mut v = vec![F::zero(), one, two, -one, -two, half, half - one];
    for k in [8u64, 16, 31, 32, 63, 64, 127, 128, 191, 192, 252, 253, 254] {
        if k < F::MODULUS_BIT_SIZE as u64 {
            let x = two.pow([k]);
            v.push(x);
            v.push(x - one);
        }
    }
    v
}

/// Structured and random inputs of width t.
pub fn inputs<F: PrimeField>(rng: &mut Rng, t: usize, nrand: usize) -> Vec<Vec<F>> {
    let z = F::zero();
    let mut v: Vec<Vec<F>> = vec![];
    let edges = edge_values::<F>();
    v.push(vec![z; t]);
    v.push(vec![F::one(); t]);
    v.push(vec![-F::one(); t]);
    v.push((0..t).map(|i| F::from(i as u64)).collect());
    v.push((0..t).map(|i| F::from((t - i) as u64)).collect());
    for i in 0..t {
        let mut e = vec![z; t];
        e[i] = F::one();
        v.push(e);
    }
    // edge values spread over the cells
    for k in 0..edges.len() {
        v.push((0..t).map(|i| edges[(i * 7 + k) % edges.len()]).collect());
    }
    // equal neighbours / zero first or last cell
    let x: F = rng.el();
    v.push(vec![x; t]);
    let mut a: Vec<F> = rng.vec(t);
    a[0] = z;
    v.push(a);
    let mut a: Vec<F> = rng.vec(t);
    a[t - 1] = z;
    v.push(a);
    if t > 1 {
        let mut a: Vec<F> = rng.vec(t);
        a[1] = a[0];
        v.push(a);
    }
    for i in 0..nrand {
        v.push(rng.vec(t));
        v.push(rng.styled(t, 2));
        if i % 4 == 0 {
            v.push(rng.styled(t, 3));
        }
    }
    v
}

pub fn emit_io<F: PrimeField>(tr: &mut Trace, c: usize, func: &str, f: PermFn<F>, ins: &[Vec<F>]) {
    for i in ins {
        let r = call(func, || f(i));
        let (ok, out) = res(&r);
        tr.ev(json!({"k": "io", "c": c, "fn": func, "in": vec_el(i), "ok": ok, "out": out}));
    }
}

/// k-th input of the lexicographic enumeration of F^t (cell 0 is the most significant digit).
pub fn nth_input<F: PrimeField>(mut k: u64, t: usize) -> Vec<F> {
    let p = F::MODULUS.as_ref()[0];
    let mut v = vec![F::zero(); t];
    for i in (0..t).rev() {
        v[i] = F::from(k % p);
        k /= p;
    }
    v
}

/// The complete input/output table of a permutation over a small field, in chunks.
pub fn emit_table<F: PrimeField>(tr: &mut Trace, c: usize, func: &str, f: PermFn<F>, t: usize, chunk: u64) -> u64 {
    let n = F::MODULUS.as_ref()[0].pow(t as u32);
    let mut k = 0;
    while k < n {
        let end = (k + chunk).min(n);
        let mut outs = vec![];
        for j in k..end {
            let i = nth_input::<F>(j, t);
            let r = call(func, || f(&i));
            outs.push(res(&r).1);
        }
        tr.ev(json!({"k": "tab", "c": c, "fn": func, "from": k, "outs": outs}));
        k = end;
    }
    n
}

pub fn coprime<F: PrimeField>(d: u64) -> bool {
    // d is an odd prime: coprime to p-1 iff d does not divide p-1
    let mut r: u128 = 0;
    for w in F::MODULUS.as_ref().iter().rev() {
        r = ((r << 64) | *w as u128) % d as u128;
    }
    (r + d as u128 - 1) % d as u128 != 0
}

// ------------------------------------------------------------------ Poseidon2
pub struct P2Custom<F: PrimeField> {
    pub t: usize,
    pub d: usize,
    pub rf: usize,
    pub rp: usize,
    pub diag: Vec<F>,
    pub rc: Vec<Vec<F>>,
}
impl<F: PrimeField> P2Custom<F> {
    pub fn random(rng: &mut Rng, t: usize, d: usize, rf: usize, rp: usize) -> Self {
        P2Custom { t, d, rf, rp, diag: rng.vec(t), rc: rng.mat(rf + rp, t) }
    }
    /// Zero, small or oddly sized constants and diagonals.
    pub fn styled(rng: &mut Rng, t: usize, d: usize, rf: usize, rp: usize, style: u64) -> Self {
        P2Custom { t, d, rf, rp, diag: rng.styled(t, style), rc: rng.styled_mat(rf + rp, t, style) }
    }
    pub fn internal(&self) -> Vec<Vec<F>> {
        (0..self.t)
            .map(|i| (0..self.t).map(|j| if i == j { self.diag[i] + F::one() } else { F::one() }).collect())
            .collect()
    }
    pub fn build(&self) -> Option<Poseidon2<F>> {
        call("Poseidon2Params::new", || {
            Poseidon2::new(&Arc::new(Poseidon2Params::new(
                self.t, self.d, self.rf, self.rp, &self.diag, &self.internal(), &self.rc,
            )))
        })
    }
    pub fn ctx(&self, tr: &mut Trace) -> usize {
        tr.ctx(json!({"pub": false, "alg": "p2", "F": field::<F>(), "t": self.t, "d": self.d,
            "rf": self.rf, "rp": self.rp, "diag": vec_el(&self.diag), "rc": mat_el(&self.rc)}))
    }
}

/// Run a custom Poseidon2 instance; table = complete enumeration.
fn p2_custom<F: PrimeField>(tr: &mut Trace, c: &P2Custom<F>, table: bool, ins: &[Vec<F>]) {
    let id = c.ctx(tr);
    match c.build() {
        None => tr.ev(json!({"k": "io", "c": id, "fn": "new", "in": vec_el(&vec![F::zero(); c.t]), "ok": false, "out": []})),
        Some(p) => {
            let f = |i: &[F]| p.permutation(i);
            if table {
                emit_table(tr, id, "perm", &f, c.t, 256);
            } else {
                emit_io(tr, id, "perm", &f, ins);
            }
        }
    }
}

struct PubPerm<'a> {
    tr: &'a mut Trace,
    rng: &'a mut Rng,
    nrand: usize,
    nmid: usize, // inputs through special inner states; 0 = all of them
    mode: u8, // Poseidon: 1 = optimised, 2 = textbook, 3 = both
}
impl<'a> Visit for PubPerm<'a> {
    fn p2<F: PrimeField>(&mut self, name: &str, get: fn() -> &'static Arc<Poseidon2Params<F>>) {
        let id = self.tr.ctx(json!({"pub": true, "alg": "p2", "f": fkey(name), "t": width(name)}));
        let Some(p) = call(name, || Poseidon2::new(get())) else {
            self.tr.ev(json!({"k": "io", "c": id, "fn": "new", "in": [], "ok": false, "out": []}));
            return;
        };
        let mut ins = inputs::<F>(self.rng, width(name), self.nrand);
        if let Some(m) = Machine::published("p2", fkey(name), width(name)) {
            ins.extend(m.inputs(self.rng, self.nmid));
        }
        emit_io(self.tr, id, "perm", &|i| p.permutation(i), &ins);
    }
    fn po<F: PrimeField>(&mut self, name: &str, get: fn() -> &'static Arc<PoseidonParams<F>>) {
        let id = self.tr.ctx(json!({"pub": true, "alg": "po", "f": fkey(name), "t": width(name)}));
        let Some(p) = call(name, || Poseidon::new(get())) else {
            self.tr.ev(json!({"k": "io", "c": id, "fn": "new", "in": [], "ok": false, "out": []}));
            return;
        };
        let mut ins = inputs::<F>(self.rng, width(name), self.nrand);
        if let Some(m) = Machine::published("po", fkey(name), width(name)) {
            ins.extend(m.inputs(self.rng, self.nmid));
        }
        if self.mode & 1 != 0 {
            emit_io(self.tr, id, "perm", &|i| p.permutation(i), &ins);
        }
        if self.mode & 2 != 0 {
            emit_io(self.tr, id, "perm_plain", &|i| p.permutation_not_opt(i), &ins);
        }
    }
    fn gm<F: PrimeField>(&mut self, name: &str, get: fn() -> &'static Arc<GmimcParams<F>>) {
        let Some((p, rc)) = call(name, || (Gmimc::new(get()), view::gm_rc(get()))) else {
            let id = self.tr.ctx(json!({"pub": true, "alg": "gm", "f": fkey(name), "t": width(name), "rc": []}));
            self.tr.ev(json!({"k": "io", "c": id, "fn": "new", "in": [], "ok": false, "out": []}));
            return;
        };
        let id = self.tr.ctx(json!({"pub": true, "alg": "gm", "f": fkey(name), "t": width(name), "rc": vec_el(&rc)}));
        let ins = inputs::<F>(self.rng, width(name), self.nrand);
        // wide instances are long: keep a spread of the inputs
        let step = (rc.len() * width(name) / 3000).max(1);
        let mut ins: Vec<_> = ins.into_iter().enumerate().filter(|(i, _)| i % step == 0).map(|x| x.1).collect();
        let d = if coprime::<F>(3) { 3 } else if coprime::<F>(5) { 5 } else { 7 };
        if let Some(m) = Machine::gm(width(name), d, &rc) {
            ins.extend(m.inputs(self.rng, if self.nmid == 0 { 0 } else { (self.nmid / step).max(6) }));
        }
        emit_io(self.tr, id, "perm", &|i| p.permutation(i), &ins);
        emit_io(self.tr, id, "perm_plain", &|i| p.permutation_not_opt(i), &ins);
    }
    fn ne<F: PrimeField>(&mut self, name: &str, get: fn() -> &'static Arc<NeptuneParams<F>>) {
        let Some((p, w)) = call(name, || (Neptune::new(get()), view::ne_view(get()))) else {
            let id = self.tr.ctx(json!({"pub": true, "alg": "ne", "f": fkey(name), "t": width(name), "rc": [], "me": [], "mu": [], "gamma": 0}));
            self.tr.ev(json!({"k": "io", "c": id, "fn": "new", "in": [], "ok": false, "out": []}));
            return;
        };
        let id = self.tr.ctx(json!({"pub": true, "alg": "ne", "f": fkey(name), "t": width(name), "rc": mat_el(&w.rc),
            "me": mat_el(&w.me), "mu": vec_el(&w.mu), "gamma": el(&w.gamma)}));
        let mut ins = inputs::<F>(self.rng, width(name), self.nrand);
        let d = if coprime::<F>(3) { 3 } else if coprime::<F>(5) { 5 } else { 7 };
        if let Some(m) = Machine::ne(d, 6, &w) {
            ins.extend(m.inputs(self.rng, self.nmid));
        }
        emit_io(self.tr, id, "perm", &|i| p.permutation(i), &ins);
    }
}

pub const P2_WIDTHS: [usize; 8] = [2, 3, 4, 8, 12, 16, 20, 24];

pub fn c01(tr: &mut Trace, rng: &mut Rng, thorough: bool, pub_only_small: bool) {
    let nr = if thorough { 40 } else { 4 };
    if !pub_only_small {
        published::visit_p2(&mut PubPerm { tr, rng, nrand: nr, nmid: if thorough { 0 } else { 24 }, mode: 3 });
    }
    // every width x degree x round shape, over small, middle and shipped fields
    fn sweep<F: PrimeField>(tr: &mut Trace, rng: &mut Rng, n: usize, reps: usize) {
        for &t in &P2_WIDTHS {
            for d in [3usize, 5, 7, 11] {
                for (rf, rp) in [(0, 0), (2, 0), (0, 1), (2, 1), (2, 2), (4, 3), (6, 5), (10, 65)] {
                    for _ in 0..reps {
                        let c = P2Custom::<F>::random(rng, t, d, rf, rp);
                        let mut ins: Vec<Vec<F>> = vec![];
                        let all = inputs::<F>(rng, t, 1);
                        for _ in 0..n {
                            ins.push(all[rng.below(all.len() as u64) as usize].clone());
                        }
                        if rf + rp == 0 && d == 5 {
                            ins = all; // linear layer alone: all unit vectors
                        }
                        p2_custom(tr, &c, false, &ins);
                    }
                }
            }
        }
    }
    sweep::<F3>(tr, rng, 3, if thorough { 6 } else { 1 });
    sweep::<F32749>(tr, rng, 2, if thorough { 6 } else { 1 });
    sweep::<FpBN256>(tr, rng, 1, if thorough { 3 } else { 1 });
    // constants and diagonals that are zero, small, of odd sizes or all equal, over every shipped field
    fn styles<F: PrimeField>(tr: &mut Trace, rng: &mut Rng, reps: usize) {
        for &t in &P2_WIDTHS {
            for style in 1..=4u64 {
                for i in 0..reps {
                    let d = [3usize, 5, 7, 11][(t / 4 + style as usize + i) % 4];
                    let c = P2Custom::<F>::styled(rng, t, d, 4, 3, style);
                    let all = inputs::<F>(rng, t, 1);
                    let mut ins: Vec<_> = (0..2).map(|_| all[rng.below(all.len() as u64) as usize].clone()).collect();
                    ins.push(rng.styled(t, 2));
                    ins.push(rng.styled(t, 3));
                    if let Some(m) = Machine::p2(&c) {
                        ins.extend(m.inputs(rng, 4));
                    }
                    p2_custom(tr, &c, false, &ins);
                }
            }
        }
    }
    let k = if thorough { 6 } else { 1 };
    styles::<FpBLS12>(tr, rng, k);
    styles::<FpBN256>(tr, rng, k);
    styles::<FpPallas>(tr, rng, k);
    styles::<FpVesta>(tr, rng, k);
    styles::<FpGoldiLocks>(tr, rng, 2 * k);
    styles::<FpBabyBear>(tr, rng, 2 * k);
    styles::<F7>(tr, rng, 2 * k);
    fn sizes<F: PrimeField>(tr: &mut Trace, rng: &mut Rng, k: usize) {
        for t in [2usize, 3, 4, 8, 12] {
            for d in [3usize, 5, 7, 11] {
                let c = P2Custom::<F>::random(rng, t, d, 4, 3);
                let mut ins: Vec<Vec<F>> = (0..k).flat_map(|_| [rng.vec(t), rng.styled(t, 2)]).collect();
                if let Some(m) = Machine::p2(&c) {
                    ins.extend(m.inputs(rng, 2 * k));
                }
                p2_custom(tr, &c, false, &ins);
            }
        }
    }
    crate::middle!(sizes, tr, rng, k);
    // schedules longer than any shipped one
    for &t in &P2_WIDTHS {
        let d = [3usize, 5, 7, 11][(t / 3) % 4];
        let c = P2Custom::<F257>::random(rng, t, d, 20, 40);
        let ins = vec![rng.vec(t), rng.styled(t, 2)];
        p2_custom(tr, &c, false, &ins);
        let c = P2Custom::<F17>::random(rng, t, d, 2, 150);
        let ins = vec![rng.vec(t)];
        p2_custom(tr, &c, false, &ins);
    }
    for (t, rf, rp) in [(2usize, 2usize, 300usize), (3, 300, 3), (4, 2, 1100), (8, 520, 9), (3, 4, 66000), (2, 66000, 2)] {
        let c = P2Custom::<F257>::random(rng, t, 5, rf, rp);
        let ins = vec![rng.vec(t)];
        p2_custom(tr, &c, false, &ins);
    }
    // complete input/output tables
    fn tables<F: PrimeField>(tr: &mut Trace, rng: &mut Rng, ts: &[usize], reps: usize) {
        for &t in ts {
            for d in [3usize, 5, 7, 11] {
                for (rf, rp) in [(2, 1), (4, 2)] {
                    for _ in 0..reps {
                        let c = P2Custom::<F>::random(rng, t, d, rf, rp);
                        p2_custom(tr, &c, true, &[]);
                    }
                }
            }
        }
    }
    tables::<F3>(tr, rng, &[2, 3, 4], if thorough { 6 } else { 1 });
    tables::<F5>(tr, rng, &[2, 3], if thorough { 6 } else { 1 });
    tables::<F7>(tr, rng, &[2, 3], 1);
    tables::<F17>(tr, rng, &[2], 1);
    if thorough {
        tables::<F5>(tr, rng, &[4], 2);
        tables::<F13>(tr, rng, &[2, 3], 1);
        let c = P2Custom::<F3>::random(rng, 8, 5, 2, 2);
        p2_custom(tr, &c, true, &[]);
        let c = P2Custom::<F257>::random(rng, 2, 3, 4, 2);
        p2_custom(tr, &c, true, &[]);
    }
}

// ------------------------------------------------------------------- Poseidon
pub struct PoCustom<F: PrimeField> {
    pub t: usize,
    pub d: usize,
    pub rf: usize,
    pub rp: usize,
    pub mds: Vec<Vec<F>>,
    pub rc: Vec<Vec<F>>,
}

/// A Cauchy matrix (MDS), or None if the field is too small for one of this size.
pub fn cauchy<F: PrimeField>(rng: &mut Rng, t: usize) -> Option<Vec<Vec<F>>> {
    for _ in 0..200 {
        let x: Vec<F> = rng.vec(t);
        let y: Vec<F> = rng.vec(t);
        let distinct = |v: &Vec<F>| (0..t).all(|i| (0..i).all(|j| v[i] != v[j]));
        if distinct(&x) && distinct(&y) && x.iter().all(|a| y.iter().all(|b| !(*a + *b).is_zero())) {
            return Some(x.iter().map(|a| y.iter().map(|b| (*a + *b).inverse().unwrap()).collect()).collect());
        }
    }
    // consecutive points where random ones keep colliding
    let small = F::MODULUS_BIT_SIZE < 32;
    if t < 4 || small && 3 * t as u64 >= F::MODULUS.as_ref()[0] {
        return None;
    }
    Some((0..t as u64).map(|i| (0..t as u64).map(|j| F::from(i + j + t as u64).inverse().unwrap()).collect()).collect())
}
/// A matrix with small integer entries (a Vandermonde-like one: every leading block is invertible
/// over a field that is large compared with the entries).
pub fn small_mds<F: PrimeField>(t: usize) -> Option<Vec<Vec<F>>> {
    Some((0..t).map(|i| (0..t).map(|j| F::from(if i == j { (i + 2) as u64 } else { 1 })).collect()).collect())
}
impl<F: PrimeField> PoCustom<F> {
    pub fn build(&self) -> Option<Poseidon<F>> {
        call("PoseidonParams::new", || {
            Poseidon::new(&Arc::new(PoseidonParams::new(self.t, self.d, self.rf, self.rp, &self.mds, &self.rc)))
        })
    }
    pub fn ctx(&self, tr: &mut Trace) -> usize {
        tr.ctx(json!({"pub": false, "alg": "po", "F": field::<F>(), "t": self.t, "d": self.d,
            "rf": self.rf, "rp": self.rp, "mds": mat_el(&self.mds), "rc": mat_el(&self.rc)}))
    }
}
fn po_custom<F: PrimeField>(tr: &mut Trace, c: &PoCustom<F>, table: bool, ins: &[Vec<F>]) {
    let id = c.ctx(tr);
    match c.build() {
        None => tr.ev(json!({"k": "io", "c": id, "fn": "new", "in": vec_el(&vec![F::zero(); c.t]), "ok": false, "out": []})),
        Some(p) => {
            if table {
                emit_table(tr, id, "perm", &|i| p.permutation(i), c.t, 256);
                emit_table(tr, id, "perm_plain", &|i| p.permutation_not_opt(i), c.t, 256);
            } else {
                emit_io(tr, id, "perm", &|i| p.permutation(i), ins);
                emit_io(tr, id, "perm_plain", &|i| p.permutation_not_opt(i), ins);
            }
        }
    }
}
pub fn c02(tr: &mut Trace, rng: &mut Rng, thorough: bool, small_only: bool) {
    if !small_only {
        published::visit_po(&mut PubPerm { tr, rng, nrand: if thorough { 30 } else { 2 }, nmid: if thorough { 0 } else { 24 }, mode: 3 });
    }
    fn sweep<F: PrimeField>(tr: &mut Trace, rng: &mut Rng, ts: &[usize], n: usize, reps: usize) {
        for &t in ts {
            for d in [3usize, 5, 7] {
                for (rf, rp) in [(0, 1), (2, 1), (2, 2), (4, 3), (2, 6)] {
                    for _ in 0..reps {
                        let Some(mds) = cauchy::<F>(rng, t) else { continue };
                        let c = PoCustom { t, d, rf, rp, mds, rc: rng.mat(rf + rp, t) };
                        let all = inputs::<F>(rng, t, 1);
                        let ins: Vec<_> = (0..n).map(|_| all[rng.below(all.len() as u64) as usize].clone()).collect();
                        po_custom(tr, &c, false, &ins);
                    }
                }
            }
        }
    }
    let k = if thorough { 6 } else { 1 };
    sweep::<F257>(tr, rng, &[2, 3, 4, 5, 6, 8, 12], 3, k);
    sweep::<F32749>(tr, rng, &[2, 3, 4, 7, 9, 16, 24], 1, k);
    sweep::<FpPallas>(tr, rng, &[2, 3, 5], 1, k);
    // every width, and schedules longer than any shipped one
    for t in 2usize..=26 {
        for (d, rf, rp) in [(3usize, 2usize, 3usize), (5, 4, 2), (7, 10, 4), ([3, 5, 7][t % 3], 12, 70)] {
            for _ in 0..k {
                let Some(mds) = cauchy::<F32749>(rng, t) else { continue };
                let c = PoCustom { t, d, rf, rp, mds, rc: rng.mat(rf + rp, t) };
                let all = inputs::<F32749>(rng, t, 1);
                let ins: Vec<_> = (0..2).map(|_| all[rng.below(all.len() as u64) as usize].clone()).collect();
                po_custom(tr, &c, false, &ins);
            }
        }
    }
    // more partial rounds than any shipped set, and zero, small or oddly sized constants
    for (t, rf, rp) in [(2usize, 2usize, 71usize), (3, 8, 90), (3, 0, 133), (4, 16, 100), (5, 2, 200), (9, 2, 84),
        (2, 2, 300), (3, 300, 2), (2, 4, 1100), (4, 520, 9), (2, 2, 66000), (3, 66000, 1)] {
        let d = [3usize, 5, 7][rp % 3];
        let Some(mds) = cauchy::<F257>(rng, t) else { continue };
        let c = PoCustom { t, d, rf, rp, mds, rc: rng.mat(rf + rp, t) };
        let ins = vec![rng.vec(t), rng.styled(t, 2)];
        po_custom(tr, &c, false, &ins);
    }
    // wide states
    for t in [32usize, 33, 40, 64, 65, 70] {
        let Some(mds) = cauchy::<F32749>(rng, t) else { continue };
        let c = PoCustom { t, d: [3usize, 5, 7][t % 3], rf: 2, rp: 2, mds, rc: rng.mat(4, t) };
        let ins = vec![rng.vec(t), rng.styled(t, 2)];
        po_custom(tr, &c, false, &ins);
    }
    fn styles<F: PrimeField>(tr: &mut Trace, rng: &mut Rng, reps: usize) {
        for t in [2usize, 3, 4, 6] {
            for style in 1..=4u64 {
                for i in 0..reps {
                    let d = [3usize, 5, 7][(t + style as usize + i) % 3];
                    // the matrix entries in that style too, where a factorisation is sure to exist
                    let Some(mds) = (if style == 3 { small_mds::<F>(t) } else { cauchy::<F>(rng, t) }) else { continue };
                    let c = PoCustom { t, d, rf: 4, rp: 3, mds, rc: rng.styled_mat(7, t, style) };
                    let all = inputs::<F>(rng, t, 1);
                    let mut ins: Vec<_> = (0..1).map(|_| all[rng.below(all.len() as u64) as usize].clone()).collect();
                    ins.push(rng.styled(t, 2));
                    ins.push(rng.styled(t, 3));
                    if let Some(m) = Machine::po(&c) {
                        ins.extend(m.inputs(rng, 4));
                    }
                    po_custom(tr, &c, false, &ins);
                }
            }
        }
    }
    styles::<FpBLS12>(tr, rng, k);
    styles::<FpBN256>(tr, rng, k);
    styles::<FpPallas>(tr, rng, k);
    styles::<FpVesta>(tr, rng, k);
    styles::<FpGoldiLocks>(tr, rng, 2 * k);
    styles::<FpBabyBear>(tr, rng, 2 * k);
    fn sizes<F: PrimeField>(tr: &mut Trace, rng: &mut Rng, k: usize) {
        for t in [2usize, 3, 5] {
            for d in [3usize, 5, 7] {
                let Some(mds) = cauchy::<F>(rng, t) else { continue };
                let c = PoCustom { t, d, rf: 4, rp: 3, mds, rc: rng.mat(7, t) };
                let mut ins: Vec<Vec<F>> = (0..k).flat_map(|_| [rng.vec(t), rng.styled(t, 2)]).collect();
                if let Some(m) = Machine::po(&c) {
                    ins.extend(m.inputs(rng, 2 * k));
                }
                po_custom(tr, &c, false, &ins);
            }
        }
    }
    crate::middle!(sizes, tr, rng, k);
    fn tables<F: PrimeField>(tr: &mut Trace, rng: &mut Rng, ts: &[usize], reps: usize) {
        for &t in ts {
            for d in [3usize, 5, 7] {
                for (rf, rp) in [(2, 1), (2, 3)] {
                    for _ in 0..reps {
                        let Some(mds) = cauchy::<F>(rng, t) else { continue };
                        let c = PoCustom { t, d, rf, rp, mds, rc: rng.mat(rf + rp, t) };
                        po_custom(tr, &c, true, &[]);
                    }
                }
            }
        }
    }
    tables::<F5>(tr, rng, &[2], k);
    tables::<F7>(tr, rng, &[2, 3], k);
    tables::<F17>(tr, rng, &[2], k);
    if thorough {
        tables::<F11>(tr, rng, &[2, 3], 2);
        tables::<F17>(tr, rng, &[3], 1);
    }
}

// ---------------------------------------------------------------------- GMiMC
fn gm_custom<F: PrimeField>(tr: &mut Trace, rng: &mut Rng, t: usize, d: usize, rounds: usize, table: bool, n: usize) {
    let Some((p, rc)) = call("GmimcParams::new", || {
        let a = Arc::new(GmimcParams::<F>::new(t, d, rounds));
        (Gmimc::new(&a), view::gm_rc(&a))
    }) else {
        let id = tr.ctx(json!({"pub": false, "alg": "gm", "F": field::<F>(), "t": t, "d": d, "rounds": rounds, "rc": []}));
        tr.ev(json!({"k": "io", "c": id, "fn": "new", "in": [], "ok": false, "out": []}));
        return;
    };
    let id = tr.ctx(json!({"pub": false, "alg": "gm", "F": field::<F>(), "t": t, "d": d, "rounds": rounds, "rc": vec_el(&rc)}));
    if table {
        emit_table(tr, id, "perm", &|i| p.permutation(i), t, 256);
        emit_table(tr, id, "perm_plain", &|i| p.permutation_not_opt(i), t, 256);
    } else {
        let all = inputs::<F>(rng, t, 1);
        let mut ins: Vec<_> = (0..n).map(|_| all[rng.below(all.len() as u64) as usize].clone()).collect();
        if let Some(m) = if t > 1 { Machine::gm(t, d, &rc) } else { None } {
            ins.extend(m.inputs(rng, n));
        }
        emit_io(tr, id, "perm", &|i| p.permutation(i), &ins);
        emit_io(tr, id, "perm_plain", &|i| p.permutation_not_opt(i), &ins);
    }
}
pub fn c04(tr: &mut Trace, rng: &mut Rng, thorough: bool, small_only: bool) {
    if !small_only {
        published::visit_gm(&mut PubPerm { tr, rng, nrand: if thorough { 10 } else { 1 }, nmid: if thorough { 0 } else { 22 }, mode: 3 });
    }
    let k = if thorough { 4 } else { 1 };
    fn sizes<F: PrimeField>(tr: &mut Trace, rng: &mut Rng, k: usize) {
        for t in [2usize, 3, 7, 8, 11] {
            for d in [3usize, 5, 7] {
                gm_custom::<F>(tr, rng, t, d, 2 * t + 3, false, 2 * k);
            }
        }
    }
    crate::middle!(sizes, tr, rng, k);
    for _ in 0..k {
        for t in 2..=32usize {
            for d in [3usize, 5, 7] {
                for rounds in [1, 2, 3, t - 1, t, t + 1, 2 * t + 3, 5 * t + 7] {
                    if rounds >= 1 {
                        gm_custom::<F3>(tr, rng, t, d, rounds, false, 2);
                        gm_custom::<F32749>(tr, rng, t, d, rounds, false, 1);
                    }
                }
            }
        }
        for d in [3usize, 5, 7] {
            for rounds in [1usize, 2, 9] {
                // a single branch: nothing to add to
                gm_custom::<F17>(tr, rng, 1, d, rounds, true, 0);
                gm_custom::<FpBN256>(tr, rng, 1, d, rounds, false, 3);
            }
            for rounds in [1usize, 2, 4, 7] {
                gm_custom::<F3>(tr, rng, 2, d, rounds, true, 0);
                gm_custom::<F3>(tr, rng, 4, d, rounds, true, 0);
                gm_custom::<F5>(tr, rng, 3, d, rounds, true, 0);
                gm_custom::<F17>(tr, rng, 2, d, rounds, true, 0);
            }
            gm_custom::<FpBLS12>(tr, rng, 8, d, 20, false, 4);
            gm_custom::<FpGoldiLocks>(tr, rng, 11, d, 30, false, 4);
        }
        for (t, rounds) in [(2usize, 300usize), (3, 1100), (8, 300), (9, 1100), (12, 2100), (3, 66000), (8, 66000)] {
            gm_custom::<F17>(tr, rng, t, [3usize, 5, 7][t % 3], rounds, false, 1);
        }
        for t in [33usize, 40, 63, 64, 65, 66, 100, 129, 255, 256, 257, 300] {
            for rounds in [1, t - 1, t + 2, 2 * t + 1] {
                gm_custom::<F32749>(tr, rng, t, [3usize, 5, 7][(t + rounds) % 3], rounds, false, 1);
            }
        }
        // the accumulator form is used from t = 8 on: complete tables over F3
        gm_custom::<F3>(tr, rng, 8, 3, 5, true, 0);
        gm_custom::<F3>(tr, rng, 8, 5, 11, true, 0);
        if thorough {
            gm_custom::<F3>(tr, rng, 9, 5, 12, true, 0);
            gm_custom::<F3>(tr, rng, 8, 7, 20, true, 0);
        }
    }
}

// -------------------------------------------------------------------- Neptune
fn ne_custom<F: PrimeField>(tr: &mut Trace, rng: &mut Rng, t: usize, d: usize, rf: usize, rp: usize, table: bool, n: usize) {
    let Some((p, w)) = call("NeptuneParams::new", || {
        let a = Arc::new(NeptuneParams::<F>::new(t, d, rf, rp));
        (Neptune::new(&a), view::ne_view(&a))
    }) else {
        let id = tr.ctx(json!({"pub": false, "alg": "ne", "F": field::<F>(), "t": t, "d": d, "rf": rf, "rp": rp,
            "rc": [], "me": [], "mu": [], "gamma": 0}));
        tr.ev(json!({"k": "io", "c": id, "fn": "new", "in": [], "ok": false, "out": []}));
        return;
    };
    let id = tr.ctx(json!({"pub": false, "alg": "ne", "F": field::<F>(), "t": t, "d": d, "rf": rf, "rp": rp,
        "rc": mat_el(&w.rc), "me": mat_el(&w.me), "mu": vec_el(&w.mu), "gamma": el(&w.gamma)}));
    if table {
        emit_table(tr, id, "perm", &|i| p.permutation(i), t, 256);
    } else {
        let all = inputs::<F>(rng, t, 1);
        let mut ins: Vec<_> = if rf + rp == 0 {
            all
        } else {
            (0..n).map(|_| all[rng.below(all.len() as u64) as usize].clone()).collect()
        };
        if rf + rp > 0 {
            if let Some(m) = Machine::ne(d, rf, &w) {
                ins.extend(m.inputs(rng, n));
            }
        }
        emit_io(tr, id, "perm", &|i| p.permutation(i), &ins);
    }
}
pub fn c05(tr: &mut Trace, rng: &mut Rng, thorough: bool, small_only: bool) {
    if !small_only {
        published::visit_ne(&mut PubPerm { tr, rng, nrand: if thorough { 20 } else { 2 }, nmid: if thorough { 0 } else { 24 }, mode: 3 });
    }
    let k = if thorough { 5 } else { 1 };
    fn sizes<F: PrimeField>(tr: &mut Trace, rng: &mut Rng, k: usize) {
        for t in [2usize, 4, 6, 8, 12] {
            for d in [3usize, 5, 7] {
                ne_custom::<F>(tr, rng, t, d, 4, 3, false, 2 * k);
            }
        }
    }
    crate::middle!(sizes, tr, rng, k);
    for _ in 0..k {
        for t in (2usize..=32).step_by(2) {
            for d in [3usize, 5, 7] {
                for (rf, rp) in [(0, 0), (2, 0), (0, 1), (2, 1), (4, 3), (2, 5)] {
                    ne_custom::<F7>(tr, rng, t, d, rf, rp, false, 3);
                    ne_custom::<F32749>(tr, rng, t, d, rf, rp, false, 2);
                }
            }
            // long schedules: more full rounds than the shipped 6, more partial rounds than any shipped set
            let d = [3usize, 5, 7][(t / 2) % 3];
            ne_custom::<F17>(tr, rng, t, d, 12, 80, false, 2);
            ne_custom::<F32749>(tr, rng, t, d, 8, 17, false, 2);
        }
        for (t, rf, rp) in [(2usize, 2usize, 300usize), (4, 300, 3), (6, 4, 1100), (8, 520, 9), (2, 4, 66000), (4, 66000, 2)] {
            ne_custom::<F17>(tr, rng, t, [3usize, 5, 7][t % 3], rf, rp, false, 1);
        }
        for t in [34usize, 36, 40, 48, 62, 64, 66, 80, 100, 128, 130] {
            ne_custom::<F32749>(tr, rng, t, [3usize, 5, 7][t % 3], 2, 2, false, 1);
        }
        for d in [3usize, 5, 7] {
            ne_custom::<F3>(tr, rng, 4, d, 2, 2, true, 0);
            ne_custom::<F7>(tr, rng, 2, d, 4, 3, true, 0);
            ne_custom::<F7>(tr, rng, 4, d, 2, 1, true, 0);
            ne_custom::<F17>(tr, rng, 2, d, 2, 2, true, 0);
            ne_custom::<FpVesta>(tr, rng, 6, d, 2, 3, false, 4);
            ne_custom::<FpBabyBear>(tr, rng, 10, d, 2, 3, false, 4);
        }
        ne_custom::<F3>(tr, rng, 8, 3, 2, 1, true, 0);
        ne_custom::<F3>(tr, rng, 6, 3, 2, 1, true, 0);
        if thorough {
            ne_custom::<F11>(tr, rng, 4, 3, 2, 1, true, 0);
        }
    }
}

/// Development aid: running backwards and forwards again gives the same state.
#[cfg(debug_assertions)]
pub fn midtest(rng: &mut Rng) {
    let check = |m: &Machine<FpPallas>, t: usize, n: usize, rng: &mut Rng| {
        for r in 0..=n {
            let s: Vec<FpPallas> = rng.vec(t);
            assert!(m.forward(&m.back(s.clone(), r), r) == s, "round {}", r);
        }
    };
    for t in [3usize, 4, 8] {
        check(&Machine::published("p2", "PALLAS", t).unwrap(), t, 60, rng);
        check(&Machine::published("po", "PALLAS", t).unwrap(), t, 60, rng);
        let rc = rng.vec(20);
        check(&Machine::gm(t, 5, &rc).unwrap(), t, 20, rng);
        let p = NeptuneParams::<FpPallas>::new(2 * t, 5, 6, 9);
        check(&Machine::ne(5, 6, &view::ne_view(&p)).unwrap(), 2 * t, 15, rng);
    }
    println!("mid ok");
}
