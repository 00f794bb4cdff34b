//! Inverses, constants, shapes, compression, misuse, histories, races and sampling.
use crate::fields::*;
use crate::merkle::{Tree, KINDS};
use crate::out::*;
use crate::perms::*;
use crate::published::{self, Visit};
use crate::view;
use ark_ff::PrimeField;
use serde_json::{json, Value};
use std::sync::{Arc, Barrier};
use zkhash::gmimc::{gmimc::Gmimc, gmimc_params::GmimcParams};
use zkhash::merkle_tree::merkle_tree_fp::{MerkleTree, MerkleTreeHash};
use zkhash::neptune::{neptune::Neptune, neptune_params::NeptuneParams};
use zkhash::poseidon::{poseidon::Poseidon, poseidon_params::PoseidonParams};
use zkhash::poseidon2::{poseidon2::Poseidon2, poseidon2_params::Poseidon2Params};

// -------------------------------------------------------------- C06 inverses
struct PubInv<'a> {
    tr: &'a mut Trace,
    rng: &'a mut Rng,
    n: usize,
}
impl<'a> PubInv<'a> {
    fn ins<F: PrimeField>(&mut self, t: usize) -> Vec<Vec<F>> {
        let mut v = vec![vec![F::zero(); t], (0..t).map(|i| -F::from(i as u64)).collect()];
        for _ in 0..self.n {
            v.push(self.rng.vec(t));
        }
        v
    }
}
impl<'a> Visit for PubInv<'a> {
    fn p2<F: PrimeField>(&mut self, name: &str, get: fn() -> &'static Arc<Poseidon2Params<F>>) {
        let id = self.tr.ctx(json!({"pub": true, "alg": "p2", "f": fkey(name), "t": width(name)}));
        let ins = self.ins::<F>(width(name));
        emit_io(self.tr, id, "perm", &|i| Poseidon2::new(get()).permutation(i), &ins);
    }
    fn po<F: PrimeField>(&mut self, name: &str, get: fn() -> &'static Arc<PoseidonParams<F>>) {
        let id = self.tr.ctx(json!({"pub": true, "alg": "po", "f": fkey(name), "t": width(name)}));
        let ins = self.ins::<F>(width(name));
        emit_io(self.tr, id, "perm", &|i| Poseidon::new(get()).permutation(i), &ins);
        emit_io(self.tr, id, "perm_plain", &|i| Poseidon::new(get()).permutation_not_opt(i), &ins[..1]);
    }
    fn gm<F: PrimeField>(&mut self, name: &str, get: fn() -> &'static Arc<GmimcParams<F>>) {
        let rc = call(name, || view::gm_rc(get())).unwrap_or_default();
        let id = self.tr.ctx(json!({"pub": true, "alg": "gm", "f": fkey(name), "t": width(name), "rc": vec_el(&rc)}));
        let ins = self.ins::<F>(width(name));
        emit_io(self.tr, id, "perm", &|i| Gmimc::new(get()).permutation(i), &ins);
        emit_io(self.tr, id, "perm_plain", &|i| Gmimc::new(get()).permutation_not_opt(i), &ins[..1]);
    }
    fn ne<F: PrimeField>(&mut self, name: &str, get: fn() -> &'static Arc<NeptuneParams<F>>) {
        let Some(w) = call(name, || view::ne_view(get())) else { return };
        let id = self.tr.ctx(json!({"pub": true, "alg": "ne", "f": fkey(name), "t": width(name), "rc": mat_el(&w.rc),
            "me": mat_el(&w.me), "mu": vec_el(&w.mu), "gamma": el(&w.gamma)}));
        let ins = self.ins::<F>(width(name));
        emit_io(self.tr, id, "perm", &|i| Neptune::new(get()).permutation(i), &ins);
    }
}
/// The complete image of a permutation over a small field, as one event.
fn image<F: PrimeField>(tr: &mut Trace, c: usize, func: &str, f: PermFn<F>, t: usize) {
    let n = F::MODULUS.as_ref()[0].pow(t as u32);
    let outs: Vec<Value> = (0..n)
        .map(|j| {
            let i = nth_input::<F>(j, t);
            res(&call(func, || f(&i))).1
        })
        .collect();
    tr.ev(json!({"k": "img", "c": c, "fn": func, "outs": outs}));
}
pub fn c06(tr: &mut Trace, rng: &mut Rng, thorough: bool, small_only: bool) {
    if !small_only {
        published::visit(&mut PubInv { tr, rng, n: if thorough { 12 } else { 1 } });
    }
    fn p2<F: PrimeField>(tr: &mut Trace, rng: &mut Rng, t: usize, rf: usize, rp: usize) {
        for d in [3usize, 5, 7, 11] {
            if coprime::<F>(d as u64) {
                let c = P2Custom::<F>::random(rng, t, d, rf, rp);
                let id = c.ctx(tr);
                if let Some(p) = c.build() {
                    image(tr, id, "perm", &|i| p.permutation(i), t);
                }
            }
        }
    }
    fn po<F: PrimeField>(tr: &mut Trace, rng: &mut Rng, t: usize, rf: usize, rp: usize) {
        for d in [3usize, 5, 7] {
            if coprime::<F>(d as u64) {
                let Some(mds) = cauchy::<F>(rng, t) else { continue };
                let c = PoCustom { t, d, rf, rp, mds, rc: rng.mat(rf + rp, t) };
                let id = c.ctx(tr);
                if let Some(p) = c.build() {
                    image(tr, id, "perm", &|i| p.permutation(i), t);
                    image(tr, id, "perm_plain", &|i| p.permutation_not_opt(i), t);
                }
            }
        }
    }
    fn gm<F: PrimeField>(tr: &mut Trace, t: usize, d: usize, rounds: usize) {
        let a = Arc::new(GmimcParams::<F>::new(t, d, rounds));
        let id = tr.ctx(json!({"pub": false, "alg": "gm", "F": field::<F>(), "t": t, "d": d, "rounds": rounds, "rc": vec_el(&view::gm_rc(&a))}));
        let p = Gmimc::new(&a);
        image(tr, id, "perm", &|i| p.permutation(i), t);
        image(tr, id, "perm_plain", &|i| p.permutation_not_opt(i), t);
    }
    fn ne<F: PrimeField>(tr: &mut Trace, t: usize, rf: usize, rp: usize) {
        for d in [3usize, 5, 7] {
            if coprime::<F>(d as u64) {
                let a = Arc::new(NeptuneParams::<F>::new(t, d, rf, rp));
                let w = view::ne_view(&a);
                let id = tr.ctx(json!({"pub": false, "alg": "ne", "F": field::<F>(), "t": t, "d": d, "rf": rf, "rp": rp,
                    "rc": mat_el(&w.rc), "me": mat_el(&w.me), "mu": vec_el(&w.mu), "gamma": el(&w.gamma)}));
                let p = Neptune::new(&a);
                image(tr, id, "perm", &|i| p.permutation(i), t);
            }
        }
    }
    // drawn Neptune matrices over shipped fields: no width gets a singular one
    fn ne_big<F: PrimeField>(tr: &mut Trace, rng: &mut Rng, ts: &[usize]) {
        for &t in ts {
            for d in [3usize, 5, 7] {
                if coprime::<F>(d as u64) {
                    let a = Arc::new(NeptuneParams::<F>::new(t, d, 2, 1));
                    let w = view::ne_view(&a);
                    let id = tr.ctx(json!({"pub": false, "alg": "ne", "F": field::<F>(), "t": t, "d": d, "rf": 2, "rp": 1,
                        "rc": mat_el(&w.rc), "me": mat_el(&w.me), "mu": vec_el(&w.mu), "gamma": el(&w.gamma)}));
                    let p = Neptune::new(&a);
                    emit_io(tr, id, "perm", &|i| p.permutation(i), &[rng.vec(t)]);
                    break;
                }
            }
        }
    }
    if !small_only {
        ne_big::<FpBLS12>(tr, rng, &[2, 6, 10, 14, 18, 22, 26]);
        ne_big::<FpVesta>(tr, rng, &[2, 6, 14, 30]);
        ne_big::<FpGoldiLocks>(tr, rng, &[6, 10, 22, 28]);
    }
    let k = if thorough { 10 } else { 2 };
    for _ in 0..k {
        for (rf, rp) in [(2usize, 1usize), (4, 3)] {
            p2::<F3>(tr, rng, 2, rf, rp);
            p2::<F3>(tr, rng, 3, rf, rp);
            p2::<F3>(tr, rng, 4, rf, rp);
            p2::<F5>(tr, rng, 3, rf, rp);
            p2::<F7>(tr, rng, 2, rf, rp);
            p2::<F17>(tr, rng, 2, rf, rp);
            po::<F5>(tr, rng, 2, rf, rp);
            po::<F7>(tr, rng, 3, rf, rp);
            po::<F17>(tr, rng, 2, rf, rp);
            gm::<F3>(tr, 4, 3, rf + rp);
            gm::<F5>(tr, 3, 5, rf + rp);
            gm::<F17>(tr, 2, 7, rf + rp);
            ne::<F3>(tr, 4, rf, rp);
            ne::<F7>(tr, 2, rf, rp);
            ne::<F17>(tr, 2, rf, rp);
        }
    }
    for _ in 0..(if thorough { 4 } else { 1 }) {
        p2::<F3>(tr, rng, 8, 2, 2);
        gm::<F3>(tr, 8, 3, 17);
        gm::<F3>(tr, 8, 5, 5);
        ne::<F3>(tr, 8, 2, 2);
        ne::<F7>(tr, 4, 2, 2);
    }
}

// ------------------------------------------------- C07 constants, C08 shapes
macro_rules! p2c {
    ($tr:ident, $m:ident, $f:literal, $($t:literal: $d:ident, $i:ident, $r:ident);+) => { $( {
        use zkhash::poseidon2::$m as x;
        let v = call("constants", || (vec_el(&x::$d), mat_el(&x::$i), mat_el(&x::$r)));
        let ok = v.is_some();
        let v = v.unwrap_or((json!([]), json!([]), json!([])));
        $tr.ev(json!({"k": "const", "alg": "p2", "f": $f, "t": $t, "ok": ok, "diag": v.0, "mat": v.1, "rc": v.2}));
    } )+ };
}
macro_rules! poc {
    ($tr:ident, $m:ident, $f:literal, $($t:literal: $d:ident, $r:ident);+) => { $( {
        use zkhash::poseidon::$m as x;
        let v = call("constants", || (mat_el(&x::$d), mat_el(&x::$r)));
        let ok = v.is_some();
        let v = v.unwrap_or((json!([]), json!([])));
        $tr.ev(json!({"k": "const", "alg": "po", "f": $f, "t": $t, "ok": ok, "mat": v.0, "rc": v.1, "diag": []}));
    } )+ };
}
/// The published statics are public names; a tree without them is not judged here.
#[cfg(verif_nostatics)]
fn no_statics() -> ! {
    println!("UNREADABLE statics");
    std::process::exit(3);
}
#[cfg(verif_nostatics)]
fn c07_statics(_: &mut Trace) {
    no_statics();
}
#[cfg(not(verif_nostatics))]
fn c07_statics(tr: &mut Trace) {
    p2c!(tr, poseidon2_instance_bls12, "BLS", 2: MAT_DIAG2_M_1, MAT_INTERNAL2, RC2; 3: MAT_DIAG3_M_1, MAT_INTERNAL3, RC3;
        4: MAT_DIAG4_M_1, MAT_INTERNAL4, RC4; 8: MAT_DIAG8_M_1, MAT_INTERNAL8, RC8);
    p2c!(tr, poseidon2_instance_bn256, "BN", 3: MAT_DIAG3_M_1, MAT_INTERNAL3, RC3);
    p2c!(tr, poseidon2_instance_pallas, "PALLAS", 3: MAT_DIAG3_M_1, MAT_INTERNAL3, RC3;
        4: MAT_DIAG4_M_1, MAT_INTERNAL4, RC4; 8: MAT_DIAG8_M_1, MAT_INTERNAL8, RC8);
    p2c!(tr, poseidon2_instance_vesta, "VESTA", 3: MAT_DIAG3_M_1, MAT_INTERNAL3, RC3);
    p2c!(tr, poseidon2_instance_goldilocks, "GOLDILOCKS", 8: MAT_DIAG8_M_1, MAT_INTERNAL8, RC8;
        12: MAT_DIAG12_M_1, MAT_INTERNAL12, RC12; 16: MAT_DIAG16_M_1, MAT_INTERNAL16, RC16;
        20: MAT_DIAG20_M_1, MAT_INTERNAL20, RC20);
    p2c!(tr, poseidon2_instance_babybear, "BABYBEAR", 16: MAT_DIAG16_M_1, MAT_INTERNAL16, RC16;
        24: MAT_DIAG24_M_1, MAT_INTERNAL24, RC24);
    poc!(tr, poseidon_instance_bls12, "BLS", 2: MDS2, RC2; 3: MDS3, RC3; 4: MDS4, RC4; 8: MDS8, RC8);
    poc!(tr, poseidon_instance_bn256, "BN", 3: MDS3, RC3);
    poc!(tr, poseidon_instance_pallas, "PALLAS", 3: MDS3, RC3; 4: MDS4, RC4; 8: MDS8, RC8);
    poc!(tr, poseidon_instance_vesta, "VESTA", 3: MDS3, RC3);
    poc!(tr, poseidon_instance_goldilocks, "GOLDILOCKS", 8: MDS8, RC8; 12: MDS12, RC12; 16: MDS16, RC16; 20: MDS20, RC20);
    poc!(tr, poseidon_instance_babybear, "BABYBEAR", 16: MDS16, RC16; 24: MDS24, RC24);
}
pub fn c07(tr: &mut Trace) {
    c07_statics(tr);
    // the constants as the published parameter sets use them
    published::visit_p2(&mut PubPermFew { tr });
    published::visit_po(&mut PubPermFew { tr });
}
/// One permutation call per published set and entry point.
struct PubPermFew<'a> {
    tr: &'a mut Trace,
}
fn counting<F: PrimeField>(t: usize) -> Vec<Vec<F>> {
    vec![(0..t).map(|k| F::from(k as u64)).collect()]
}
impl<'a> Visit for PubPermFew<'a> {
    fn p2<F: PrimeField>(&mut self, name: &str, get: fn() -> &'static Arc<Poseidon2Params<F>>) {
        let t = width(name);
        let id = self.tr.ctx(json!({"pub": true, "alg": "p2", "f": fkey(name), "t": t}));
        emit_io(self.tr, id, "perm", &|i| Poseidon2::new(get()).permutation(i), &counting::<F>(t));
    }
    fn po<F: PrimeField>(&mut self, name: &str, get: fn() -> &'static Arc<PoseidonParams<F>>) {
        let t = width(name);
        let id = self.tr.ctx(json!({"pub": true, "alg": "po", "f": fkey(name), "t": t}));
        emit_io(self.tr, id, "perm", &|i| Poseidon::new(get()).permutation(i), &counting::<F>(t));
        emit_io(self.tr, id, "perm_plain", &|i| Poseidon::new(get()).permutation_not_opt(i), &counting::<F>(t));
    }
    fn gm<F: PrimeField>(&mut self, name: &str, get: fn() -> &'static Arc<GmimcParams<F>>) {
        let t = width(name);
        let rc = call(name, || view::gm_rc(get())).unwrap_or_default();
        let id = self.tr.ctx(json!({"pub": true, "alg": "gm", "f": fkey(name), "t": t, "rc": vec_el(&rc)}));
        emit_io(self.tr, id, "perm", &|i| Gmimc::new(get()).permutation(i), &counting::<F>(t));
        emit_io(self.tr, id, "perm_plain", &|i| Gmimc::new(get()).permutation_not_opt(i), &counting::<F>(t));
    }
    fn ne<F: PrimeField>(&mut self, name: &str, get: fn() -> &'static Arc<NeptuneParams<F>>) {
        let t = width(name);
        let Some(w) = call(name, || view::ne_view(get())) else { return };
        let id = self.tr.ctx(json!({"pub": true, "alg": "ne", "f": fkey(name), "t": t, "rc": mat_el(&w.rc),
            "me": mat_el(&w.me), "mu": vec_el(&w.mu), "gamma": el(&w.gamma)}));
        emit_io(self.tr, id, "perm", &|i| Neptune::new(get()).permutation(i), &counting::<F>(t));
    }
}
/// Rounds of a Neptune set observed from outside: number of constant rows, and the shape hook.
struct Shapes<'a> {
    tr: &'a mut Trace,
}
fn fname<F: PrimeField>() -> Value {
    json!(limbs24(F::MODULUS.as_ref(), nlimbs::<F>()))
}
impl<'a> Visit for Shapes<'a> {
    fn p2<F: PrimeField>(&mut self, name: &str, get: fn() -> &'static Arc<Poseidon2Params<F>>) {
        let v = call(name, || (Poseidon2::new(get()).get_t(), view::p2_shape(get())));
        let (t, s) = v.unwrap_or((0, [0; 4]));
        self.tr.ev(json!({"k": "shape", "alg": "p2", "f": fkey(name), "t": width(name), "p": fname::<F>(), "get_t": t, "shape": s, "rounds": s[2] + s[3]}));
    }
    fn po<F: PrimeField>(&mut self, name: &str, get: fn() -> &'static Arc<PoseidonParams<F>>) {
        let v = call(name, || (Poseidon::new(get()).get_t(), view::po_shape(get())));
        let (t, s) = v.unwrap_or((0, [0; 4]));
        self.tr.ev(json!({"k": "shape", "alg": "po", "f": fkey(name), "t": width(name), "p": fname::<F>(), "get_t": t, "shape": s, "rounds": s[2] + s[3]}));
    }
    fn gm<F: PrimeField>(&mut self, name: &str, get: fn() -> &'static Arc<GmimcParams<F>>) {
        let v = call(name, || (Gmimc::new(get()).get_t(), get().get_t(), get().get_rounds(), view::gm_shape(get())));
        let (t, t2, r, s) = v.unwrap_or((0, 0, 0, [0; 4]));
        let t = if t == t2 { t } else { 0 };
        self.tr.ev(json!({"k": "shape", "alg": "gm", "f": fkey(name), "t": width(name), "p": fname::<F>(), "get_t": t, "shape": s, "rounds": r}));
    }
    fn ne<F: PrimeField>(&mut self, name: &str, get: fn() -> &'static Arc<NeptuneParams<F>>) {
        let v = call(name, || (Neptune::new(get()).get_t(), view::ne_shape(get()), view::ne_view(get()).rc.len()));
        let (t, s, n) = v.unwrap_or((0, [0; 4], 0));
        self.tr.ev(json!({"k": "shape", "alg": "ne", "f": fkey(name), "t": width(name), "p": fname::<F>(), "get_t": t, "shape": s, "rounds": n}));
    }
}
pub fn c08(tr: &mut Trace) {
    published::visit(&mut Shapes { tr });
    published::visit(&mut PubPermFew { tr });
}

// ---------------------------------------------------------- C20 linear layers
/// Solve m * x = e for every unit vector e: the columns of the inverse.
fn inverse_columns<F: PrimeField>(m: &[Vec<F>]) -> Option<Vec<Vec<F>>> {
    let n = m.len();
    let mut a: Vec<Vec<F>> = (0..n).map(|i| m[i].iter().copied().chain((0..n).map(|j| if i == j { F::one() } else { F::zero() })).collect()).collect();
    for k in 0..n {
        let piv = (k..n).find(|&i| !a[i][k].is_zero())?;
        a.swap(k, piv);
        let c = a[k][k].inverse()?;
        a[k].iter_mut().for_each(|x| *x *= c);
        for i in (0..n).filter(|&i| i != k) {
            let c = a[i][k];
            for j in 0..2 * n {
                let y = a[k][j];
                a[i][j] -= c * y;
            }
        }
    }
    Some((0..n).map(|j| (0..n).map(|i| a[i][n + j]).collect()).collect())
}
fn unit<F: PrimeField>(t: usize, j: usize) -> Vec<F> {
    (0..t).map(|i| if i == j { F::one() } else { F::zero() }).collect()
}
fn from_columns<F: PrimeField>(c: Vec<Vec<F>>) -> Vec<Vec<F>> {
    (0..c.len()).map(|i| (0..c.len()).map(|j| c[j][i]).collect()).collect()
}
/// External and internal matrix of Poseidon2 as applied: without rounds the permutation is the
/// external matrix; a single internal round with zero constants on the preimage of a unit vector
/// gives a column of the internal one, since 0^d = 0 and 1^d = 1.
fn p2_layers<F: PrimeField>(t: usize, d: usize, diag: &[F], mat: &[Vec<F>]) -> Option<(Vec<Vec<F>>, Vec<Vec<F>>)> {
    call("linear layers", || {
        let zero = vec![vec![F::zero(); t]; 1];
        let ext = Poseidon2::new(&Arc::new(Poseidon2Params::new(t, d, 0, 0, diag, mat, &zero)));
        let int = Poseidon2::new(&Arc::new(Poseidon2Params::new(t, d, 0, 1, diag, mat, &zero)));
        let me = from_columns((0..t).map(|j| ext.permutation(&unit(t, j))).collect());
        let mi = inverse_columns(&me).map(|pre| from_columns(pre.iter().map(|x| int.permutation(x)).collect())).unwrap_or(me.clone());
        (me, mi)
    })
}
fn po_layer<F: PrimeField>(t: usize, d: usize, mds: &[Vec<F>]) -> Option<Vec<Vec<F>>> {
    call("linear layer", || {
        let one = Poseidon::new(&Arc::new(PoseidonParams::new(t, d, 0, 1, mds, &vec![vec![F::zero(); t]; 1])));
        from_columns((0..t).map(|j| one.permutation_not_opt(&unit(t, j))).collect())
    })
}
macro_rules! p2l {
    ($tr:ident, $m:ident, $f:literal, $d:literal, $($t:literal: $g:ident, $i:ident);+) => { $( {
        use zkhash::poseidon2::$m as x;
        let v = p2_layers($t, $d, &x::$g, &x::$i);
        let ok = v.is_some();
        let (me, mi) = v.unwrap_or_default();
        $tr.ev(json!({"k": "lin", "alg": "p2", "f": $f, "t": $t, "ok": ok, "me": mat_el(&me), "mi": mat_el(&mi), "diag": vec_el(&x::$g)}));
    } )+ };
}
macro_rules! pol {
    ($tr:ident, $m:ident, $f:literal, $d:literal, $($t:literal: $g:ident);+) => { $( {
        use zkhash::poseidon::$m as x;
        let v = po_layer($t, $d, &x::$g);
        let ok = v.is_some();
        $tr.ev(json!({"k": "lin", "alg": "po", "f": $f, "t": $t, "ok": ok, "me": mat_el(&v.unwrap_or_default()), "mi": mat_el(&x::$g), "diag": []}));
    } )+ };
}
struct NeLayers<'a> {
    tr: &'a mut Trace,
}
impl<'a> Visit for NeLayers<'a> {
    fn ne<F: PrimeField>(&mut self, name: &str, get: fn() -> &'static Arc<NeptuneParams<F>>) {
        let v = call(name, || view::ne_view(get()));
        let ok = v.is_some();
        let (me, mu) = v.map(|w| (w.me, w.mu)).unwrap_or_default();
        self.tr.ev(json!({"k": "lin", "alg": "ne", "f": fkey(name), "t": width(name), "ok": ok, "me": mat_el(&me), "mi": [], "diag": vec_el(&mu)}));
    }
}
#[cfg(verif_nostatics)]
fn c20_statics(_: &mut Trace) {
    no_statics();
}
#[cfg(not(verif_nostatics))]
fn c20_statics(tr: &mut Trace) {
    p2l!(tr, poseidon2_instance_bls12, "BLS", 5, 2: MAT_DIAG2_M_1, MAT_INTERNAL2; 3: MAT_DIAG3_M_1, MAT_INTERNAL3;
        4: MAT_DIAG4_M_1, MAT_INTERNAL4; 8: MAT_DIAG8_M_1, MAT_INTERNAL8);
    p2l!(tr, poseidon2_instance_bn256, "BN", 5, 3: MAT_DIAG3_M_1, MAT_INTERNAL3);
    p2l!(tr, poseidon2_instance_pallas, "PALLAS", 5, 3: MAT_DIAG3_M_1, MAT_INTERNAL3; 4: MAT_DIAG4_M_1, MAT_INTERNAL4; 8: MAT_DIAG8_M_1, MAT_INTERNAL8);
    p2l!(tr, poseidon2_instance_vesta, "VESTA", 5, 3: MAT_DIAG3_M_1, MAT_INTERNAL3);
    p2l!(tr, poseidon2_instance_goldilocks, "GOLDILOCKS", 7, 8: MAT_DIAG8_M_1, MAT_INTERNAL8; 12: MAT_DIAG12_M_1, MAT_INTERNAL12;
        16: MAT_DIAG16_M_1, MAT_INTERNAL16; 20: MAT_DIAG20_M_1, MAT_INTERNAL20);
    p2l!(tr, poseidon2_instance_babybear, "BABYBEAR", 7, 16: MAT_DIAG16_M_1, MAT_INTERNAL16; 24: MAT_DIAG24_M_1, MAT_INTERNAL24);
    pol!(tr, poseidon_instance_bls12, "BLS", 5, 2: MDS2; 3: MDS3; 4: MDS4; 8: MDS8);
    pol!(tr, poseidon_instance_bn256, "BN", 5, 3: MDS3);
    pol!(tr, poseidon_instance_pallas, "PALLAS", 5, 3: MDS3; 4: MDS4; 8: MDS8);
    pol!(tr, poseidon_instance_vesta, "VESTA", 5, 3: MDS3);
    pol!(tr, poseidon_instance_goldilocks, "GOLDILOCKS", 7, 8: MDS8; 12: MDS12; 16: MDS16; 20: MDS20);
    pol!(tr, poseidon_instance_babybear, "BABYBEAR", 7, 16: MDS16; 24: MDS24);
}
pub fn c20(tr: &mut Trace) {
    c20_statics(tr);
    published::visit_ne(&mut NeLayers { tr });
}

// ------------------------------------------------------------ C11 compression
fn compress_events<F: PrimeField, H: MerkleTreeHash<F> + Clone>(tr: &mut Trace, rng: &mut Rng, c: usize, h: &H, n: usize, roots: &[usize]) {
    let mut pairs: Vec<(F, F)> = vec![];
    let e = edge_values::<F>();
    for i in 0..e.len() {
        pairs.push((e[i], e[(i * 3 + 1) % e.len()]));
    }
    for _ in 0..n {
        let (a, b): (F, F) = (rng.el(), rng.el());
        pairs.push((a, b));
        pairs.push((b, a));
        pairs.push((a, a));
        pairs.push((F::zero(), a));
        pairs.push((a, F::zero()));
        pairs.push((a, -a));
        pairs.push((a, a + F::one()));
        pairs.push((a + F::one(), a));
        let (s, t): (F, F) = (rng.sized(), rng.sized());
        pairs.push((s, t));
        pairs.push((s, s));
        pairs.push((a, s));
        pairs.push((t, b));
        pairs.push((F::from(rng.below(300)), F::from(rng.below(300))));
        pairs.push((F::from(rng.next()), F::from(rng.next())));
    }
    let mut again = vec![];
    for (a, b) in pairs {
        let r = call("compress", || h.compress(&[&a, &b]));
        // the same values elsewhere in memory: neighbours, neighbours the other way round, one place
        let (v, w) = ([a, b], [b, a]);
        again.push((a, b, r, call("compress", || h.compress(&[&v[0], &v[1]]))));
        again.push((a, b, r, call("compress", || h.compress(&[&w[1], &w[0]]))));
        if a == b {
            again.push((a, b, r, call("compress", || h.compress(&[&a, &a]))));
        }
        tr.ev(json!({"k": "cmp", "c": c, "in": [el(&a), el(&b)], "ok": r.is_some(), "out": r.map(|x| vec![el(&x)]).unwrap_or_default()}));
    }
    // equal results need no second judgement
    for (a, b, r, q) in again {
        if q != r {
            tr.ev(json!({"k": "cmp", "c": c, "in": [el(&a), el(&b)], "ok": q.is_some(), "out": q.map(|x| vec![el(&x)]).unwrap_or_default()}));
        }
    }
    for (j, &k) in roots.iter().enumerate() {
        let leaves: Vec<F> = rng.styled(k, if j % 2 == 0 { 0 } else { 2 });
        let mut t = MerkleTree::new(h.clone());
        let r = call("accumulate", || t.accumulate(&leaves));
        tr.ev(json!({"k": "root", "c": c, "in": vec_el(&leaves), "ok": r.is_some(), "out": r.map(|x| vec![el(&x)]).unwrap_or_default()}));
    }
}
fn compress_table<F: PrimeField, H: MerkleTreeHash<F>>(tr: &mut Trace, c: usize, h: &H) {
    let p = F::MODULUS.as_ref()[0];
    let outs: Vec<Value> = (0..p * p)
        .map(|k| {
            let (a, b) = (F::from(k / p), F::from(k % p));
            call("compress", || h.compress(&[&a, &b])).map(|x| json!([el(&x)])).unwrap_or(json!([]))
        })
        .collect();
    tr.ev(json!({"k": "cmptab", "c": c, "outs": outs}));
}
struct Compress<'a> {
    tr: &'a mut Trace,
    rng: &'a mut Rng,
    n: usize,
}
impl<'a> Visit for Compress<'a> {
    fn p2<F: PrimeField>(&mut self, name: &str, get: fn() -> &'static Arc<Poseidon2Params<F>>) {
        let id = self.tr.ctx(json!({"pub": true, "alg": "p2", "f": fkey(name), "t": width(name)}));
        let Some(h) = call(name, || Poseidon2::new(get())) else { return };
        self.go(id, &h, width(name) == 3);
    }
    fn po<F: PrimeField>(&mut self, name: &str, get: fn() -> &'static Arc<PoseidonParams<F>>) {
        let id = self.tr.ctx(json!({"pub": true, "alg": "po", "f": fkey(name), "t": width(name)}));
        let Some(h) = call(name, || Poseidon::new(get())) else { return };
        self.go(id, &h, width(name) == 3);
    }
    fn gm<F: PrimeField>(&mut self, name: &str, get: fn() -> &'static Arc<GmimcParams<F>>) {
        let Some((h, rc)) = call(name, || (Gmimc::new(get()), view::gm_rc(get()))) else { return };
        let id = self.tr.ctx(json!({"pub": true, "alg": "gm", "f": fkey(name), "t": width(name), "rc": vec_el(&rc)}));
        self.go(id, &h, width(name) == 3);
    }
    fn ne<F: PrimeField>(&mut self, name: &str, get: fn() -> &'static Arc<NeptuneParams<F>>) {
        let Some((h, w)) = call(name, || (Neptune::new(get()), view::ne_view(get()))) else { return };
        let id = self.tr.ctx(json!({"pub": true, "alg": "ne", "f": fkey(name), "t": width(name), "rc": mat_el(&w.rc),
            "me": mat_el(&w.me), "mu": vec_el(&w.mu), "gamma": el(&w.gamma)}));
        self.go(id, &h, width(name) == 4);
    }
}
impl<'a> Compress<'a> {
    fn go<F: PrimeField, H: MerkleTreeHash<F> + Clone>(&mut self, id: usize, h: &H, fits: bool) {
        if fits {
            compress_events(self.tr, self.rng, id, h, self.n, &[1, 2, 3, 4, 5, 7]);
        } else {
            let (a, b): (F, F) = (self.rng.el(), self.rng.el());
            let r = call("compress", || h.compress(&[&a, &b]));
            self.tr.ev(json!({"k": "cmp", "c": id, "in": [el(&a), el(&b)], "ok": r.is_some(), "out": r.map(|x| vec![el(&x)]).unwrap_or_default()}));
        }
    }
}
pub fn c11(tr: &mut Trace, rng: &mut Rng, thorough: bool, small_only: bool) {
    if !small_only {
        published::visit(&mut Compress { tr, rng, n: if thorough { 40 } else { 3 } });
    }
    fn small<F: PrimeField>(tr: &mut Trace, rng: &mut Rng) {
        for d in [3usize, 5, 7] {
            let c = P2Custom::<F>::random(rng, 3, d, 2, 2);
            let id = c.ctx(tr);
            if let Some(h) = c.build() {
                compress_table(tr, id, &h);
            }
            if let Some(mds) = cauchy::<F>(rng, 3) {
                let c = PoCustom { t: 3, d, rf: 2, rp: 2, mds, rc: rng.mat(4, 3) };
                let id = c.ctx(tr);
                if let Some(h) = c.build() {
                    compress_table(tr, id, &h);
                }
            }
            let a = Arc::new(GmimcParams::<F>::new(3, d, 7));
            let id = tr.ctx(json!({"pub": false, "alg": "gm", "F": field::<F>(), "t": 3, "d": d, "rounds": 7, "rc": vec_el(&view::gm_rc(&a))}));
            compress_table(tr, id, &Gmimc::new(&a));
            let a = Arc::new(NeptuneParams::<F>::new(4, d, 2, 2));
            let w = view::ne_view(&a);
            let id = tr.ctx(json!({"pub": false, "alg": "ne", "F": field::<F>(), "t": 4, "d": d, "rf": 2, "rp": 2,
                "rc": mat_el(&w.rc), "me": mat_el(&w.me), "mu": vec_el(&w.mu), "gamma": el(&w.gamma)}));
            compress_table(tr, id, &Neptune::new(&a));
        }
    }
    small::<F7>(tr, rng);
    small::<F17>(tr, rng);
    // user-built sets over the shipped fields
    fn built<F: PrimeField>(tr: &mut Trace, rng: &mut Rng, n: usize) {
        for (i, d) in [3usize, 5, 7, 11].into_iter().enumerate() {
            let style = [0u64, 2, 3, 0][i];
            let c = P2Custom::<F>::styled(rng, 3, d, 4, 5, style);
            let id = c.ctx(tr);
            if let Some(h) = c.build() {
                compress_events(tr, rng, id, &h, n, &[3]);
            }
            if d == 11 {
                continue;
            }
            if let Some(mds) = cauchy::<F>(rng, 3) {
                let c = PoCustom { t: 3, d, rf: 4, rp: 5, mds, rc: rng.styled_mat(9, 3, style) };
                let id = c.ctx(tr);
                if let Some(h) = c.build() {
                    compress_events(tr, rng, id, &h, n, &[3]);
                }
            }
            let a = Arc::new(GmimcParams::<F>::new(3, d, 12));
            let id = tr.ctx(json!({"pub": false, "alg": "gm", "F": field::<F>(), "t": 3, "d": d, "rounds": 12, "rc": vec_el(&view::gm_rc(&a))}));
            compress_events(tr, rng, id, &Gmimc::new(&a), n, &[3]);
            let a = Arc::new(NeptuneParams::<F>::new(4, d, 4, 3));
            let w = view::ne_view(&a);
            let id = tr.ctx(json!({"pub": false, "alg": "ne", "F": field::<F>(), "t": 4, "d": d, "rf": 4, "rp": 3,
                "rc": mat_el(&w.rc), "me": mat_el(&w.me), "mu": vec_el(&w.mu), "gamma": el(&w.gamma)}));
            compress_events(tr, rng, id, &Neptune::new(&a), n, &[3]);
        }
    }
    if !small_only {
        let n = if thorough { 20 } else { 1 };
        built::<FpBLS12>(tr, rng, n);
        built::<FpBN256>(tr, rng, n);
        built::<FpPallas>(tr, rng, n);
        built::<FpVesta>(tr, rng, n);
        built::<FpGoldiLocks>(tr, rng, n);
        built::<FpBabyBear>(tr, rng, n);
        crate::middle!(built, tr, rng, 0);
    }
    if thorough {
        small::<F23>(tr, rng);
        small::<F11>(tr, rng);
    }
}

// ---------------------------------------------------------------- C12 misuse
/// Published set number i (from 1) called with a vector of `off` elements more than its width.
struct PubGuard {
    i: usize,
    off: i64,
    at: usize,
    plain: bool,
    returned: Option<bool>,
}
impl PubGuard {
    fn go<F: PrimeField>(&mut self, name: &str, f: &dyn Fn(&[F], bool) -> Vec<F>) {
        self.at += 1;
        if self.at == self.i {
            let i = vec![F::one(); (width(name) as i64 + self.off) as usize];
            let plain = self.plain;
            self.returned = Some(call(name, || f(&i, plain)).is_some());
        }
    }
}
impl Visit for PubGuard {
    fn p2<F: PrimeField>(&mut self, name: &str, get: fn() -> &'static Arc<Poseidon2Params<F>>) {
        self.go::<F>(name, &|i, _| Poseidon2::new(get()).permutation(i));
    }
    fn po<F: PrimeField>(&mut self, name: &str, get: fn() -> &'static Arc<PoseidonParams<F>>) {
        self.go::<F>(name, &|i, p| if p { Poseidon::new(get()).permutation_not_opt(i) } else { Poseidon::new(get()).permutation(i) });
    }
    fn gm<F: PrimeField>(&mut self, name: &str, get: fn() -> &'static Arc<GmimcParams<F>>) {
        self.go::<F>(name, &|i, p| if p { Gmimc::new(get()).permutation_not_opt(i) } else { Gmimc::new(get()).permutation(i) });
    }
    fn ne<F: PrimeField>(&mut self, name: &str, get: fn() -> &'static Arc<NeptuneParams<F>>) {
        self.go::<F>(name, &|i, _| Neptune::new(get()).permutation(i));
    }
}
pub fn c12(tr: &mut Trace, rng: &mut Rng, file: &str) {
    let text = std::fs::read_to_string(file).expect("call file");
    type F = F257;
    let u = |v: &Value, k: &str| v[k].as_u64().unwrap() as usize;
    for line in text.lines() {
        let c: Value = serde_json::from_str(line).expect("call line");
        let alg = c["alg"].as_str().unwrap_or("");
        let returned = match c["op"].as_str().unwrap() {
            "new" => {
                let (t, d, rf, rp) = (u(&c, "t"), u(&c, "d") + (u(&c, "dhi") << 32), u(&c, "rf"), u(&c, "rp"));
                let mds = cauchy::<F>(rng, t.max(1)).unwrap();
                let rc: Vec<Vec<F>> = rng.mat(rf + rp, t);
                let diag: Vec<F> = rng.vec(t);
                match alg {
                    "p2" => call("new", || drop(Poseidon2Params::<F>::new(t, d, rf, rp, &diag, &mds, &rc))).is_some(),
                    "po" => call("new", || drop(PoseidonParams::<F>::new(t, d, rf, rp, &mds, &rc))).is_some(),
                    "gm" => call("new", || drop(GmimcParams::<F>::new(t, d, rf + rp))).is_some(),
                    _ => call("new", || drop(NeptuneParams::<F>::new(t, d, rf, rp))).is_some(),
                }
            }
            "mds" => {
                let (t, rows) = (u(&c, "t"), u(&c, "rows"));
                let mds = cauchy::<F>(rng, rows.max(1)).unwrap();
                let mds = if rows == 0 { vec![] } else { mds };
                let rc: Vec<Vec<F>> = rng.mat(5, t);
                call("new", || drop(PoseidonParams::<F>::new(t, 3, 4, 1, &mds, &rc))).is_some()
            }
            "perm" => {
                let (t, len) = (u(&c, "t"), u(&c, "len"));
                let plain = c["fn"].as_str().unwrap() == "perm_plain";
                let i: Vec<F> = rng.vec(len);
                match alg {
                    "p2" => {
                        let p = P2Custom::<F>::random(rng, t, 3, 2, 2).build().unwrap();
                        call("perm", || p.permutation(&i)).is_some()
                    }
                    "po" => {
                        let mds = cauchy::<F>(rng, t).unwrap();
                        let p = PoCustom { t, d: 3, rf: 2, rp: 2, mds, rc: rng.mat(4, t) }.build().unwrap();
                        call("perm", || if plain { p.permutation_not_opt(&i) } else { p.permutation(&i) }).is_some()
                    }
                    "gm" => {
                        let p = Gmimc::new(&Arc::new(GmimcParams::<F>::new(t, 3, 5)));
                        call("perm", || if plain { p.permutation_not_opt(&i) } else { p.permutation(&i) }).is_some()
                    }
                    _ => {
                        let p = Neptune::new(&Arc::new(NeptuneParams::<F>::new(t, 3, 2, 2)));
                        call("perm", || p.permutation(&i)).is_some()
                    }
                }
            }
            "width" => {
                let t = u(&c, "t");
                let w = P2Custom::<F>::random(rng, t, 3, u(&c, "rf"), u(&c, "rp"));
                let i: Vec<F> = rng.vec(t);
                call("perm", || {
                    Poseidon2::new(&Arc::new(Poseidon2Params::new(t, 3, w.rf, w.rp, &w.diag, &w.internal(), &w.rc))).permutation(&i)
                })
                .is_some()
            }
            "rows" => {
                let (t, have) = (u(&c, "t"), u(&c, "have"));
                let i: Vec<F> = rng.vec(t);
                let rc: Vec<Vec<F>> = rng.mat(have, t);
                let mds = cauchy::<F>(rng, t).unwrap();
                let diag: Vec<F> = rng.vec(t);
                match alg {
                    "p2" => call("perm", || Poseidon2::new(&Arc::new(Poseidon2Params::new(t, 3, 4, 3, &diag, &mds, &rc))).permutation(&i)).is_some(),
                    _ => {
                        let plain = c["fn"].as_str().unwrap() == "perm_plain";
                        call("perm", || {
                            let p = Poseidon::new(&Arc::new(PoseidonParams::new(t, 3, 4, 3, &mds, &rc)));
                            if plain { p.permutation_not_opt(&i) } else { p.permutation(&i) }
                        })
                        .is_some()
                    }
                }
            }
            "compress" => {
                let t = u(&c, "t");
                let (a, b): (F, F) = (rng.el(), rng.el());
                match alg {
                    "p2" => {
                        let p = P2Custom::<F>::random(rng, t, 3, 2, 2).build().unwrap();
                        call("compress", || p.compress(&[&a, &b])).is_some()
                    }
                    "po" => {
                        let mds = cauchy::<F>(rng, t).unwrap();
                        let p = PoCustom { t, d: 3, rf: 2, rp: 2, mds, rc: rng.mat(4, t) }.build().unwrap();
                        call("compress", || p.compress(&[&a, &b])).is_some()
                    }
                    "gm" => {
                        let p = Gmimc::new(&Arc::new(GmimcParams::<F>::new(t, 3, 5)));
                        call("compress", || p.compress(&[&a, &b])).is_some()
                    }
                    _ => {
                        let p = Neptune::new(&Arc::new(NeptuneParams::<F>::new(t, 3, 2, 2)));
                        call("compress", || p.compress(&[&a, &b])).is_some()
                    }
                }
            }
            "pub" => {
                let mut v = PubGuard { i: u(&c, "i"), off: c["off"].as_i64().unwrap(), at: 0, plain: c["fn"] == "perm_plain", returned: None };
                published::visit(&mut v);
                v.returned.expect("no such set")
            }
            "cmpn" => {
                let (a, n) = (rng.el::<F>(), u(&c, "n"));
                let i = [&a, &a];
                match alg {
                    "p2" => {
                        let p = P2Custom::<F>::random(rng, 3, 3, 2, 2).build().unwrap();
                        call("compress", || p.compress(&i[..n])).is_some()
                    }
                    "po" => {
                        let mds = cauchy::<F>(rng, 3).unwrap();
                        let p = PoCustom { t: 3, d: 3, rf: 2, rp: 2, mds, rc: rng.mat(4, 3) }.build().unwrap();
                        call("compress", || p.compress(&i[..n])).is_some()
                    }
                    "gm" => {
                        let p = Gmimc::new(&Arc::new(GmimcParams::<F>::new(3, 3, 5)));
                        call("compress", || p.compress(&i[..n])).is_some()
                    }
                    _ => {
                        let p = Neptune::new(&Arc::new(NeptuneParams::<F>::new(4, 3, 2, 2)));
                        call("compress", || p.compress(&i[..n])).is_some()
                    }
                }
            }
            "merkle" => {
                let kind = KINDS[u(&c, "kind") - 1];
                let v: Vec<u64> = (0..u(&c, "n") as u64).collect();
                crate::merkle::reset_store();
                Tree::new(kind, false).accumulate(&v).is_some()
            }
            "inv" => {
                // rows x cols, the left square part being invertible
                let (r, k) = (u(&c, "rows"), u(&c, "cols"));
                let m: Vec<Vec<F>> = {
                    let base = cauchy::<F>(rng, r.max(k)).unwrap();
                    (0..r).map(|i| base[i][..k].to_vec()).collect()
                };
                call("inv", || zkhash::utils::mat_inverse(&m)).is_some()
            }
            x => panic!("unknown call {}", x),
        };
        tr.ev(json!({"k": "use", "call": c, "returned": returned}));
    }
}

// -------------------------------------------------------------- C13 histories
/// A hash object of any family behind one call.
#[derive(Clone)]
enum Obj {
    P2(Poseidon2<F257>),
    P2b(Poseidon2<FpGoldiLocks>),
    Po(Poseidon<F257>),
    Pob(Poseidon<FpBN256>),
    Gm(Gmimc<F257>),
    Gmw(Gmimc<FpBabyBear>),
    Ne(Neptune<F257>),
    Neb(Neptune<FpPallas>),
}
pub const NOBJ: usize = 8;
fn num<F: PrimeField>(v: Option<Vec<F>>) -> Value {
    match v {
        Some(v) => vec_el(&v),
        None => json!(["panic"]),
    }
}
impl Obj {
    fn make(k: usize, rng: &mut Rng) -> Obj {
        match k {
            0 => Obj::P2(P2Custom::<F257>::random(rng, 4, 3, 4, 3).build().unwrap()),
            1 => Obj::P2b(Poseidon2::new(&zkhash::poseidon2::poseidon2_instance_goldilocks::POSEIDON2_GOLDILOCKS_8_PARAMS)),
            2 => {
                let mds = cauchy::<F257>(rng, 4).unwrap();
                Obj::Po(PoCustom { t: 4, d: 3, rf: 4, rp: 3, mds, rc: rng.mat(7, 4) }.build().unwrap())
            }
            3 => Obj::Pob(Poseidon::new(&zkhash::poseidon::poseidon_instance_bn256::POSEIDON_BN_PARAMS)),
            4 => Obj::Gm(Gmimc::new(&Arc::new(GmimcParams::new(4, 3, 9)))),
            5 => Obj::Gmw(Gmimc::new(&zkhash::gmimc::gmimc_instance_babybear::GMIMC_BABYBEAR_16_PARAMS)),
            6 => Obj::Ne(Neptune::new(&Arc::new(NeptuneParams::new(6, 3, 4, 3)))),
            _ => Obj::Neb(Neptune::new(&zkhash::neptune::neptune_instances::NEPTUNE_PALLAS_4_PARAMS)),
        }
    }
    /// fresh wrapper over the same parameters
    fn rewrap(&self) -> Obj {
        self.clone()
    }
    /// Input number n (n < 0: a vector of the wrong length), entry point plain or default.
    fn run(&self, n: i64, plain: bool) -> Value {
        fn inp<F: PrimeField>(n: i64, t: usize) -> Vec<F> {
            if n < 0 {
                return vec![F::one(); (t as i64 - n) as usize];
            }
            match n {
                0 => vec![F::zero(); t],
                1 => vec![-F::one(); t],
                _ => (0..t).map(|i| F::from((n as u64 * 1_000_003 + i as u64 * 97) * if n % 2 == 0 { 1 } else { 0x1_0000_0001 })).collect(),
            }
        }
        match self {
            Obj::P2(p) => num(call_mt(|| p.permutation(&inp(n, 4)))),
            Obj::P2b(p) => num(call_mt(|| p.permutation(&inp(n, 8)))),
            Obj::Po(p) => num(call_mt(|| if plain { p.permutation_not_opt(&inp(n, 4)) } else { p.permutation(&inp(n, 4)) })),
            Obj::Pob(p) => num(call_mt(|| if plain { p.permutation_not_opt(&inp(n, 3)) } else { p.permutation(&inp(n, 3)) })),
            Obj::Gm(p) => num(call_mt(|| if plain { p.permutation_not_opt(&inp(n, 4)) } else { p.permutation(&inp(n, 4)) })),
            Obj::Gmw(p) => num(call_mt(|| if plain { p.permutation_not_opt(&inp(n, 16)) } else { p.permutation(&inp(n, 16)) })),
            Obj::Ne(p) => num(call_mt(|| p.permutation(&inp(n, 6)))),
            Obj::Neb(p) => num(call_mt(|| p.permutation(&inp(n, 4)))),
        }
    }
}
/// Outputs are numbered in order of first appearance; equal numbers mean equal outputs.
struct Intern(std::collections::HashMap<String, usize>);
impl Intern {
    fn id(&mut self, v: &Value) -> i64 {
        if v[0] == "panic" {
            return -1;
        }
        let n = self.0.len() + 1;
        *self.0.entry(v.to_string()).or_insert(n) as i64
    }
}
pub fn c13(tr: &mut Trace, rng: &mut Rng, thorough: bool, file: &str) {
    let text = std::fs::read_to_string(file).expect("history file");
    let hists: Vec<Vec<(String, usize, i64, bool)>> = text
        .lines()
        .map(|l| {
            let v: Value = serde_json::from_str(l).expect("history line");
            v.as_array().unwrap().iter().map(|o| (
                o["op"].as_str().unwrap().to_string(), o["o"].as_u64().unwrap() as usize,
                o["a"].as_i64().unwrap(), o["plain"].as_bool().unwrap())).collect()
        })
        .collect();
    let mut intern = Intern(Default::default());
    let base: Vec<Obj> = (0..NOBJ).map(|k| Obj::make(k, rng)).collect();
    // each input on a fresh object
    let ids: Vec<Vec<i64>> = base.iter().map(|b| (-1..5).map(|a| { let v = b.clone().run(a, false); intern.id(&v) }).collect()).collect();
    tr.ev(json!({"k": "base", "ids": ids}));
    // sequential: every history on every family
    for (k, b) in base.iter().enumerate() {
        for h in &hists {
            let mut objs: Vec<Obj> = vec![b.clone(), b.clone(), b.clone()];
            let mut outs = vec![];
            for (op, o, a, plain) in h {
                match op.as_str() {
                    "clone" => { objs[*o - 1] = objs[*a as usize - 1].rewrap(); outs.push(0) }
                    "new" => { objs[*o - 1] = b.clone(); outs.push(0) }
                    _ => { let v = objs[*o - 1].run(*a, *plain); outs.push(intern.id(&v)) }
                }
            }
            let ops: Vec<Value> = h.iter().map(|(op, o, a, p)| json!({"op": op, "o": o, "a": a, "plain": p})).collect();
            tr.ev(json!({"k": "hist", "alg": k, "ops": ops, "outs": outs}));
        }
    }
    similar_inputs(tr, rng, &mut intern);
    // concurrent: eight threads share the objects; each logs its own calls in order
    let rounds = if thorough { 40 } else { 6 };
    for _ in 0..rounds {
        let bar = Arc::new(Barrier::new(8));
        let hs: Vec<_> = (0..8u64)
            .map(|th| {
                let (bar, objs, mut r) = (bar.clone(), base.clone(), Rng(rng.next() ^ th));
                std::thread::spawn(move || {
                    bar.wait();
                    let mut log = vec![];
                    for _ in 0..60 {
                        let (k, a, p) = (r.below(NOBJ as u64) as usize, r.below(6) as i64 - 1, r.below(2) == 1);
                        log.push((k, a, p, objs[k].run(a, p)));
                    }
                    log
                })
            })
            .collect();
        for (th, h) in hs.into_iter().enumerate() {
            let Ok(log) = h.join() else {
                tr.ev(json!({"k": "thread", "th": th, "ok": false, "log": []}));
                continue;
            };
            let log: Vec<Value> = log.iter().map(|(k, a, p, v)| json!([k, a, if *p { 1 } else { 0 }, intern.id(v)])).collect();
            tr.ev(json!({"k": "thread", "th": th, "ok": true, "log": log}));
        }
    }
    // many calls at the same time on one parameter set, few inputs
    let reps = if cfg!(debug_assertions) { 300 } else if thorough { 20_000 } else { 2000 };
    for (k, b) in base.iter().enumerate() {
        let bar = Arc::new(Barrier::new(8));
        let hs: Vec<_> = (0..8usize)
            .map(|th| {
                let (bar, b) = (bar.clone(), b.clone());
                std::thread::spawn(move || {
                    bar.wait();
                    let mut seen: Vec<Vec<Value>> = vec![vec![]; 6];
                    for i in 0..reps {
                        let a = (i + th) % 6;
                        let v = b.run(a as i64 - 1, (i / 6) % 2 == 0);
                        if !seen[a].contains(&v) {
                            seen[a].push(v);
                        }
                    }
                    seen
                })
            })
            .collect();
        for h in hs {
            // a thread that died shows as an output no input has
            let seen = h.join().unwrap_or(vec![vec![json!(["dead"])]; 6]);
            let seen: Vec<Vec<i64>> = seen.iter().map(|s| s.iter().map(|v| intern.id(v)).collect()).collect();
            tr.ev(json!({"k": "long", "alg": k, "calls": reps, "seen": seen}));
        }
    }
    // long runs: many calls on one object; the distinct outputs seen per input
    let reps = if cfg!(debug_assertions) { 12000 } else if thorough { 700_000 } else { 140_000 };
    for (k, b) in base.iter().enumerate() {
        let reps = if k == 5 { reps / 6 } else { reps };
        let mut seen: Vec<Vec<i64>> = vec![vec![]; 6];
        let mut last: Vec<Option<Value>> = vec![None; 6];
        for i in 0..reps {
            let a = (i * 7 + i / 5) % 6;
            let v = b.run(a as i64 - 1, i % 3 == 0);
            if last[a].as_ref() != Some(&v) {
                let id = intern.id(&v);
                if !seen[a].contains(&id) {
                    seen[a].push(id);
                }
                last[a] = Some(v);
            }
        }
        tr.ev(json!({"k": "long", "alg": k, "calls": reps, "seen": seen}));
    }
}

/// Inputs that resemble each other: permutations of the same elements, equal sums, products, ends,
/// low or high words, signs.
fn similar<F: PrimeField>(t: usize) -> Vec<Vec<F>> {
    let x: Vec<F> = (0..t).map(|i| F::from(1_000_003u64 * (i as u64 + 1) + 17)).collect();
    let two = F::one() + F::one();
    let big = if F::MODULUS_BIT_SIZE > 70 { two.pow([64u64]) } else { two.pow([20u64]) };
    let top = two.pow([F::MODULUS_BIT_SIZE as u64 - 2]);
    let mut v = vec![x.clone(), vec![F::zero(); t], vec![F::one(); t], vec![two; t], vec![-F::one(); t]];
    let mut add = |f: &dyn Fn(&mut Vec<F>)| {
        let mut y = x.clone();
        f(&mut y);
        v.push(y);
    };
    add(&|y| y.reverse());
    add(&|y| y.rotate_left(1));
    for i in 0..t - 1 {
        add(&|y| y.swap(i, i + 1));
    }
    for i in 0..t {
        add(&|y| y[i] += F::one());
        add(&|y| y[i] += big);
    }
    add(&|y| y.swap(0, t - 1));
    add(&|y| y[0] += top);
    add(&|y| y[t - 1] += top);
    add(&|y| { y[0] += F::one(); y[1] -= F::one() });
    add(&|y| { y[0] *= two; y[1] *= two.inverse().unwrap() });
    add(&|y| y[0] = F::zero());
    add(&|y| y[t - 1] = F::zero());
    add(&|y| y.iter_mut().for_each(|e| *e = -*e));
    add(&|y| y.iter_mut().skip(1).for_each(|e| *e = -*e));
    add(&|y| y.iter_mut().for_each(|e| *e = F::zero() - *e + two));
    add(&|y| { let a = y[0]; y[t - 1] = a });
    let mut w: Vec<Vec<F>> = vec![];
    for y in v {
        if !w.contains(&y) {
            w.push(y);
        }
    }
    w
}
type Entry<F> = Box<dyn Fn(&[F]) -> Vec<F>>;
/// Every ordered pair of similar inputs, one right after the other on one object, through every
/// combination of entry points. `make` returns a fresh object's entry points.
fn pairs<F: PrimeField>(tr: &mut Trace, intern: &mut Intern, name: &str, injective: bool, t: usize, make: &dyn Fn() -> Vec<Entry<F>>) {
    let ins = similar::<F>(t);
    let mut run = |e: &Entry<F>, x: &[F]| { let v = num(call("similar inputs", || e(x))); intern.id(&v) };
    let refs: Vec<i64> = ins.iter().map(|x| run(&make()[0], x)).collect();
    let rows: Vec<Vec<i64>> = ins
        .iter()
        .enumerate()
        .map(|(a, x)| {
            ins.iter()
                .enumerate()
                .map(|(b, y)| {
                    let o = make();
                    run(&o[(a + b) % o.len()], x);
                    run(&o[b % o.len()], y)
                })
                .collect()
        })
        .collect();
    tr.ev(json!({"k": "pairs", "name": name, "injective": injective, "refs": refs, "rows": rows}));
}
/// Parameter sets that come and go: each is used once while it lives alone (and so may occupy the
/// memory of an earlier one), and again when all live at the same time.
fn coming_and_going<F: PrimeField, P: Clone>(tr: &mut Trace, intern: &mut Intern, name: &str, t: usize, sets: Vec<P>, run: &dyn Fn(&Arc<P>, &[F]) -> Vec<F>) {
    let ins = similar::<F>(t);
    let mut one = |a: &Arc<P>, x: &[F]| { let v = num(call("short-lived set", || run(a, x))); intern.id(&v) };
    let alone: Vec<Vec<i64>> = sets
        .iter()
        .map(|p| {
            let a = Arc::new(p.clone());
            ins[..4].iter().map(|x| one(&a, x)).collect()
        })
        .collect();
    let all: Vec<Arc<P>> = sets.iter().map(|p| Arc::new(p.clone())).collect();
    let mut together: Vec<Vec<i64>> = vec![vec![]; all.len()];
    for x in &ins[..4] {
        for (k, a) in all.iter().enumerate() {
            together[k].push(one(a, x));
        }
    }
    tr.ev(json!({"k": "sets", "name": name, "alone": alone, "together": together}));
}
fn similar_inputs(tr: &mut Trace, rng: &mut Rng, intern: &mut Intern) {
    macro_rules! fam {
        ($name:literal, $inj:expr, $F:ty, $t:literal, $obj:expr, [$($m:ident),+], $cmp:tt) => {{
            let o = $obj;
            pairs::<$F>(tr, intern, $name, $inj, $t, &|| {
                // entry points of one object and of a clone of it
                let p = Arc::new(o());
                let q = Arc::new((*p).clone());
                let mut v: Vec<Entry<$F>> = vec![];
                $( { let p = p.clone(); v.push(Box::new(move |i: &[$F]| p.$m(i))); } )+
                $( { let q = q.clone(); v.push(Box::new(move |i: &[$F]| q.$m(i))); } )+
                v
            });
            fam!(@cmp $cmp, $name, $F, o);
        }};
        (@cmp true, $name:literal, $F:ty, $o:ident) => {
            pairs::<$F>(tr, intern, concat!($name, " compress"), true, 2, &|| {
                let p = $o();
                vec![Box::new(move |i: &[$F]| vec![p.compress(&[&i[0], &i[1]])])]
            });
        };
        (@cmp false, $name:literal, $F:ty, $o:ident) => {};
    }
    use zkhash::{gmimc, neptune, poseidon, poseidon2};
    fam!("p2 3", true, FpBLS12, 3, || Poseidon2::new(&poseidon2::poseidon2_instance_bls12::POSEIDON2_BLS_3_PARAMS), [permutation], true);
    fam!("p2 8", true, FpGoldiLocks, 8, || Poseidon2::new(&poseidon2::poseidon2_instance_goldilocks::POSEIDON2_GOLDILOCKS_8_PARAMS), [permutation], false);
    fam!("p2 4", true, FpPallas, 4, || Poseidon2::new(&poseidon2::poseidon2_instance_pallas::POSEIDON2_PALLAS_4_PARAMS), [permutation], false);
    fam!("po 3", true, FpBN256, 3, || Poseidon::new(&poseidon::poseidon_instance_bn256::POSEIDON_BN_PARAMS), [permutation, permutation_not_opt], true);
    fam!("po 4", true, FpPallas, 4, || Poseidon::new(&poseidon::poseidon_instance_pallas::POSEIDON_PALLAS_4_PARAMS), [permutation, permutation_not_opt], false);
    fam!("gm 3", true, FpBN256, 3, || Gmimc::new(&gmimc::gmimc_instance_bn256::GMIMC_BN_3_PARAMS), [permutation, permutation_not_opt], true);
    fam!("gm 8", true, FpGoldiLocks, 8, || Gmimc::new(&gmimc::gmimc_instance_goldilocks::GMIMC_GOLDILOCKS_8_PARAMS), [permutation, permutation_not_opt], false);
    fam!("ne 4", true, FpPallas, 4, || Neptune::new(&neptune::neptune_instances::NEPTUNE_PALLAS_4_PARAMS), [permutation], true);
    fam!("ne 8", true, FpBLS12, 8, || Neptune::new(&neptune::neptune_instances::NEPTUNE_BLS_8_PARAMS), [permutation], false);
    // sets of equal shape, one after the other
    let n = 12;
    type B = FpBLS12;
    let p2s: Vec<Poseidon2Params<B>> = (0..n).map(|_| { let c = P2Custom::<B>::random(rng, 3, 5, 2, 2); Poseidon2Params::new(3, 5, 2, 2, &c.diag, &c.internal(), &c.rc) }).collect();
    coming_and_going::<B, _>(tr, intern, "p2", 3, p2s, &|a, x| Poseidon2::new(a).permutation(x));
    let pos: Vec<PoseidonParams<B>> = (0..n).map(|_| { let m = cauchy::<B>(rng, 3).unwrap(); PoseidonParams::new(3, 5, 2, 2, &m, &rng.mat(4, 3)) }).collect();
    coming_and_going::<B, _>(tr, intern, "po", 3, pos.clone(), &|a, x| Poseidon::new(a).permutation(x));
    coming_and_going::<B, _>(tr, intern, "po plain", 3, pos, &|a, x| Poseidon::new(a).permutation_not_opt(x));
    // sets that differ in one constant, one matrix entry, the degree or the split of the rounds only
    let base = P2Custom::<B>::random(rng, 4, 5, 4, 3);
    let mk = |c: &P2Custom<B>| Poseidon2Params::new(c.t, c.d, c.rf, c.rp, &c.diag, &c.internal(), &c.rc);
    let near = |f: &dyn Fn(&mut P2Custom<B>)| {
        let mut c = P2Custom { t: base.t, d: base.d, rf: base.rf, rp: base.rp, diag: base.diag.clone(), rc: base.rc.clone() };
        f(&mut c);
        mk(&c)
    };
    let one = B::from(1u64);
    let p2n = vec![mk(&base), near(&|c| c.rc[0][0] += one), near(&|c| c.rc[1][2] += one), near(&|c| c.rc[3][0] += one),
        near(&|c| c.rc[6][3] += one), near(&|c| c.diag[0] += one), near(&|c| c.diag[3] += one), near(&|c| c.d = 7),
        near(&|c| c.d = 3), near(&|c| { c.rf = 6; c.rp = 1 }), near(&|c| { c.rf = 2; c.rp = 5 }), near(&|c| c.rp = 2)];
    coming_and_going::<B, _>(tr, intern, "p2 near", 4, p2n, &|a, x| Poseidon2::new(a).permutation(x));
    let m = cauchy::<B>(rng, 3).unwrap();
    let rc: Vec<Vec<B>> = rng.mat(7, 3);
    let near = |f: &dyn Fn(&mut Vec<Vec<B>>, &mut Vec<Vec<B>>)| {
        let (mut m, mut rc) = (m.clone(), rc.clone());
        f(&mut m, &mut rc);
        PoseidonParams::new(3, 5, 4, 3, &m, &rc)
    };
    let pon = vec![near(&|_, _| ()), near(&|_, r| r[0][0] += one), near(&|_, r| r[3][1] += one), near(&|_, r| r[4][2] += one),
        near(&|_, r| r[6][2] += one), near(&|m, _| m[0][0] += one), near(&|m, _| m[2][1] += one),
        PoseidonParams::new(3, 7, 4, 3, &m, &rc), PoseidonParams::new(3, 3, 4, 3, &m, &rc), PoseidonParams::new(3, 5, 2, 5, &m, &rc), PoseidonParams::new(3, 5, 6, 1, &m, &rc)];
    coming_and_going::<B, _>(tr, intern, "po near", 3, pon.clone(), &|a, x| Poseidon::new(a).permutation(x));
    coming_and_going::<B, _>(tr, intern, "po near plain", 3, pon, &|a, x| Poseidon::new(a).permutation_not_opt(x));
    let gms: Vec<GmimcParams<B>> = (0..n).map(|_| GmimcParams::new(3, 5, 6)).collect();
    coming_and_going::<B, _>(tr, intern, "gm", 3, gms.clone(), &|a, x| Gmimc::new(a).permutation(x));
    coming_and_going::<B, _>(tr, intern, "gm plain", 3, gms, &|a, x| Gmimc::new(a).permutation_not_opt(x));
    let nes: Vec<NeptuneParams<B>> = (0..n).map(|_| NeptuneParams::new(4, 5, 2, 2)).collect();
    coming_and_going::<B, _>(tr, intern, "ne", 4, nes, &|a, x| Neptune::new(a).permutation(x));
}

// ------------------------------------------------------- C14 racing first use
struct Race<'a> {
    names: Vec<String>,
    touch: Vec<Box<dyn Fn() -> (usize, u64) + Send + Sync + 'a>>,
}
fn digest_of(s: &str) -> u64 {
    s.bytes().fold(0xcbf29ce484222325u64, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3))
}
impl<'a> Visit for Race<'a> {
    fn p2<F: PrimeField>(&mut self, name: &str, get: fn() -> &'static Arc<Poseidon2Params<F>>) {
        self.names.push(name.into());
        self.touch.push(Box::new(move || { let a = get(); (Arc::as_ptr(a) as usize, digest_of(&format!("{:?}", a))) }));
    }
    fn po<F: PrimeField>(&mut self, name: &str, get: fn() -> &'static Arc<PoseidonParams<F>>) {
        self.names.push(name.into());
        self.touch.push(Box::new(move || { let a = get(); (Arc::as_ptr(a) as usize, digest_of(&format!("{:?}", a))) }));
    }
    fn gm<F: PrimeField>(&mut self, name: &str, get: fn() -> &'static Arc<GmimcParams<F>>) {
        self.names.push(name.into());
        self.touch.push(Box::new(move || { let a = get(); (Arc::as_ptr(a) as usize, digest_of(&format!("{:?}", view::gm_rc(a)))) }));
    }
    fn ne<F: PrimeField>(&mut self, name: &str, get: fn() -> &'static Arc<NeptuneParams<F>>) {
        self.names.push(name.into());
        self.touch.push(Box::new(move || { let a = get(); let w = view::ne_view(a);
            (Arc::as_ptr(a) as usize, digest_of(&format!("{:?}{:?}{:?}{:?}", w.rc, w.me, w.mu, w.gamma))) }));
    }
}
/// One process: threads race to the first use of every published set.
pub fn c14_child(seed: u64) {
    let mut r = Race { names: vec![], touch: vec![] };
    published::visit(&mut r);
    let (names, touch) = (Arc::new(r.names), Arc::new(r.touch));
    let nt = 8;
    let mut order: Vec<usize> = (0..touch.len()).collect();
    let mut rng = Rng(seed);
    for i in (1..order.len()).rev() {
        order.swap(i, rng.below(i as u64 + 1) as usize);
    }
    let order = Arc::new(order);
    let bar = Arc::new(Barrier::new(nt));
    let hs: Vec<_> = (0..nt)
        .map(|th| {
            let (touch, order, bar) = (touch.clone(), order.clone(), bar.clone());
            std::thread::spawn(move || {
                let mut log = vec![];
                for &i in order.iter() {
                    bar.wait();
                    let v = call_mt(|| touch[i]());
                    log.push((i, v));
                }
                // and again afterwards, in another order
                for &i in order.iter().rev().skip(th) {
                    let v = call_mt(|| touch[i]());
                    log.push((i, v));
                }
                log
            })
        })
        .collect();
    let logs: Vec<_> = hs.into_iter().map(|h| h.join().unwrap()).collect();
    let mut out: Vec<Value> = vec![];
    for i in 0..touch.len() {
        let obs: Vec<Value> = logs
            .iter()
            .enumerate()
            .flat_map(|(th, l)| l.iter().filter(|x| x.0 == i).map(move |x| match x.1 {
                Some((p, d)) => json!([th, format!("{:x}", p), format!("{:x}", d)]),
                None => json!([th, "panic", "panic"]),
            }))
            .collect();
        out.push(json!({"name": names[i], "obs": obs}));
    }
    println!("{}", Value::Array(out));
}
/// Run one racing child process; its observations.
fn child(seed: u64) -> Value {
    let exe = std::env::current_exe().unwrap();
    let o = std::process::Command::new(exe).args(["c14child", "-", &seed.to_string(), "quick"]).output().expect("child");
    if !o.status.success() {
        println!("CHILD-FAILED {}", o.status);
        std::process::exit(43);
    }
    serde_json::from_slice(&o.stdout).expect("child output")
}
pub fn c14(tr: &mut Trace, rng: &mut Rng, thorough: bool) {
    let n = if thorough { 60 } else { 10 };
    for proc_no in 1..=n {
        let v = child(rng.next());
        for s in v.as_array().unwrap() {
            let fixed = s["name"].as_str().unwrap().starts_with("POSEIDON");
            tr.ev(json!({"k": "lazy", "proc": proc_no, "name": s["name"], "fixed": fixed, "obs": s["obs"]}));
        }
    }
}

// ---------------------------------------------------------------- C17 sampling
fn sample<F: PrimeField>(tr: &mut Trace, name: &str, n: usize) {
    use zkhash::fields::utils::{random_scalar, random_scalar_without_0};
    for nz in [false, true] {
        let v: Vec<F> = (0..n)
            .map(|_| call("random", || if nz { random_scalar_without_0::<F>() } else { random_scalar::<F>() }).unwrap_or(F::zero()))
            .collect();
        sample_event(tr, name, if nz { "nonzero" } else { "scalar" }, &v);
    }
}
/// Small fields: how often each value occurred. Shipped fields: canonicity, the leading byte
/// (most significant 8 bits of the modulus length) and each single bit.
fn sample_event<F: PrimeField>(tr: &mut Trace, name: &str, what: &str, v: &[F]) {
    if is_small::<F>() {
        let p = F::MODULUS.as_ref()[0] as usize;
        let mut cnt = vec![0u64; p];
        for x in v {
            cnt[x.into_bigint().as_ref()[0] as usize] += 1;
        }
        tr.ev(json!({"k": "sample", "F": field::<F>(), "name": name, "what": what, "n": v.len(), "cnt": cnt}));
    } else {
        let bits = F::MODULUS_BIT_SIZE as usize;
        let bit = |x: &F, k: usize| (x.into_bigint().as_ref()[k / 64] >> (k % 64)) & 1;
        let mut top = vec![0u64; 256];
        let mut ones = vec![0u64; bits];
        for x in v {
            let mut b = 0;
            for k in 0..8 {
                b = 2 * b + bit(x, bits - 1 - k);
            }
            top[b as usize] += 1;
            for k in 0..bits {
                ones[k] += bit(x, k);
            }
        }
        let mut d: Vec<_> = v.iter().map(|x| x.into_bigint()).collect();
        d.sort();
        d.dedup();
        let zeros = v.iter().filter(|x| x.is_zero()).count();
        let m = F::MODULUS;
        let mut ptop = 0u64;
        for k in 0..8 {
            let i = bits - 1 - k;
            ptop = 2 * ptop + ((m.as_ref()[i / 64] >> (i % 64)) & 1);
        }
        let mut p12 = 0u64;
        for k in 0..12 {
            let i = bits - 1 - k;
            p12 = 2 * p12 + ((m.as_ref()[i / 64] >> (i % 64)) & 1);
        }
        tr.ev(json!({"k": "sampleb", "p12": p12, "name": name, "what": what, "n": v.len(), "top": top, "ones": ones,
            "distinct": d.len(), "zeros": zeros, "ptop": ptop, "bits": bits}));
    }
}
struct Sampled<'a> {
    tr: &'a mut Trace,
}
impl<'a> Visit for Sampled<'a> {
    fn gm<F: PrimeField>(&mut self, name: &str, get: fn() -> &'static Arc<GmimcParams<F>>) {
        if let Some(rc) = call(name, || view::gm_rc(get())) {
            sample_event(self.tr, name, "constants", &rc);
        }
    }
    fn ne<F: PrimeField>(&mut self, name: &str, get: fn() -> &'static Arc<NeptuneParams<F>>) {
        if let Some(w) = call(name, || view::ne_view(get())) {
            sample_event(self.tr, name, "constants", &w.rc.concat());
        }
    }
}
fn fresh<F: PrimeField>(tr: &mut Trace, f: &str) {
    // two parameter sets built with the same arguments share no constants
    for (t, rounds) in [(3usize, 20usize), (8, 40)] {
        let a = GmimcParams::<F>::new(t, 7, rounds);
        let b = GmimcParams::<F>::new(t, 7, rounds);
        let (x, y) = (view::gm_rc(&a), view::gm_rc(&b));
        let c = view::gm_rc(&a.clone());
        tr.ev(json!({"k": "fresh", "alg": "gm", "f": f, "n": rounds, "len": [x.len(), y.len()],
            "same": x.iter().zip(&y).filter(|(p, q)| p == q).count(), "clone_same": x == c,
            "pairs": x.windows(2).filter(|w| w[0] == w[1]).count()}));
    }
    for t in [6usize, 8] {
        let a = NeptuneParams::<F>::new(t, 7, 2, 8);
        let b = NeptuneParams::<F>::new(t, 7, 2, 8);
        let (x, y) = (view::ne_view(&a), view::ne_view(&b));
        let c = view::ne_view(&a.clone());
        let cat = |w: &view::NeView<F>| {
            let mut v = w.rc.concat();
            v.extend(w.mu.iter().copied());
            v.push(w.gamma);
            if t == 6 {
                v.extend(w.me.iter().flatten().filter(|e| !e.is_zero()).copied());
            }
            v
        };
        let (u, v) = (cat(&x), cat(&y));
        tr.ev(json!({"k": "fresh", "alg": "ne", "f": f, "n": u.len(), "len": [u.len(), v.len()],
            "same": u.iter().zip(&v).filter(|(p, q)| p == q).count(), "clone_same": u == cat(&c),
            "pairs": u.windows(2).filter(|w| w[0] == w[1]).count()}));
    }
}
/// Sets of many shapes: every constant is drawn, whatever the width and the number of rounds.
fn shapes<F: PrimeField>(tr: &mut Trace, rng: &mut Rng, f: &str, n: usize) {
    let mut dims = vec![(2usize, 2usize, 1usize), (4, 6, 68), (6, 6, 69), (8, 2, 100), (10, 6, 70), (12, 6, 68), (16, 8, 60), (24, 6, 70), (32, 4, 40), (4, 0, 300), (6, 40, 0)];
    dims.extend((0..n).map(|_| (2 + 2 * rng.below(15) as usize, 2 * rng.below(6) as usize, 1 + rng.below(120) as usize)));
    for (t, rf, rp) in dims {
        let name = format!("{} width {} rounds {}+{}", f, t, rf, rp);
        if let Some(rc) = call(&name, || view::gm_rc(&GmimcParams::<F>::new(t, 5, rf + rp))) {
            sample_event(tr, &name, "constants", &rc);
        }
        if let Some(w) = call(&name, || view::ne_view(&NeptuneParams::<F>::new(t, 5, rf, rp))) {
            let mut v = w.rc.concat();
            v.push(w.gamma);
            if t != 4 && t != 8 {
                for (i, r) in w.me.iter().enumerate() {
                    v.extend(r.iter().enumerate().filter(|(j, _)| (i + j) % 2 == 0).map(|(_, x)| *x));
                }
            }
            v.extend(&w.mu);
            sample_event(tr, &name, "constants", &v);
            sample_event(tr, &name, "nonzero", &w.mu);
        }
    }
    for rounds in [1usize, 2, 255, 256, 257, 300, 512, 1000, 2000] {
        let name = format!("{} rounds {}", f, rounds);
        if let Some(rc) = call(&name, || view::gm_rc(&GmimcParams::<F>::new(3, 5, rounds))) {
            sample_event(tr, &name, "constants", &rc);
        }
    }
}
/// Draws and drawn parameter sets in several threads of one process share nothing.
fn threads(tr: &mut Trace) {
    use zkhash::fields::utils::{random_scalar, random_scalar_without_0};
    type F = FpBLS12;
    for round in 0..3 {
        let hs: Vec<_> = (0..6)
            .map(|_| {
                std::thread::spawn(move || {
                    let mut v: Vec<F> = vec![];
                    if round != 1 {
                        v.extend((0..200).map(|_| random_scalar::<F>()));
                        v.extend((0..200).map(|_| random_scalar_without_0::<F>()));
                    }
                    if round != 0 {
                        v.extend(view::gm_rc(&GmimcParams::<F>::new(3, 5, 50)));
                        let w = view::ne_view(&NeptuneParams::<F>::new(6, 5, 2, 8));
                        v.extend(w.rc.concat());
                        v.extend(w.mu);
                        v.push(w.gamma);
                    }
                    v
                })
            })
            .collect();
        let vs: Vec<Vec<F>> = hs.into_iter().map(|h| h.join().unwrap_or_default()).collect();
        let total: usize = vs.iter().map(|v| v.len()).sum();
        let mut d: Vec<_> = vs.iter().flatten().map(|x| x.into_bigint()).collect();
        d.sort();
        d.dedup();
        tr.ev(json!({"k": "threads", "lens": vs.iter().map(|v| v.len()).collect::<Vec<_>>(), "total": total, "distinct": d.len()}));
    }
}
pub fn c17(tr: &mut Trace, rng: &mut Rng, thorough: bool) {
    let k = if thorough { 60 } else { 12 };
    shapes::<FpBLS12>(tr, rng, "BLS", k);
    shapes::<FpGoldiLocks>(tr, rng, "GOLDILOCKS", k);
    shapes::<M96>(tr, rng, "M96", k);
    shapes::<FpBN256>(tr, rng, "BN", k / 2);
    shapes::<FpPallas>(tr, rng, "PALLAS", k / 2);
    shapes::<FpVesta>(tr, rng, "VESTA", k / 2);
    let n = if thorough { 400_000 } else { 40_000 };
    sample::<F3>(tr, "F3", n);
    sample::<F5>(tr, "F5", n);
    sample::<F17>(tr, "F17", n);
    sample::<F257>(tr, "F257", n);
    sample::<FpBLS12>(tr, "BLS", n);
    sample::<FpBN256>(tr, "BN", n);
    sample::<FpPallas>(tr, "PALLAS", n);
    sample::<FpVesta>(tr, "VESTA", n);
    sample::<FpGoldiLocks>(tr, "GOLDILOCKS", n);
    sample::<FpBabyBear>(tr, "BABYBEAR", n);
    crate::middle!(sample, tr, "middle", n / 2);
    published::visit(&mut Sampled { tr });
    fresh::<FpBLS12>(tr, "BLS");
    fresh::<FpBN256>(tr, "BN");
    fresh::<FpPallas>(tr, "PALLAS");
    fresh::<FpVesta>(tr, "VESTA");
    fresh::<FpGoldiLocks>(tr, "GOLDILOCKS");
    threads(tr);
    // consecutive draws are independent: pairs at a distance of 1 to 4, and differences
    {
        use zkhash::fields::utils::{random_scalar, random_scalar_without_0};
        for lag in 1..=4usize {
            let mut cnt = vec![0u64; 25];
            let mut cnz = vec![0u64; 16];
            for _ in 0..n / 2 {
                let a: Vec<F5> = (0..=lag).map(|_| random_scalar()).collect();
                let b: Vec<F5> = (0..=lag).map(|_| random_scalar_without_0()).collect();
                let d = |x: &F5| x.into_bigint().as_ref()[0] as usize;
                cnt[5 * d(&a[0]) + d(&a[lag])] += 1;
                let (x, y) = (d(&b[0]), d(&b[lag]));
                if x > 0 && y > 0 {
                    cnz[4 * (x - 1) + y - 1] += 1;
                }
            }
            tr.ev(json!({"k": "sample", "F": {"p": 25}, "name": format!("F5 pairs at distance {}", lag), "what": "scalar", "n": n / 2, "cnt": cnt}));
            tr.ev(json!({"k": "sample", "F": {"p": 16}, "name": format!("F5 non-zero pairs at distance {}", lag), "what": "scalar", "n": n / 2, "cnt": cnz}));
        }
        let v: Vec<FpBLS12> = (0..n).map(|_| { let a: FpBLS12 = random_scalar(); let b: FpBLS12 = random_scalar(); b - a }).collect();
        sample_event(tr, "BLS differences", "scalar", &v);
        let v: Vec<FpGoldiLocks> = (0..n).map(|_| { let a: FpGoldiLocks = random_scalar(); let b: FpGoldiLocks = random_scalar(); b - a }).collect();
        sample_event(tr, "GOLDILOCKS differences", "scalar", &v);
        let v: Vec<FpBN256> = (0..n).map(|_| { let a: FpBN256 = random_scalar_without_0(); let b: FpBN256 = random_scalar_without_0(); b * ark_ff::Field::inverse(&a).unwrap_or_default() }).collect();
        sample_event(tr, "BN quotients", "scalar", &v);
    }
    // drawn constants of the published sets in two processes
    let (a, b) = (child(1), child(2));
    let (a, b) = (a.as_array().unwrap(), b.as_array().unwrap());
    let drawn: Vec<(&Value, &Value)> = a.iter().zip(b).filter(|(x, _)| !x["name"].as_str().unwrap().starts_with("POSEIDON")).collect();
    let same = drawn.iter().filter(|(x, y)| x["obs"][0][2] == y["obs"][0][2]).count();
    tr.ev(json!({"k": "procs", "n": drawn.len(), "same": same}));
    // constants of small-field sets cover the field; diagonal entries are never zero
    let (mut rc, mut nrc, mut mu, mut ga, mut me): (Vec<F5>, Vec<F5>, Vec<F5>, Vec<F5>, Vec<F5>) = (vec![], vec![], vec![], vec![], vec![]);
    for _ in 0..(n / 20) {
        rc.extend(view::gm_rc(&GmimcParams::<F5>::new(3, 5, 6)));
        let w = view::ne_view(&NeptuneParams::<F5>::new(6, 5, 2, 2));
        nrc.extend(w.rc.concat());
        mu.extend(w.mu);
        ga.push(w.gamma);
        for i in 0..6 {
            for j in 0..6 {
                if (i + j) % 2 == 0 {
                    me.push(w.me[i][j]);
                }
            }
        }
    }
    sample_event(tr, "F5 gmimc", "scalar", &rc);
    sample_event(tr, "F5 neptune", "scalar", &nrc);
    sample_event(tr, "F5 neptune mu", "nonzero", &mu);
    sample_event(tr, "F5 neptune gamma", "scalar", &ga);
    sample_event(tr, "F5 neptune me", "scalar", &me);
}
