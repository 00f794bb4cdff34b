//! The four Merkle trees run over a symbolic, collision-free hash: every distinct
//! (level, left, right) gets its own number, so a root determines the whole tree of
//! hash applications below it.
use crate::fields::*;
use crate::out::*;
use ark_ff::PrimeField;
use digest::{
    generic_array::{ArrayLength, GenericArray}, typenum::{U16, U20, U28, U32, U48, U64}, FixedOutput, FixedOutputReset, HashMarker, Output, OutputSizeUser, Reset,
    Update,
};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::HashMap;
use std::sync::OnceLock;
use zkhash::merkle_tree::{merkle_tree_f2, merkle_tree_fp, merkle_tree_orchard, merkle_tree_sapling};

/// Leaves are numbered below LEAF_LIMIT, hash applications above it.
pub const LEAF_LIMIT: u64 = 1 << 20;
/// Level recorded by the trees that do not pass one.
pub const NO_LEVEL: i64 = -1;

#[derive(Default, Clone)]
pub struct Store {
    map: HashMap<(i64, u64, u64), u64>,
    rows: Vec<(i64, u64, u64)>,
    bytes: HashMap<Vec<u8>, u64>,
    /// panic on the n-th application from now (0: never)
    pub fuse: u64,
    pub apps: u64,
}
impl Store {
    fn node(&mut self, lv: i64, a: u64, b: u64) -> u64 {
        self.apps += 1;
        if self.fuse > 0 {
            self.fuse -= 1;
            if self.fuse == 0 {
                panic!("fuse");
            }
        }
        if let Some(x) = self.map.get(&(lv, a, b)) {
            return *x;
        }
        let id = LEAF_LIMIT + self.rows.len() as u64;
        self.rows.push((lv, a, b));
        self.map.insert((lv, a, b), id);
        id
    }
    pub fn get(&self, id: u64) -> Option<(i64, u64, u64)> {
        if id < LEAF_LIMIT {
            return None;
        }
        self.rows.get((id - LEAF_LIMIT) as usize).copied()
    }
}
thread_local! { pub static STORE: RefCell<Store> = RefCell::new(Store::default()); }
pub fn reset_store() {
    STORE.with(|s| *s.borrow_mut() = Store::default());
}
fn node(lv: i64, a: u64, b: u64) -> u64 {
    STORE.with(|s| s.borrow_mut().node(lv, a, b))
}

// How a symbol is written into a field element or a digest. The trees must treat leaves and
// nodes as opaque, so the symbols are shown to them in three ways: in the low limb only, in
// the high limb only, and spread over the whole value. A value that is no symbol reads back
// as u64::MAX.
pub const ENCODINGS: u8 = 3;
thread_local! { static ENC: std::cell::Cell<u8> = const { std::cell::Cell::new(0) }; }
pub fn set_encoding(e: u8) {
    ENC.with(|c| c.set(e % ENCODINGS));
}
fn enc() -> u8 {
    ENC.with(|c| c.get())
}
fn mix(x: u64, k: u64) -> u64 {
    let mut z = x.wrapping_mul(0x9e3779b97f4a7c15).wrapping_add(k.wrapping_mul(0xd1b54a32d192ed03)).wrapping_add(0x2545f4914f6cdd1d);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}
/// (multiplier, offset) of the affine map from symbols to field elements, as limbs.
fn affine() -> ([u64; 4], [u64; 4]) {
    match enc() {
        0 => ([1, 0, 0, 0], [0; 4]),
        1 => ([0, 0, 0, 1], [0; 4]),
        _ => (
            [0x8d2b7c1e93a4f605, 0x5b1e0c77d9a3428f, 0xe6f0917b3c5d2a48, 0x19c3a5e7f0b2d486],
            [0x71c2e95d08b3a64f, 0x3ad4f18c6079b25e, 0xc85e2b9f714a03d6, 0x0f6a3d81e5c9b274],
        ),
    }
}
fn to_fp(x: u64) -> FpPallas {
    use ark_ff::BigInt;
    let (m, o) = affine();
    FpPallas::from(x) * FpPallas::from(BigInt::<4>::new(m)) + FpPallas::from(BigInt::<4>::new(o))
}
fn low(x: &FpPallas) -> u64 {
    use ark_ff::{BigInt, Field};
    static INV: [OnceLock<FpPallas>; 3] = [const { OnceLock::new() }; 3];
    let (m, o) = affine();
    let inv = *INV[enc() as usize].get_or_init(|| FpPallas::from(BigInt::<4>::new(m)).inverse().unwrap());
    let y = (*x - FpPallas::from(BigInt::<4>::new(o))) * inv;
    let b = y.into_bigint();
    if b.as_ref()[1..].iter().any(|w| *w != 0) { u64::MAX } else { b.as_ref()[0] }
}
#[derive(Clone, Debug)]
pub struct SymFp;
impl merkle_tree_fp::MerkleTreeHash<FpPallas> for SymFp {
    fn compress(&self, i: &[&FpPallas]) -> FpPallas {
        if i.len() != 2 {
            return to_fp(node(-2, i.len() as u64, 0));
        }
        to_fp(node(NO_LEVEL, low(i[0]), low(i[1])))
    }
}
fn repr_low(b: &[u8]) -> u64 {
    if b[8..].iter().any(|x| *x != 0) { u64::MAX } else { u64::from_le_bytes(b[..8].try_into().unwrap()) }
}
fn to_orch(x: u64) -> pasta_curves::pallas::Base {
    type B = pasta_curves::pallas::Base;
    let (m, o) = affine();
    B::from(x) * B::from_raw(m) + B::from_raw(o)
}
fn orch(x: &pasta_curves::pallas::Base) -> u64 {
    use pasta_curves::group::ff::{Field as _, PrimeField as _};
    type B = pasta_curves::pallas::Base;
    static INV: [OnceLock<B>; 3] = [const { OnceLock::new() }; 3];
    let (m, o) = affine();
    let inv = *INV[enc() as usize].get_or_init(|| B::from_raw(m).invert().unwrap());
    repr_low(((*x - B::from_raw(o)) * inv).to_repr().as_ref())
}
fn to_sapl(x: u64) -> jubjub::Base {
    let (m, o) = affine();
    jubjub::Base::from(x) * jubjub::Base::from_raw(m) + jubjub::Base::from_raw(o)
}
fn sapl(x: &jubjub::Base) -> u64 {
    static INV: [OnceLock<jubjub::Base>; 3] = [const { OnceLock::new() }; 3];
    let (m, o) = affine();
    let inv = *INV[enc() as usize].get_or_init(|| jubjub::Base::from_raw(m).invert().unwrap());
    repr_low(&((*x - jubjub::Base::from_raw(o)) * inv).to_bytes())
}
/// Digests of any length from 16 bytes on.
fn to_bytes(x: u64, n: usize) -> Vec<u8> {
    let mut b = vec![0u8; n];
    match enc() {
        0 => b[..8].copy_from_slice(&x.to_le_bytes()),
        1 => b[n - 8..].copy_from_slice(&x.to_be_bytes()),
        _ => {
            for (k, c) in b.chunks_mut(8).enumerate() {
                let w = mix(x, k as u64).to_le_bytes();
                let m = c.len();
                c.copy_from_slice(&w[..m]);
            }
            b[8..16].copy_from_slice(&(x ^ 0xa5c3_96f1_7be2_d408).to_le_bytes());
        }
    }
    b
}
fn to_digest<N: ArrayLength<u8>>(x: u64) -> GenericArray<u8, N> {
    GenericArray::clone_from_slice(&to_bytes(x, N::USIZE))
}
fn of_digest(b: &[u8]) -> u64 {
    let w = |i: usize| u64::from_le_bytes(b[i..i + 8].try_into().unwrap());
    let x = match enc() {
        0 => w(0),
        1 => w(b.len() - 8).swap_bytes(),
        _ => w(8) ^ 0xa5c3_96f1_7be2_d408,
    };
    if to_bytes(x, b.len())[..] == *b { x } else { u64::MAX }
}
#[derive(Clone, Debug)]
pub struct SymLv;
impl merkle_tree_orchard::MerkleTreeHash for SymLv {
    fn compress(&self, lv: usize, i: &[&pasta_curves::pallas::Base; 2]) -> pasta_curves::pallas::Base {
        to_orch(node(lv as i64, orch(i[0]), orch(i[1])))
    }
}
impl merkle_tree_sapling::MerkleTreeHash for SymLv {
    fn compress(&self, lv: usize, i: &[&jubjub::Base; 2]) -> jubjub::Base {
        to_sapl(node(lv as i64, sapl(i[0]), sapl(i[1])))
    }
}
/// A digest of N bytes over the same store. Its state is the bytes seen since the last reset.
#[derive(Clone, Default, Debug)]
pub struct SymDigest<N: ArrayLength<u8> = U32>(Vec<u8>, std::marker::PhantomData<N>);
impl<N: ArrayLength<u8>> SymDigest<N> {
    fn out(&self) -> u64 {
        if self.0.len() == 2 * N::USIZE {
            node(NO_LEVEL, of_digest(&self.0[..N::USIZE]), of_digest(&self.0[N::USIZE..]))
        } else {
            // not two digests: a value no tree can contain
            STORE.with(|s| {
                let mut s = s.borrow_mut();
                let n = s.bytes.len() as u64;
                let k = *s.bytes.entry(self.0.clone()).or_insert(n);
                s.node(-2, k, 0)
            })
        }
    }
}
impl<N: ArrayLength<u8>> HashMarker for SymDigest<N> {}
impl<N: ArrayLength<u8>> Update for SymDigest<N> {
    fn update(&mut self, d: &[u8]) {
        self.0.extend_from_slice(d);
    }
}
impl<N: ArrayLength<u8> + 'static> OutputSizeUser for SymDigest<N> {
    type OutputSize = N;
}
impl<N: ArrayLength<u8> + 'static> FixedOutput for SymDigest<N> {
    fn finalize_into(self, out: &mut Output<Self>) {
        out.copy_from_slice(&to_bytes(self.out(), N::USIZE));
    }
}
impl<N: ArrayLength<u8>> Reset for SymDigest<N> {
    fn reset(&mut self) {
        self.0.clear();
    }
}
impl<N: ArrayLength<u8> + 'static> FixedOutputReset for SymDigest<N> {
    fn finalize_into_reset(&mut self, out: &mut Output<Self>) {
        out.copy_from_slice(&to_bytes(self.out(), N::USIZE));
        self.0.clear();
    }
}
/// Roots with digests of another length, and over another field than the one used elsewhere.
fn digest_root<N: ArrayLength<u8> + Default + Clone + 'static>(set: &[u64]) -> Option<u64> {
    let v: Vec<Output<SymDigest<N>>> = set.iter().map(|x| to_digest::<N>(*x)).collect();
    call("merkle f2", || merkle_tree_f2::MerkleTree::<SymDigest<N>>::new().accumulate(&v)).map(|d| of_digest(d.as_slice()))
}
#[derive(Clone, Debug)]
struct SymG<F>(std::marker::PhantomData<F>);
fn g_affine<F: PrimeField>() -> (F, F) {
    let two = F::one() + F::one();
    match enc() {
        0 => (F::one(), F::zero()),
        1 => (two.pow([F::MODULUS_BIT_SIZE as u64 - 1]), F::zero()),
        _ => (-two.pow([29u64]) + two + F::one(), two.pow([F::MODULUS_BIT_SIZE as u64 - 2]) - two),
    }
}
fn to_g<F: PrimeField>(x: u64) -> F {
    let (m, o) = g_affine::<F>();
    F::from(x) * m + o
}
fn of_g<F: PrimeField>(x: &F) -> u64 {
    let (m, o) = g_affine::<F>();
    let b = ((*x - o) * m.inverse().unwrap()).into_bigint();
    if b.as_ref()[1..].iter().any(|w| *w != 0) { u64::MAX } else { b.as_ref()[0] }
}
impl<F: PrimeField> merkle_tree_fp::MerkleTreeHash<F> for SymG<F> {
    fn compress(&self, i: &[&F]) -> F {
        if i.len() != 2 {
            return to_g(node(-2, i.len() as u64, 0));
        }
        to_g(node(NO_LEVEL, of_g(i[0]), of_g(i[1])))
    }
}
fn field_root<F: PrimeField>(set: &[u64]) -> Option<u64> {
    let v: Vec<F> = set.iter().map(|x| to_g(*x)).collect();
    call("merkle fp", || merkle_tree_fp::MerkleTree::new(SymG::<F>(std::marker::PhantomData)).accumulate(&v)).map(|r| of_g(&r))
}

thread_local! { static WORKER: std::cell::Cell<bool> = const { std::cell::Cell::new(false) }; }
/// `call`, without the watchdog in worker threads.
fn guarded<T>(what: &str, f: impl FnOnce() -> T) -> Option<T> {
    if WORKER.with(|w| w.get()) { call_mt(f) } else { call(what, f) }
}
/// One tree object of any of the four kinds.
#[derive(Clone)]
pub enum Tree {
    F2(merkle_tree_f2::MerkleTree<SymDigest<U32>>),
    Fp(merkle_tree_fp::MerkleTree<FpPallas, SymFp>),
    Orchard(merkle_tree_orchard::MerkleTree<SymLv>),
    Sapling(merkle_tree_sapling::MerkleTree<SymLv>),
}
pub const KINDS: [&str; 4] = ["f2", "fp", "orchard", "sapling"];
impl Tree {
    pub fn new(kind: &str, alt: bool) -> Tree {
        match kind {
            "f2" => Tree::F2(if alt { Default::default() } else { merkle_tree_f2::MerkleTree::new() }),
            "fp" => Tree::Fp(merkle_tree_fp::MerkleTree::new(SymFp)),
            "orchard" => Tree::Orchard(merkle_tree_orchard::MerkleTree::new(SymLv)),
            _ => Tree::Sapling(merkle_tree_sapling::MerkleTree::new(SymLv)),
        }
    }
    /// The root, or None if the call panicked.
    pub fn accumulate(&mut self, set: &[u64]) -> Option<u64> {
        match self {
            Tree::F2(t) => {
                let v: Vec<Output<SymDigest<U32>>> = set.iter().map(|x| to_digest::<U32>(*x)).collect();
                guarded("merkle f2", || t.accumulate(&v)).map(|d| of_digest(d.as_slice()))
            }
            Tree::Fp(t) => {
                let v: Vec<FpPallas> = set.iter().map(|x| to_fp(*x)).collect();
                guarded("merkle fp", || t.accumulate(&v)).map(|r| low(&r))
            }
            Tree::Orchard(t) => {
                let v: Vec<_> = set.iter().map(|x| to_orch(*x)).collect();
                guarded("merkle orchard", || t.accumulate(&v)).map(|r| orch(&r))
            }
            Tree::Sapling(t) => {
                let v: Vec<_> = set.iter().map(|x| to_sapl(*x)).collect();
                guarded("merkle sapling", || t.accumulate(&v)).map(|r| sapl(&r))
            }
        }
    }
}
fn small(id: u64) -> i64 {
    if id == u64::MAX || id > (1 << 30) { -7 } else { id as i64 }
}
/// Rows of the hash applications below `root`, renumbered 1..n in `base + k` form.
pub fn unfold(root: u64) -> (i64, Vec<Value>) {
    STORE.with(|s| {
        let s = s.borrow();
        let mut idx: HashMap<u64, usize> = HashMap::new();
        let mut rows: Vec<(i64, u64, u64)> = vec![];
        let mut todo = vec![root];
        while let Some(x) = todo.pop() {
            if idx.contains_key(&x) {
                continue;
            }
            if let Some(r) = s.get(x) {
                idx.insert(x, rows.len());
                rows.push(r);
                if r.0 != -2 {
                    todo.push(r.1);
                    todo.push(r.2);
                }
            }
        }
        // a leaf keeps its number, an application becomes LEAF_LIMIT + row
        let name = |x: u64| idx.get(&x).map(|k| (LEAF_LIMIT as i64) + *k as i64).unwrap_or(small(x));
        let out = rows
            .iter()
            .map(|(l, a, b)| if *l == -2 { json!([-2, 0, 0]) } else { json!([l, name(*a), name(*b)]) })
            .collect();
        (name(root), out)
    })
}

fn tree_event(tr: &mut Trace, kind: &str, set: &[u64]) {
    reset_store();
    let mut t = Tree::new(kind, false);
    let r = t.accumulate(set);
    let (root, tab) = match r {
        Some(x) => unfold(x),
        None => (-9, vec![]),
    };
    tr.ev(json!({"k": "tree", "kind": kind, "leaves": set, "ok": r.is_some(), "root": root, "tab": tab}));
}
/// C09: every size up to a bound, sizes around powers of two, repeated leaves.
pub fn c09(tr: &mut Trace, rng: &mut Rng, thorough: bool) {
    let upto = if thorough { 600 } else { 130 };
    let big: &[usize] = if thorough {
        &[1023, 1024, 1025, 1026, 1027, 1536, 2047, 2048, 2049, 3000, 4095, 4097, 8193, 16384, 32769, 65536, 65537, 100000]
    } else {
        &[255, 256, 257, 300, 511, 513, 1000, 1023, 1024, 1025, 2049, 4097, 16385, 65537]
    };
    c09_types(tr, thorough);
    for kind in KINDS {
        for n in (1..=upto).chain(big.iter().copied()) {
            // distinct leaves
            let v: Vec<u64> = (0..n as u64).collect();
            for e in 0..ENCODINGS {
                if n <= 40 || n % 3 == e as usize {
                    set_encoding(e);
                    tree_event(tr, kind, &v);
                }
            }
        }
        // sizes nobody thought of
        for _ in 0..if thorough { 200 } else { 24 } {
            let n = 131 + rng.below(if thorough { 6000 } else { 1500 });
            set_encoding(rng.below(3) as u8);
            let v: Vec<u64> = (0..n).collect();
            tree_event(tr, kind, &v);
        }
        for n in 1..=40usize {
            set_encoding(n as u8);
            // leaves in reverse, constant, and with repetitions
            let v: Vec<u64> = (0..n as u64).rev().collect();
            tree_event(tr, kind, &v);
            tree_event(tr, kind, &vec![5; n]);
            let v: Vec<u64> = (0..n).map(|_| rng.below(3)).collect();
            tree_event(tr, kind, &v);
        }
        // leaves that are themselves large, or equal to the padding leaf
        for n in [3usize, 5, 6, 7, 9, 11] {
            set_encoding(n as u8);
            let v: Vec<u64> = (0..n as u64).map(|i| LEAF_LIMIT - 1 - i * 1000).collect();
            tree_event(tr, kind, &v);
        }
    }
}

fn root_event(tr: &mut Trace, kind: &str, set: &[u64], root: &dyn Fn(&[u64]) -> Option<u64>) {
    reset_store();
    let r = root(set);
    let (id, tab) = r.map(unfold).unwrap_or((-9, vec![]));
    tr.ev(json!({"k": "tree", "kind": kind, "leaves": set, "ok": r.is_some(), "root": id, "tab": tab}));
}
/// C09 for other digest lengths and other fields.
fn c09_types(tr: &mut Trace, thorough: bool) {
    let sizes: Vec<usize> = if thorough { (1..=130).collect() } else { (1..=18).chain([31, 32, 33, 65, 100, 257]).collect() };
    for n in sizes {
        let v: Vec<u64> = (0..n as u64).collect();
        for e in 0..ENCODINGS {
            set_encoding(e);
            root_event(tr, "f2", &v, &digest_root::<U16>);
            root_event(tr, "f2", &v, &digest_root::<U20>);
            root_event(tr, "f2", &v, &digest_root::<U28>);
            root_event(tr, "f2", &v, &digest_root::<U48>);
            root_event(tr, "f2", &v, &digest_root::<U64>);
            root_event(tr, "fp", &v, &field_root::<FpBLS12>);
            root_event(tr, "fp", &v, &field_root::<FpBN256>);
            root_event(tr, "fp", &v, &field_root::<FpVesta>);
            root_event(tr, "fp", &v, &field_root::<FpGoldiLocks>);
            root_event(tr, "fp", &v, &field_root::<FpBabyBear>);
        }
    }
}
/// C19 for other digest lengths and other fields.
fn bind_types(tr: &mut Trace, thorough: bool) {
    let kinds: [(&str, fn(&[u64]) -> Option<u64>); 13] = [
        ("f2", digest_root::<U16>), ("f2", digest_root::<U20>), ("f2", digest_root::<U28>), ("f2", digest_root::<U48>), ("f2", digest_root::<U64>),
        ("fp", field_root::<FpBLS12>), ("fp", field_root::<FpBN256>), ("fp", field_root::<FpVesta>), ("fp", field_root::<FpGoldiLocks>),
        ("fp", field_root::<FpBabyBear>), ("fp", field_root::<M96>), ("fp", field_root::<M160>), ("fp", field_root::<M384>),
    ];
    for (kind, root) in kinds {
        for e in 0..ENCODINGS {
            for (q, len) in if thorough { [(2u64, 7usize), (4, 4)] } else { [(2u64, 5usize), (4, 3)] } {
                set_encoding(e);
                reset_store();
                let mut rows: Vec<Value> = vec![];
                for n in 1..=len {
                    for k in 0..q.pow(n as u32) {
                        let v: Vec<u64> = (0..n).map(|i| (k / q.pow((n - 1 - i) as u32)) % q).collect();
                        rows.push(json!([root(&v).map(small).unwrap_or(-9), v]));
                    }
                }
                tr.ev(json!({"k": "bind", "kind": kind, "q": q, "len": len, "rows": rows}));
            }
        }
    }
}
/// C19: all leaf sequences up to a length over a small alphabet; roots are comparable numbers.
pub fn c19(tr: &mut Trace, _rng: &mut Rng, thorough: bool) {
    bind_types(tr, thorough);
    for kind in KINDS {
        for (q, len) in if thorough { [(2u64, 9usize), (3, 6), (4, 5)] } else { [(2u64, 7usize), (3, 5), (4, 4)] } {
            set_encoding(q as u8);
            reset_store();
            let mut rows: Vec<Value> = vec![];
            let mut t = Tree::new(kind, false);
            for n in 1..=len {
                for k in 0..q.pow(n as u32) {
                    let v: Vec<u64> = (0..n).map(|i| (k / q.pow((n - 1 - i) as u32)) % q).collect();
                    let r = t.accumulate(&v);
                    rows.push(json!([r.map(small).unwrap_or(-9), v]));
                }
            }
            tr.ev(json!({"k": "bind", "kind": kind, "q": q, "len": len, "rows": rows}));
        }
        // longer sequences: one leaf changed, neighbours exchanged, shortened, lengthened
        let mut sizes: Vec<usize> = (8..=20).chain([31, 32, 33, 47, 63, 64, 65, 100, 127, 128, 129]).collect();
        if thorough {
            sizes.extend([200, 255, 256, 257, 300]);
        }
        for (j, n) in sizes.into_iter().enumerate() {
            set_encoding(j as u8);
            reset_store();
            let base: Vec<u64> = (1..=n as u64).collect();
            let mut seqs = vec![base.clone(), vec![1; n], base[..n - 1].to_vec(), [base.clone(), vec![n as u64]].concat(), [base.clone(), vec![0]].concat(),
                [base.clone(), base.clone()].concat()];
            for i in 0..n {
                let mut b = base.clone();
                b[i] = 0;
                seqs.push(b);
                let mut b = base.clone();
                b.swap(i, (i + 1) % n);
                seqs.push(b);
                let mut b = base.clone();
                b[i] = b[(i + 1) % n];
                seqs.push(b);
            }
            let mut t = Tree::new(kind, false);
            let rows: Vec<Value> = seqs.iter().map(|v| json!([t.accumulate(v).map(small).unwrap_or(-9), v])).collect();
            tr.ev(json!({"k": "bind", "kind": kind, "q": 0, "len": n, "rows": rows}));
        }
    }
}

/// C10: replay histories written by the specification. One line is a sequence of operations
/// [op, object, argument]: new(o), clone(o, from), acc(o, set), fault(o, set).
pub fn c10(tr: &mut Trace, rng: &mut Rng, thorough: bool, hist_file: &str, sets: &[Vec<u64>]) {
    let text = std::fs::read_to_string(hist_file).expect("history file");
    for (k, kind) in KINDS.into_iter().enumerate() {
        set_encoding(k as u8 + 1);
        reset_store();
        // the reference roots: each set on a fresh object
        let mut refs: Vec<Value> = vec![];
        for s in sets {
            let r = Tree::new(kind, true).accumulate(s);
            refs.push(match r {
                Some(x) => {
                    let (root, tab) = unfold(x);
                    tr.ev(json!({"k": "tree", "kind": kind, "leaves": s, "ok": true, "root": root, "tab": tab}));
                    json!({"leaves": s, "ok": true, "id": small(x)})
                }
                None => json!({"leaves": s, "ok": false, "id": -9}),
            });
        }
        tr.ev(json!({"k": "refs", "kind": kind, "refs": refs}));
        for line in text.lines() {
            let ops: Value = serde_json::from_str(line).expect("history line");
            let mut objs: Vec<Option<Tree>> = vec![None, None, None, None];
            let mut outs: Vec<i64> = vec![];
            for op in ops.as_array().unwrap() {
                let (name, o, a) = (op["op"].as_str().unwrap(), op["o"].as_u64().unwrap() as usize, op["a"].as_u64().unwrap() as usize);
                let mut out = 0i64;
                match name {
                    "new" => objs[o] = Some(Tree::new(kind, a == 1)),
                    "clone" => objs[o] = objs[a].clone(),
                    "acc" => {
                        out = objs[o].as_mut().unwrap().accumulate(&sets[a - 1]).map(small).unwrap_or(-9);
                    }
                    "fault" => {
                        // the user's hash panics on its second application
                        if kind != "f2" {
                            STORE.with(|s| s.borrow_mut().fuse = 2);
                            out = objs[o].as_mut().unwrap().accumulate(&sets[a - 1]).map(small).unwrap_or(-9);
                            STORE.with(|s| s.borrow_mut().fuse = 0);
                            if out != -9 {
                                out = -8;
                            }
                        }
                    }
                    _ => panic!("unknown operation"),
                }
                outs.push(out);
            }
            tr.ev(json!({"k": "hist", "kind": kind, "ops": ops, "outs": outs}));
        }
        pairs(tr, rng, kind, thorough);
        nested(tr, kind);
    }
}
/// A family of similar sets: everything up to length four over three symbols, and longer ones that
/// agree in length, ends, sum or multiset.
fn family() -> Vec<Vec<u64>> {
    let mut v: Vec<Vec<u64>> = vec![];
    for n in 1..=4usize {
        for k in 0..3u64.pow(n as u32) {
            v.push((0..n).map(|i| 1 + (k / 3u64.pow((n - 1 - i) as u32)) % 3).collect());
        }
    }
    let base: Vec<u64> = vec![1, 2, 3, 4, 5, 6, 7];
    for n in [5usize, 6, 7] {
        for i in 0..n - 1 {
            let mut b = base[..n].to_vec();
            b.swap(i, i + 1);
            v.push(b);
        }
        let mut b = base[..n].to_vec();
        b[n / 2] = 9;
        v.push(b);
        v.push(base[..n].to_vec());
    }
    let long: Vec<u64> = (1..=20).collect();
    for i in [1usize, 7, 15, 16, 18] {
        let mut b = long.clone();
        b[i] = 99;
        v.push(b);
    }
    v.push(long);
    v
}
/// One set after another on one object, for every ordered pair of a family; the same from several
/// threads that hold clones of one object.
fn pairs(tr: &mut Trace, rng: &mut Rng, kind: &str, thorough: bool) {
    let fam = family();
    reset_store();
    let refs: Vec<i64> = fam
        .iter()
        .map(|s| {
            let r = Tree::new(kind, false).accumulate(s);
            let (root, tab) = r.map(unfold).unwrap_or((-9, vec![]));
            tr.ev(json!({"k": "tree", "kind": kind, "leaves": s, "ok": r.is_some(), "root": root, "tab": tab}));
            r.map(small).unwrap_or(-9)
        })
        .collect();
    let id = |t: &mut Tree, s: &[u64]| t.accumulate(s).map(small).unwrap_or(-9);
    for (a, x) in fam.iter().enumerate() {
        let mut row = vec![];
        for y in &fam {
            let mut t = Tree::new(kind, true);
            let r1 = id(&mut t, x);
            let r2 = id(&mut t, y);
            let mut c = t.clone();
            let r3 = id(&mut c, x);
            row.push(json!([r1, r2, r3]));
        }
        tr.ev(json!({"k": "pairs", "kind": kind, "a": a + 1, "refs": refs, "row": row}));
    }
    // a long life: the distinct roots seen per set
    let mut t = Tree::new(kind, false);
    let mut seen: Vec<(usize, i64)> = vec![];
    for i in 0..if thorough { 300_000usize } else { 70_000 } {
        let k = (i * 7 + i / 11) % 40;
        let r = id(&mut t, &fam[k]);
        if r != refs[k] && seen.len() > 200 {
            break;
        }
        if !seen.contains(&(k + 1, r)) {
            seen.push((k + 1, r));
        }
    }
    tr.ev(json!({"k": "mt", "kind": kind, "ok": true, "refs": refs, "log": seen}));
    // threads: each starts with a copy of the table of symbols, so that numbers are comparable
    let base = Tree::new(kind, false);
    let store = STORE.with(|s| s.borrow().clone());
    let e = enc();
    for _ in 0..if thorough { 10 } else { 2 } {
        let bar = std::sync::Arc::new(std::sync::Barrier::new(8));
        let hs: Vec<_> = (0..8u64)
            .map(|th| {
                let (mut t, fam, store, bar, mut r) = (base.clone(), fam.clone(), store.clone(), bar.clone(), Rng(rng.next() ^ th));
                std::thread::spawn(move || {
                    set_encoding(e);
                    WORKER.with(|w| w.set(true));
                    STORE.with(|s| *s.borrow_mut() = store);
                    bar.wait();
                    (0..400)
                        .map(|_| {
                            let k = r.below(fam.len() as u64) as usize;
                            (k + 1, t.accumulate(&fam[k]).map(small).unwrap_or(-9))
                        })
                        .collect::<Vec<_>>()
                })
            })
            .collect();
        for h in hs {
            let log = h.join();
            let ok = log.is_ok();
            tr.ev(json!({"k": "mt", "kind": kind, "ok": ok, "refs": refs, "log": log.unwrap_or_default()}));
        }
    }
}

// ---- a hash that builds another tree of the same kind while it is being evaluated
thread_local! { static INNER: RefCell<Vec<Option<u64>>> = const { RefCell::new(vec![]) }; }
const INNER_SET: [u64; 3] = [70, 80, 90];
fn inner(kind: &str) {
    let r = Tree::new(kind, false).accumulate(&INNER_SET);
    INNER.with(|v| v.borrow_mut().push(r));
}
#[derive(Clone)]
struct Nest;
impl merkle_tree_fp::MerkleTreeHash<FpPallas> for Nest {
    fn compress(&self, i: &[&FpPallas]) -> FpPallas {
        inner("fp");
        merkle_tree_fp::MerkleTreeHash::compress(&SymFp, i)
    }
}
impl merkle_tree_orchard::MerkleTreeHash for Nest {
    fn compress(&self, lv: usize, i: &[&pasta_curves::pallas::Base; 2]) -> pasta_curves::pallas::Base {
        inner("orchard");
        merkle_tree_orchard::MerkleTreeHash::compress(&SymLv, lv, i)
    }
}
impl merkle_tree_sapling::MerkleTreeHash for Nest {
    fn compress(&self, lv: usize, i: &[&jubjub::Base; 2]) -> jubjub::Base {
        inner("sapling");
        merkle_tree_sapling::MerkleTreeHash::compress(&SymLv, lv, i)
    }
}
#[derive(Clone, Default)]
struct NestDigest(SymDigest<U32>);
impl HashMarker for NestDigest {}
impl Update for NestDigest {
    fn update(&mut self, d: &[u8]) {
        self.0.update(d);
    }
}
impl OutputSizeUser for NestDigest {
    type OutputSize = U32;
}
impl FixedOutput for NestDigest {
    fn finalize_into(self, out: &mut Output<Self>) {
        inner("f2");
        FixedOutput::finalize_into(self.0, out);
    }
}
impl Reset for NestDigest {
    fn reset(&mut self) {
        Reset::reset(&mut self.0);
    }
}
impl FixedOutputReset for NestDigest {
    fn finalize_into_reset(&mut self, out: &mut Output<Self>) {
        inner("f2");
        FixedOutputReset::finalize_into_reset(&mut self.0, out);
    }
}
fn nested(tr: &mut Trace, kind: &str) {
    for n in [1usize, 2, 3, 5, 8, 11] {
        reset_store();
        INNER.with(|v| v.borrow_mut().clear());
        let set: Vec<u64> = (1..=n as u64).collect();
        let r: Option<u64> = WORKER.with(|w| {
            w.set(true);
            let r = match kind {
                "f2" => {
                    let v: Vec<Output<NestDigest>> = set.iter().map(|x| to_digest::<U32>(*x)).collect();
                    call_mt(|| merkle_tree_f2::MerkleTree::<NestDigest>::new().accumulate(&v)).map(|d| of_digest(d.as_slice()))
                }
                "fp" => {
                    let v: Vec<FpPallas> = set.iter().map(|x| to_fp(*x)).collect();
                    call_mt(|| merkle_tree_fp::MerkleTree::new(Nest).accumulate(&v)).map(|r| low(&r))
                }
                "orchard" => {
                    let v: Vec<_> = set.iter().map(|x| to_orch(*x)).collect();
                    call_mt(|| merkle_tree_orchard::MerkleTree::new(Nest).accumulate(&v)).map(|r| orch(&r))
                }
                _ => {
                    let v: Vec<_> = set.iter().map(|x| to_sapl(*x)).collect();
                    call_mt(|| merkle_tree_sapling::MerkleTree::new(Nest).accumulate(&v)).map(|r| sapl(&r))
                }
            };
            w.set(false);
            r
        });
        let mut ev = |leaves: &[u64], r: Option<u64>| {
            let (root, tab) = r.map(unfold).unwrap_or((-9, vec![]));
            tr.ev(json!({"k": "tree", "kind": kind, "leaves": leaves, "ok": r.is_some(), "root": root, "tab": tab}));
        };
        ev(&set, r);
        let inner = INNER.with(|v| v.borrow().clone());
        for r in inner {
            ev(&INNER_SET, r);
        }
    }
}
