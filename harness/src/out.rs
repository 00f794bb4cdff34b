//! Trace output: newline-delimited JSON that the TLA+ trace specifications read.
use ark_ff::PrimeField;
use serde_json::{json, Value};
use std::fs::File;
use std::io::{BufWriter, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;

pub const SMALL_LIMIT: u64 = 46000;

/// A natural number given as little-endian u64 limbs -> base 2^24 limbs.
pub fn limbs24(le: &[u64], n: usize) -> Vec<u32> {
    (0..n)
        .map(|i| {
            let bit = 24 * i;
            let (w, s) = (bit / 64, bit % 64);
            let mut v: u128 = 0;
            if w < le.len() {
                v |= le[w] as u128;
            }
            if w + 1 < le.len() {
                v |= (le[w + 1] as u128) << 64;
            }
            ((v >> s) & 0xff_ffff) as u32
        })
        .collect()
}

pub fn is_small<F: PrimeField>() -> bool {
    F::MODULUS_BIT_SIZE <= 16 && F::MODULUS.as_ref()[0] < SMALL_LIMIT
}

pub fn nlimbs<F: PrimeField>() -> usize {
    (F::MODULUS_BIT_SIZE as usize + 23) / 24
}

pub fn el<F: PrimeField>(x: &F) -> Value {
    let b = x.into_bigint();
    if is_small::<F>() {
        json!(b.as_ref()[0])
    } else {
        json!(limbs24(b.as_ref(), nlimbs::<F>()))
    }
}
pub fn vec_el<F: PrimeField>(v: &[F]) -> Value {
    Value::Array(v.iter().map(el).collect())
}
pub fn mat_el<F: PrimeField>(m: &[Vec<F>]) -> Value {
    Value::Array(m.iter().map(|r| vec_el(r)).collect())
}
pub fn field<F: PrimeField>() -> Value {
    if is_small::<F>() {
        json!({"small": true, "p": F::MODULUS.as_ref()[0]})
    } else {
        json!({"small": false, "p": limbs24(F::MODULUS.as_ref(), nlimbs::<F>())})
    }
}
/// Splitmix64: every random choice of the harness comes from VERIF_SEED.
#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        self.next() % n
    }
    pub fn el<F: PrimeField>(&mut self) -> F {
        let mut b = [0u8; 48];
        for c in b.chunks_mut(8) {
            c.copy_from_slice(&self.next().to_le_bytes());
        }
        F::from_le_bytes_mod_order(&b)
    }
    pub fn nonzero<F: PrimeField>(&mut self) -> F {
        loop {
            let x = self.el::<F>();
            if !x.is_zero() {
                return x;
            }
        }
    }
    /// An element of a random bit length (small values, single bits, values next to a power of two).
    pub fn sized<F: PrimeField>(&mut self) -> F {
        let bits = self.below(F::MODULUS_BIT_SIZE as u64 + 1);
        let top = F::from(2u64).pow([bits]);
        match self.below(6) {
            0 => F::zero(),
            1 => top,
            2 => top - F::one(),
            3 => -F::from(self.below(300)),
            4 => F::from(self.below(300)),
            _ => {
                // uniform below 2^bits, roughly
                let mut b = [0u8; 48];
                for (i, c) in b.iter_mut().enumerate() {
                    if (i as u64) < bits / 8 {
                        *c = self.next() as u8;
                    } else if (i as u64) == bits / 8 {
                        *c = (self.next() as u8) & ((1u16 << (bits % 8)) - 1) as u8;
                    }
                }
                F::from_le_bytes_mod_order(&b)
            }
        }
    }
    /// Elements in one of several styles: uniform, zero, all of random bit length, below 256, all one value.
    pub fn styled<F: PrimeField>(&mut self, n: usize, style: u64) -> Vec<F> {
        let one: F = self.sized();
        (0..n)
            .map(|_| match style {
                1 => F::zero(),
                2 => self.sized(),
                3 => F::from(self.below(256)),
                4 => one,
                _ => self.el(),
            })
            .collect()
    }
    pub fn styled_mat<F: PrimeField>(&mut self, r: usize, c: usize, style: u64) -> Vec<Vec<F>> {
        (0..r).map(|_| self.styled(c, style)).collect()
    }
    pub fn vec<F: PrimeField>(&mut self, n: usize) -> Vec<F> {
        (0..n).map(|_| self.el()).collect()
    }
    pub fn mat<F: PrimeField>(&mut self, r: usize, c: usize) -> Vec<Vec<F>> {
        (0..r).map(|_| self.vec(c)).collect()
    }
}

// ---- calls into the code under test -------------------------------------
// A panic is data. A call that does not return is found by the watchdog, which
// reports the call that was running.
static CALLS: AtomicU64 = AtomicU64::new(0);
static CURRENT: Mutex<Option<(std::time::Instant, String)>> = Mutex::new(None);

/// Run `f` (a call into the code under test); None if it panicked.
pub fn call<T>(what: &str, f: impl FnOnce() -> T) -> Option<T> {
    CALLS.fetch_add(1, Ordering::Relaxed);
    *CURRENT.lock().unwrap_or_else(|e| e.into_inner()) =
        Some((std::time::Instant::now(), what.to_string()));
    let r = catch_unwind(AssertUnwindSafe(f)).ok();
    *CURRENT.lock().unwrap_or_else(|e| e.into_inner()) = None;
    r
}
/// Same, without touching the watchdog (for worker threads).
pub fn call_mt<T>(f: impl FnOnce() -> T) -> Option<T> {
    CALLS.fetch_add(1, Ordering::Relaxed);
    catch_unwind(AssertUnwindSafe(f)).ok()
}
pub fn calls() -> u64 {
    CALLS.load(Ordering::Relaxed)
}

pub fn start_watchdog(limit_s: u64) {
    std::panic::set_hook(Box::new(|_| {}));
    std::thread::spawn(move || loop {
        std::thread::sleep(std::time::Duration::from_secs(1));
        if let Some((t0, what)) = &*CURRENT.lock().unwrap_or_else(|e| e.into_inner()) {
            if t0.elapsed().as_secs() > limit_s {
                println!("HANG {}", what);
                std::process::exit(42);
            }
        }
    });
}

pub struct Trace {
    ctx: BufWriter<File>,
    ev: BufWriter<File>,
    pub nctx: usize,
    pub nev: usize,
    pub samples: Vec<Value>,
    dir: String,
}
impl Trace {
    pub fn new(dir: &str) -> Self {
        std::fs::create_dir_all(dir).unwrap();
        let f = |n: &str| BufWriter::new(File::create(format!("{}/{}", dir, n)).unwrap());
        Trace {
            ctx: f("ctx.ndjson"),
            ev: f("ev.ndjson"),
            nctx: 0,
            nev: 0,
            samples: vec![],
            dir: dir.to_string(),
        }
    }
    /// Returns the 1-based index of the context.
    pub fn ctx(&mut self, v: Value) -> usize {
        writeln!(self.ctx, "{}", v).unwrap();
        self.nctx += 1;
        self.nctx
    }
    pub fn ev(&mut self, v: Value) {
        writeln!(self.ev, "{}", v).unwrap();
        self.nev += 1;
        if self.samples.len() < 3 && v.to_string().len() < 1500 {
            self.samples.push(v);
        }
    }
    pub fn finish(mut self, extra: Value) {
        self.ctx.flush().unwrap();
        self.ev.flush().unwrap();
        let meta = json!({"contexts": self.nctx, "events": self.nev, "calls": calls(),
                          "samples": self.samples, "extra": extra});
        std::fs::write(format!("{}/meta.json", self.dir), meta.to_string()).unwrap();
    }
}
pub fn res<F: PrimeField>(r: &Option<Vec<F>>) -> (bool, Value) {
    match r {
        Some(v) => (true, vec_el(v)),
        None => (false, json!([])),
    }
}
