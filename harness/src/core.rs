//! Case runner, elements with known discrete logarithms, and observable digests.
pub use ark_bls12_381::{Bls12_381 as E, Fr as F};
pub use ark_dh_commitments::{
    afgho16::{AFGHOCommitmentG1, AFGHOCommitmentG2},
    identity::{HomomorphicPlaceholderValue as Ph, IdentityCommitment, IdentityOutput},
    pedersen::PedersenCommitment,
    DoublyHomomorphicCommitment as Dhc,
};
pub use ark_ec::{
    pairing::{Pairing, PairingOutput},
    AffineRepr, CurveGroup, Group,
};
pub use ark_ff::{BigInteger, Field, One, UniformRand, Zero};
pub use ark_inner_products::{
    InnerProduct, MultiexponentiationInnerProduct, PairingInnerProduct, ScalarInnerProduct,
};
pub use ark_serialize::{CanonicalDeserialize, CanonicalSerialize};
pub use ark_std::rand::{Rng, RngCore, SeedableRng};
pub use digest::Digest;
pub use rand_chacha::ChaCha20Rng as R;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{
    atomic::{AtomicBool, AtomicU64, Ordering},
    Mutex, OnceLock,
};
use std::time::{Duration, Instant};

pub type G1 = ark_ec::short_weierstrass::Projective<ark_bls12_381::g1::Config>;
pub type G2 = ark_ec::short_weierstrass::Projective<ark_bls12_381::g2::Config>;
pub type GT = PairingOutput<E>;
pub type Res = Result<(), String>;

// ---------------------------------------------------------------- elements
pub trait El: Clone + PartialEq + CanonicalSerialize + CanonicalDeserialize {
    fn dl(x: &F) -> Self;
}
impl El for F {
    fn dl(x: &F) -> F {
        *x
    }
}
/// Elements repeat a lot within a case, so each one is computed once.
macro_rules! memo {
    ($t:ty, $g:expr) => {
        impl El for $t {
            fn dl(x: &F) -> $t {
                thread_local!(static M: std::cell::RefCell<(Option<$t>, std::collections::HashMap<F, $t>)> = Default::default());
                M.with(|m| {
                    let m = &mut *m.borrow_mut();
                    if m.1.len() > 100_000 {
                        m.1.clear();
                    }
                    let g = *m.0.get_or_insert_with(|| $g);
                    *m.1.entry(*x).or_insert_with(|| g * x)
                })
            }
        }
    };
}
memo!(G1, G1::generator());
memo!(G2, G2::generator());
memo!(GT, E::pairing(G1::generator(), G2::generator()));
impl El for Ph {
    fn dl(_: &F) -> Ph {
        Ph
    }
}
impl<T: El + Default + Eq> El for IdentityOutput<T> {
    fn dl(x: &F) -> Self {
        IdentityOutput(vec![T::dl(x)])
    }
}
pub fn els<T: El>(v: &[F]) -> Vec<T> {
    v.iter().map(T::dl).collect()
}
pub fn g1(x: F) -> G1 {
    G1::dl(&x)
}
pub fn g2(x: F) -> G2 {
    G2::dl(&x)
}
pub fn gt(x: F) -> GT {
    GT::dl(&x)
}
pub fn dot(a: &[F], b: &[F]) -> F {
    a.iter().zip(b).map(|(x, y)| *x * y).sum()
}
pub fn pw(x: &F, n: usize) -> Vec<F> {
    let mut v = vec![];
    let mut c = F::one();
    for _ in 0..n {
        v.push(c);
        c *= x;
    }
    v
}
/// How a commitment scheme acts on discrete logarithms.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    Dot,
    Ident,
    Zero,
}
pub fn com(k: Kind, key: &[F], m: &[F]) -> F {
    match k {
        Kind::Dot => dot(key, m),
        Kind::Ident => {
            assert!(m.len() == 1);
            m[0]
        }
        Kind::Zero => F::zero(),
    }
}
/// A vector of n field elements, sometimes with edge values mixed in.
pub fn vecf(rng: &mut R, n: usize, edgy: bool) -> Vec<F> {
    (0..n)
        .map(|_| {
            if edgy {
                match rng.gen_range(0..6) {
                    0 | 1 => F::zero(),
                    2 => F::one(),
                    3 => -F::one(),
                    _ => F::rand(rng),
                }
            } else {
                F::rand(rng)
            }
        })
        .collect()
}
pub fn nz(rng: &mut R) -> F {
    loop {
        let x = F::rand(rng);
        if !x.is_zero() && x != F::one() {
            return x;
        }
    }
}
pub fn ser<T: CanonicalSerialize>(t: &T) -> Vec<u8> {
    let mut v = vec![];
    t.serialize_uncompressed(&mut v).unwrap();
    v
}
pub fn de<T: CanonicalDeserialize>(b: &[u8]) -> T {
    T::deserialize_uncompressed_unchecked(b).expect("harness: cannot rebuild a value from its parts")
}
/// Builds a `T` out of a value `s` that serializes to the same bytes.
pub fn remake<T: CanonicalDeserialize, S: CanonicalSerialize>(s: &S) -> T {
    let b = ser(s);
    let mut r = &b[..];
    let t = T::deserialize_uncompressed_unchecked(&mut r)
        .expect("harness: cannot rebuild a value from its parts");
    assert!(r.is_empty(), "harness: trailing bytes while rebuilding a value");
    t
}

// ---------------------------------------------------------------- digests
#[derive(Clone, PartialEq)]
pub enum Mode {
    Plain,
    /// unusable as any challenge while the leading counter is below k
    RejectBelow(u64),
    /// same answer for every input
    Const([u8; 32]),
}
pub static MODE: Mutex<Mode> = Mutex::new(Mode::Plain);
pub static LOG: Mutex<Vec<Vec<u8>>> = Mutex::new(vec![]);
static RECORD: AtomicBool = AtomicBool::new(false);
/// Digest with 32 bytes of output that records its inputs and can be steered.
#[derive(Clone, Default)]
pub struct Mock {
    buf: Vec<u8>,
}
impl digest::Update for Mock {
    fn update(&mut self, d: impl AsRef<[u8]>) {
        self.buf.extend_from_slice(d.as_ref());
    }
}
impl digest::Reset for Mock {
    fn reset(&mut self) {
        self.buf.clear();
    }
}
impl digest::FixedOutput for Mock {
    type OutputSize = digest::generic_array::typenum::U32;
    fn finalize_into(self, out: &mut digest::generic_array::GenericArray<u8, Self::OutputSize>) {
        let mut h = [0u8; 32];
        h.copy_from_slice(&blake2::Blake2s::digest(&self.buf));
        match &*MODE.lock().unwrap_or_else(|e| e.into_inner()) {
            Mode::Plain => (),
            Mode::RejectBelow(k) => {
                let mut n = [0u8; 8];
                if self.buf.len() >= 8 {
                    n.copy_from_slice(&self.buf[..8]);
                }
                if u64::from_be_bytes(n) < *k {
                    // zero as a 128-bit value, above the modulus as a field element
                    h = [0u8; 32];
                    for b in h[16..].iter_mut() {
                        *b = 0xff;
                    }
                }
            }
            Mode::Const(c) => h = *c,
        }
        if RECORD.load(Ordering::SeqCst) {
            LOG.lock().unwrap_or_else(|e| e.into_inner()).push(self.buf.clone());
        }
        out.copy_from_slice(&h);
    }
    fn finalize_into_reset(&mut self, out: &mut digest::generic_array::GenericArray<u8, Self::OutputSize>) {
        digest::FixedOutput::finalize_into(self.clone(), out);
        self.buf.clear();
    }
}
pub fn set_mode(m: Mode) {
    *MODE.lock().unwrap_or_else(|e| e.into_inner()) = m;
}
/// Runs f and returns its result with every digest input it produced.
pub fn record<T>(f: impl FnOnce() -> T) -> (T, Vec<Vec<u8>>) {
    LOG.lock().unwrap_or_else(|e| e.into_inner()).clear();
    RECORD.store(true, Ordering::SeqCst);
    let r = f();
    RECORD.store(false, Ordering::SeqCst);
    let l = std::mem::take(&mut *LOG.lock().unwrap_or_else(|e| e.into_inner()));
    (r, l)
}

// ---------------------------------------------------------------- rayon pools
pub fn in_pool<T: Send>(n: usize, f: impl FnOnce() -> T + Send) -> T {
    static POOLS: Mutex<Vec<(usize, &'static rayon::ThreadPool)>> = Mutex::new(vec![]);
    let p = {
        let mut v = POOLS.lock().unwrap_or_else(|e| e.into_inner());
        match v.iter().find(|x| x.0 == n) {
            Some(x) => x.1,
            None => {
                let p: &'static rayon::ThreadPool =
                    Box::leak(Box::new(rayon::ThreadPoolBuilder::new().num_threads(n).build().unwrap()));
                v.push((n, p));
                p
            }
        }
    };
    p.install(f)
}

// ---------------------------------------------------------------- runner
pub struct Violation {
    pub case: String,
    pub msg: String,
}
pub struct Ctx {
    pub prop: String,
    pub seed: u64,
    pub thorough: bool,
    pub only: Option<String>,
    pub cases: u64,
    pub samples: Vec<String>,
    pub violations: Vec<Violation>,
    pub known: Vec<String>,
    pub deadline: Instant,
    pub skipped: u64,
    /// (k, n): runs only every n-th case
    pub shard: (u64, u64),
    pub claims: Option<std::path::PathBuf>,
    pub index: u64,
}
static CASE_NO: AtomicU64 = AtomicU64::new(0);
static CASE_START: Mutex<Option<(Instant, String)>> = Mutex::new(None);
pub const CASE_LIMIT: u64 = 180;

fn fnv(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}
pub fn panic_text(e: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".into()
    }
}
/// Outcome of a call that may crash.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(panic_text)
}
impl Ctx {
    /// cases are shared among the processes of one examination: whoever creates the case's file first runs it
    fn mine(&self) -> bool {
        match &self.claims {
            Some(d) => std::fs::OpenOptions::new().write(true).create_new(true).open(d.join(self.index.to_string())).is_ok(),
            None => self.index % self.shard.1 == self.shard.0,
        }
    }
    pub fn case(&mut self, id: impl Into<String>, f: impl FnOnce(&mut R) -> Res) {
        let id = id.into();
        if let Some(o) = &self.only {
            if *o != id {
                return;
            }
        }
        self.index += 1;
        if self.only.is_none() && self.violations.len() >= 5 {
            return;
        }
        if self.only.is_none() && !self.mine() {
            return;
        }
        if Instant::now() > self.deadline {
            self.skipped += 1;
            return;
        }
        let mut rng = R::seed_from_u64(self.seed ^ fnv(&id));
        CASE_NO.fetch_add(1, Ordering::SeqCst);
        *CASE_START.lock().unwrap() = Some((Instant::now(), format!("{} :: {}", self.prop, id)));
        set_mode(Mode::Plain);
        let r = guard(|| f(&mut rng));
        if std::env::var_os("VP_TIMES").is_some() {
            if let Some((t, i)) = &*CASE_START.lock().unwrap() {
                eprintln!("{:6.2} s {}", t.elapsed().as_secs_f64(), i);
            }
        }
        RECORD.store(false, Ordering::SeqCst);
        set_mode(Mode::Plain);
        *CASE_START.lock().unwrap() = None;
        self.cases += 1;
        if self.samples.len() < 12 || self.cases % 97 == 0 && self.samples.len() < 30 {
            self.samples.push(id.clone());
        }
        let msg = match r {
            Ok(Ok(())) => return,
            Ok(Err(m)) => m,
            Err(p) => format!("crashed: {}", p),
        };
        if msg.starts_with("harness:") || msg.contains("crashed: harness:") {
            // the harness could not set the case up (e.g. a different wire format)
            self.samples.push(format!("not run: {} ({})", id, msg));
            self.skipped += 1;
            return;
        }
        self.violations.push(Violation { case: id, msg });
    }
}
/// A single case running for longer than the limit is reported as such.
pub fn watchdog(out: impl Fn(&str) + Send + 'static) {
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(500));
        let late = match &*CASE_START.lock().unwrap_or_else(|e| e.into_inner()) {
            Some((t, id)) if t.elapsed().as_secs() > CASE_LIMIT => Some(id.clone()),
            _ => None,
        };
        if let Some(id) = late {
            out(&id);
            std::process::exit(3);
        }
    });
}
pub fn must(b: bool, m: impl Into<String>) -> Res {
    if b {
        Ok(())
    } else {
        Err(m.into())
    }
}
/// expects the verdict of a verifier: true = accepts, false = anything but acceptance (an error counts).
pub fn verdict<Er: std::fmt::Debug>(r: Result<bool, Er>, want: bool, what: &str) -> Res {
    match (r, want) {
        (Ok(true), true) | (Ok(false), false) | (Err(_), false) => Ok(()),
        (Ok(true), false) => Err(format!("{}: accepted although an equation fails", what)),
        (Ok(false), true) => Err(format!("{}: rejected although every equation holds", what)),
        (Err(e), true) => Err(format!("{}: error {:?} although every equation holds", what, e)),
    }
}
pub type BoxErr = Box<dyn std::error::Error>;
