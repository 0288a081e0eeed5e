//! Case tape, generators, runner, shrinking, evidence and replay.
use ark_ff::{BigInteger, PrimeField};
use num_bigint::BigUint;
use proptest::strategy::{Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::{Mutex, OnceLock};
use std::time::{Duration, Instant};

// ---------------------------------------------------------------- the tape

/// All choices of a generated case come from here: a case index (used for
/// stratification) and a sequence of numbers that the property-testing library
/// generates and shrinks. Past the end every draw is 0, the simplest choice.
pub struct Tape<'a> {
    d: &'a [u32],
    pos: usize,
    index: u64,
    index_used: bool,
    pub want_sample: bool,
}

impl<'a> Tape<'a> {
    pub fn new(index: u64, d: &'a [u32]) -> Self {
        Tape { d, pos: 0, index, index_used: false, want_sample: false }
    }
    pub fn pos(&self) -> usize {
        self.pos
    }
    pub fn u32(&mut self) -> u32 {
        let v = self.d.get(self.pos).copied().unwrap_or(0);
        self.pos += 1;
        v
    }
    pub fn u64(&mut self) -> u64 {
        ((self.u32() as u64) << 32) | self.u32() as u64
    }
    /// uniform in 0..n
    pub fn below(&mut self, n: usize) -> usize {
        ((self.u32() as u64 * n as u64) >> 32) as usize
    }
    /// uniform in lo..=hi
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn pick<'b, T>(&mut self, v: &'b [T]) -> &'b T {
        &v[self.below(v.len())]
    }
    /// true with probability a/b
    pub fn chance(&mut self, a: usize, b: usize) -> bool {
        // high draws are "yes" so that shrinking leads to "no"
        self.below(b) >= b - a
    }
    /// Stratified choice: the case index, mixed radix.
    pub fn strat(&mut self, n: usize) -> usize {
        self.index_used = true;
        let r = (self.index % n as u64) as usize;
        self.index /= n as u64;
        r
    }
    pub fn index(&mut self) -> u64 {
        self.index_used = true;
        self.index
    }
    /// A pseudo-random expansion of two draws, for bulk data.
    pub fn expander(&mut self) -> Expander {
        Expander(self.u64())
    }
}

pub struct Expander(u64);
impl Expander {
    pub fn new(s: u64) -> Self {
        Expander(s)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mut v = Vec::with_capacity(n + 8);
        while v.len() < n {
            v.extend_from_slice(&self.next().to_le_bytes());
        }
        v.truncate(n);
        v
    }
    pub fn field<F: PrimeField>(&mut self) -> F {
        F::from_le_bytes_mod_order(&self.bytes(48))
    }
    pub fn below(&mut self, n: usize) -> usize {
        ((self.next() as u128 * n as u128) >> 64) as usize
    }
}

// ---------------------------------------------------------------- literals mined from the sources

pub struct Mined {
    pub ints: Vec<u128>,
    pub big: Vec<BigUint>,
    /// literals at places where the tree this harness was written for has none:
    /// empty there, tried more often where code was added
    pub fresh: Vec<u128>,
    pub fresh_big: Vec<BigUint>,
    /// string literals that look like names of environment variables
    pub names: Vec<String>,
}

impl Mined {
    pub fn int(&self, t: &mut Tape) -> u128 {
        if !self.fresh.is_empty() && t.chance(1, 2) {
            self.fresh[t.below(self.fresh.len())]
        } else {
            self.ints[t.below(self.ints.len())]
        }
    }
}

/// "file value count" of every literal of the tree the harness was written for
const LITERALS: &str = include_str!("literals.txt");
static FOUND: OnceLock<std::collections::BTreeMap<(String, BigUint), usize>> = OnceLock::new();

/// `literals`: prints the list in that format.
pub fn print_literals() -> i32 {
    mined();
    for ((f, v), n) in FOUND.get().unwrap() {
        println!("{f} {v} {n}");
    }
    0
}

static MINED: OnceLock<Mined> = OnceLock::new();

pub fn repo_dir() -> String {
    std::env::var("VERIF_REPO").unwrap_or_else(|_| "/repo".into())
}

/// A fuzzing dictionary: the number literals of the library's own sources
/// (constant tables and unit tests left out).
pub fn mined() -> &'static Mined {
    MINED.get_or_init(|| {
        let mut ints: std::collections::BTreeSet<u128> = Default::default();
        let mut big: std::collections::BTreeSet<BigUint> = Default::default();
        let mut names: std::collections::BTreeSet<String> = Default::default();
        let mut found: std::collections::BTreeMap<(String, BigUint), usize> = Default::default();
        let mut files = vec![];
        fn walk(p: &std::path::Path, out: &mut Vec<std::path::PathBuf>) {
            if let Ok(rd) = std::fs::read_dir(p) {
                let mut es: Vec<_> = rd.flatten().map(|e| e.path()).collect();
                es.sort();
                for e in es {
                    if e.is_dir() {
                        walk(&e, out)
                    } else if e.extension().map(|x| x == "rs").unwrap_or(false) {
                        out.push(e)
                    }
                }
            }
        }
        walk(std::path::Path::new(&format!("{}/src", repo_dir())), &mut files);
        for f in files {
            let Ok(s) = std::fs::read_to_string(&f) else { continue };
            let s = match s.find("#[cfg(test)]") {
                Some(i) => &s[..i],
                None => &s[..],
            };
            let mut in_table = 0usize;
            for line in s.lines() {
                let line = line.split("//").next().unwrap_or("");
                if line.matches("from_hex(").count() > 0 && f.to_string_lossy().contains("_instance_") {
                    in_table += 1;
                    continue;
                }
                for (k, w) in line.split('"').enumerate() {
                    if k % 2 == 1 && w.len() > 1 && w.len() < 40 && w.bytes().all(|c| c.is_ascii_uppercase() || c.is_ascii_digit() || c == b'_') && w.as_bytes()[0].is_ascii_uppercase() {
                        names.insert(w.to_string());
                    }
                }
                let b = line.as_bytes();
                let mut i = 0;
                while i < b.len() {
                    let prev_word = i > 0 && (b[i - 1].is_ascii_alphanumeric() || b[i - 1] == b'_');
                    if b[i].is_ascii_digit() && !prev_word {
                        let st = i;
                        while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'_') {
                            i += 1;
                        }
                        let mut w: String = line[st..i].replace('_', "");
                        for suf in ["u8", "u16", "u32", "u64", "u128", "usize", "i32", "i64", "isize"] {
                            if w.len() > suf.len() && w.ends_with(suf) {
                                w.truncate(w.len() - suf.len());
                                break;
                            }
                        }
                        let (digits, radix) = if let Some(h) = w.strip_prefix("0x") { (h.to_string(), 16) } else if let Some(h) = w.strip_prefix("0b") { (h.to_string(), 2) } else { (w.clone(), 10) };
                        if let Some(v) = BigUint::parse_bytes(digits.as_bytes(), radix) {
                            let name = f.strip_prefix(repo_dir()).unwrap_or(&f).to_string_lossy().into_owned();
                            *found.entry((name, v.clone())).or_default() += 1;
                            if v.bits() <= 127 {
                                ints.insert(v.iter_u64_digits().enumerate().fold(0u128, |a, (k, d)| a | (d as u128) << (64 * k)));
                            } else if big.len() < 200 {
                                big.insert(v);
                            }
                        }
                    } else {
                        i += 1;
                    }
                }
            }
            let _ = in_table;
        }
        for x in [0u128, 1, 2, 3] {
            ints.insert(x);
        }
        // shift counts of the sources
        for x in ints.clone() {
            if (5..=100).contains(&x) {
                ints.insert(1 << x);
            }
        }
        let known: std::collections::BTreeMap<(String, BigUint), usize> = LITERALS
            .lines()
            .filter_map(|l| {
                let w: Vec<&str> = l.split(' ').collect();
                Some(((w.first()?.to_string(), w.get(1)?.parse().ok()?), w.get(2)?.parse().ok()?))
            })
            .collect();
        let (mut fresh, mut fresh_big): (std::collections::BTreeSet<u128>, Vec<BigUint>) = Default::default();
        for (k, n) in &found {
            if known.get(k).is_none_or(|m| n > m) {
                if k.1.bits() <= 127 {
                    let v = k.1.iter_u64_digits().enumerate().fold(0u128, |a, (k, d)| a | (d as u128) << (64 * k));
                    fresh.insert(v);
                    if (5..=100).contains(&v) {
                        fresh.insert(1 << v);
                    }
                } else {
                    fresh_big.push(k.1.clone());
                }
            }
        }
        let _ = FOUND.set(found);
        Mined { fresh: fresh.into_iter().take(100).collect(), fresh_big: fresh_big.into_iter().take(50).collect(), ints: ints.into_iter().take(600).collect(), big: big.into_iter().take(200).collect(), names: names.into_iter().take(100).collect() }
    })
}

// ---------------------------------------------------------------- element and state generators

pub fn modulus<F: PrimeField>() -> BigUint {
    BigUint::from_bytes_le(&F::MODULUS.to_bytes_le())
}
pub fn to_big<F: PrimeField>(x: &F) -> BigUint {
    BigUint::from_bytes_le(&x.into_bigint().to_bytes_le())
}
pub fn from_big<F: PrimeField>(x: &BigUint) -> F {
    F::from_be_bytes_mod_order(&x.to_bytes_be())
}
pub fn show<F: PrimeField>(x: &F) -> String {
    format!("0x{}", to_big(x).to_str_radix(16))
}
pub fn show_vec<F: PrimeField>(v: &[F]) -> String {
    format!("[{}]", v.iter().map(show).collect::<Vec<_>>().join(","))
}

fn fresh_or_any(t: &mut Tape, m: &Mined) -> BigUint {
    let k = m.fresh.len() + m.fresh_big.len();
    if k > 0 && t.chance(1, 2) {
        let i = t.below(k);
        return if i < m.fresh.len() { BigUint::from(m.fresh[i]) } else { m.fresh_big[i - m.fresh.len()].clone() };
    }
    let i = t.below(m.ints.len() + m.big.len());
    if i < m.ints.len() {
        BigUint::from(m.ints[i])
    } else {
        m.big[i - m.ints.len()].clone()
    }
}

/// An integer with structure: boundaries of limbs, the modulus, mined literals.
pub fn special_big(t: &mut Tape, p: &BigUint) -> BigUint {
    let one = BigUint::from(1u32);
    match t.below(8) {
        0 => BigUint::from(t.below(34) as u32),
        1 => {
            let k = t.below(34) as u32;
            (p - (BigUint::from(k) % p)) % p
        }
        2 => {
            let k = t.below(p.bits() as usize + 1);
            let b = BigUint::from(1u32) << k;
            match t.below(3) {
                0 => b,
                1 => b + one,
                _ => b - one,
            }
        }
        3 => {
            let m = mined();
            let v = fresh_or_any(t, m);
            match t.below(4) {
                0 => v,
                1 => v + one,
                2 => if v == BigUint::from(0u32) { v } else { v - one },
                _ => (p - (v % p)) % p,
            }
        }
        4 => (p + BigUint::from(t.below(3) as u32)) >> 1,
        5 => {
            // limb structure: each limb zero, all-ones or random
            let mut v = BigUint::from(0u32);
            for k in 0..4 {
                let l = match t.below(4) {
                    0 => 0u64,
                    1 => u64::MAX,
                    2 => 1u64 << t.below(64),
                    _ => t.u64(),
                };
                v += BigUint::from(l) << (64 * k);
            }
            v
        }
        6 => {
            // Montgomery radix and its relatives
            let r = (BigUint::from(1u32) << 256usize) % p;
            match t.below(4) {
                0 => r,
                1 => (BigUint::from(1u32) << 64usize) % p,
                2 => (&r * &r) % p,
                _ => (p - r) % p,
            }
        }
        _ => {
            // any magnitude: the bit length is uniform
            let k = t.range(1, (p.bits() as usize).max(2));
            let mut ex = t.expander();
            let mut v = BigUint::from_bytes_le(&ex.bytes(k.div_ceil(8))) % (BigUint::from(1u32) << k);
            if t.chance(1, 3) {
                // any number of zero bits at the end
                v <<= p.bits() as usize - k.min(p.bits() as usize);
            }
            if t.chance(1, 4) { (p - (v % p)) % p } else { v }
        }
    }
}

pub fn elem<F: PrimeField>(t: &mut Tape, prev: &[F]) -> F {
    match t.below(18) {
        17 if !prev.is_empty() => related(t, prev),
        16 | 17 => {
            let m = mined();
            if !m.fresh.is_empty() && t.chance(1, 2) {
                let v: F = F::from(m.fresh[t.below(m.fresh.len())]);
                return match t.below(4) {
                    0 => -v,
                    1 => v + F::one(),
                    2 => v - F::one(),
                    _ => v,
                };
            }
            from_big(&special_big(t, &modulus::<F>()))
        }
        0 => F::zero(),
        1 => F::one(),
        2 => F::from(t.below(34) as u64),
        3 => -F::from(t.below(34) as u64),
        4 if !prev.is_empty() => prev[t.below(prev.len())],
        5 if !prev.is_empty() => -prev[t.below(prev.len())],
        6 if !prev.is_empty() => prev[t.below(prev.len())] + F::one(),
        4..=8 if t.chance(1, 16) => algebraic(t),
        4..=8 => {
            let e: F = from_big(&special_big(t, &modulus::<F>()));
            // sometimes the internal (Montgomery) form has that shape
            if t.chance(1, 4) {
                e * mont_inv::<F>()
            } else {
                e
            }
        }
        _ => t.expander().field(),
    }
}

/// An element with a special place in the field: fractions of small numbers, roots of unity and of
/// small numbers, the generator and its powers.
fn algebraic<F: PrimeField>(t: &mut Tape) -> F {
    let small = |t: &mut Tape| F::from(t.range(1, 12) as u64);
    let sign = if t.chance(1, 3) { -F::one() } else { F::one() };
    sign * match t.below(6) {
        0 | 1 => small(t) * small(t).inverse().unwrap_or(F::one()),
        2 => {
            let p1 = modulus::<F>() - 1u32;
            let k = t.range(2, 12) as u32;
            if &p1 % k == BigUint::from(0u32) {
                F::GENERATOR.pow((p1 / k).to_u64_digits()).pow([t.range(1, 5) as u64])
            } else {
                F::GENERATOR
            }
        }
        3 => F::GENERATOR.pow([t.range(1, 9) as u64]),
        4 => {
            let r = F::TWO_ADIC_ROOT_OF_UNITY;
            let k = t.below(F::TWO_ADICITY as usize + 1);
            (0..k).fold(r, |x, _| x.square())
        }
        _ => small(t).sqrt().unwrap_or(F::GENERATOR),
    }
}

/// An element in some relation to earlier ones.
fn related<F: PrimeField>(t: &mut Tape, prev: &[F]) -> F {
    let (a, b) = (prev[t.below(prev.len())], prev[t.below(prev.len())]);
    match t.below(12) {
        0 => a.double(),
        1 => a.square(),
        2 => a.inverse().unwrap_or(a),
        3 => a + b,
        4 => -(a + b),
        5 => a - b,
        6 => a * b,
        7 => a * F::from(2u64).inverse().unwrap_or(a),
        8 => -prev.iter().sum::<F>(),
        9 => a - F::one(),
        10 => {
            // the same in the lower limbs only
            a + F::from(t.u32() as u64 + 1) * F::from(2u64).pow([64 * t.range(1, 3) as u64])
        }
        _ => a + F::from(t.u32() as u64 + 1) * F::from(2u64).pow([64 * t.range(1, 3) as u64]) * mont_inv::<F>(),
    }
}

/// Inverse of the Montgomery radix.
pub fn mont_inv<F: PrimeField>() -> F {
    let n = F::MODULUS.as_ref().len() as u64;
    F::from(2u64).pow([64 * n]).inverse().unwrap()
}

pub fn rand_elem<F: PrimeField>(t: &mut Tape) -> F {
    t.expander().field()
}

pub fn state<F: PrimeField>(t: &mut Tape, n: usize) -> Vec<F> {
    match t.below(15) {
        11 => {
            // blocks of 2, 3, 4 or n/2 elements repeat, or repeat negated
            let b = [2, 3, 4, (n / 2).max(1)][t.below(4)];
            let neg = t.chance(1, 3);
            let mut v: Vec<F> = vec![];
            for i in 0..n {
                let e = if i < b { elem(t, &v) } else if neg { -v[i - b] } else { v[i - b] };
                v.push(e);
            }
            v
        }
        12 => {
            // every block sums to zero
            let b = [2, 4, 4, (n / 2).max(1)][t.below(4)];
            let mut v: Vec<F> = vec![];
            let mut s = F::zero();
            for i in 0..n {
                let e = if i % b == b - 1 || i + 1 == n { -s } else { elem(t, &v) };
                s = if i % b == b - 1 { F::zero() } else { s + e };
                v.push(e);
            }
            v
        }
        13 => {
            // one special state reordered, or two elements exchanged
            let mut v: Vec<F> = (0..n).map(|i| F::from(i as u64)).collect();
            match t.below(3) {
                0 => v.reverse(),
                1 if n > 0 => { let k = t.below(n); v.rotate_left(k) }
                _ if n > 0 => { let (i, j) = (t.below(n), t.below(n)); v.swap(i, j) }
                _ => (),
            }
            v
        }
        14 => {
            // zero, except for two random or related elements
            let mut v = vec![F::zero(); n];
            if n > 0 {
                let (i, j) = (t.below(n), t.below(n));
                v[i] = elem(t, &[]);
                v[j] = elem(t, &[v[i]]);
            }
            v
        }
        0 => vec![elem(t, &[]); n],
        1 => {
            let mut v = vec![F::zero(); n];
            if n > 0 {
                let i = t.below(n);
                v[i] = elem(t, &[]);
            }
            v
        }
        2 => {
            let b: F = elem(t, &[]);
            (0..n).map(|i| b + F::from(i as u64)).collect()
        }
        3 => {
            // neighbours equal
            let mut v: Vec<F> = vec![];
            while v.len() < n {
                let e = elem(t, &v);
                v.push(e);
                if v.len() < n {
                    v.push(e);
                }
            }
            v
        }
        4 => {
            // elements sum to zero
            let mut v: Vec<F> = vec![];
            let mut s = F::zero();
            for _ in 1..n.max(1) {
                let e = elem(t, &v);
                s += e;
                v.push(e);
            }
            if n > 0 {
                v.push(-s);
            }
            v
        }
        5 => {
            // random background with one special element
            let mut ex = t.expander();
            let mut v: Vec<F> = (0..n).map(|_| ex.field()).collect();
            if n > 0 {
                let i = t.below(n);
                v[i] = elem(t, &[]);
            }
            v
        }
        6 | 7 => {
            let mut ex = t.expander();
            (0..n).map(|_| ex.field()).collect()
        }
        _ => {
            let mut v: Vec<F> = vec![];
            for _ in 0..n {
                let e = elem(t, &v);
                v.push(e);
            }
            v
        }
    }
}

/// All elements equal, or all random: the trivial shape tests already sample.
pub fn structured<F: PrimeField>(v: &[F]) -> bool {
    v.iter().any(|x| x.is_zero() || x.is_one() || *x == -F::one()) || (1..v.len()).any(|i| v[..i].contains(&v[i]))
}

// ---------------------------------------------------------------- calling the library

thread_local! {
    static LAST_PANIC: RefCell<String> = RefCell::new(String::new());
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|i| {
        let m = format!("{i}").replace('\n', " ");
        LAST_PANIC.with(|l| *l.borrow_mut() = m);
    }));
}

pub fn last_panic() -> String {
    LAST_PANIC.with(|l| l.borrow().clone())
}

/// Run library code; Err is the panic message.
pub fn lib<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| last_panic())
}

/// Run library code that must not panic.
pub fn must<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, String> {
    lib(f).map_err(|m| format!("{what}: unexpected panic: {m}"))
}

/// Run library code that must refuse (panic).
pub fn must_refuse<T>(what: &str, f: impl FnOnce() -> T) -> Result<(), String> {
    match lib(f) {
        Ok(_) => Err(format!("{what}: accepted, but must be refused")),
        Err(_) => Ok(()),
    }
}

pub fn same<F: PrimeField>(what: &str, got: &[F], want: &[F]) -> Result<(), String> {
    if got == want {
        return Ok(());
    }
    if got.len() != want.len() {
        return Err(format!("{what}: output has {} elements, expected {}", got.len(), want.len()));
    }
    let i = got.iter().zip(want).position(|(a, b)| a != b).unwrap();
    Err(format!("{what}: element {i} is {}, expected {}", show(&got[i]), show(&want[i])))
}

// ---------------------------------------------------------------- sub-checks

pub struct Info {
    pub nontrivial: bool,
    pub label: String,
    pub sample: Option<String>,
}

pub fn info(t: &Tape, nontrivial: bool, label: impl Into<String>, sample: impl FnOnce() -> String) -> Result<Info, String> {
    Ok(Info { nontrivial, label: label.into(), sample: if t.want_sample { Some(sample()) } else { None } })
}

pub type CaseFn = Box<dyn Fn(&mut Tape) -> Result<Info, String> + Send + Sync>;

pub struct Sub {
    pub name: &'static str,
    pub tape_len: usize,
    pub quick: usize,
    pub thorough: usize,
    pub f: CaseFn,
}

pub fn sub(name: &'static str, tape_len: usize, quick: usize, thorough: usize, f: impl Fn(&mut Tape) -> Result<Info, String> + Send + Sync + 'static) -> Sub {
    Sub { name, tape_len, quick, thorough, f: Box::new(f) }
}

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub subs: Vec<Sub>,
}

#[derive(Clone)]
pub struct Failure {
    pub sub: &'static str,
    pub index: u64,
    pub tape: Vec<u32>,
    pub message: String,
}

#[derive(Default)]
struct Stats {
    evals: u64,
    nontrivial: u64,
    distinct: HashSet<u64>,
    labels: BTreeMap<String, u64>,
    samples: Vec<String>,
}

extern "C" {
    fn sched_getaffinity(pid: i32, size: usize, mask: *mut u64) -> i32;
    fn sched_setaffinity(pid: i32, size: usize, mask: *const u64) -> i32;
}

/// Some cases run on a thread that may use only a few processors.
struct Processors(Option<[u64; 16]>);
impl Processors {
    fn restrict(n: usize) -> Self {
        let mut all = [0u64; 16];
        let mut few = [0u64; 16];
        if unsafe { sched_getaffinity(0, 128, all.as_mut_ptr()) } < 0 {
            return Processors(None);
        }
        let on: Vec<usize> = (0..1024).filter(|i| all[i / 64] >> (i % 64) & 1 == 1).collect();
        on.iter().take(n).for_each(|i| few[i / 64] |= 1 << (i % 64));
        if on.len() <= n || unsafe { sched_setaffinity(0, 128, few.as_ptr()) } != 0 {
            return Processors(None);
        }
        Processors(Some(all))
    }
}
impl Drop for Processors {
    fn drop(&mut self) {
        if let Some(m) = &self.0 {
            unsafe { sched_setaffinity(0, 128, m.as_ptr()) };
        }
    }
}

fn run_case(s: &Sub, index: u64, d: &[u32], want_sample: bool) -> (Result<Info, String>, u64, usize) {
    let _few = (index % 11 == 5).then(|| Processors::restrict(1 + (index / 11 % 7) as usize));
    let mut t = Tape::new(index, d);
    t.want_sample = want_sample;
    let r = match catch_unwind(AssertUnwindSafe(|| (s.f)(&mut t))) {
        Ok(r) => r,
        Err(_) => {
            let m = last_panic();
            if m.contains("/repo/src/") {
                Err(format!("the library panicked: {m}"))
            } else {
                Err(format!("HARNESS: {m}"))
            }
        }
    };
    let used = t.pos.min(d.len());
    let mut h: u64 = 0xcbf29ce484222325;
    let mut feed = |x: u64| {
        h ^= x;
        h = h.wrapping_mul(0x100000001b3);
        h ^= h >> 29;
    };
    if t.index_used {
        feed(index);
    }
    for x in &d[..used] {
        feed(*x as u64 + 1);
    }
    (r, h, used)
}

fn name_hash(s: &str) -> u64 {
    s.bytes().fold(0xcbf29ce484222325, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3))
}

const SHARDS: usize = 16;

pub struct Outcome {
    pub failures: Vec<Failure>,
    pub harness_error: Option<String>,
    pub json: serde_json::Value,
}

/// `on_hang` is called with a case that has not returned for a very long time.
pub fn run_prop(p: &Prop, tier: &str, seed: u64, only: Option<&str>, scale: f64, on_hang: &(dyn Fn(Failure) + Sync)) -> Outcome {
    let env_s = |k: &str, d: u64| Duration::from_secs(std::env::var(k).ok().and_then(|s| s.parse().ok()).unwrap_or(d));
    // no case starts after the budget; a case is expected to take milliseconds
    let budget = env_s("VERIF_BUDGET_S", if tier == "thorough" { 3000 } else { 200 });
    let case_limit = env_s("VERIF_CASE_LIMIT_S", 150);
    let begin = Instant::now();
    let stop = AtomicBool::new(false);
    let failures: Mutex<Vec<(usize, Failure)>> = Mutex::new(vec![]);
    let herr: Mutex<Option<String>> = Mutex::new(None);
    let stats: Vec<Mutex<Stats>> = p.subs.iter().map(|_| Mutex::new(Stats::default())).collect();
    // (sub, shard, first index, count)
    let mut jobs: Vec<(usize, usize, u64, usize)> = vec![];
    for (si, s) in p.subs.iter().enumerate() {
        if only.map(|o| o != s.name).unwrap_or(false) {
            continue;
        }
        let n = if tier == "thorough" { s.thorough } else { s.quick };
        let n = ((n as f64 * scale) as usize).max(1);
        let shards = SHARDS.min(n);
        let mut start = 0u64;
        for sh in 0..shards {
            let c = n / shards + usize::from(sh < n % shards);
            jobs.push((si, sh, start, c));
            start += c as u64;
        }
    }
    // one shard of every check first, so that a short budget starves none
    jobs.sort_by_key(|j| (j.1, j.0));
    let next = AtomicUsize::new(0);
    let workers = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(8).clamp(1, 8);
    let times: Vec<Mutex<Duration>> = p.subs.iter().map(|_| Mutex::new(Duration::ZERO)).collect();
    let running: Vec<Mutex<Option<(Instant, usize, u64, Vec<u32>)>>> = (0..workers).map(|_| Mutex::new(None)).collect();
    let alive = AtomicUsize::new(workers);
    std::thread::scope(|sc| {
        sc.spawn(|| {
            while alive.load(Ordering::SeqCst) > 0 {
                std::thread::sleep(Duration::from_millis(20));
                for slot in &running {
                    let late = match &*slot.lock().unwrap_or_else(|e| e.into_inner()) {
                        Some((t, si, index, d)) if t.elapsed() > case_limit => {
                            Some(Failure { sub: p.subs[*si].name, index: *index, tape: d.clone(), message: format!("the case did not return within {} s", case_limit.as_secs()) })
                        }
                        _ => None,
                    };
                    if let Some(f) = late {
                        on_hang(f);
                    }
                }
            }
        });
        for wk in 0..workers {
            let (next, jobs, stop, running, alive, stats, times, failures, herr) = (&next, &jobs, &stop, &running, &alive, &stats, &times, &failures, &herr);
            std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn_scoped(sc, move || { loop {
                    let j = next.fetch_add(1, Ordering::SeqCst);
                    if j >= jobs.len() || stop.load(Ordering::SeqCst) {
                        break;
                    }
                    let (si, sh, start, count) = jobs[j];
                    let s = &p.subs[si];
                    let t0 = Instant::now();
                    let mut rs = [0u8; 32];
                    rs[..8].copy_from_slice(&seed.to_le_bytes());
                    rs[8..16].copy_from_slice(&name_hash(s.name).to_le_bytes());
                    rs[16..24].copy_from_slice(&(sh as u64).to_le_bytes());
                    let cfg = Config { failure_persistence: None, ..Config::default() };
                    let mut runner = TestRunner::new_with_rng(cfg, TestRng::from_seed(RngAlgorithm::ChaCha, &rs));
                    let strat = proptest::collection::vec(proptest::num::u32::ANY, s.tape_len);
                    let mut st = Stats::default();
                    for k in 0..count {
                        if stop.load(Ordering::Relaxed) || begin.elapsed() > budget {
                            break;
                        }
                        let index = start + k as u64;
                        let mut tree = strat.new_tree(&mut runner).expect("strategy");
                        let cur = tree.current();
                        // samples from all over the case range
                        let want = k == 0 || k == count / 2;
                        *running[wk].lock().unwrap_or_else(|e| e.into_inner()) = Some((Instant::now(), si, index, cur.clone()));
                        let (r, h, used) = run_case(s, index, &cur, want);
                        *running[wk].lock().unwrap_or_else(|e| e.into_inner()) = None;
                        st.evals += 1;
                        match r {
                            Ok(i) => {
                                if i.nontrivial {
                                    st.nontrivial += 1;
                                    st.distinct.insert(h);
                                }
                                *st.labels.entry(i.label).or_insert(0) += 1;
                                if let Some(x) = i.sample {
                                    if st.samples.len() < 2 {
                                        st.samples.push(x);
                                    }
                                }
                            }
                            Err(m) if m.starts_with("HARNESS") => {
                                *herr.lock().unwrap() = Some(format!("{}: {m} (index {index})", s.name));
                                stop.store(true, Ordering::SeqCst);
                                break;
                            }
                            Err(m) => {
                                stop.store(true, Ordering::SeqCst);
                                let f = shrink(s, index, &mut tree, cur, used, m);
                                failures.lock().unwrap().push((j, f));
                                break;
                            }
                        }
                    }
                    *times[si].lock().unwrap() += t0.elapsed();
                    let mut g = stats[si].lock().unwrap();
                    g.evals += st.evals;
                    g.nontrivial += st.nontrivial;
                    g.distinct.extend(st.distinct);
                    for (k, v) in st.labels {
                        *g.labels.entry(k).or_insert(0) += v;
                    }
                    if g.samples.len() < 3 {
                        g.samples.extend(st.samples);
                        g.samples.truncate(3);
                    }
                }
                alive.fetch_sub(1, Ordering::SeqCst);
                })
                .unwrap();
        }
    });
    let mut f = failures.into_inner().unwrap();
    f.sort_by_key(|x| x.0);
    let mut subs = serde_json::Map::new();
    let (mut ev, mut nt) = (0u64, 0u64);
    let mut samples = vec![];
    for (si, s) in p.subs.iter().enumerate() {
        let g = stats[si].lock().unwrap();
        if g.evals == 0 {
            continue;
        }
        ev += g.evals;
        nt += g.distinct.len() as u64;
        for x in g.samples.iter().take(2) {
            let x: String = x.chars().take(600).collect();
            samples.push(serde_json::json!({"check": s.name, "case": x}));
        }
        subs.insert(
            s.name.into(),
            serde_json::json!({
                "evaluations": g.evals, "nontrivial": g.nontrivial, "distinct_nontrivial": g.distinct.len(),
                "cpu_s": (times[si].lock().unwrap().as_secs_f64()*10.0).round()/10.0,
                "labels": g.labels,
            }),
        );
    }
    let json = serde_json::json!({
        "evaluations": ev, "distinct_nontrivial": nt, "rule": p.rule, "samples": samples, "checks": subs,
    });
    Outcome { failures: f.into_iter().map(|x| x.1).collect(), harness_error: herr.into_inner().unwrap(), json }
}

fn shrink(s: &Sub, index: u64, tree: &mut dyn ValueTree<Value = Vec<u32>>, cur: Vec<u32>, used: usize, msg: String) -> Failure {
    let t0 = Instant::now();
    let mut best = (cur.clone(), msg, used);
    // first drop what the case never drew, then let the library shrink
    let mut evals = 0;
    while evals < 4000 && t0.elapsed() < Duration::from_secs(25) {
        if !tree.simplify() {
            break;
        }
        loop {
            let c = tree.current();
            evals += 1;
            let (r, _, used) = run_case(s, index, &c, false);
            match r {
                Err(m) if !m.starts_with("HARNESS") => {
                    best = (c, m, used);
                    break;
                }
                _ => {
                    if evals >= 4000 || t0.elapsed() > Duration::from_secs(25) || !tree.complicate() {
                        break;
                    }
                }
            }
        }
    }
    // a final pass on our own: zero draws one by one, from the back
    let (mut d, mut m, used) = best;
    d.truncate(used);
    for i in (0..d.len()).rev() {
        if t0.elapsed() > Duration::from_secs(50) {
            break;
        }
        if d[i] == 0 {
            continue;
        }
        let old = d[i];
        d[i] = 0;
        match run_case(s, index, &d, false).0 {
            Err(x) if !x.starts_with("HARNESS") => m = x,
            _ => d[i] = old,
        }
    }
    while d.last() == Some(&0) {
        d.pop();
    }
    Failure { sub: s.name, index, tape: d, message: m }
}

pub fn replay(p: &Prop, file: &str) -> i32 {
    let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(file).expect("replay file")).expect("json");
    let name = v["check"].as_str().expect("check");
    let index = v["index"].as_u64().expect("index");
    let d: Vec<u32> = v["tape"].as_array().expect("tape").iter().map(|x| x.as_u64().unwrap() as u32).collect();
    let s = p.subs.iter().find(|s| s.name == name).expect("unknown check");
    // GMiMC and Neptune draw their constants themselves: try a number of draws
    for k in 0..32 {
        let (r, _, _) = run_case(s, index, &d, true);
        match r {
            Ok(i) => {
                if k == 0 {
                    println!("replay {name}: held; case {}", i.sample.unwrap_or_default());
                }
            }
            Err(m) => {
                println!("replay {name}: {m}");
                return 1;
            }
        }
    }
    0
}
