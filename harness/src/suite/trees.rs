//! C13-C16: the four Merkle trees.
use super::core::*;
use super::hashes::{all_shipped, cache};
use super::inst::*;
use crate::{with_field, with_shipped};
use ark_ff::PrimeField;
use ff::{Field, FromUniformBytes};
use sha2::digest::{FixedOutput, FixedOutputReset, HashMarker, Output, OutputSizeUser, Reset, Update};
use sha2::Digest;
use z::merkle_tree::{merkle_tree_f2 as tf2, merkle_tree_fp as tfp, merkle_tree_orchard as tor, merkle_tree_sapling as tsa};

// ---------------------------------------------------------------- reference

/// Root by the definition: pad with the last leaf to a power of two of at
/// least two leaves, then parent = h(level, left, right).
pub fn ref_root<T: Clone>(leaves: &[T], h: &dyn Fn(usize, &T, &T) -> T) -> T {
    let mut size = 2;
    while size < leaves.len() {
        size += size;
    }
    let leaf = |i: usize| leaves[i.min(leaves.len() - 1)].clone();
    fn go<T: Clone>(depth: usize, at: usize, leaf: &dyn Fn(usize) -> T, h: &dyn Fn(usize, &T, &T) -> T) -> T {
        if depth == 0 {
            return leaf(at);
        }
        let half = 1usize << (depth - 1);
        let l = go(depth - 1, at, leaf, h);
        let r = go(depth - 1, at + half, leaf, h);
        h(depth - 1, &l, &r)
    }
    go(size.trailing_zeros() as usize, 0, &leaf, h)
}

// ---------------------------------------------------------------- leaf lists

/// Shapes of leaf lists; `mk` makes the k-th distinct value.
pub fn leaves<T: Clone + PartialEq>(t: &mut Tape, n: usize, mk: &mut dyn FnMut(u64) -> T, special: &[T]) -> (Vec<T>, &'static str) {
    let mut v: Vec<T>;
    let what;
    match t.below(12) {
        0 => {
            let x = if t.chance(1, 2) && !special.is_empty() { special[t.below(special.len())].clone() } else { mk(0) };
            v = vec![x; n];
            what = "all equal";
        }
        1 => {
            // two values
            let mut ex = t.expander();
            let (a, b) = (mk(0), if special.is_empty() { mk(1) } else { special[t.below(special.len())].clone() });
            v = (0..n).map(|_| if ex.below(2) == 0 { a.clone() } else { b.clone() }).collect();
            what = "two values";
        }
        2 => {
            // sibling pairs equal
            v = (0..n).map(|i| mk(i as u64 / 2)).collect();
            what = "equal siblings";
        }
        3 => {
            // halves (or quarters) repeat
            let period = [n / 2, n / 4, 2, 3, 4, n.div_ceil(2)][t.below(6)].max(1);
            v = (0..n).map(|i| mk((i % period) as u64)).collect();
            what = "periodic";
        }
        4 => {
            // tail of equal values
            let k = t.range(0, n);
            v = (0..n).map(|i| mk(i.min(k) as u64)).collect();
            what = "constant tail";
        }
        5 => {
            // palindrome
            v = (0..n).map(|i| mk(i.min(n - 1 - i) as u64)).collect();
            what = "palindrome";
        }
        6 => {
            // one leaf equals another far away
            v = (0..n).map(|i| mk(i as u64)).collect();
            let (i, j) = (t.below(n), t.below(n));
            v[i] = v[j].clone();
            what = "one repeated";
        }
        _ => {
            v = (0..n).map(|i| mk(i as u64)).collect();
            what = "all distinct";
        }
    }
    if !special.is_empty() && t.chance(2, 3) {
        // special values at the ends, at a boundary, or anywhere
        for _ in 0..t.range(1, 3) {
            let i = match t.below(5) {
                0 => n - 1,
                1 => 0,
                2 => n / 2,
                3 => (n / 2).saturating_sub(1),
                _ => t.below(n),
            };
            v[i] = special[t.below(special.len())].clone();
        }
    }
    (v, what)
}

/// Number of leaves: small, around powers of two, literals of the sources.
pub fn tree_size(t: &mut Tape, max: usize) -> usize {
    match t.below(8) {
        6 => {
            // a multiple of a power of two, or next to one
            let k = t.range(1, (usize::BITS - max.leading_zeros()) as usize - 1);
            let m = t.range(1, (max >> k).clamp(1, 40));
            ((m << k) + t.below(3)).saturating_sub(1).clamp(1, max)
        }
        7 => {
            // a multiple of a literal of the sources, or next to one
            let m = mined();
            let v = m.int(t).clamp(1, max as u128) as usize;
            (v * t.range(1, (max / v).clamp(1, 40)) + t.below(3)).saturating_sub(1).clamp(1, max)
        }
        0 => {
            let m = mined();
            let v = m.int(t);
            let v = (v.min(1 << 40) as usize) + t.below(3);
            if v == 0 || v - 1 > max || v - 1 == 0 {
                1
            } else {
                v - 1
            }
        }
        1 | 2 => {
            let bits = usize::BITS - max.leading_zeros() - 1;
            let k = t.range(0, bits as usize);
            ((1usize << k) + t.below(5)).saturating_sub(2).clamp(1, max)
        }
        3 => t.range(1, 9.min(max)),
        4 => t.range(1, 70.min(max)),
        _ => t.range(1, max),
    }
}

/// Lengths k*m-1, k*m and k*m+1, for m a power of two or a literal of the sources, up to 40000.
fn structured() -> &'static [usize] {
    static S: std::sync::OnceLock<Vec<usize>> = std::sync::OnceLock::new();
    S.get_or_init(|| {
        let mut v = std::collections::BTreeSet::new();
        let mut add = |n: usize| (n > 1 && n <= 40000).then(|| v.extend([n - 1, n, n + 1]));
        for k in 4..16 {
            for m in 1..33 {
                add(m << k);
            }
        }
        for i in &mined().ints {
            for m in 1..8 {
                if *i < 40000 {
                    add(*i as usize * m);
                }
            }
        }
        let mut v: Vec<usize> = v.into_iter().collect();
        // a fixed shuffle, so that a truncated run still sees all magnitudes
        let mut ex = Expander::new(7);
        for i in (1..v.len()).rev() {
            v.swap(i, ex.below(i + 1));
        }
        v
    })
}

/// From 2^17 to 2^20 leaves, once 2^23 (thorough: 2^25), and around.
fn very_long(t: &mut Tape) -> usize {
    let k = [23usize, 20, 17, 18, 19, 21, 17, 18][t.strat(8)];
    let k = if k == 23 && super::history::thorough() { 25 } else { k };
    (1usize << k) + t.below(5) - 2
}

// ---------------------------------------------------------------- field tree

/// Two-to-one functions: mixing ones and degenerate ones.
#[derive(Clone, Debug)]
struct ToyHash<F: PrimeField> {
    mode: usize,
    a: F,
    b: F,
    c: F,
}
const TOY_MODES: usize = 9;
impl<F: PrimeField> ToyHash<F> {
    fn h(&self, l: &F, r: &F) -> F {
        match self.mode {
            0 => (*l + self.a).square() + *r * self.b + self.c,
            1 => (*l * self.a + *r * self.b + self.c).square() * (*l + self.b),
            2 => *l * self.a + *r * self.b + self.c,
            3 => *l,
            4 => *r,
            5 => *l + *r,
            6 => *l - *r,
            7 => *l * *r + self.a,
            // what the nested tree of `compress` gives
            _ => {
                let i = self.inner();
                i.h(&i.h(l, r), &i.h(l, l)) + self.c
            }
        }
    }
    fn inner(&self) -> Self {
        ToyHash { mode: 0, ..self.clone() }
    }
}
impl<F: PrimeField> tfp::MerkleTreeHash<F> for ToyHash<F> {
    fn compress(&self, input: &[&F]) -> F {
        assert!(input.len() == 2, "compress got {} inputs", input.len());
        if self.mode == 8 {
            // a root within a root
            return tfp::MerkleTree::new(self.inner()).accumulate(&[*input[0], *input[1], *input[0]]) + self.c;
        }
        self.h(input[0], input[1])
    }
}
fn toy<F: PrimeField>(t: &mut Tape, mixing: bool) -> ToyHash<F> {
    let mode = if mixing { [0, 1, 8][t.below(3)] } else { t.below(TOY_MODES) };
    let mut ex = t.expander();
    let nz = |ex: &mut Expander| loop {
        let x: F = ex.field();
        if !x.is_zero() {
            return x;
        }
    };
    ToyHash { mode, a: nz(&mut ex), b: nz(&mut ex), c: nz(&mut ex) }
}

fn field_specials<F: PrimeField>(t: &mut Tape) -> Vec<F> {
    let mut v = vec![F::zero(), F::one(), -F::one()];
    v.push(elem(t, &[]));
    v.push(elem(t, &[]));
    v
}

fn fp_toy_case<F: PrimeField>(t: &mut Tape, n: usize, field: &str) -> Result<Info, String> {
    let sp = field_specials::<F>(t);
    let mixing = t.chance(3, 4);
    let h = toy::<F>(t, mixing);
    let mut ex = t.expander();
    let base: F = ex.field();
    let step: F = ex.field::<F>() + F::one();
    let (v, what) = leaves(t, n, &mut |k| base + step * F::from(k) + F::from(k * k), &sp);
    let mut tree = tfp::MerkleTree::new(h.clone());
    let got = must(&format!("root of {n} leaves over {field}"), || tree.accumulate(&v))?;
    let want = ref_root(&v, &|_, l, r| h.h(l, r));
    if got != want {
        return Err(format!("field tree over {field}: root of {n} leaves ({what}, hash mode {}) is {}, expected {}; leaves {}", h.mode, show(&got), show(&want), clip(&show_vec(&v))));
    }
    if t.chance(1, 4) {
        // the same tree object again, on another list
        let m = t.range(1, n.min(20));
        let w = &v[n - m..];
        let got = must("second root", || tree.accumulate(w))?;
        let want = ref_root(w, &|_, l, r| h.h(l, r));
        if got != want {
            return Err(format!("field tree over {field}: second root ({m} leaves) is {}, expected {}", show(&got), show(&want)));
        }
    }
    info(t, n > 1, size_label(n), || format!("field tree over {field}, {n} leaves ({what}), hash mode {}, root {}", h.mode, show(&got)))
}

/// Roots of all four kinds are right (used after refused calls).
pub fn roots_fine(t: &mut Tape) -> Result<(), String> {
    let n = t.range(1, 12);
    fp_toy_case::<z::fields::babybear::FpBabyBear>(t, n, "BabyBear")?;
    digest_history::<T8>(t, "toy8", Some(n), 1, n)?;
    lv_case::<pasta_curves::pallas::Base>(t, n)?;
    lv_case::<jubjub::Base>(t, n)?;
    Ok(())
}

fn clip(s: &str) -> String {
    if s.len() > 400 {
        format!("{}...", &s[..400])
    } else {
        s.to_string()
    }
}
fn size_label(n: usize) -> String {
    match n {
        1 => "1 leaf".into(),
        2 => "2 leaves".into(),
        _ if n.is_power_of_two() => "2^k leaves".into(),
        3..=15 => "3-15 leaves".into(),
        16..=255 => "16-255 leaves".into(),
        256..=4095 => "256-4095 leaves".into(),
        _ => "4096 or more leaves".into(),
    }
}

pub fn c13() -> Prop {
    let list = all_shipped(|k, w| w == if k == 3 { 4 } else { 3 });
    Prop {
        id: "C13",
        rule: "A case is a field, a two-to-one function (mixing, linear, degenerate, or a shipped hash) and a leaf list: every length from 1 to 4200, multiples of and lengths around powers of two and literals of the sources, up to 2^23 leaves (thorough: 2^25), with distinct, repeated, periodic, palindromic, zero and extreme values. Oracle: recursive root by definition. Non-trivial: at least two leaves.",
        subs: vec![
            sub("every length", 60, 4200, 42000, |t| {
                let n = t.strat(4200) + 1;
                let f = t.below(N_FIELDS);
                with_field!(f, F => fp_toy_case::<F>(t, n, FIELD_NAMES[f]))
            }),
            sub("long lists", 60, 160, 1200, |t| {
                let k = t.strat(40);
                let n = if k < 35 { ((1usize << (11 + k / 5)) + k % 5) - 2 } else { tree_size(t, 1 << 17) };
                if t.chance(1, 2) { fp_toy_case::<F17>(t, n, "F17") } else { fp_toy_case::<z::fields::goldilocks::FpGoldiLocks>(t, n, "GoldiLocks") }
            }),
            sub("structured lengths", 60, 4000, 40000, |t| {
                let n = structured()[t.strat(structured().len())];
                fp_toy_case::<z::fields::babybear::FpBabyBear>(t, n, "BabyBear")
            }),
            sub("very long lists", 60, 8, 80, |t| {
                let n = very_long(t);
                fp_toy_case::<z::fields::babybear::FpBabyBear>(t, n, "BabyBear")
            }),
            sub("generated lengths", 80, 60000, 600000, |t| {
                let f = t.strat(N_FIELDS);
                let n = tree_size(t, 300);
                with_field!(f, F => fp_toy_case::<F>(t, n, FIELD_NAMES[f]))
            }),
            sub("shipped hashes", 60, 6400, 64000, move |t| {
                let (f, k) = list[t.strat(list.len())];
                let n = t.range(1, 20);
                with_shipped!(f, F => {
                    let b = cache::<F>().get(k)?;
                    let sp = field_specials::<F>(t);
                    let mut ex = t.expander();
                    let base: F = ex.field();
                    let (v, what) = leaves(t, n, &mut |k| base + F::from(k), &sp);
                    let mut tree = tfp::MerkleTree::new(b.hash.clone());
                    let got = must(&b.desc, || tree.accumulate(&v))?;
                    let w = b.hash.compress_width();
                    let want = ref_root(&v, &|_, l, r| {
                        let mut x = vec![*l, *r];
                        x.resize(w, F::from(0u64));
                        match &b.model { Some(m) => m.eval(&x)[0], None => b.hash.perm(0, &x)[0] }
                    });
                    if got != want { return Err(format!("field tree with {}: root of {} is {}, expected {}", b.desc, clip(&show_vec(&v)), show(&got), show(&want))); }
                    info(t, n > 1, b.desc.clone(), || format!("{}: {n} leaves ({what})", b.desc))
                })
            }),
        ],
    }
}

// ---------------------------------------------------------------- digest tree

/// A small digest with an output size that no real hash has.
#[derive(Clone, Debug)]
pub struct Toy<const B: u64, U> {
    s: u64,
    n: u64,
    _u: std::marker::PhantomData<U>,
}
impl<const B: u64, U> Default for Toy<B, U> {
    fn default() -> Self {
        Toy { s: 0x1234_5678_9abc_def0 ^ B, n: 0, _u: std::marker::PhantomData }
    }
}
impl<const B: u64, U> Update for Toy<B, U> {
    fn update(&mut self, d: &[u8]) {
        for b in d {
            self.s = (self.s.rotate_left(7) ^ *b as u64).wrapping_mul(0x9E3779B97F4A7C15);
            self.n += 1;
        }
    }
}
impl<const B: u64, U: sha2::digest::generic_array::ArrayLength<u8> + 'static> OutputSizeUser for Toy<B, U> {
    type OutputSize = U;
}
impl<const B: u64, U> Reset for Toy<B, U> {
    fn reset(&mut self) {
        *self = Self::default();
    }
}
impl<const B: u64, U: sha2::digest::generic_array::ArrayLength<u8> + 'static> FixedOutput for Toy<B, U> {
    fn finalize_into(self, out: &mut Output<Self>) {
        let mut ex = Expander::new(self.s ^ self.n);
        if B == NESTED {
            let l: Vec<Output<T8>> = (0..3).map(|_| Output::<T8>::clone_from_slice(&ex.bytes(8))).collect();
            ex = Expander::new(u64::from_le_bytes(tf2::MerkleTree::<T8>::new().accumulate(&l).into()));
        }
        let b = ex.bytes(out.len());
        out.copy_from_slice(&b);
    }
}
impl<const B: u64, U: sha2::digest::generic_array::ArrayLength<u8> + Clone + 'static> FixedOutputReset for Toy<B, U> {
    fn finalize_into_reset(&mut self, out: &mut Output<Self>) {
        let c = Toy::<B, U> { s: self.s, n: self.n, _u: std::marker::PhantomData };
        FixedOutput::finalize_into(c, out);
        Reset::reset(self);
    }
}
impl<const B: u64, U> HashMarker for Toy<B, U> {}
use sha2::digest::consts::{U1, U100, U13, U200, U3, U64, U8};
type T1 = Toy<1, U1>;
type T3 = Toy<3, U3>;
type T8 = Toy<8, U8>;
type T13 = Toy<13, U13>;
type T64 = Toy<64, U64>;
type T100 = Toy<100, U100>;
type T200 = Toy<200, U200>;
/// computes a root itself
type TNest = Toy<NESTED, U8>;
const NESTED: u64 = 77;

macro_rules! with_digest {
    ($i:expr, $H:ident => $body:expr) => {
        match $i {
            0 => { type $H = T8; $body }
            1 => { type $H = sha2::Sha256; $body }
            2 => { type $H = sha3::Sha3_256; $body }
            3 => { type $H = blake2::Blake2s256; $body }
            4 => { type $H = T1; $body }
            5 => { type $H = sha2::Sha512; $body }
            6 => { type $H = T13; $body }
            7 => { type $H = blake2::Blake2b512; $body }
            8 => { type $H = T3; $body }
            9 => { type $H = sha3::Keccak256; $body }
            10 => { type $H = sha2::Sha224; $body }
            11 => { type $H = sha3::Sha3_512; $body }
            12 => { type $H = T64; $body }
            13 => { type $H = T100; $body }
            14 => { type $H = TNest; $body }
            15 => { type $H = T200; $body }
            _ => { type $H = sha2::Sha384; $body }
        }
    };
}
const N_DIGESTS: usize = 17;
const DIGESTS: [&str; N_DIGESTS] = ["toy8", "sha256", "sha3-256", "blake2s", "toy1", "sha512", "toy13", "blake2b", "toy3", "keccak256", "sha224", "sha3-512", "toy64", "toy100", "nested", "toy200", "sha384"];

fn pair<H: Digest>(l: &Output<H>, r: &Output<H>) -> Output<H> {
    let mut h = H::new();
    let cat: Vec<u8> = l.iter().chain(r.iter()).copied().collect();
    Digest::update(&mut h, &cat);
    h.finalize()
}

fn digest_leaves<H: Digest>(t: &mut Tape, n: usize) -> (Vec<Output<H>>, &'static str) {
    let mk = |b: &[u8]| {
        let mut o = Output::<H>::default();
        let l = o.len().min(b.len());
        o[..l].copy_from_slice(&b[..l]);
        o
    };
    let size = <H as Digest>::output_size();
    let sp = vec![mk(&vec![0u8; size]), mk(&vec![0xffu8; size]), mk(&{ let mut v = vec![0u8; size]; v[size - 1] = 1; v }), pair::<H>(&mk(&vec![0u8; size]), &mk(&vec![0u8; size]))];
    let seed = t.u64();
    leaves(t, n, &mut |k| mk(&Expander::new(seed.wrapping_add(k.wrapping_mul(0x1234567))).bytes(size)), &sp)
}

fn hexs(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

fn digest_history<H: Digest + FixedOutputReset + Clone>(t: &mut Tape, name: &str, first: Option<usize>, ops: usize, max: usize) -> Result<Info, String> {
    let mut trees: Vec<tf2::MerkleTree<H>> = vec![tf2::MerkleTree::new()];
    let mut hist = String::new();
    let mut roots = 0;
    let mut biggest = 0;
    for op in 0..ops {
        let i = t.below(trees.len());
        let what = if op == 0 { 9 } else { t.below(10) };
        match what {
            0 => {
                trees.push(trees[i].clone());
                hist += &format!(" clone({i})");
            }
            1 => {
                trees.push(Default::default());
                hist += " default";
            }
            2 => {
                // refused, and nothing is left behind
                must_refuse("empty digest set", || trees[i].accumulate(&[]))?;
                hist += &format!(" {i}.empty");
            }
            3 => {
                trees[i] = tf2::MerkleTree::new();
                hist += &format!(" new({i})");
            }
            _ => {
                let n = match first {
                    Some(n) if op == 0 => n,
                    _ => tree_size(t, max),
                };
                let (v, shape) = digest_leaves::<H>(t, n);
                hist += &format!(" {i}.root({n}, {shape})");
                let got = must(&format!("{name}: {hist}"), || trees[i].accumulate(&v))?;
                let want = ref_root(&v, &|_, l, r| pair::<H>(l, r));
                if got != want {
                    return Err(format!("digest tree with {name} after{hist}: root {}, expected {}", hexs(&got), hexs(&want)));
                }
                roots += 1;
                biggest = biggest.max(n);
            }
        }
        trees.truncate(4);
    }
    info(t, biggest > 1, format!("{name} {roots} roots"), || format!("digest tree with {name}:{hist}"))
}

pub fn c14() -> Prop {
    Prop {
        id: "C14",
        rule: "A case is one of 17 digests (SHA-2, SHA-3, Keccak, BLAKE2, toy digests with 1 to 200 byte outputs, one that computes a root itself) and a history of up to 12 operations on up to four tree objects: roots of generated lists, clones, default construction, replacement, refused empty lists. Every length from 1 to 4200 and multiples of and lengths around powers of two and literals of the sources up to 2^23 are used as first operation. Oracle: recursive root with a fresh one-shot digest of left||right. Non-trivial: some list has at least two leaves.",
        subs: vec![
            sub("histories", 400, 36000, 360000, |t| {
                let d = t.strat(N_DIGESTS);
                let ops = t.range(2, 12);
                with_digest!(d, H => digest_history::<H>(t, DIGESTS[d], None, ops, 80))
            }),
            sub("every length", 60, 4200, 42000, |t| {
                let n = t.strat(4200) + 1;
                let d = t.below(N_DIGESTS);
                with_digest!(d, H => digest_history::<H>(t, DIGESTS[d], Some(n), 2, 20))
            }),
            sub("long lists", 60, 80, 800, |t| {
                let k = t.strat(40);
                let n = if k < 35 { ((1usize << (11 + k / 5)) + k % 5) - 2 } else { tree_size(t, 1 << 17) };
                let d = t.below(2);
                with_digest!(d, H => digest_history::<H>(t, DIGESTS[d], Some(n), 2, 2000))
            }),
            sub("structured lengths", 60, 4000, 40000, |t| {
                let n = structured()[t.strat(structured().len())];
                digest_history::<T8>(t, "toy8", Some(n), 2, 100)
            }),
            sub("very long lists", 60, 8, 80, |t| {
                let n = very_long(t);
                digest_history::<T8>(t, "toy8", Some(n), 2, 100)
            }),
        ],
    }
}

// ---------------------------------------------------------------- Orchard and Sapling

/// Level-dependent two-to-one function over a field of the `ff` crate.
#[derive(Clone, Debug)]
struct LvHash<B> {
    mode: usize,
    a: B,
    b: B,
    c: B,
}
const LV_MODES: usize = 8;
impl<B: Field + From<u64>> LvHash<B> {
    fn h(&self, level: usize, l: &B, r: &B) -> B {
        let lv = B::from(level as u64 + 1);
        match self.mode {
            0 => (*l + self.a * lv).square() + *r * self.b + self.c * lv,
            1 => (*l * lv + *r * self.b + self.c).square() * (*l + lv),
            2 => *l * self.a + *r * self.b * lv + self.c,
            3 => *l + lv,
            4 => *r * lv,
            5 => lv,
            6 => *l - *r + lv.square(),
            // what the nested tree gives
            _ => {
                let i = LvHash { mode: 0, ..self.clone() };
                i.h(1, &i.h(0, l, r), &i.h(0, l, l)) + lv
            }
        }
    }
}

/// An element from 64 uniform bytes.
trait Wide {
    fn wide(b: &[u8; 64]) -> Self;
}
impl Wide for pasta_curves::pallas::Base {
    fn wide(b: &[u8; 64]) -> Self {
        FromUniformBytes::from_uniform_bytes(b)
    }
}
impl Wide for jubjub::Base {
    fn wide(b: &[u8; 64]) -> Self {
        jubjub::Base::from_bytes_wide(b)
    }
}
trait LvTree: Field + From<u64> + Wide {
    fn root<P: LvAny<Self>>(p: P, v: &[&[Self]]) -> Vec<Self>;
    const NAME: &'static str;
}
/// what both tree kinds can use
trait LvAny<B>: Clone {
    fn hash(&self, level: usize, l: &B, r: &B) -> B;
}
impl<B: LvTree> LvAny<B> for LvHash<B> {
    fn hash(&self, level: usize, l: &B, r: &B) -> B {
        if self.mode == 7 {
            // a root within a root
            return B::root(LvHash { mode: 0, ..self.clone() }, &[&[*l, *r, *l]])[0] + B::from(level as u64 + 1);
        }
        self.h(level, l, r)
    }
}
/// Collision-resistant: BLAKE2b to the field.
#[derive(Clone)]
struct LvStrong;
impl<B: Wide + ff::PrimeField> LvAny<B> for LvStrong {
    fn hash(&self, level: usize, l: &B, r: &B) -> B {
        let mut h = blake2::Blake2b512::new();
        Digest::update(&mut h, (level as u64).to_le_bytes());
        Digest::update(&mut h, l.to_repr());
        Digest::update(&mut h, r.to_repr());
        let o: [u8; 64] = h.finalize().into();
        B::wide(&o)
    }
}
struct OrAdapt<P>(P);
impl<P: LvAny<pasta_curves::pallas::Base>> tor::MerkleTreeHash for OrAdapt<P> {
    fn compress(&self, level: usize, i: &[&pasta_curves::pallas::Base; 2]) -> pasta_curves::pallas::Base {
        self.0.hash(level, i[0], i[1])
    }
}
struct SaAdapt<P>(P);
impl<P: LvAny<jubjub::Base>> tsa::MerkleTreeHash for SaAdapt<P> {
    fn compress(&self, level: usize, i: &[&jubjub::Base; 2]) -> jubjub::Base {
        self.0.hash(level, i[0], i[1])
    }
}
impl LvTree for pasta_curves::pallas::Base {
    fn root<P: LvAny<Self>>(p: P, v: &[&[Self]]) -> Vec<Self> {
        let mut tree = tor::MerkleTree::new(OrAdapt(p));
        v.iter().map(|x| tree.accumulate(x)).collect()
    }
    const NAME: &'static str = "Orchard";
}
impl LvTree for jubjub::Base {
    fn root<P: LvAny<Self>>(p: P, v: &[&[Self]]) -> Vec<Self> {
        let mut tree = tsa::MerkleTree::new(SaAdapt(p));
        v.iter().map(|x| tree.accumulate(x)).collect()
    }
    const NAME: &'static str = "Sapling";
}

fn lv_elem<B: Wide>(ex: &mut Expander) -> B {
    let mut b = [0u8; 64];
    b.copy_from_slice(&ex.bytes(64));
    B::wide(&b)
}
fn lv_specials<B: Field + From<u64>>() -> Vec<B> {
    vec![B::ZERO, B::ONE, -B::ONE, B::from(2), B::from(u64::MAX)]
}

fn lv_case<B: LvTree + std::fmt::Debug>(t: &mut Tape, n: usize) -> Result<Info, String> {
    let mode = t.below(LV_MODES);
    let mut ex = t.expander();
    let h = LvHash::<B> { mode, a: lv_elem(&mut ex), b: lv_elem(&mut ex), c: lv_elem(&mut ex) };
    let (base, step): (B, B) = (lv_elem(&mut ex), lv_elem(&mut ex));
    let (v, what) = leaves(t, n, &mut |k| base + step * B::from(k) + B::from(k), &lv_specials());
    let m = t.range(1, n.min(9));
    let lists: [&[B]; 2] = [&v, &v[..m]];
    let got = must(&format!("{} root of {n} leaves", B::NAME), || B::root(h.clone(), &lists))?;
    for (g, l) in got.iter().zip(lists) {
        let want = ref_root(l, &|lv, a, b| h.h(lv, a, b));
        if *g != want {
            return Err(format!("{} tree: root of {} leaves ({what}, hash mode {mode}) is {g:?}, expected {want:?}", B::NAME, l.len()));
        }
    }
    info(t, n > 1, format!("{} {}", B::NAME, size_label(n)), || format!("{} tree, {n} leaves ({what}), hash mode {mode}, root {:?}", B::NAME, got[0]))
}

fn lv_dispatch(t: &mut Tape, k: usize, n: usize) -> Result<Info, String> {
    if k == 0 {
        lv_case::<pasta_curves::pallas::Base>(t, n)
    } else {
        lv_case::<jubjub::Base>(t, n)
    }
}

pub fn c15() -> Prop {
    Prop {
        id: "C15",
        rule: "A case is a tree kind (Orchard, Sapling), a level-dependent two-to-one function (mixing, linear, degenerate, level only) and leaf lists as in C13: every length from 1 to 4200, multiples of and lengths around powers of two and literals of the sources, up to 2^23 leaves (thorough: 2^25). Oracle: recursive root with the level by definition. Non-trivial: at least two leaves.",
        subs: vec![
            sub("every length", 60, 8400, 84000, |t| {
                let k = t.strat(2);
                let n = t.strat(4200) + 1;
                lv_dispatch(t, k, n)
            }),
            sub("long lists", 60, 80, 800, |t| {
                let kind = t.strat(2);
                let k = t.strat(40);
                let n = if k < 35 { ((1usize << (11 + k / 5)) + k % 5) - 2 } else { tree_size(t, 1 << 17) };
                lv_dispatch(t, kind, n)
            }),
            sub("structured lengths", 60, 4000, 40000, |t| {
                let kind = t.strat(2);
                let n = structured()[t.strat(structured().len())];
                lv_dispatch(t, kind, n)
            }),
            sub("very long lists", 60, 16, 160, |t| {
                let kind = t.strat(2);
                let n = very_long(t);
                lv_dispatch(t, kind, n)
            }),
            sub("generated lengths", 60, 60000, 600000, |t| {
                let k = t.strat(2);
                let n = tree_size(t, 200);
                lv_dispatch(t, k, n)
            }),
        ],
    }
}

// ---------------------------------------------------------------- C16

/// Metamorphic relations over any tree: `root` under test, `node` for the top
/// of two equal halves (level, left, right).
fn commit<T: Clone + PartialEq>(t: &mut Tape, name: &str, v: Vec<T>, fresh: T, root: &mut dyn FnMut(&[T]) -> Result<T, String>, node: &dyn Fn(usize, &T, &T) -> T) -> Result<Info, String> {
    let n = v.len();
    let r0 = root(&v)?;
    let mut did = vec![];
    // replace one leaf
    let i = match t.below(4) {
        0 => n - 1,
        1 => 0,
        _ => t.below(n),
    };
    let mut w = v.clone();
    w[i] = if t.chance(1, 2) { fresh.clone() } else { v[t.below(n)].clone() };
    if w[i] != v[i] {
        if root(&w)? == r0 {
            return Err(format!("{name}: replacing leaf {i} of {n} does not change the root"));
        }
        did.push("replace");
    }
    // exchange two leaves
    if n > 1 {
        let (i, j) = (t.below(n), t.below(n));
        let (i, j) = if t.chance(1, 3) { (n - 2, n - 1) } else { (i, j) };
        if v[i] != v[j] {
            let mut w = v.clone();
            w.swap(i, j);
            if root(&w)? == r0 {
                return Err(format!("{name}: exchanging leaves {i} and {j} of {n} does not change the root"));
            }
            did.push("exchange");
        }
    }
    // exchange two aligned subtrees
    let bits = (usize::BITS - n.leading_zeros()) as usize;
    if n >= 4 {
        let s = 1usize << t.range(1, bits - 2);
        let blocks = n / s;
        if blocks >= 2 {
            let (a, b) = (t.below(blocks), t.below(blocks));
            let mut w = v.clone();
            for k in 0..s {
                w.swap(a * s + k, b * s + k);
            }
            if w != v && a != b {
                if root(&w)? == r0 {
                    return Err(format!("{name}: exchanging blocks {a} and {b} of {s} leaves each (of {n}) does not change the root"));
                }
                did.push("exchange blocks");
            }
        }
    }
    // append a different leaf
    let extra = if t.chance(1, 2) { fresh.clone() } else { v[t.below(n)].clone() };
    if extra != v[n - 1] {
        let mut w = v.clone();
        w.push(extra);
        if root(&w)? == r0 {
            return Err(format!("{name}: appending a different leaf to {n} leaves does not change the root"));
        }
        did.push("append");
    }
    // append copies of the last
    let full = n.next_power_of_two().max(2);
    if full > n {
        let k = t.range(n + 1, full);
        let mut w = v.clone();
        w.resize(k, v[n - 1].clone());
        if root(&w)? != r0 {
            return Err(format!("{name}: appending {} copies of the last of {n} leaves changes the root", k - n));
        }
        did.push("pad");
    }
    // halves
    if full >= 4 {
        let mut w = v.clone();
        w.resize(full, v[n - 1].clone());
        let (a, b) = (root(&w[..full / 2])?, root(&w[full / 2..])?);
        if node(full.trailing_zeros() as usize - 1, &a, &b) != r0 {
            return Err(format!("{name}: the root of {n} leaves is not the hash of the roots of the halves"));
        }
        did.push("halves");
    }
    info(t, did.len() >= 3, format!("{name} {}", size_label(n)), || format!("{name}: {n} leaves, relations {did:?}"))
}

pub fn c16() -> Prop {
    let list = all_shipped(|k, w| w == if k == 3 { 4 } else { 3 });
    Prop {
        id: "C16",
        rule: "A case is a tree kind with a collision-resistant hash (shipped width-3/4 permutations, SHA-2/SHA-3/BLAKE2, BLAKE2b-to-field for Orchard and Sapling), a leaf list and generated variations of it: one leaf replaced, two leaves or two aligned blocks exchanged, a leaf appended, padding copies appended, halves. Oracle: the metamorphic relation between the roots. Non-trivial: at least three of the relations applied.",
        subs: vec![
            sub("field tree, shipped hashes", 80, 1600, 32000, move |t| {
                let (f, k) = list[t.strat(list.len())];
                let n = t.range(1, 24);
                with_shipped!(f, F => {
                    let b = cache::<F>().get(k)?;
                    let sp = field_specials::<F>(t);
                    let mut ex = t.expander();
                    let base: F = ex.field();
                    let (v, _) = leaves(t, n, &mut |k| base + F::from(k), &sp);
                    let mut tree = tfp::MerkleTree::new(b.hash.clone());
                    let h = b.hash.clone();
                    commit(t, &b.desc.clone(), v, ex.field(), &mut |x| must("root", || tree.accumulate(x)), &|_, l, r| h.compress(&[l, r]))
                })
            }),
            sub("field tree, many leaves", 80, 4200, 42000, |t| {
                // SHA-256 to a 381-bit element
                #[derive(Clone)]
                struct Sha;
                impl tfp::MerkleTreeHash<F381> for Sha {
                    fn compress(&self, i: &[&F381]) -> F381 {
                        let mut h = sha2::Sha256::new();
                        for x in i { Digest::update(&mut h, to_big(*x).to_bytes_be()); Digest::update(&mut h, [0xee, 0x01, 0xee]); }
                        F381::from_be_bytes_mod_order(&h.finalize())
                    }
                }
                let n = tree_size(t, 700);
                let sp = field_specials::<F381>(t);
                let mut ex = t.expander();
                let base: F381 = ex.field();
                let (v, _) = leaves(t, n, &mut |k| base + F381::from(k), &sp);
                let mut tree = tfp::MerkleTree::new(Sha);
                commit(t, "field tree with SHA-256", v, ex.field(), &mut |x| must("root", || tree.accumulate(x)), &|_, l, r| tfp::MerkleTreeHash::compress(&Sha, &[l, r]))
            }),
            sub("long lists", 80, 96, 960, |t| {
                let kind = t.strat(3);
                let k = t.strat(16);
                let n = if k < 10 { (1usize << (10 + k / 2)) + 2 * (k % 2) + t.below(3) - 1 } else { t.range(900, 40000) };
                macro_rules! go { ($B:ty) => {{
                    let mut ex = t.expander();
                    let base: $B = lv_elem(&mut ex);
                    let (v, _) = leaves(t, n, &mut |k| base + <$B>::from(k), &lv_specials());
                    commit(t, <$B as LvTree>::NAME, v, lv_elem(&mut ex), &mut |x| must("root", || <$B as LvTree>::root(LvStrong, &[x])[0]), &|lv, l, r| LvAny::<$B>::hash(&LvStrong, lv, l, r))
                }}}
                match kind {
                    0 => go!(pasta_curves::pallas::Base),
                    1 => go!(jubjub::Base),
                    _ => {
                        let (v, _) = digest_leaves::<blake2::Blake2s256>(t, n);
                        let fresh = pair::<blake2::Blake2s256>(&v[0], &v[0]);
                        let mut tree = tf2::MerkleTree::<blake2::Blake2s256>::new();
                        commit(t, "blake2s", v, fresh, &mut |x| must("root", || tree.accumulate(x)), &|_, l, r| pair::<blake2::Blake2s256>(l, r))
                    }
                }
            }),
            sub("digest tree", 80, 7200, 72000, |t| {
                let d = [1usize, 2, 3, 5, 7, 9, 11, 16][t.strat(8)];
                let n = tree_size(t, 900);
                with_digest!(d, H => {
                    let (v, _) = digest_leaves::<H>(t, n);
                    let fresh = pair::<H>(&v[0], &v[0]);
                    let mut tree = tf2::MerkleTree::<H>::new();
                    commit(t, DIGESTS[d], v, fresh, &mut |x| must("root", || tree.accumulate(x)), &|_, l, r| pair::<H>(l, r))
                })
            }),
            sub("Orchard and Sapling trees", 80, 7200, 72000, |t| {
                let k = t.strat(2);
                let n = tree_size(t, 600);
                macro_rules! go { ($B:ty) => {{
                    let mut ex = t.expander();
                    let base: $B = lv_elem(&mut ex);
                    let (v, _) = leaves(t, n, &mut |k| base + <$B>::from(k), &lv_specials());
                    commit(t, <$B as LvTree>::NAME, v, lv_elem(&mut ex), &mut |x| must("root", || <$B as LvTree>::root(LvStrong, &[x])[0]), &|lv, l, r| LvAny::<$B>::hash(&LvStrong, lv, l, r))
                }}}
                if k == 0 { go!(pasta_curves::pallas::Base) } else { go!(jubjub::Base) }
            }),
        ],
    }
}

/// Many roots on one tree object of each remaining kind.
pub fn many_roots(t: &mut Tape, kind: usize, n: usize) -> Result<Info, String> {
    let m = t.range(2, 5);
    if kind == 0 {
        let h = toy::<F17>(t, true);
        let v: Vec<F17> = (0..m as u64).map(F17::from).collect();
        let want = ref_root(&v, &|_, l, r| h.h(l, r));
        let mut tree = tfp::MerkleTree::new(h);
        for i in 0..n {
            if must("root", || tree.accumulate(&v))? != want {
                return Err(format!("field tree: root number {} on one object is wrong", i + 1));
            }
        }
        return info(t, true, "field tree", || format!("{n} roots of {m} leaves on one tree object"));
    }
    fn go<B: LvTree + PartialEq>(t: &mut Tape, m: usize, n: usize) -> Result<Info, String> {
        let h = LvHash { mode: 0, a: B::from(3), b: B::from(5), c: B::from(7) };
        let v: Vec<B> = (0..m as u64).map(B::from).collect();
        let want = ref_root(&v, &|lv, l, r| h.h(lv, l, r));
        let lists: Vec<&[B]> = vec![&v; n];
        let got = must("roots", || B::root(h.clone(), &lists))?;
        if let Some(i) = got.iter().position(|x| *x != want) {
            return Err(format!("{} tree: root number {} on one object is wrong", B::NAME, i + 1));
        }
        info(t, true, B::NAME, || format!("{n} roots of {m} leaves on one tree object"))
    }
    if kind == 1 { go::<pasta_curves::pallas::Base>(t, m, n) } else { go::<jubjub::Base>(t, m, n) }
}
