//! Reference models. A permutation is a list of elementary steps taken from
//! the specification; every step can be evaluated and, where the step is a
//! bijection, inverted. Nothing here calls the library under test.
use super::core::*;
use ark_ff::PrimeField;
use num_bigint::BigUint;
use num_integer::Integer;
use std::sync::{Arc, OnceLock};

pub type Mat<F> = Vec<Vec<F>>;

pub fn mat_vec<F: PrimeField>(m: &[Vec<F>], x: &[F]) -> Vec<F> {
    m.iter().map(|r| r.iter().zip(x).map(|(a, b)| *a * *b).sum()).collect()
}
pub fn mat_mul<F: PrimeField>(a: &[Vec<F>], b: &[Vec<F>]) -> Mat<F> {
    let (n, k, m) = (a.len(), b.len(), b[0].len());
    (0..n).map(|i| (0..m).map(|j| (0..k).map(|l| a[i][l] * b[l][j]).sum()).collect()).collect()
}
pub fn identity<F: PrimeField>(n: usize) -> Mat<F> {
    (0..n).map(|i| (0..n).map(|j| if i == j { F::one() } else { F::zero() }).collect()).collect()
}
pub fn transpose<F: PrimeField>(a: &[Vec<F>]) -> Mat<F> {
    (0..a[0].len()).map(|j| (0..a.len()).map(|i| a[i][j]).collect()).collect()
}
/// Gauss-Jordan with row exchanges; None when singular.
pub fn mat_inv<F: PrimeField>(a: &[Vec<F>]) -> Option<Mat<F>> {
    let n = a.len();
    let mut m: Vec<Vec<F>> = a.to_vec();
    let mut r = identity::<F>(n);
    for c in 0..n {
        let p = (c..n).find(|&i| !m[i][c].is_zero())?;
        m.swap(c, p);
        r.swap(c, p);
        let iv = m[c][c].inverse()?;
        for j in 0..n {
            m[c][j] *= iv;
            r[c][j] *= iv;
        }
        for i in 0..n {
            if i != c && !m[i][c].is_zero() {
                let f = m[i][c];
                for j in 0..n {
                    let (x, y) = (m[c][j], r[c][j]);
                    m[i][j] -= f * x;
                    r[i][j] -= f * y;
                }
            }
        }
    }
    Some(r)
}

pub struct MatPair<F> {
    pub m: Mat<F>,
    inv: OnceLock<Option<Mat<F>>>,
}
impl<F: PrimeField> MatPair<F> {
    pub fn new(m: Mat<F>) -> Arc<Self> {
        Arc::new(MatPair { m, inv: OnceLock::new() })
    }
    pub fn inv(&self) -> Option<&Mat<F>> {
        self.inv.get_or_init(|| mat_inv(&self.m)).as_ref()
    }
}

#[derive(Clone)]
pub enum Step<F: PrimeField> {
    Mat(Arc<MatPair<F>>),
    /// y_i = d_i * x_i + sum(x)
    OnesDiag(Arc<Vec<F>>, Arc<MatPair<F>>),
    Add(Vec<F>),
    Add0(F),
    SboxAll(usize),
    Sbox0(usize),
    /// pairwise quadratic S-box of Neptune with this gamma
    Neptune(F),
    /// x_i += (x_0 + c)^d for i >= 1
    Gmimc(F, usize),
    RotR,
}

pub struct Model<F: PrimeField> {
    pub t: usize,
    pub steps: Vec<Step<F>>,
}

pub fn power<F: PrimeField>(x: F, d: usize) -> F {
    let mut r = F::one();
    for _ in 0..d {
        r *= x;
    }
    r
}

/// d^-1 mod (p-1), if d is a permutation exponent
pub fn root_exp<F: PrimeField>(d: usize) -> Option<BigUint> {
    let pm1 = modulus::<F>() - 1u32;
    let e = BigUint::from(d).extended_gcd_exp(&pm1)?;
    Some(e)
}
trait InvMod {
    fn extended_gcd_exp(&self, m: &BigUint) -> Option<BigUint>;
}
impl InvMod for BigUint {
    fn extended_gcd_exp(&self, m: &BigUint) -> Option<BigUint> {
        use num_bigint::BigInt;
        let g = BigInt::from(self.clone()).extended_gcd(&BigInt::from(m.clone()));
        if g.gcd != BigInt::from(1) {
            return None;
        }
        g.x.mod_floor(&BigInt::from(m.clone())).to_biguint()
    }
}
pub fn is_perm_exp<F: PrimeField>(d: usize) -> bool {
    let pm1 = modulus::<F>() - 1u32;
    pm1.gcd(&BigUint::from(d)) == BigUint::from(1u32)
}
pub fn droot<F: PrimeField>(x: F, e: &BigUint) -> F {
    x.pow(e.to_u64_digits())
}

impl<F: PrimeField> Step<F> {
    pub fn fwd(&self, x: &mut Vec<F>) {
        match self {
            Step::Mat(m) => *x = mat_vec(&m.m, x),
            Step::OnesDiag(d, _) => {
                let s: F = x.iter().sum();
                for (a, b) in x.iter_mut().zip(d.iter()) {
                    *a = *a * *b + s;
                }
            }
            Step::Add(c) => x.iter_mut().zip(c).for_each(|(a, b)| *a += *b),
            Step::Add0(c) => x[0] += *c,
            Step::SboxAll(d) => x.iter_mut().for_each(|a| *a = power(*a, *d)),
            Step::Sbox0(d) => x[0] = power(x[0], *d),
            Step::Neptune(g) => {
                for c in x.chunks_mut(2) {
                    let (a, b) = (c[0], c[1]);
                    let z2 = (a - b) * (a - b);
                    let w = a - b - b - z2 + *g;
                    let (f2, f3, f4) = (F::from(2u64), F::from(3u64), F::from(4u64));
                    c[0] = f2 * a + b + f3 * z2 + w * w;
                    c[1] = a + f3 * b + f4 * z2 + w * w;
                }
            }
            Step::Gmimc(c, d) => {
                let p = power(x[0] + *c, *d);
                x.iter_mut().skip(1).for_each(|a| *a += p);
            }
            Step::RotR => {
                let l = x.pop().unwrap();
                x.insert(0, l);
            }
        }
    }
    pub fn inv(&self, x: &mut Vec<F>) -> Option<()> {
        match self {
            Step::Mat(m) | Step::OnesDiag(_, m) => *x = mat_vec(m.inv()?, x),
            Step::Add(c) => x.iter_mut().zip(c).for_each(|(a, b)| *a -= *b),
            Step::Add0(c) => x[0] -= *c,
            Step::SboxAll(d) => {
                let e = root_exp::<F>(*d)?;
                x.iter_mut().for_each(|a| *a = droot(*a, &e));
            }
            Step::Sbox0(d) => {
                let e = root_exp::<F>(*d)?;
                x[0] = droot(x[0], &e);
            }
            Step::Neptune(g) => {
                let i5 = F::from(5u64).inverse()?;
                for c in x.chunks_mut(2) {
                    let w = c[0] - c[1];
                    let u = c[0] - (w + *g) * (w + *g);
                    let z = (u + F::from(3u64) * w) * i5;
                    let b = z - w - z * z;
                    c[0] = z + b;
                    c[1] = b;
                }
            }
            Step::Gmimc(c, d) => {
                let p = power(x[0] + *c, *d);
                x.iter_mut().skip(1).for_each(|a| *a -= p);
            }
            Step::RotR => {
                let f = x.remove(0);
                x.push(f);
            }
        }
        Some(())
    }
}

impl<F: PrimeField> Model<F> {
    pub fn eval(&self, x: &[F]) -> Vec<F> {
        let mut s = x.to_vec();
        for st in &self.steps {
            st.fwd(&mut s);
        }
        s
    }
    /// The input that leads to `s` after the first `k` steps.
    pub fn input_for(&self, k: usize, s: &[F]) -> Option<Vec<F>> {
        let mut x = s.to_vec();
        for st in self.steps[..k].iter().rev() {
            st.inv(&mut x)?;
        }
        Some(x)
    }
    pub fn bijective(&self) -> bool {
        let mut seen: Vec<usize> = vec![];
        self.steps.iter().all(|s| match s {
            Step::Mat(m) | Step::OnesDiag(_, m) => {
                let a = Arc::as_ptr(m) as usize;
                seen.contains(&a) || {
                    seen.push(a);
                    m.inv().is_some()
                }
            }
            Step::SboxAll(d) | Step::Sbox0(d) => is_perm_exp::<F>(*d),
            Step::Neptune(_) => !F::from(5u64).is_zero(),
            _ => true,
        })
    }
}

// ---------------------------------------------------------------- Poseidon2

pub fn f_mat<F: PrimeField>(rows: &[&[u64]]) -> Mat<F> {
    rows.iter().map(|r| r.iter().map(|x| F::from(*x)).collect()).collect()
}

pub fn p2_external<F: PrimeField>(t: usize) -> Mat<F> {
    match t {
        2 => f_mat(&[&[2, 1], &[1, 2]]),
        3 => f_mat(&[&[2, 1, 1], &[1, 2, 1], &[1, 1, 2]]),
        _ => {
            let m4: [[u64; 4]; 4] = [[5, 7, 1, 3], [4, 6, 1, 1], [1, 3, 5, 7], [1, 1, 4, 6]];
            (0..t)
                .map(|i| {
                    (0..t)
                        .map(|j| {
                            let k = if t > 4 && i / 4 == j / 4 { 2 } else { 1 };
                            F::from(k * m4[i % 4][j % 4])
                        })
                        .collect()
                })
                .collect()
        }
    }
}

pub fn ones_diag<F: PrimeField>(diag_m1: &[F]) -> Mat<F> {
    let t = diag_m1.len();
    (0..t).map(|i| (0..t).map(|j| if i == j { diag_m1[i] + F::one() } else { F::one() }).collect()).collect()
}

pub fn p2_model<F: PrimeField>(t: usize, d: usize, rf: usize, rp: usize, diag_m1: &[F], rc: &[Vec<F>]) -> Model<F> {
    let ext = MatPair::new(p2_external::<F>(t));
    let int = MatPair::new(ones_diag(diag_m1));
    let diag = Arc::new(diag_m1.to_vec());
    let mut steps = vec![Step::Mat(ext.clone())];
    let full = |steps: &mut Vec<Step<F>>, r: usize| {
        steps.push(Step::Add(rc[r].clone()));
        steps.push(Step::SboxAll(d));
        steps.push(Step::Mat(ext.clone()));
    };
    for r in 0..rf / 2 {
        full(&mut steps, r);
    }
    for r in rf / 2..rf / 2 + rp {
        steps.push(Step::Add0(rc[r][0]));
        steps.push(Step::Sbox0(d));
        steps.push(Step::OnesDiag(diag.clone(), int.clone()));
    }
    for r in rf / 2 + rp..rf + rp {
        full(&mut steps, r);
    }
    Model { t, steps }
}

// ---------------------------------------------------------------- Poseidon

pub fn p1_model<F: PrimeField>(t: usize, d: usize, rf: usize, rp: usize, mds: &[Vec<F>], rc: &[Vec<F>]) -> Model<F> {
    let m = MatPair::new(mds.to_vec());
    let mut steps = vec![];
    for r in 0..rf + rp {
        steps.push(Step::Add(rc[r].clone()));
        steps.push(if r >= rf / 2 && r < rf / 2 + rp { Step::Sbox0(d) } else { Step::SboxAll(d) });
        steps.push(Step::Mat(m.clone()));
    }
    Model { t, steps }
}

/// The optimised form of the partial rounds: our own derivation, used only to
/// aim generated inputs at special values of its intermediate states.
pub fn p1_opt_model<F: PrimeField>(t: usize, d: usize, rf: usize, rp: usize, mds: &[Vec<F>], rc: &[Vec<F>]) -> Option<Model<F>> {
    if rp == 0 {
        return None;
    }
    let m = MatPair::new(mds.to_vec());
    let mi = m.inv()?.clone();
    // constants: push all but the first component back through the matrix
    let h = rf / 2;
    let mut scal = vec![F::zero(); rp];
    let mut acc = rc[h + rp - 1].clone();
    for i in (0..rp - 1).rev() {
        let b = mat_vec(&mi, &acc);
        scal[i + 1] = b[0];
        acc = rc[h + i].clone();
        for j in 1..t {
            acc[j] += b[j];
        }
    }
    // M = S * diag(1, Mhat): the dense factor moves to the round before
    let mut sparse: Vec<Mat<F>> = vec![];
    let mut cur = mds.to_vec();
    for _ in 0..rp {
        let hat: Mat<F> = cur[1..].iter().map(|r| r[1..].to_vec()).collect();
        let hi = mat_inv(&hat)?;
        let mut dense = identity::<F>(t);
        let mut s = identity::<F>(t);
        s[0][0] = cur[0][0];
        let row: Vec<F> = cur[0][1..].to_vec();
        for j in 1..t {
            s[0][j] = (0..t - 1).map(|k| row[k] * hi[k][j - 1]).sum();
            s[j][0] = cur[j][0];
            for k in 1..t {
                dense[j][k] = hat[j - 1][k - 1];
            }
        }
        sparse.push(s);
        cur = mat_mul(&dense, mds);
        // cur is the matrix of the previous partial round; remember the dense part
        if sparse.len() == rp {
            let mut steps = vec![];
            for r in 0..h {
                steps.push(Step::Add(rc[r].clone()));
                steps.push(Step::SboxAll(d));
                steps.push(Step::Mat(m.clone()));
            }
            steps.push(Step::Add(acc.clone()));
            steps.push(Step::Mat(MatPair::new(dense)));
            for i in 0..rp {
                steps.push(Step::Sbox0(d));
                if i + 1 < rp {
                    steps.push(Step::Add0(scal[i + 1]));
                }
                steps.push(Step::Mat(MatPair::new(sparse[rp - 1 - i].clone())));
            }
            for r in h + rp..rf + rp {
                steps.push(Step::Add(rc[r].clone()));
                steps.push(Step::SboxAll(d));
                steps.push(Step::Mat(m.clone()));
            }
            return Some(Model { t, steps });
        }
    }
    None
}

// ---------------------------------------------------------------- GMiMC

pub fn gm_model<F: PrimeField>(t: usize, d: usize, rc: &[F]) -> Model<F> {
    let mut steps = vec![];
    for (r, c) in rc.iter().enumerate() {
        if r > 0 {
            steps.push(Step::RotR);
        }
        steps.push(Step::Gmimc(*c, d));
    }
    Model { t, steps }
}

// ---------------------------------------------------------------- Neptune

/// The documented external matrix for widths 4 and 8.
pub fn nep_fixed<F: PrimeField>(t: usize) -> Option<Mat<F>> {
    let (a, b): (Vec<u64>, Vec<u64>) = match t {
        4 => (vec![2, 1], vec![1, 2]),
        8 => (vec![3, 2, 1, 1], vec![1, 1, 2, 3]),
        _ => return None,
    };
    let h = t / 2;
    let mut m = vec![vec![F::zero(); t]; t];
    for i in 0..h {
        for j in 0..h {
            m[2 * i][2 * j] = F::from(a[(j + h - i) % h]);
            m[2 * i + 1][2 * j + 1] = F::from(b[(j + h - i) % h]);
        }
    }
    Some(m)
}

pub fn nep_model<F: PrimeField>(t: usize, d: usize, rf: usize, rp: usize, m_e: &[Vec<F>], diag_m1: &[F], gamma: F, rc: &[Vec<F>]) -> Model<F> {
    let ext = MatPair::new(m_e.to_vec());
    let int = MatPair::new(ones_diag(diag_m1));
    let diag = Arc::new(diag_m1.to_vec());
    let mut steps = vec![Step::Mat(ext.clone())];
    for r in 0..rf + rp {
        if r >= rf / 2 && r < rf / 2 + rp {
            steps.push(Step::Sbox0(d));
            steps.push(Step::OnesDiag(diag.clone(), int.clone()));
        } else {
            steps.push(Step::Neptune(gamma));
            steps.push(Step::Mat(ext.clone()));
        }
        steps.push(Step::Add(rc[r].clone()));
    }
    Model { t, steps }
}

// ---------------------------------------------------------------- Grain LFSR and integer arithmetic

pub struct Grain {
    b: std::collections::VecDeque<u8>,
}
impl Grain {
    pub fn new(sbox: u32, n: u32, t: u32, rf: u32, rp: u32) -> Self {
        let mut b = std::collections::VecDeque::new();
        let mut put = |v: u32, w: u32| (0..w).rev().for_each(|i| b.push_back((v >> i & 1) as u8));
        put(1, 2);
        put(sbox, 4);
        put(n, 12);
        put(t, 12);
        put(rf, 10);
        put(rp, 10);
        put((1 << 30) - 1, 30);
        let mut g = Grain { b };
        for _ in 0..160 {
            g.step();
        }
        g
    }
    fn step(&mut self) -> u8 {
        let b = &self.b;
        let n = b[62] ^ b[51] ^ b[38] ^ b[23] ^ b[13] ^ b[0];
        self.b.pop_front();
        self.b.push_back(n);
        n
    }
    fn bit(&mut self) -> u8 {
        while self.step() == 0 {
            self.step();
        }
        self.step()
    }
    pub fn bits(&mut self, n: u32) -> BigUint {
        let mut bytes = vec![0u8; n.div_ceil(8) as usize];
        let l = bytes.len();
        for i in (0..n as usize).rev() {
            if self.bit() == 1 {
                bytes[l - 1 - i / 8] |= 1 << (i % 8);
            }
        }
        BigUint::from_bytes_be(&bytes)
    }
    pub fn below(&mut self, p: &BigUint) -> BigUint {
        loop {
            let v = self.bits(p.bits() as u32);
            if v < *p {
                return v;
            }
        }
    }
}

/// Published constants in plain integers.
pub struct Published {
    pub p: BigUint,
    pub t: usize,
    pub d: usize,
    pub rf: usize,
    pub rp: usize,
    pub rc: Vec<Vec<BigUint>>,
    /// Poseidon: the matrix. Poseidon2: the internal matrix.
    pub mat: Vec<Vec<BigUint>>,
    pub diag_m1: Vec<BigUint>,
}

pub fn published_p2(p: &BigUint, t: usize, d: usize, rf: usize, rp: usize, tries: usize) -> Published {
    let n = p.bits() as u32;
    let mut g = Grain::new(0, n, t as u32, rf as u32, rp as u32);
    let rc = (0..rf + rp)
        .map(|r| {
            if r >= rf / 2 && r < rf / 2 + rp {
                let mut v = vec![BigUint::default(); t];
                v[0] = g.below(p);
                v
            } else {
                (0..t).map(|_| g.below(p)).collect()
            }
        })
        .collect();
    let one = BigUint::from(1u32);
    let diag_m1: Vec<BigUint> = match t {
        2 => vec![1u32.into(), 2u32.into()],
        3 => vec![1u32.into(), 1u32.into(), 2u32.into()],
        _ => {
            let mut v = vec![];
            for _ in 0..=tries {
                v = (0..t).map(|_| (g.bits(n) + p - &one) % p).collect();
            }
            v
        }
    };
    let mat = (0..t).map(|i| (0..t).map(|j| if i == j { (&diag_m1[i] + &one) % p } else { one.clone() }).collect()).collect();
    Published { p: p.clone(), t, d, rf, rp, rc, mat, diag_m1 }
}

pub fn published_p1(p: &BigUint, t: usize, d: usize, rf: usize, rp: usize) -> Published {
    let n = p.bits() as u32;
    let mut g = Grain::new(1, n, t as u32, rf as u32, rp as u32);
    let rc = (0..rf + rp).map(|_| (0..t).map(|_| g.below(p)).collect()).collect();
    let mut xs: Vec<BigUint>;
    loop {
        xs = (0..2 * t).map(|_| g.bits(n) % p).collect();
        let mut s = xs.clone();
        s.sort();
        s.dedup();
        if s.len() == 2 * t {
            break;
        }
    }
    let pm2 = p - 2u32;
    let mat = (0..t).map(|i| (0..t).map(|j| ((&xs[i] + &xs[t + j]) % p).modpow(&pm2, p)).collect()).collect();
    Published { p: p.clone(), t, d, rf, rp, rc, mat, diag_m1: vec![] }
}

impl Published {
    fn sbox(&self, x: &BigUint) -> BigUint {
        x.modpow(&BigUint::from(self.d), &self.p)
    }
    fn mul(&self, m: &[Vec<BigUint>], x: &[BigUint]) -> Vec<BigUint> {
        m.iter().map(|r| r.iter().zip(x).fold(BigUint::default(), |a, (u, v)| a + u * v) % &self.p).collect()
    }
    pub fn poseidon(&self, x: &[BigUint]) -> Vec<BigUint> {
        let mut s = x.to_vec();
        for r in 0..self.rf + self.rp {
            for i in 0..self.t {
                s[i] = (&s[i] + &self.rc[r][i]) % &self.p;
            }
            let part = r >= self.rf / 2 && r < self.rf / 2 + self.rp;
            for x in s.iter_mut().take(if part { 1 } else { self.t }) {
                *x = self.sbox(x);
            }
            s = self.mul(&self.mat, &s);
        }
        s
    }
    fn external(&self, x: &[BigUint]) -> Vec<BigUint> {
        let t = self.t;
        let sum = |it: &mut dyn Iterator<Item = &BigUint>| it.fold(BigUint::default(), |a, b| a + b);
        if t < 4 {
            let s = sum(&mut x.iter());
            return x.iter().map(|v| (v + &s) % &self.p).collect();
        }
        let m4: [[u32; 4]; 4] = [[5, 7, 1, 3], [4, 6, 1, 1], [1, 3, 5, 7], [1, 1, 4, 6]];
        let y: Vec<BigUint> = (0..t).map(|i| (0..4).fold(BigUint::default(), |a, j| a + &x[i / 4 * 4 + j] * m4[i % 4][j])).collect();
        if t == 4 {
            return y.iter().map(|v| v % &self.p).collect();
        }
        let cs: Vec<BigUint> = (0..4).map(|l| sum(&mut y.iter().skip(l).step_by(4))).collect();
        (0..t).map(|i| (&y[i] + &cs[i % 4]) % &self.p).collect()
    }
    pub fn poseidon2(&self, x: &[BigUint]) -> Vec<BigUint> {
        let mut s = self.external(x);
        for r in 0..self.rf + self.rp {
            let part = r >= self.rf / 2 && r < self.rf / 2 + self.rp;
            for i in 0..self.t {
                s[i] = (&s[i] + &self.rc[r][i]) % &self.p;
            }
            for x in s.iter_mut().take(if part { 1 } else { self.t }) {
                *x = self.sbox(x);
            }
            s = if part { self.mul(&self.mat, &s) } else { self.external(&s) };
        }
        s
    }
}
