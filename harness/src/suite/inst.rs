//! Fields, shipped instances, and generated parameter sets of the four hashes.
use super::core::*;
use super::model::*;
use ark_ff::fields::{Fp384, Fp64, MontBackend, MontConfig};
use ark_ff::PrimeField;
use std::sync::Arc;
use z::fields::{babybear::FpBabyBear, bls12::FpBLS12, bn256::FpBN256, goldilocks::FpGoldiLocks, pallas::FpPallas, vesta::FpVesta};
use z::gmimc::{gmimc::Gmimc, gmimc_params::GmimcParams};
use z::merkle_tree::merkle_tree_fp::MerkleTreeHash;
use z::neptune::{neptune::Neptune, neptune_params::NeptuneParams};
use z::poseidon::{poseidon::Poseidon, poseidon_params::PoseidonParams};
use z::poseidon2::{poseidon2::Poseidon2, poseidon2_params::Poseidon2Params};

// Fields of a user's own: Fermat primes, over which every degree is a
// permutation exponent and whole state spaces can be enumerated, a Mersenne
// prime and a 381-bit prime.
#[derive(MontConfig)]
#[modulus = "17"]
#[generator = "3"]
pub struct F17Config;
pub type F17 = Fp64<MontBackend<F17Config, 1>>;
#[derive(MontConfig)]
#[modulus = "257"]
#[generator = "3"]
pub struct F257Config;
pub type F257 = Fp64<MontBackend<F257Config, 1>>;
#[derive(MontConfig)]
#[modulus = "2305843009213693951"]
#[generator = "37"]
pub struct FM61Config;
pub type FM61 = Fp64<MontBackend<FM61Config, 1>>;
#[derive(MontConfig)]
#[modulus = "4002409555221667393417789825735904156556882819939007885332058136124031650490837864442687629129015664037894272559787"]
#[generator = "2"]
pub struct F381Config;
pub type F381 = Fp384<MontBackend<F381Config, 6>>;

pub const N_FIELDS: usize = 10;
pub const N_SHIPPED: usize = 6;

#[macro_export]
macro_rules! with_shipped {
    ($i:expr, $F:ident => $body:expr) => {
        match $i {
            0 => { type $F = z::fields::goldilocks::FpGoldiLocks; $body }
            1 => { type $F = z::fields::babybear::FpBabyBear; $body }
            2 => { type $F = z::fields::bls12::FpBLS12; $body }
            3 => { type $F = z::fields::bn256::FpBN256; $body }
            4 => { type $F = z::fields::pallas::FpPallas; $body }
            _ => { type $F = z::fields::vesta::FpVesta; $body }
        }
    };
}
#[macro_export]
macro_rules! with_field {
    ($i:expr, $F:ident => $body:expr) => {
        match $i {
            0 => { type $F = $crate::suite::inst::F17; $body }
            1 => { type $F = $crate::suite::inst::F257; $body }
            2 => { type $F = $crate::suite::inst::FM61; $body }
            3 => { type $F = $crate::suite::inst::F381; $body }
            k => $crate::with_shipped!(k - 4, $F => $body),
        }
    };
}
pub const FIELD_NAMES: [&str; 10] = ["F17", "F257", "M61", "F381", "GoldiLocks", "BabyBear", "BLS12", "BN256", "Pallas", "Vesta"];

// ---------------------------------------------------------------- a hash object of any kind

#[derive(Clone)]
pub enum AnyHash<F: PrimeField> {
    P2(Poseidon2<F>),
    P1(Poseidon<F>),
    Gm(Gmimc<F>),
    Nep(Neptune<F>),
}

pub const KINDS: [&str; 4] = ["Poseidon2", "Poseidon", "GMiMC", "Neptune"];

impl<F: PrimeField> AnyHash<F> {
    pub fn kind(&self) -> usize {
        match self {
            AnyHash::P2(_) => 0,
            AnyHash::P1(_) => 1,
            AnyHash::Gm(_) => 2,
            AnyHash::Nep(_) => 3,
        }
    }
    pub fn t(&self) -> usize {
        match self {
            AnyHash::P2(h) => h.get_t(),
            AnyHash::P1(h) => h.get_t(),
            AnyHash::Gm(h) => h.get_t(),
            AnyHash::Nep(h) => h.get_t(),
        }
    }
    /// number of ways to compute the permutation
    pub fn paths(&self) -> usize {
        match self {
            AnyHash::P1(_) | AnyHash::Gm(_) => 2,
            _ => 1,
        }
    }
    pub fn perm(&self, path: usize, x: &[F]) -> Vec<F> {
        match self {
            AnyHash::P2(h) => h.permutation(x),
            AnyHash::P1(h) if path == 0 => h.permutation(x),
            AnyHash::P1(h) => h.permutation_not_opt(x),
            AnyHash::Gm(h) if path == 0 => h.permutation(x),
            AnyHash::Gm(h) => h.permutation_not_opt(x),
            AnyHash::Nep(h) => h.permutation(x),
        }
    }
    pub fn compress(&self, x: &[&F]) -> F {
        match self {
            AnyHash::P2(h) => h.compress(x),
            AnyHash::P1(h) => h.compress(x),
            AnyHash::Gm(h) => h.compress(x),
            AnyHash::Nep(h) => h.compress(x),
        }
    }
    pub fn compress_width(&self) -> usize {
        if self.kind() == 3 {
            4
        } else {
            3
        }
    }
}

/// The four trees' hash parameter is an instance of this.
impl<F: PrimeField> MerkleTreeHash<F> for AnyHash<F> {
    fn compress(&self, input: &[&F]) -> F {
        AnyHash::compress(self, input)
    }
}

pub struct Built<F: PrimeField> {
    pub hash: AnyHash<F>,
    /// specification with this object's constants (None only for GMiMC and
    /// Neptune when the read hooks are not there)
    pub model: Option<Model<F>>,
    /// another step list of the same function, used for aiming only
    pub aim: Option<Model<F>>,
    pub desc: String,
    pub keep: Keep<F>,
    /// width, degree, full and partial rounds (GMiMC: rounds, 0)
    pub nums: [usize; 4],
    /// matrix (Poseidon2: one row, the diagonal) and round constants
    pub tables: Option<(Mat<F>, Mat<F>)>,
}

/// Another parameter set with the same numbers and a few or all constants
/// different.
pub fn twin<F: PrimeField>(t: &mut Tape, b: &Built<F>) -> Result<Built<F>, String> {
    let [w, d, rf, rp] = b.nums;
    match (b.hash.kind(), &b.tables) {
        (2, _) => build_gm(w, d, rf),
        (3, _) => build_nep(w, d, rf, rp),
        (kind, Some((m, rc))) => {
            let (mut m, mut rc) = (m.clone(), rc.clone());
            for _ in 0..t.range(1, 2) {
                match t.below(6) {
                    0 if !rc.is_empty() => {
                        let i = t.below(rc.len());
                        let j = if kind == 0 { 0 } else { t.below(w) };
                        rc[i][j] += F::one();
                    }
                    1 if rc.len() > 1 => {
                        let l = rc.len() - 1;
                        rc.swap(l - 1, l);
                    }
                    2 if kind == 0 && w > 3 => {
                        let j = t.below(w);
                        m[0][j] += F::one();
                    }
                    2 | 3 if kind == 1 => {
                        let (i, j) = (t.below(w), t.below(w));
                        let mut x = m.clone();
                        x[i][j] += F::one();
                        if decomposes(&x) {
                            m = x;
                        }
                    }
                    4 if kind == 1 => m = decomposable(t, w),
                    _ => {
                        let l = rc.len();
                        let mut ex = t.expander();
                        rc.iter_mut().for_each(|r| r.iter_mut().for_each(|x| *x = ex.field()));
                        if kind == 0 {
                            for r in rf / 2..l - rf / 2 {
                                rc[r].iter_mut().skip(1).for_each(|x| *x = F::zero());
                            }
                        }
                    }
                }
            }
            if kind == 0 {
                build_p2(w, d, rf, rp, &m[0], &rc)
            } else {
                build_p1(w, d, rf, rp, &m, &rc)
            }
        }
        _ => Err("HARNESS: no tables".into()),
    }
}

pub fn decomposes<F: PrimeField>(m: &Mat<F>) -> bool {
    let n = m.len();
    mat_inv(m).is_some() && (n < 2 || mat_inv(&m[1..].iter().map(|r| r[1..].to_vec()).collect::<Vec<_>>()).is_some())
}

/// The parameter object, to make further handles from.
#[derive(Clone)]
pub enum Keep<F: PrimeField> {
    P2(Arc<Poseidon2Params<F>>),
    P1(Arc<PoseidonParams<F>>),
    Gm(Arc<GmimcParams<F>>),
    Nep(Arc<NeptuneParams<F>>),
}
impl<F: PrimeField> Keep<F> {
    pub fn handle(&self) -> AnyHash<F> {
        match self {
            Keep::P2(p) => AnyHash::P2(Poseidon2::new(p)),
            Keep::P1(p) => AnyHash::P1(Poseidon::new(p)),
            Keep::Gm(p) => AnyHash::Gm(Gmimc::new(p)),
            Keep::Nep(p) => AnyHash::Nep(Neptune::new(p)),
        }
    }
    /// a copy of the parameters by value
    pub fn copy(&self) -> Keep<F> {
        match self {
            Keep::P2(p) => Keep::P2(Arc::new((**p).clone())),
            Keep::P1(p) => Keep::P1(Arc::new((**p).clone())),
            Keep::Gm(p) => Keep::Gm(Arc::new((**p).clone())),
            Keep::Nep(p) => Keep::Nep(Arc::new((**p).clone())),
        }
    }
}

// ---------------------------------------------------------------- hooks

#[cfg(zkhash_verif)]
pub const HOOKS: bool = true;
#[cfg(not(zkhash_verif))]
pub const HOOKS: bool = false;

#[cfg(zkhash_verif)]
pub fn gm_rc<F: PrimeField>(p: &GmimcParams<F>) -> Option<Vec<F>> {
    Some(p.verif_round_constants())
}
#[cfg(not(zkhash_verif))]
pub fn gm_rc<F: PrimeField>(_: &GmimcParams<F>) -> Option<Vec<F>> {
    None
}

pub struct NepConsts<F> {
    pub rc: Vec<Vec<F>>,
    pub m_e: Vec<Vec<F>>,
    pub diag_m1: Vec<F>,
    pub gamma: F,
}
#[cfg(zkhash_verif)]
pub fn nep_consts<F: PrimeField>(p: &NeptuneParams<F>) -> Option<NepConsts<F>> {
    Some(NepConsts { rc: p.verif_round_constants(), m_e: p.verif_external_matrix(), diag_m1: p.verif_internal_diag_m_1(), gamma: p.verif_gamma() })
}
#[cfg(not(zkhash_verif))]
pub fn nep_consts<F: PrimeField>(_: &NeptuneParams<F>) -> Option<NepConsts<F>> {
    None
}

pub fn nep_model_of<F: PrimeField>(p: &NeptuneParams<F>, t: usize, d: usize, rf: usize, rp: usize) -> Result<Option<Model<F>>, String> {
    let Some(c) = nep_consts(p) else { return Ok(None) };
    if c.rc.len() != rf + rp || c.rc.iter().any(|r| r.len() != t) || c.diag_m1.len() != t {
        return Err(format!("Neptune(t={t}, rf={rf}, rp={rp}): constants have shape {}x{:?}, diagonal {}", c.rc.len(), c.rc.first().map(|x| x.len()), c.diag_m1.len()));
    }
    let m_e = nep_fixed::<F>(t).unwrap_or(c.m_e);
    Ok(Some(nep_model(t, d, rf, rp, &m_e, &c.diag_m1, c.gamma, &c.rc)))
}

// ---------------------------------------------------------------- parameter generators

/// A table of constants: zero, random, sparse, tiny, from a small pool, by row.
pub fn table<F: PrimeField>(t: &mut Tape, rows: usize, cols: usize) -> Vec<Vec<F>> {
    let mode = t.below(8);
    let mut ex = t.expander();
    let pool: Vec<F> = match mode {
        3 | 4 => (0..3).map(|_| elem(t, &[])).collect(),
        _ => vec![],
    };
    (0..rows)
        .map(|_| {
            let zero_row = mode == 2 && ex.below(3) == 0;
            let row_val: F = ex.field();
            (0..cols)
                .map(|_| match mode {
                    0 => F::zero(),
                    1 => F::from(ex.below(3) as u64),
                    2 if zero_row => F::zero(),
                    3 | 4 => pool[ex.below(pool.len())],
                    5 => row_val,
                    _ => ex.field(),
                })
                .collect()
        })
        .collect()
}

pub fn count(t: &mut Tape, small: usize, big: usize) -> usize {
    if t.chance(1, 8) {
        let m = mined();
        let v = m.int(t);
        if v <= big as u128 && t.chance(1, 2) {
            return v as usize;
        }
        t.range(0, big)
    } else {
        t.range(0, small)
    }
}

pub const P2_WIDTHS: [usize; 8] = [2, 3, 4, 8, 12, 16, 20, 24];
pub const P2_DEGREES: [usize; 4] = [3, 5, 7, 11];
pub const DEGREES: [usize; 3] = [3, 5, 7];

/// Restriction on generated parameter sets.
#[derive(Clone, Copy, Default)]
pub struct Want {
    pub width: Option<usize>,
    pub max_width: Option<usize>,
    pub degree: Option<usize>,
    pub small: bool,
    pub perm_exp: bool,
    /// full and partial rounds (GMiMC: their sum)
    pub rounds: Option<(usize, usize)>,
}

fn degree<F: PrimeField>(t: &mut Tape, w: Want, all: &[usize]) -> usize {
    if let Some(d) = w.degree {
        return d;
    }
    let ok: Vec<usize> = all.iter().copied().filter(|d| !w.perm_exp || is_perm_exp::<F>(*d)).collect();
    // over some fields no supported exponent is a permutation
    if ok.is_empty() {
        return *t.pick(all);
    }
    *t.pick(&ok)
}

pub fn gen_p2<F: PrimeField>(t: &mut Tape, w: Want) -> Result<Built<F>, String> {
    let width = w.width.unwrap_or_else(|| {
        let ws: Vec<usize> = P2_WIDTHS.iter().copied().filter(|x| *x <= w.max_width.unwrap_or(24)).collect();
        *t.pick(&ws)
    });
    let d = degree::<F>(t, w, &P2_DEGREES);
    let mut rf = 2 * count(t, 3, if w.small { 3 } else { 8 });
    let mut rp = count(t, 6, if w.small { 8 } else { 130 });
    if let Some(r) = w.rounds {
        (rf, rp) = r;
    }
    let diag: Vec<F> = match width {
        2 => vec![F::from(1u64), F::from(2u64)],
        3 => vec![F::from(1u64), F::from(1u64), F::from(2u64)],
        _ => table(t, 1, width).pop().unwrap(),
    };
    let mut rc: Vec<Vec<F>> = table(t, rf + rp, width);
    // partial rounds use the first constant only, whatever else the row holds
    if t.chance(3, 4) {
        for r in rf / 2..rf / 2 + rp {
            for x in rc[r].iter_mut().skip(1) {
                *x = F::zero();
            }
        }
    }
    build_p2(width, d, rf, rp, &diag, &rc)
}

pub fn build_p2<F: PrimeField>(width: usize, d: usize, rf: usize, rp: usize, diag: &[F], rc: &[Vec<F>]) -> Result<Built<F>, String> {
    let desc = format!("Poseidon2(t={width}, d={d}, rf={rf}, rp={rp})");
    let m_int = ones_diag(diag);
    let p = Arc::new(must(&format!("{desc} construction"), || Poseidon2Params::new(width, d, rf, rp, diag, &m_int, rc))?);
    Ok(Built { hash: AnyHash::P2(Poseidon2::new(&p)), model: Some(p2_model(width, d, rf, rp, diag, rc)), aim: None, desc, keep: Keep::P2(p), nums: [width, d, rf, rp], tables: Some((vec![diag.to_vec()], rc.to_vec())) })
}

/// A matrix that is invertible and whose lower right block is invertible.
pub fn decomposable<F: PrimeField>(t: &mut Tape, n: usize) -> Mat<F> {
    let kind = t.below(10);
    let mut ex = t.expander();
    for attempt in 0..40 {
        let mut m: Mat<F> = match (attempt > 30, kind) {
            (false, 0) => identity(n),
            (false, 1) => {
                // Cauchy
                let xs: Vec<F> = (0..2 * n).map(|_| ex.field()).collect();
                (0..n).map(|i| (0..n).map(|j| (xs[i] + xs[n + j]).inverse().unwrap_or(F::zero())).collect()).collect()
            }
            (false, 2) => {
                let r: Vec<F> = (0..n).map(|_| if ex.below(2) == 0 { F::from(ex.below(5) as u64) } else { ex.field() }).collect();
                (0..n).map(|i| (0..n).map(|j| r[(j + n - i) % n]).collect()).collect()
            }
            (false, 3) => (0..n).map(|i| (0..n).map(|j| if j >= i { ex.field() } else { F::zero() }).collect()).collect(),
            (false, 4) => (0..n).map(|i| (0..n).map(|j| if j <= i { ex.field() } else { F::zero() }).collect()).collect(),
            (false, 5) => {
                // sparse: permutation of the lower block plus some entries
                let mut m = vec![vec![F::zero(); n]; n];
                let mut perm: Vec<usize> = (1..n).collect();
                for i in (1..perm.len()).rev() {
                    perm.swap(i, ex.below(i + 1));
                }
                for (i, j) in perm.iter().enumerate() {
                    m[i + 1][*j] = if ex.below(2) == 0 { F::one() } else { ex.field() };
                }
                m[0][0] = ex.field();
                for _ in 0..ex.below(n + 1) {
                    let (i, j) = (ex.below(n), ex.below(n));
                    m[i][j] = ex.field();
                }
                m
            }
            (false, 6) => (0..n).map(|_| (0..n).map(|_| F::from(ex.below(3) as u64)).collect()).collect(),
            (false, 7) => {
                let mut m: Mat<F> = (0..n).map(|_| (0..n).map(|_| ex.field()).collect()).collect();
                for i in 0..n {
                    for j in 0..i {
                        m[i][j] = m[j][i];
                    }
                }
                m
            }
            _ => (0..n).map(|_| (0..n).map(|_| ex.field()).collect()).collect(),
        };
        if kind == 8 {
            m[0][0] = F::zero();
        }
        if mat_inv(&m).is_some() && (n < 2 || mat_inv(&m[1..].iter().map(|r| r[1..].to_vec()).collect::<Vec<_>>()).is_some()) {
            return m;
        }
    }
    identity(n)
}

pub fn gen_p1<F: PrimeField>(t: &mut Tape, w: Want) -> Result<Built<F>, String> {
    let width = w.width.unwrap_or_else(|| t.range(2, w.max_width.unwrap_or(10)));
    let d = degree::<F>(t, w, &DEGREES);
    let mut rf = 2 * count(t, 3, if w.small { 3 } else { 8 });
    let mut rp = 1 + count(t, 6, if w.small { 8 } else { 90 });
    if let Some(r) = w.rounds {
        (rf, rp) = (r.0, r.1.max(1));
    }
    let mds = decomposable::<F>(t, width);
    let rc = table::<F>(t, rf + rp, width);
    build_p1(width, d, rf, rp, &mds, &rc)
}

pub fn build_p1<F: PrimeField>(width: usize, d: usize, rf: usize, rp: usize, mds: &[Vec<F>], rc: &[Vec<F>]) -> Result<Built<F>, String> {
    let desc = format!("Poseidon(t={width}, d={d}, rf={rf}, rp={rp})");
    let p = Arc::new(must(&format!("{desc} construction"), || PoseidonParams::new(width, d, rf, rp, mds, rc))?);
    Ok(Built { hash: AnyHash::P1(Poseidon::new(&p)), model: Some(p1_model(width, d, rf, rp, mds, rc)), aim: p1_opt_model(width, d, rf, rp, mds, rc), desc, keep: Keep::P1(p), nums: [width, d, rf, rp], tables: Some((mds.to_vec(), rc.to_vec())) })
}

pub fn gen_gm<F: PrimeField>(t: &mut Tape, w: Want) -> Result<Built<F>, String> {
    let width = w.width.unwrap_or_else(|| t.range(2, w.max_width.unwrap_or(14)));
    let d = degree::<F>(t, w, &DEGREES);
    let rounds = match t.below(4) {
        0 => t.range(1, width + 2),
        1 => t.range(1, 3 * width),
        2 => 1 + count(t, 8, if w.small { 40 } else { 1300 }),
        _ => width * t.range(1, 3) + t.below(3) - 1,
    };
    let rounds = w.rounds.map(|r| (r.0 + r.1).max(1)).unwrap_or(rounds);
    build_gm(width, d, rounds)
}

pub fn build_gm<F: PrimeField>(width: usize, d: usize, rounds: usize) -> Result<Built<F>, String> {
    let desc = format!("GMiMC(t={width}, d={d}, rounds={rounds})");
    let p = Arc::new(must(&format!("{desc} construction"), || GmimcParams::<F>::new(width, d, rounds))?);
    if p.get_t() != width || p.get_rounds() != rounds {
        return Err(format!("{desc}: get_t() = {}, get_rounds() = {}", p.get_t(), p.get_rounds()));
    }
    let model = match gm_rc(&p) {
        Some(rc) if rc.len() != rounds => return Err(format!("{desc}: {} round constants", rc.len())),
        Some(rc) => Some(gm_model(width, d, &rc)),
        None => None,
    };
    Ok(Built { hash: AnyHash::Gm(Gmimc::new(&p)), model, aim: None, desc, keep: Keep::Gm(p), nums: [width, d, rounds, 0], tables: None })
}

pub fn gen_nep<F: PrimeField>(t: &mut Tape, w: Want) -> Result<Built<F>, String> {
    let width = w.width.unwrap_or_else(|| 2 * t.range(1, w.max_width.unwrap_or(12) / 2));
    let d = degree::<F>(t, w, &DEGREES);
    let mut rf = 2 * count(t, 3, if w.small { 3 } else { 6 });
    let mut rp = count(t, 6, if w.small { 8 } else { 130 });
    if let Some(r) = w.rounds {
        (rf, rp) = r;
    }
    build_nep(width, d, rf, rp)
}

pub fn build_nep<F: PrimeField>(width: usize, d: usize, rf: usize, rp: usize) -> Result<Built<F>, String> {
    let desc = format!("Neptune(t={width}, d={d}, rf={rf}, rp={rp})");
    let p = Arc::new(must(&format!("{desc} construction"), || NeptuneParams::<F>::new(width, d, rf, rp))?);
    let model = nep_model_of(&p, width, d, rf, rp)?;
    Ok(Built { hash: AnyHash::Nep(Neptune::new(&p)), model, aim: None, desc, keep: Keep::Nep(p), nums: [width, d, rf, rp], tables: None })
}

pub fn gen_kind<F: PrimeField>(t: &mut Tape, kind: usize, w: Want) -> Result<Built<F>, String> {
    match kind {
        0 => gen_p2(t, w),
        1 => gen_p1(t, w),
        2 => gen_gm(t, w),
        _ => gen_nep(t, w),
    }
}

/// Every constant of a parameter set, where known.
fn constants<F: PrimeField>(b: &Built<F>) -> Vec<F> {
    match (&b.tables, &b.keep) {
        (Some((m, rc)), _) => m.iter().chain(rc).flatten().copied().collect(),
        (_, Keep::Gm(p)) => gm_rc(p).unwrap_or_default(),
        (_, Keep::Nep(p)) => nep_consts(p).map(|c| { let mut v = c.rc.concat(); v.extend(c.diag_m1); v.push(c.gamma); v }).unwrap_or_default(),
        _ => vec![],
    }
}

/// An input: generated directly, or the preimage of a special state in front
/// of some step of the computation.
pub fn aimed_input<F: PrimeField>(t: &mut Tape, b: &Built<F>) -> (Vec<F>, &'static str) {
    let w = b.hash.t();
    let state = |t: &mut Tape, w: usize| -> Vec<F> {
        let mut v = state::<F>(t, w);
        if w > 0 && t.chance(1, 10) {
            // some elements are constants of the set, or their negations
            let c = constants(b);
            if !c.is_empty() {
                for _ in 0..t.range(1, 3) {
                    let (i, x) = (t.below(w), c[t.below(c.len())]);
                    v[i] = if t.chance(1, 2) { x } else { -x };
                }
            }
        }
        v
    };
    let m = match (&b.model, &b.aim) {
        (Some(m), Some(a)) => {
            if t.chance(1, 2) {
                a
            } else {
                m
            }
        }
        (Some(m), None) => m,
        _ => return (state(t, w), "direct"),
    };
    if m.t == w && !m.steps.is_empty() && t.chance(1, 2) {
        let k = t.range(1, m.steps.len());
        let mut target = state(t, w);
        // the state meets the constants about to be added: equal to them, or cancelled by them
        if t.chance(1, 4) {
            let next: Option<Vec<F>> = m.steps[k - 1..].iter().take(4).find_map(|s| match s {
                Step::Add(c) => Some(c.clone()),
                Step::Add0(c) | Step::Gmimc(c, _) | Step::Neptune(c) => Some(vec![*c]),
                _ => None,
            });
            if let Some(c) = next {
                let sign = if t.chance(1, 2) { F::one() } else { -F::one() };
                let one = t.chance(1, 2).then(|| t.below(c.len()));
                for (i, c) in c.iter().enumerate() {
                    if i < w && one.is_none_or(|o| o == i) {
                        target[i] = sign * c;
                    }
                }
            }
        }
        if let Some(x) = m.input_for(k, &target) {
            return (x, "aimed");
        }
    }
    (state(t, w), "direct")
}

// ---------------------------------------------------------------- shipped instances

pub struct P2Inst<F: PrimeField> {
    pub name: &'static str,
    pub t: usize,
    pub d: usize,
    pub rf: usize,
    pub rp: usize,
    /// which candidate of the Grain stream is the internal diagonal
    pub tries: usize,
    pub params: fn() -> Arc<Poseidon2Params<F>>,
    pub rc: fn() -> Vec<Vec<F>>,
    pub diag: fn() -> Vec<F>,
    pub mat: fn() -> Vec<Vec<F>>,
}
pub struct P1Inst<F: PrimeField> {
    pub name: &'static str,
    pub t: usize,
    pub d: usize,
    pub rf: usize,
    pub rp: usize,
    pub params: fn() -> Arc<PoseidonParams<F>>,
    pub rc: fn() -> Vec<Vec<F>>,
    pub mds: fn() -> Vec<Vec<F>>,
}
pub struct GmInst<F: PrimeField> {
    pub name: &'static str,
    pub t: usize,
    pub d: usize,
    pub params: fn() -> Arc<GmimcParams<F>>,
}
pub struct NepInst<F: PrimeField> {
    pub name: &'static str,
    pub t: usize,
    pub d: usize,
    pub params: fn() -> Arc<NeptuneParams<F>>,
}

pub trait Shipped: PrimeField {
    fn p2() -> Vec<P2Inst<Self>>;
    fn p1() -> Vec<P1Inst<Self>>;
    fn gm() -> Vec<GmInst<Self>>;
    fn nep() -> Vec<NepInst<Self>>;
}

macro_rules! p2i {
    ($m:ident, $p:ident, $t:expr, $d:expr, $rf:expr, $rp:expr, $tries:expr, $rc:ident, $diag:ident, $mat:ident) => {{
        use z::poseidon2::$m as m;
        P2Inst { name: stringify!($p), t: $t, d: $d, rf: $rf, rp: $rp, tries: $tries, params: || m::$p.clone(), rc: || m::$rc.clone(), diag: || m::$diag.clone(), mat: || m::$mat.clone() }
    }};
}
macro_rules! p1i {
    ($m:ident, $p:ident, $t:expr, $d:expr, $rf:expr, $rp:expr, $rc:ident, $mds:ident) => {{
        use z::poseidon::$m as m;
        P1Inst { name: stringify!($p), t: $t, d: $d, rf: $rf, rp: $rp, params: || m::$p.clone(), rc: || m::$rc.clone(), mds: || m::$mds.clone() }
    }};
}
macro_rules! gmi {
    ($m:ident, $d:expr, $($p:ident $t:expr),*) => {{
        use z::gmimc::$m as m;
        vec![$(GmInst { name: stringify!($p), t: $t, d: $d, params: || m::$p.clone() }),*]
    }};
}
macro_rules! nepi {
    ($d:expr, $($p:ident $t:expr),*) => {{
        use z::neptune::neptune_instances as m;
        vec![$(NepInst { name: stringify!($p), t: $t, d: $d, params: || m::$p.clone() }),*]
    }};
}

impl Shipped for FpGoldiLocks {
    fn p2() -> Vec<P2Inst<Self>> {
        vec![
            p2i!(poseidon2_instance_goldilocks, POSEIDON2_GOLDILOCKS_8_PARAMS, 8, 7, 8, 22, 3, RC8, MAT_DIAG8_M_1, MAT_INTERNAL8),
            p2i!(poseidon2_instance_goldilocks, POSEIDON2_GOLDILOCKS_12_PARAMS, 12, 7, 8, 22, 8, RC12, MAT_DIAG12_M_1, MAT_INTERNAL12),
            p2i!(poseidon2_instance_goldilocks, POSEIDON2_GOLDILOCKS_16_PARAMS, 16, 7, 8, 22, 46, RC16, MAT_DIAG16_M_1, MAT_INTERNAL16),
            p2i!(poseidon2_instance_goldilocks, POSEIDON2_GOLDILOCKS_20_PARAMS, 20, 7, 8, 22, 6, RC20, MAT_DIAG20_M_1, MAT_INTERNAL20),
        ]
    }
    fn p1() -> Vec<P1Inst<Self>> {
        vec![
            p1i!(poseidon_instance_goldilocks, POSEIDON_GOLDILOCKS_8_PARAMS, 8, 7, 8, 22, RC8, MDS8),
            p1i!(poseidon_instance_goldilocks, POSEIDON_GOLDILOCKS_12_PARAMS, 12, 7, 8, 22, RC12, MDS12),
            p1i!(poseidon_instance_goldilocks, POSEIDON_GOLDILOCKS_16_PARAMS, 16, 7, 8, 22, RC16, MDS16),
            p1i!(poseidon_instance_goldilocks, POSEIDON_GOLDILOCKS_20_PARAMS, 20, 7, 8, 22, RC20, MDS20),
        ]
    }
    fn gm() -> Vec<GmInst<Self>> {
        gmi!(gmimc_instance_goldilocks, 7, GMIMC_GOLDILOCKS_8_PARAMS 8, GMIMC_GOLDILOCKS_12_PARAMS 12, GMIMC_GOLDILOCKS_16_PARAMS 16, GMIMC_GOLDILOCKS_20_PARAMS 20)
    }
    fn nep() -> Vec<NepInst<Self>> {
        nepi!(7, NEPTUNE_GOLDILOCKS_8_PARAMS 8, NEPTUNE_GOLDILOCKS_12_PARAMS 12, NEPTUNE_GOLDILOCKS_16_PARAMS 16, NEPTUNE_GOLDILOCKS_20_PARAMS 20)
    }
}
impl Shipped for FpBabyBear {
    fn p2() -> Vec<P2Inst<Self>> {
        vec![
            p2i!(poseidon2_instance_babybear, POSEIDON2_BABYBEAR_16_PARAMS, 16, 7, 8, 13, 18, RC16, MAT_DIAG16_M_1, MAT_INTERNAL16),
            p2i!(poseidon2_instance_babybear, POSEIDON2_BABYBEAR_24_PARAMS, 24, 7, 8, 21, 4, RC24, MAT_DIAG24_M_1, MAT_INTERNAL24),
        ]
    }
    fn p1() -> Vec<P1Inst<Self>> {
        vec![
            p1i!(poseidon_instance_babybear, POSEIDON_BABYBEAR_16_PARAMS, 16, 7, 8, 13, RC16, MDS16),
            p1i!(poseidon_instance_babybear, POSEIDON_BABYBEAR_24_PARAMS, 24, 7, 8, 21, RC24, MDS24),
        ]
    }
    fn gm() -> Vec<GmInst<Self>> {
        gmi!(gmimc_instance_babybear, 7, GMIMC_BABYBEAR_16_PARAMS 16, GMIMC_BABYBEAR_24_PARAMS 24)
    }
    fn nep() -> Vec<NepInst<Self>> {
        nepi!(7, NEPTUNE_BABYBEAR_16_PARAMS 16, NEPTUNE_BABYBEAR_24_PARAMS 24)
    }
}
impl Shipped for FpBLS12 {
    fn p2() -> Vec<P2Inst<Self>> {
        vec![
            p2i!(poseidon2_instance_bls12, POSEIDON2_BLS_2_PARAMS, 2, 5, 8, 56, 0, RC2, MAT_DIAG2_M_1, MAT_INTERNAL2),
            p2i!(poseidon2_instance_bls12, POSEIDON2_BLS_3_PARAMS, 3, 5, 8, 56, 0, RC3, MAT_DIAG3_M_1, MAT_INTERNAL3),
            p2i!(poseidon2_instance_bls12, POSEIDON2_BLS_4_PARAMS, 4, 5, 8, 56, 0, RC4, MAT_DIAG4_M_1, MAT_INTERNAL4),
            p2i!(poseidon2_instance_bls12, POSEIDON2_BLS_8_PARAMS, 8, 5, 8, 57, 8, RC8, MAT_DIAG8_M_1, MAT_INTERNAL8),
        ]
    }
    fn p1() -> Vec<P1Inst<Self>> {
        vec![
            p1i!(poseidon_instance_bls12, POSEIDON_BLS_2_PARAMS, 2, 5, 8, 56, RC2, MDS2),
            p1i!(poseidon_instance_bls12, POSEIDON_BLS_3_PARAMS, 3, 5, 8, 56, RC3, MDS3),
            p1i!(poseidon_instance_bls12, POSEIDON_BLS_4_PARAMS, 4, 5, 8, 56, RC4, MDS4),
            p1i!(poseidon_instance_bls12, POSEIDON_BLS_8_PARAMS, 8, 5, 8, 57, RC8, MDS8),
        ]
    }
    fn gm() -> Vec<GmInst<Self>> {
        gmi!(gmimc_instance_bls12, 5, GMIMC_BLS_2_PARAMS 2, GMIMC_BLS_3_PARAMS 3, GMIMC_BLS_4_PARAMS 4, GMIMC_BLS_5_PARAMS 5, GMIMC_BLS_8_PARAMS 8, GMIMC_BLS_9_PARAMS 9, GMIMC_BLS_12_PARAMS 12, GMIMC_BLS_16_PARAMS 16, GMIMC_BLS_20_PARAMS 20, GMIMC_BLS_24_PARAMS 24)
    }
    fn nep() -> Vec<NepInst<Self>> {
        nepi!(5, NEPTUNE_BLS_4_PARAMS 4, NEPTUNE_BLS_8_PARAMS 8)
    }
}
impl Shipped for FpBN256 {
    fn p2() -> Vec<P2Inst<Self>> {
        vec![p2i!(poseidon2_instance_bn256, POSEIDON2_BN256_PARAMS, 3, 5, 8, 56, 0, RC3, MAT_DIAG3_M_1, MAT_INTERNAL3)]
    }
    fn p1() -> Vec<P1Inst<Self>> {
        vec![p1i!(poseidon_instance_bn256, POSEIDON_BN_PARAMS, 3, 5, 8, 56, RC3, MDS3)]
    }
    fn gm() -> Vec<GmInst<Self>> {
        gmi!(gmimc_instance_bn256, 5, GMIMC_BN_3_PARAMS 3, GMIMC_BN_4_PARAMS 4, GMIMC_BN_5_PARAMS 5, GMIMC_BN_8_PARAMS 8, GMIMC_BN_9_PARAMS 9, GMIMC_BN_12_PARAMS 12, GMIMC_BN_16_PARAMS 16, GMIMC_BN_20_PARAMS 20, GMIMC_BN_24_PARAMS 24)
    }
    fn nep() -> Vec<NepInst<Self>> {
        nepi!(5, NEPTUNE_BN_PARAMS 4)
    }
}
impl Shipped for FpPallas {
    fn p2() -> Vec<P2Inst<Self>> {
        vec![
            p2i!(poseidon2_instance_pallas, POSEIDON2_PALLAS_3_PARAMS, 3, 5, 8, 56, 0, RC3, MAT_DIAG3_M_1, MAT_INTERNAL3),
            p2i!(poseidon2_instance_pallas, POSEIDON2_PALLAS_4_PARAMS, 4, 5, 8, 56, 0, RC4, MAT_DIAG4_M_1, MAT_INTERNAL4),
            p2i!(poseidon2_instance_pallas, POSEIDON2_PALLAS_8_PARAMS, 8, 5, 8, 57, 6, RC8, MAT_DIAG8_M_1, MAT_INTERNAL8),
        ]
    }
    fn p1() -> Vec<P1Inst<Self>> {
        vec![
            p1i!(poseidon_instance_pallas, POSEIDON_PALLAS_3_PARAMS, 3, 5, 8, 56, RC3, MDS3),
            p1i!(poseidon_instance_pallas, POSEIDON_PALLAS_4_PARAMS, 4, 5, 8, 56, RC4, MDS4),
            p1i!(poseidon_instance_pallas, POSEIDON_PALLAS_8_PARAMS, 8, 5, 8, 57, RC8, MDS8),
        ]
    }
    fn gm() -> Vec<GmInst<Self>> {
        gmi!(gmimc_instance_pallas, 5, GMIMC_PALLAS_3_PARAMS 3, GMIMC_PALLAS_4_PARAMS 4, GMIMC_PALLAS_5_PARAMS 5, GMIMC_PALLAS_8_PARAMS 8, GMIMC_PALLAS_9_PARAMS 9, GMIMC_PALLAS_12_PARAMS 12, GMIMC_PALLAS_16_PARAMS 16, GMIMC_PALLAS_20_PARAMS 20, GMIMC_PALLAS_24_PARAMS 24)
    }
    fn nep() -> Vec<NepInst<Self>> {
        nepi!(5, NEPTUNE_PALLAS_4_PARAMS 4, NEPTUNE_PALLAS_8_PARAMS 8)
    }
}
impl Shipped for FpVesta {
    fn p2() -> Vec<P2Inst<Self>> {
        vec![p2i!(poseidon2_instance_vesta, POSEIDON2_VESTA_PARAMS, 3, 5, 8, 56, 0, RC3, MAT_DIAG3_M_1, MAT_INTERNAL3)]
    }
    fn p1() -> Vec<P1Inst<Self>> {
        vec![p1i!(poseidon_instance_vesta, POSEIDON_VESTA_PARAMS, 3, 5, 8, 56, RC3, MDS3)]
    }
    fn gm() -> Vec<GmInst<Self>> {
        gmi!(gmimc_instance_vesta, 5, GMIMC_VESTA_3_PARAMS 3, GMIMC_VESTA_4_PARAMS 4, GMIMC_VESTA_5_PARAMS 5, GMIMC_VESTA_8_PARAMS 8, GMIMC_VESTA_9_PARAMS 9, GMIMC_VESTA_12_PARAMS 12, GMIMC_VESTA_16_PARAMS 16, GMIMC_VESTA_20_PARAMS 20, GMIMC_VESTA_24_PARAMS 24)
    }
    fn nep() -> Vec<NepInst<Self>> {
        nepi!(5, NEPTUNE_VESTA_PARAMS 4)
    }
}

/// Shipped instances of one field as (kind, number).
pub fn shipped_list<F: Shipped>() -> Vec<(usize, usize)> {
    let mut v = vec![];
    for (k, n) in [F::p2().len(), F::p1().len(), F::gm().len(), F::nep().len()].into_iter().enumerate() {
        v.extend((0..n).map(|i| (k, i)));
    }
    v
}

/// A shipped instance with the specification's model of it. For Poseidon and
/// Poseidon2 the model uses the exported tables; for GMiMC and Neptune the
/// instance's own constants.
pub fn shipped<F: Shipped>(kind: usize, i: usize) -> Result<Built<F>, String> {
    match kind {
        0 => {
            let s = &F::p2()[i];
            let p = must(s.name, s.params)?;
            let (rc, diag) = must(s.name, || ((s.rc)(), (s.diag)()))?;
            if rc.len() != s.rf + s.rp || rc.iter().any(|r| r.len() != s.t) || diag.len() != s.t {
                return Err(format!("{}: constant tables have the wrong shape", s.name));
            }
            Ok(Built { hash: AnyHash::P2(Poseidon2::new(&p)), model: Some(p2_model(s.t, s.d, s.rf, s.rp, &diag, &rc)), aim: None, desc: s.name.into(), keep: Keep::P2(p), nums: [s.t, s.d, s.rf, s.rp], tables: Some((vec![diag], rc)) })
        }
        1 => {
            let s = &F::p1()[i];
            let p = must(s.name, s.params)?;
            let (rc, mds) = must(s.name, || ((s.rc)(), (s.mds)()))?;
            if rc.len() != s.rf + s.rp || rc.iter().any(|r| r.len() != s.t) || mds.len() != s.t || mds.iter().any(|r| r.len() != s.t) {
                return Err(format!("{}: constant tables have the wrong shape", s.name));
            }
            Ok(Built { hash: AnyHash::P1(Poseidon::new(&p)), model: Some(p1_model(s.t, s.d, s.rf, s.rp, &mds, &rc)), aim: p1_opt_model(s.t, s.d, s.rf, s.rp, &mds, &rc), desc: s.name.into(), keep: Keep::P1(p), nums: [s.t, s.d, s.rf, s.rp], tables: Some((mds, rc)) })
        }
        2 => {
            let s = &F::gm()[i];
            let p = must(s.name, s.params)?;
            let model = gm_rc(&p).map(|rc| gm_model(s.t, s.d, &rc));
            Ok(Built { hash: AnyHash::Gm(Gmimc::new(&p)), model, aim: None, desc: s.name.into(), nums: [s.t, s.d, p.get_rounds(), 0], tables: None, keep: Keep::Gm(p) })
        }
        _ => {
            let s = &F::nep()[i];
            let p = must(s.name, s.params)?;
            let model = match nep_consts(&p) {
                None => None,
                Some(c) if c.rc.len() < 6 => return Err(format!("{}: only {} rounds", s.name, c.rc.len())),
                Some(c) => nep_model_of(&p, s.t, s.d, 6, c.rc.len() - 6)?,
            };
            Ok(Built { hash: AnyHash::Nep(Neptune::new(&p)), model, aim: None, desc: s.name.into(), nums: [s.t, s.d, 6, nep_consts(&p).map(|c| c.rc.len() - 6).unwrap_or(10)], tables: None, keep: Keep::Nep(p) })
        }
    }
}

/// Cached models of the shipped instances of one field (building the Poseidon
/// ones is expensive).
pub struct Cache<F: PrimeField> {
    slots: Vec<std::sync::OnceLock<Result<Arc<Built<F>>, String>>>,
    pub list: Vec<(usize, usize)>,
}
impl<F: Shipped> Cache<F> {
    pub fn new() -> Self {
        let list = shipped_list::<F>();
        Cache { slots: list.iter().map(|_| Default::default()).collect(), list }
    }
    pub fn get(&self, k: usize) -> Result<Arc<Built<F>>, String> {
        let (kind, i) = self.list[k];
        self.slots[k].get_or_init(|| shipped::<F>(kind, i).map(Arc::new)).clone()
    }
}
