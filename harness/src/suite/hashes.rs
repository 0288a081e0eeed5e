//! C01-C07, C09, C12, C22: the four permutations, their instances, compression.
use super::core::*;
use super::inst::*;
use super::model::*;
use crate::{with_field, with_shipped};
use ark_ff::{One, PrimeField, Zero};
use num_bigint::BigUint;
use std::any::{Any, TypeId};
use std::collections::HashMap;
use std::sync::{Arc, Mutex, OnceLock};

// ---------------------------------------------------------------- caches over shipped instances

pub fn cache<F: Shipped>() -> &'static Cache<F> {
    static M: OnceLock<Mutex<HashMap<TypeId, &'static (dyn Any + Send + Sync)>>> = OnceLock::new();
    let m = M.get_or_init(Default::default);
    let mut g = m.lock().unwrap_or_else(|e| e.into_inner());
    let e = g.entry(TypeId::of::<F>()).or_insert_with(|| Box::leak(Box::new(Cache::<F>::new())));
    (*e).downcast_ref::<Cache<F>>().unwrap()
}

/// All shipped instances as (field, index in that field's cache), filtered.
pub fn all_shipped(keep: impl Fn(usize, usize) -> bool) -> Vec<(usize, usize)> {
    let mut v = vec![];
    for f in 0..N_SHIPPED {
        with_shipped!(f, F => {
            for (k, (kind, i)) in shipped_list::<F>().into_iter().enumerate() {
                let t = match kind { 0 => F::p2()[i].t, 1 => F::p1()[i].t, 2 => F::gm()[i].t, _ => F::nep()[i].t };
                if keep(kind, t) { v.push((f, k)); }
            }
        });
    }
    v
}

// ---------------------------------------------------------------- agreement with the specification

fn check_states<F: PrimeField>(t: &mut Tape, b: &Built<F>, paths: &[usize], states: usize) -> Result<(bool, &'static str, Vec<F>), String> {
    let mut last = (vec![], "direct");
    let mut nt = false;
    for _ in 0..states {
        let (x, how) = aimed_input(t, b);
        let outs: Vec<Vec<F>> = paths
            .iter()
            .map(|p| must(&format!("{} path {p} on {}", b.desc, show_vec(&x)), || b.hash.perm(*p, &x)))
            .collect::<Result<_, _>>()?;
        if let Some(m) = &b.model {
            let want = m.eval(&x);
            for (p, o) in paths.iter().zip(&outs) {
                same(&format!("{} path {p} on {}", b.desc, show_vec(&x)), o, &want)?;
            }
        }
        for o in &outs[1..] {
            same(&format!("{}: the two paths disagree on {}", b.desc, show_vec(&x)), o, &outs[0])?;
        }
        nt |= how == "aimed" || x.iter().any(|e| *e != x[0]);
        last = (x, how);
    }
    Ok((nt, last.1, last.0))
}

fn check_width<F: PrimeField>(b: &Built<F>, w: usize) -> Result<(), String> {
    let t = must("get_t", || b.hash.t())?;
    if t == w {
        Ok(())
    } else {
        Err(format!("{}: get_t() = {t}, expected {w}", b.desc))
    }
}

/// parameter sets × states
fn params_sub(kind: usize, widths: Vec<usize>, paths: &'static [usize], quick: usize, thorough: usize) -> Sub {
    sub("generated parameter sets", 160, quick, thorough, move |t| {
        let f = t.strat(N_FIELDS);
        let w = widths[t.strat(widths.len())];
        let degs: &[usize] = if kind == 0 { &P2_DEGREES } else { &DEGREES };
        let d = degs[t.strat(degs.len())];
        with_field!(f, F => {
            let b = gen_kind::<F>(t, kind, Want { width: Some(w), degree: Some(d), ..Want::default() })?;
            check_width(&b, w)?;
            let n = t.range(1, 3);
            let (nt, how, x) = check_states(t, &b, paths, n)?;
            info(t, nt, format!("{} {how}", FIELD_NAMES[f]), || format!("{} over {}, input {}", b.desc, FIELD_NAMES[f], show_vec(&x)))
        })
    })
}

/// wide states with few rounds (every width up to 48, around larger powers of two and literals of the sources)
fn wide_sub(kind: usize, paths: &'static [usize], quick: usize, thorough: usize) -> Sub {
    let top = [24usize, 48, 300, 72][kind];
    let mut ws: std::collections::BTreeSet<usize> = (2..=48).collect();
    for k in 5..9 {
        ws.extend([(1 << k) - 1, 1 << k, (1 << k) + 1, (1 << k) + 2, 3 << (k - 1)]);
    }
    for i in &mined().ints {
        if *i < 1000 {
            ws.extend([(*i as usize).saturating_sub(1), *i as usize, *i as usize + 1]);
        }
    }
    let ws: Vec<usize> = ws.into_iter().filter(|w| *w >= 2 && *w <= top && (kind != 3 || w % 2 == 0) && (kind != 0 || P2_WIDTHS.contains(w))).collect();
    sub("wide states", 160, quick, thorough, move |t| {
        let w = ws[t.strat(ws.len())];
        let f = [1usize, 4, 6, 9][t.below(4)] % N_FIELDS;
        let rounds = (2 * t.below(3), t.range(1, if kind == 2 { 2 * w } else { 3 }));
        with_field!(f, F => {
            let b = gen_kind::<F>(t, kind, Want { width: Some(w), rounds: Some(rounds), ..Want::default() })?;
            check_width(&b, w)?;
            let (nt, how, x) = check_states(t, &b, paths, 2)?;
            info(t, nt, format!("{} {how}", FIELD_NAMES[f]), || format!("{} over {}, input {}", b.desc, FIELD_NAMES[f], show_vec(&x)))
        })
    })
}

/// many rounds on narrow states
fn deep_sub(kind: usize, paths: &'static [usize], quick: usize, thorough: usize) -> Sub {
    sub("many rounds", 160, quick, thorough, move |t| {
        let w = if kind == 3 { [2, 4, 6, 8][t.strat(4)] } else { [2, 3, 4, 8][t.strat(4)] };
        let f = [0usize, 1, 4, 8][t.below(4)] % N_FIELDS;
        let around = |t: &mut Tape, top: usize| -> usize {
            match t.below(3) {
                0 => t.range(0, top),
                1 => ((1usize << t.range(1, 9)) + t.below(3)).saturating_sub(1).min(top),
                _ => {
                    let m = mined();
                    let v = m.int(t).min(top as u128) as usize;
                    (v * t.range(1, 3) + t.below(3)).saturating_sub(1).min(top)
                }
            }
        };
        let rf = if t.chance(1, 2) { 2 * around(t, 160) } else { 2 * t.below(5) };
        let huge = w <= 3 && kind != 1 && t.strat(40) < 2;
        let rp = if huge { 65534 + t.below(5) } else { around(t, if kind == 2 { 3000 } else if kind == 1 && w == 8 { 150 } else { 600 }) };
        with_field!(f, F => {
            let b = gen_kind::<F>(t, kind, Want { width: Some(w), rounds: Some((rf, rp)), ..Want::default() })?;
            let (nt, how, x) = check_states(t, &b, paths, 1)?;
            info(t, nt, format!("{} {how}", FIELD_NAMES[f]), || format!("{} over {}, input {}", b.desc, FIELD_NAMES[f], show_vec(&x)))
        })
    })
}

/// one parameter set over F17 (or F257), every state of a whole small space
fn tiny_sub(kind: usize, widths: &'static [usize], paths: &'static [usize], quick: usize, thorough: usize) -> Sub {
    sub("every state of a small space", 80, quick, thorough, move |t| {
        let w = *t.pick(widths);
        let b = gen_kind::<F17>(t, kind, Want { width: Some(w), small: true, ..Want::default() })?;
        let n = 17usize.pow(w as u32);
        let Some(m) = &b.model else { return info(t, false, "no hooks", || b.desc.clone()) };
        for i in 0..n {
            let x = nth_state::<F17>(i, w, 17);
            let want = m.eval(&x);
            for p in paths {
                let o = must(&format!("{} path {p} on {}", b.desc, show_vec(&x)), || b.hash.perm(*p, &x))?;
                same(&format!("{} over F17 path {p} on {}", b.desc, show_vec(&x)), &o, &want)?;
            }
        }
        info(t, !m.steps.is_empty(), format!("17^{w} states"), || format!("{} over F17, all {n} states", b.desc))
    })
}

pub fn nth_state<F: PrimeField>(mut i: usize, w: usize, p: usize) -> Vec<F> {
    (0..w)
        .map(|_| {
            let d = i % p;
            i /= p;
            F::from(d as u64)
        })
        .collect()
}

/// shipped instances × states
fn shipped_sub(kind: usize, paths: &'static [usize], quick: usize, thorough: usize) -> Sub {
    let list = all_shipped(|k, _| k == kind);
    sub("shipped instances", 60, quick, thorough, move |t| {
        let (f, k) = list[t.strat(list.len())];
        with_shipped!(f, F => {
            let b = cache::<F>().get(k)?;
            let (nt, how, x) = check_states(t, &b, paths, 1)?;
            info(t, nt, format!("{} {how}", b.desc), || format!("{}, input {}", b.desc, show_vec(&x)))
        })
    })
}

pub fn c01() -> Prop {
    Prop {
        id: "C01",
        rule: "A case is a field, a generated Poseidon2 parameter set (width, degree, up to several hundred rounds, constants, diagonal) or a shipped instance, and 1-3 input states, given directly or aimed at a special intermediate state by inverting the model; or one parameter set over F17 with all states. Oracle: step-by-step model of the specification with explicit matrices. Non-trivial: some state is not constant, or was aimed.",
        subs: vec![
            params_sub(0, P2_WIDTHS.to_vec(), &[0], 32000, 320000),
            tiny_sub(0, &[2, 3], &[0], 120, 3000),
            shipped_sub(0, &[0], 12000, 120000),
            deep_sub(0, &[0], 2400, 24000),
        ],
    }
}

fn p1_widths() -> Vec<usize> {
    vec![2, 3, 4, 5, 6, 7, 8, 9, 2, 3, 4, 11, 12, 2, 3, 5, 16, 4, 3, 20, 2, 3, 6, 24]
}

pub fn c02() -> Prop {
    Prop {
        id: "C02",
        rule: "A case is a field, a generated Poseidon parameter set (width 2-48, degree, up to several hundred rounds, decomposable matrix of one of ten shapes, constants) or a shipped instance, and 1-3 input states, direct or aimed at a special intermediate state; or one parameter set over F17 with all states. Oracle: step model of the specification. Non-trivial: some state is not constant, or was aimed.",
        subs: vec![
            params_sub(1, p1_widths(), &[1], 9600, 144000),
            tiny_sub(1, &[2, 3], &[1], 80, 2000),
            shipped_sub(1, &[1], 10500, 105000),
            wide_sub(1, &[1], 600, 6000),
            deep_sub(1, &[1], 800, 8000),
        ],
    }
}

pub fn c03() -> Prop {
    Prop {
        id: "C03",
        rule: "As C02, with both the optimised and the plain path run; both must equal the specification model, hence each other. Inputs are also aimed at special intermediate states of the sparse-matrix form. Non-trivial: some state is not constant, or was aimed.",
        subs: vec![
            params_sub(1, p1_widths(), &[0, 1], 9600, 144000),
            tiny_sub(1, &[2, 3], &[0, 1], 80, 2000),
            shipped_sub(1, &[0, 1], 10500, 105000),
            wide_sub(1, &[0, 1], 600, 6000),
            deep_sub(1, &[0, 1], 800, 8000),
        ],
    }
}

pub fn c04() -> Prop {
    let mut widths: Vec<usize> = (2..=17).collect();
    widths.extend([20, 24, 25, 32, 33, 64]);
    Prop {
        id: "C04",
        rule: "A case is a field, a GMiMC parameter set (width 2-300, degree, 1 to some thousand rounds, constants drawn by the library and read through the hook) or a shipped instance, and 1-3 input states, direct or aimed; or one parameter set over F17 with all states. Both paths are compared with the Feistel model. Non-trivial: some state is not constant, or was aimed.",
        subs: vec![
            params_sub(2, widths, &[0, 1], 60000, 1200000),
            tiny_sub(2, &[2, 3], &[0, 1], 400, 6000),
            shipped_sub(2, &[0, 1], 12900, 129000),
            wide_sub(2, &[0, 1], 2400, 24000),
            deep_sub(2, &[0, 1], 2400, 24000),
        ],
    }
}

pub fn c05() -> Prop {
    Prop {
        id: "C05",
        rule: "A case is a field, a Neptune parameter set (even width 2-72, degree, rounds up to several hundred, constants drawn by the library and read through the hook) or a shipped instance, and 1-3 input states, direct or aimed; or one parameter set over F17 with all states. Oracle: step model of the specification, for widths 4 and 8 with the documented matrices. Non-trivial: some state is not constant, or was aimed.",
        subs: vec![
            params_sub(3, vec![2, 4, 6, 8, 10, 12, 4, 8, 16, 4, 8, 20, 24, 4, 8, 14], &[0], 38400, 384000),
            tiny_sub(3, &[2], &[0], 600, 6000),
            shipped_sub(3, &[0], 12000, 120000),
            wide_sub(3, &[0], 2400, 24000),
            deep_sub(3, &[0], 2400, 24000),
        ],
    }
}

// ---------------------------------------------------------------- C06

fn published(f: usize, k: usize) -> Arc<Published> {
    static M: OnceLock<Mutex<HashMap<(usize, usize), Arc<Published>>>> = OnceLock::new();
    let m = M.get_or_init(Default::default);
    if let Some(p) = m.lock().unwrap_or_else(|e| e.into_inner()).get(&(f, k)) {
        return p.clone();
    }
    let p = Arc::new(with_shipped!(f, F => {
        let (kind, i) = shipped_list::<F>()[k];
        let p = documented_prime(f);
        if kind == 0 {
            let s = &F::p2()[i];
            published_p2(&p, s.t, s.d, s.rf, s.rp, s.tries)
        } else {
            let s = &F::p1()[i];
            published_p1(&p, s.t, s.d, s.rf, s.rp)
        }
    }));
    m.lock().unwrap_or_else(|e| e.into_inner()).insert((f, k), p.clone());
    p
}

pub const PRIMES: [&str; 6] = [
    "18446744069414584321",
    "2013265921",
    "52435875175126190479447740508185965837690552500527637822603658699938581184513",
    "21888242871839275222246405745257275088548364400416034343698204186575808495617",
    "28948022309329048855892746252171976963363056481941560715954676764349967630337",
    "28948022309329048855892746252171976963363056481941647379679742748393362948097",
];
pub fn documented_prime(f: usize) -> BigUint {
    BigUint::parse_bytes(PRIMES[f].as_bytes(), 10).unwrap()
}

fn tab<F: PrimeField>(what: &str, got: &[Vec<F>], want: &[Vec<BigUint>]) -> Result<(), String> {
    let g: Vec<Vec<BigUint>> = got.iter().map(|r| r.iter().map(to_big).collect()).collect();
    if g == want {
        return Ok(());
    }
    if g.len() != want.len() {
        return Err(format!("{what}: {} rows, published {}", g.len(), want.len()));
    }
    for (i, (a, b)) in g.iter().zip(want).enumerate() {
        for j in 0..a.len().max(b.len()) {
            if a.get(j) != b.get(j) {
                return Err(format!("{what}: entry [{i}][{j}] is {:?}, published {:?}", a.get(j).map(|x| x.to_str_radix(16)), b.get(j).map(|x| x.to_str_radix(16))));
            }
        }
    }
    Ok(())
}

pub fn c06() -> Prop {
    let list = all_shipped(|k, _| k < 2);
    let list2 = list.clone();
    Prop {
        id: "C06",
        rule: "A case is one of the 30 shipped Poseidon and Poseidon2 instances and an input state, direct or aimed at a special intermediate state. Oracle: the permutation in plain integer arithmetic modulo the documented prime, with round constants and matrices regenerated from the Grain LFSR. The exported tables are compared entry by entry with the regenerated ones. Non-trivial: every case (each instance and input is a distinct point), inputs that are constant not counted.",
        subs: vec![
            sub("exported tables", 1, 30, 30, move |t| {
                let (f, k) = list[t.strat(list.len())];
                let pb = published(f, k);
                with_shipped!(f, F => {
                    let (kind, i) = shipped_list::<F>()[k];
                    let name;
                    let n;
                    if kind == 0 {
                        let s = &F::p2()[i];
                        name = s.name;
                        let (rc, diag, mat) = must(name, || ((s.rc)(), (s.diag)(), (s.mat)()))?;
                        tab(&format!("{name} round constants"), &rc, &pb.rc)?;
                        tab(&format!("{name} diagonal"), &[diag], &[pb.diag_m1.clone()])?;
                        tab(&format!("{name} internal matrix"), &mat, &pb.mat)?;
                        n = pb.rc.len() * pb.t + pb.t + pb.t * pb.t;
                    } else {
                        let s = &F::p1()[i];
                        name = s.name;
                        let (rc, mds) = must(name, || ((s.rc)(), (s.mds)()))?;
                        tab(&format!("{name} round constants"), &rc, &pb.rc)?;
                        tab(&format!("{name} matrix"), &mds, &pb.mat)?;
                        n = pb.rc.len() * pb.t + pb.t * pb.t;
                    }
                    info(t, true, "tables", || format!("{name}: {n} constants equal the regenerated ones"))
                })
            }),
            sub("outputs", 60, 15000, 150000, move |t| {
                let (f, k) = list2[t.strat(list2.len())];
                let pb = published(f, k);
                with_shipped!(f, F => {
                    let b = cache::<F>().get(k)?;
                    if b.hash.t() != pb.t {
                        return Err(format!("{}: get_t() = {}", b.desc, b.hash.t()));
                    }
                    let (x, how) = aimed_input(t, &b);
                    let xi: Vec<BigUint> = x.iter().map(to_big).collect();
                    let want = if b.hash.kind() == 0 { pb.poseidon2(&xi) } else { pb.poseidon(&xi) };
                    for p in 0..b.hash.paths() {
                        let o = must(&b.desc, || b.hash.perm(p, &x))?;
                        tab(&format!("{} path {p} on {}", b.desc, show_vec(&x)), &[o], &[want.clone()])?;
                    }
                    info(t, x.iter().any(|e| *e != x[0]) || how == "aimed", format!("{} {how}", b.desc), || format!("{}, input {}", b.desc, show_vec(&x)))
                })
            }),
        ],
    }
}

// ---------------------------------------------------------------- C07

fn log2_big(p: &BigUint) -> f64 {
    let b = p.bits();
    if b <= 60 {
        return (p.iter_u64_digits().next().unwrap_or(0) as f64).log2();
    }
    let top = (p >> (b - 60)).iter_u64_digits().next().unwrap() as f64;
    top.log2() + (b - 60) as f64
}

pub fn c07() -> Prop {
    let list = all_shipped(|k, _| k >= 2);
    let list2 = list.clone();
    Prop {
        id: "C07",
        rule: "A case is one of the 55 shipped GMiMC and Neptune instances and an input state, direct or aimed. Oracle: the full-length model with the smallest permutation exponent of the documented prime, the width in the name and the instance's own constants (hook); round numbers against the documented formula; constants of an instance pairwise distinct (at most three coincidences over 31-bit BabyBear). Non-trivial: input not constant, or aimed; every strength case.",
        subs: vec![
            sub("strength", 1, 55, 55, move |t| {
                let (f, k) = list[t.strat(list.len())];
                let p = documented_prime(f);
                let lp = log2_big(&p);
                let pm1 = &p - 1u32;
                let d = (3usize..).find(|d| num_integer::Integer::gcd(&BigUint::from(*d), &pm1) == BigUint::from(1u32)).unwrap();
                with_shipped!(f, F => {
                    if modulus::<F>() != p { return Err(format!("{} has modulus {}", FIELD_NAMES[f + 4], modulus::<F>())); }
                    let (kind, i) = shipped_list::<F>()[k];
                    let (name, w) = if kind == 2 { (F::gm()[i].name, F::gm()[i].t) } else { (F::nep()[i].name, F::nep()[i].t) };
                    let dd = if kind == 2 { F::gm()[i].d } else { F::nep()[i].d };
                    if dd != d { return Err(format!("HARNESS: degree table of {name}")); }
                    let b = cache::<F>().get(k)?;
                    check_width(&b, w)?;
                    let logd = |x: f64| x / (d as f64).log2();
                    let (need, have, flat): (usize, Option<usize>, Option<Vec<F>>) = match &b.keep {
                        Keep::Gm(p) => {
                            let need = (2 + 2 * (w + w * w)).max((2.0 * logd(lp)).ceil() as usize + 2 * w);
                            if p.get_t() != w { return Err(format!("{name}: get_t() = {}", p.get_t())); }
                            let rc = gm_rc(p);
                            if let Some(rc) = &rc { if rc.len() < p.get_rounds() { return Err(format!("{name}: {} round constants for {} rounds", rc.len(), p.get_rounds())); } }
                            (need, Some(p.get_rounds()), rc)
                        }
                        Keep::Nep(p) => {
                            let inner = (logd(lp.min(128.0) - 6.0) + 3.0 + w as f64 + logd((w as f64).log2())).ceil();
                            let need = 6 + (1.125 * inner).ceil() as usize;
                            let c = nep_consts(p);
                            (need, c.as_ref().map(|c| c.rc.len()), c.map(|c| c.rc.concat()))
                        }
                        _ => unreachable!(),
                    };
                    if let Some(h) = have {
                        if h < need { return Err(format!("{name}: {h} rounds, the documented formula gives {need}")); }
                    }
                    if let Some(rc) = flat {
                        let mut s: Vec<BigUint> = rc.iter().map(to_big).collect();
                        let n = s.len();
                        s.sort();
                        s.dedup();
                        let slack = if p.bits() < 40 { 3 } else { 0 };
                        if s.len() + slack < n { return Err(format!("{name}: only {} of {n} round constants are distinct", s.len())); }
                    }
                    info(t, true, "strength", || format!("{name}: width {w}, degree {d}, rounds {have:?} >= {need}"))
                })
            }),
            sub("full-length", 60, 27500, 275000, move |t| {
                let (f, k) = list2[t.strat(list2.len())];
                with_shipped!(f, F => {
                    let b = cache::<F>().get(k)?;
                    let paths: &[usize] = if b.hash.kind() == 2 { &[0, 1] } else { &[0] };
                    // the object's round count, not just its constants
                    if let (Keep::Gm(p), Some(m)) = (&b.keep, &b.model) {
                        if m.steps.len() != 2 * p.get_rounds() - 1 {
                            return Err(format!("{}: {} rounds but {} constants", b.desc, p.get_rounds(), m.steps.len() / 2 + 1));
                        }
                    }
                    let (nt, how, x) = check_states(t, &b, paths, 1)?;
                    info(t, nt, format!("{} {how}", b.desc), || format!("{}, input {}", b.desc, show_vec(&x)))
                })
            }),
        ],
    }
}

// ---------------------------------------------------------------- C09

/// Every state of p^w; the permutation must hit every state exactly once.
fn exhaust<F: PrimeField>(b: &Built<F>, p: usize) -> Result<usize, String> {
    let w = b.hash.t();
    let n = p.pow(w as u32);
    for path in 0..b.hash.paths() {
        let mut owner = vec![u32::MAX; n];
        for i in 0..n {
            let x = nth_state::<F>(i, w, p);
            let o = must(&format!("{} path {path} on {}", b.desc, show_vec(&x)), || b.hash.perm(path, &x))?;
            if o.len() != w {
                return Err(format!("{} path {path}: {} output elements", b.desc, o.len()));
            }
            let j = o.iter().rev().fold(0usize, |a, e| a * p + to_big(e).iter_u64_digits().next().unwrap_or(0) as usize);
            if owner[j] != u32::MAX {
                return Err(format!("{} over F{p} path {path}: {} and {} both map to {}", b.desc, show_vec(&nth_state::<F>(owner[j] as usize, w, p)), show_vec(&x), show_vec(&o)));
            }
            owner[j] = i as u32;
        }
    }
    Ok(n)
}

pub fn c09() -> Prop {
    let list = all_shipped(|_, _| true);
    let list2 = list.clone();
    Prop {
        id: "C09",
        rule: "Cases: (a) a generated parameter set with permutation exponent and invertible layers over F17 or F257, with all of its states (up to 83521) enumerated and outputs checked to be pairwise distinct; (b) a generated set or shipped instance and an output or intermediate state, whose preimage is computed with the inverted model and must map back; (c) two different related states, whose outputs must differ. Non-trivial: parameter sets with at least one round, pairs that differ in few elements.",
        subs: vec![
            sub("all states distinct", 80, 400, 6000, |t| {
                let kind = t.strat(4);
                let big = t.chance(1, 6);
                let w = if t.chance(1, 12) && !big { Want { width: Some(4), ..Want::default() } } else { Want { width: Some(if kind == 3 { 2 } else if big { 2 } else { t.range(2, 3) }), ..Want::default() } };
                let w = Want { small: true, perm_exp: true, ..w };
                macro_rules! go { ($F:ty, $p:expr) => {{
                    let b = gen_kind::<$F>(t, kind, w)?;
                    if !b.model.as_ref().map(|m| m.bijective()).unwrap_or(kind == 2) {
                        return info(t, false, "not invertible", || b.desc.clone());
                    }
                    let n = exhaust(&b, $p)?;
                    info(t, b.model.as_ref().map(|m| m.steps.len() > 1).unwrap_or(true), format!("{} {n} states", KINDS[kind]), || format!("{} over F{}: {n} states, all outputs distinct", b.desc, $p))
                }}}
                if big { go!(F257, 257) } else { go!(F17, 17) }
            }),
            sub("preimage of any output, generated sets", 120, 24000, 480000, |t| {
                let f = t.strat(N_FIELDS);
                let kind = t.strat(4);
                with_field!(f, F => {
                    let b = gen_kind::<F>(t, kind, Want { perm_exp: true, ..Want::default() })?;
                    preimage(t, &b, FIELD_NAMES[f], false)
                })
            }),
            sub("preimage of any output, shipped", 60, 17000, 170000, move |t| {
                let (f, k) = list[t.strat(list.len())];
                with_shipped!(f, F => {
                    let b = cache::<F>().get(k)?;
                    preimage(t, &b, FIELD_NAMES[f + 4], true)
                })
            }),
            sub("different states, different outputs", 80, 17000, 170000, move |t| {
                let (f, k) = list2[t.strat(list2.len())];
                with_shipped!(f, F => {
                    let b = cache::<F>().get(k)?;
                    let w = b.hash.t();
                    let (x, _) = aimed_input(t, &b);
                    let mut y = x.clone();
                    let what = t.below(5);
                    match what {
                        0 => { let i = t.below(w); y[i] = elem(t, &x); }
                        1 => { let (i, j) = (t.below(w), t.below(w)); y.swap(i, j); }
                        2 => { let k = t.range(1, w - 1); y.rotate_right(k); }
                        3 => { let (i, j) = (t.below(w), t.below(w)); let d: F = elem(t, &[]); y[i] += d; y[j] -= d; }
                        _ => { let i = t.below(w); y[i] = -y[i]; }
                    }
                    if x == y { return info(t, false, "equal", || b.desc.clone()); }
                    let path = t.below(b.hash.paths());
                    let (a, c) = (must(&b.desc, || b.hash.perm(path, &x))?, must(&b.desc, || b.hash.perm(path, &y))?);
                    if a == c { return Err(format!("{} path {path}: {} and {} both map to {}", b.desc, show_vec(&x), show_vec(&y), show_vec(&a))); }
                    info(t, true, ["one element", "exchange", "rotation", "opposite changes", "negation"][what], || format!("{}: {} / {}", b.desc, show_vec(&x), show_vec(&y)))
                })
            }),
        ],
    }
}

fn preimage<F: PrimeField>(t: &mut Tape, b: &Built<F>, field: &str, shipped: bool) -> Result<Info, String> {
    let Some(m) = b.model.as_ref().filter(|m| m.bijective()) else {
        if shipped && b.model.is_some() {
            return Err(format!("{}: a layer of this shipped instance is not invertible, so different states have the same output", b.desc));
        }
        return info(t, false, "not invertible", || b.desc.clone());
    };
    // an output, or an intermediate state; both determine the input
    let (x, y, how) = if t.chance(1, 2) {
        let (x, how) = aimed_input(t, b);
        let y = m.eval(&x);
        (x, y, how)
    } else {
        let y = state::<F>(t, b.hash.t());
        let x = m.input_for(m.steps.len(), &y).ok_or("HARNESS: inverse")?;
        (x, y, "output")
    };
    for p in 0..b.hash.paths() {
        let o = must(&b.desc, || b.hash.perm(p, &x))?;
        same(&format!("{} path {p}: the preimage {} does not map back", b.desc, show_vec(&x)), &o, &y)?;
    }
    info(t, m.steps.len() > 1, format!("{} {field} {how}", KINDS[b.hash.kind()]), || format!("{} over {field}: output {} has preimage {}", b.desc, show_vec(&y), show_vec(&x)))
}

// ---------------------------------------------------------------- C12

fn compress_case<F: PrimeField>(t: &mut Tape, b: &Built<F>, field: &str) -> Result<Info, String> {
    let mut nt = false;
    let mut last = String::new();
    for _ in 0..t.range(1, 4) {
        let l: F = elem(t, &[]);
        let r: F = elem(t, &[l]);
        let mut x = vec![l, r];
        x.resize(b.hash.t(), F::zero());
        // equal elements may also be one variable
        let r_ref = if l == r && t.chance(1, 2) { &l } else { &r };
        let got = must(&format!("{} compress({}, {})", b.desc, show(&l), show(&r)), || b.hash.compress(&[&l, r_ref]))?;
        let mut wants: Vec<F> = (0..b.hash.paths()).map(|p| Ok(must(&b.desc, || b.hash.perm(p, &x))?[0])).collect::<Result<_, String>>()?;
        if let Some(m) = &b.model {
            wants.insert(0, m.eval(&x)[0]);
        }
        for w in wants {
            same(&format!("{} compress({}, {})", b.desc, show(&l), show(&r)), &[got], &[w])?;
        }
        nt |= l != r;
        last = format!("{} over {field}: compress({}, {})", b.desc, show(&l), show(&r));
    }
    info(t, nt, format!("{} {field}", KINDS[b.hash.kind()]), || last)
}

pub fn c12() -> Prop {
    let list = all_shipped(|k, w| w == if k == 3 { 4 } else { 3 });
    Prop {
        id: "C12",
        rule: "A case is an instance of width 3 (Neptune: 4), shipped or generated, over any of ten fields, and 1-4 ordered pairs of special or random elements. Oracle: first element of the permutation (library and model) of (left, right, 0[, 0]). Over F17 all 289 pairs of one parameter set are enumerated. Non-trivial: left differs from right.",
        subs: vec![
            sub("generated parameter sets", 120, 40000, 400000, |t| {
                let f = t.strat(N_FIELDS);
                let kind = t.strat(4);
                with_field!(f, F => {
                    let b = gen_kind::<F>(t, kind, Want { width: Some(if kind == 3 { 4 } else { 3 }), ..Want::default() })?;
                    compress_case(t, &b, FIELD_NAMES[f])
                })
            }),
            sub("shipped instances", 60, 16000, 160000, move |t| {
                let (f, k) = list[t.strat(list.len())];
                with_shipped!(f, F => {
                    let b = cache::<F>().get(k)?;
                    compress_case(t, &b, FIELD_NAMES[f + 4])
                })
            }),
            sub("all pairs over F17", 80, 400, 8000, |t| {
                let kind = t.strat(4);
                let b = gen_kind::<F17>(t, kind, Want { width: Some(if kind == 3 { 4 } else { 3 }), small: true, ..Want::default() })?;
                for i in 0..289usize {
                    let (l, r) = (F17::from((i % 17) as u64), F17::from((i / 17) as u64));
                    let mut x = vec![l, r];
                    x.resize(b.hash.t(), F17::from(0u64));
                    let got = must(&b.desc, || b.hash.compress(&[&l, if l == r { &l } else { &r }]))?;
                    let want = match &b.model { Some(m) => m.eval(&x)[0], None => must(&b.desc, || b.hash.perm(0, &x))?[0] };
                    same(&format!("{} over F17 compress({l}, {r})", b.desc), &[got], &[want])?;
                }
                info(t, true, KINDS[kind], || format!("{} over F17: all 289 pairs", b.desc))
            }),
        ],
    }
}

// ---------------------------------------------------------------- C22

pub fn c22() -> Prop {
    let list = all_shipped(|_, _| true);
    let list2 = all_shipped(|k, w| w == if k == 3 { 4 } else { 3 });
    Prop {
        id: "C22",
        rule: "A case is a shipped instance, a state (direct or aimed), a position and a non-zero difference; all output elements must change. Over 31-bit BabyBear a single coincidence is rechecked on related states before it counts. Same for both arguments of compress. Non-trivial: every case (difference non-zero).",
        subs: vec![
            sub("permutation", 60, 42500, 425000, move |t| {
                let (f, k) = list[t.strat(list.len())];
                with_shipped!(f, F => {
                    let b = cache::<F>().get(k)?;
                    let (x, how) = aimed_input(t, &b);
                    let w = b.hash.t();
                    let pos = t.strat(w);
                    let mut d: F = elem(t, &[]);
                    if d.is_zero() { d = F::one(); }
                    let path = t.below(b.hash.paths());
                    let stuck = |x: &[F]| -> Result<Vec<usize>, String> {
                        let mut y = x.to_vec();
                        y[pos] += d;
                        let (a, c) = (must(&b.desc, || b.hash.perm(path, x))?, must(&b.desc, || b.hash.perm(path, &y))?);
                        Ok((0..w).filter(|i| a.get(*i) == c.get(*i)).collect())
                    };
                    let s = stuck(&x)?;
                    if !s.is_empty() {
                        let mut sure = s.len() > 1 || modulus::<F>().bits() > 40;
                        if !sure {
                            let mut ex = t.expander();
                            for _ in 0..6 {
                                let mut x2 = x.clone();
                                let i = ex.below(w);
                                x2[i] += ex.field::<F>();
                                sure |= !stuck(&x2)?.is_empty();
                            }
                        }
                        if sure { return Err(format!("{} path {path}: adding {} to element {pos} of {} leaves output elements {s:?} unchanged", b.desc, show(&d), show_vec(&x))); }
                    }
                    info(t, true, format!("{} {how}", b.desc), || format!("{}: element {pos} of {} changed by {}", b.desc, show_vec(&x), show(&d)))
                })
            }),
            sub("compress", 40, 16000, 160000, move |t| {
                let (f, k) = list2[t.strat(list2.len())];
                with_shipped!(f, F => {
                    let b = cache::<F>().get(k)?;
                    let (l, r): (F, F) = (elem(t, &[]), elem(t, &[]));
                    let mut d: F = elem(t, &[]);
                    if d.is_zero() { d = F::one(); }
                    let side = t.strat(2);
                    let (l2, r2) = if side == 0 { (l + d, r) } else { (l, r + d) };
                    let (a, c) = (must(&b.desc, || b.hash.compress(&[&l, &r]))?, must(&b.desc, || b.hash.compress(&[&l2, &r2]))?);
                    if a == c { return Err(format!("{}: compress({}, {}) = compress({}, {})", b.desc, show(&l), show(&r), show(&l2), show(&r2))); }
                    info(t, true, format!("compress {}", b.desc), || format!("{}: compress({}, {}) / compress({}, {})", b.desc, show(&l), show(&r), show(&l2), show(&r2)))
                })
            }),
        ],
    }
}
