//! C17-C21: matrices, equivalent parameters, fields, hex, random scalars.
use super::core::*;
use super::hashes::{documented_prime, nth_state};
use super::inst::*;
use super::model::*;
use crate::{with_field, with_shipped};
use ark_ff::{BigInteger, Field as _, FftField, LegendreSymbol, One, PrimeField, Zero};
use num_bigint::BigUint;
use z::poseidon::poseidon_params::PoseidonParams;
use z::poseidon2::poseidon2_params::Poseidon2Params;
use z::utils as zu;

// ---------------------------------------------------------------- matrices

fn entry<F: PrimeField>(ex: &mut Expander, density: usize, small: bool) -> F {
    if ex.below(4) >= density {
        F::zero()
    } else if small {
        F::from(1 + ex.below(3) as u64)
    } else {
        ex.field()
    }
}

/// An invertible matrix, built as a product or by shape, often with zero
/// leading entries or minors.
fn invertible<F: PrimeField>(t: &mut Tape, n: usize) -> (Mat<F>, &'static str) {
    let kind = t.below(9);
    let mut ex = t.expander();
    let nz = |ex: &mut Expander| loop {
        let x: F = ex.field();
        if !x.is_zero() {
            return x;
        }
    };
    let permutation = |ex: &mut Expander| {
        let mut p: Vec<usize> = (0..n).collect();
        for i in (1..n).rev() {
            p.swap(i, ex.below(i + 1));
        }
        p
    };
    let (m, name): (Mat<F>, &'static str) = match kind {
        0 => (identity(n), "identity"),
        1 => {
            let p = permutation(&mut ex);
            let mut m = vec![vec![F::zero(); n]; n];
            for i in 0..n {
                m[i][p[i]] = if ex.below(2) == 0 { F::one() } else { nz(&mut ex) };
            }
            (m, "permutation")
        }
        2 => {
            let mut m = vec![vec![F::zero(); n]; n];
            for i in 0..n {
                for j in 0..=i {
                    m[i][j] = if i == j { nz(&mut ex) } else { entry(&mut ex, 3, false) };
                }
            }
            (m, "lower triangular")
        }
        3 => {
            let mut m = vec![vec![F::zero(); n]; n];
            for i in 0..n {
                for j in i..n {
                    m[i][j] = if i == j { nz(&mut ex) } else { entry(&mut ex, 3, false) };
                }
            }
            (m, "upper triangular")
        }
        4 => {
            // anti-triangular: all leading minors zero
            let mut m = vec![vec![F::zero(); n]; n];
            for i in 0..n {
                for j in n - 1 - i..n {
                    m[i][j] = if j == n - 1 - i { nz(&mut ex) } else { entry(&mut ex, 2, false) };
                }
            }
            (m, "anti-triangular")
        }
        5 | 6 => {
            // rows of an LU product in permuted order
            let mut l = identity::<F>(n);
            let mut u = identity::<F>(n);
            let dens = 1 + ex.below(3);
            for i in 0..n {
                for j in 0..i {
                    l[i][j] = entry(&mut ex, dens, kind == 6);
                    u[j][i] = entry(&mut ex, dens, kind == 6);
                }
                u[i][i] = nz(&mut ex);
            }
            let m = mat_mul(&l, &u);
            let p = permutation(&mut ex);
            (p.iter().map(|i| m[*i].clone()).collect(), "permuted LU")
        }
        _ => {
            let mut m = vec![];
            for _ in 0..30 {
                let dens = 1 + ex.below(4);
                m = (0..n).map(|_| (0..n).map(|_| entry(&mut ex, dens, kind == 7)).collect()).collect();
                if mat_inv(&m).is_some() {
                    return (m, "random");
                }
            }
            let _ = m;
            (identity(n), "identity")
        }
    };
    (m, name)
}

/// Sizes: every one up to 40, around larger powers of two and literals of the sources.
fn sizes(top: usize) -> Vec<usize> {
    let mut s: std::collections::BTreeSet<usize> = (1..=40).collect();
    for k in 5..10 {
        s.extend([(1 << k) - 1, 1 << k, (1 << k) + 1, 3 << (k - 1)]);
    }
    for i in &mined().ints {
        if *i < 1000 {
            s.extend([(*i as usize).saturating_sub(1), *i as usize, *i as usize + 1]);
        }
    }
    s.into_iter().filter(|x| *x >= 1 && *x <= top).collect()
}

fn mat_eq<F: PrimeField>(what: &str, got: &[Vec<F>], want: &[Vec<F>], ctx: &dyn Fn() -> String) -> Result<(), String> {
    if got == want {
        Ok(())
    } else {
        Err(format!("{what}: {} instead of {}; {}", show_mat(got), show_mat(want), ctx()))
    }
}
fn show_mat<F: PrimeField>(m: &[Vec<F>]) -> String {
    format!("[{}]", m.iter().map(|r| show_vec(r)).collect::<Vec<_>>().join(","))
}

pub fn c17() -> Prop {
    Prop {
        id: "C17",
        rule: "A case is a field of ten, a size and matrices of a generated shape (dense, sparse, triangular, anti-triangular, permutation, permuted LU, tiny entries, rectangular for transpose), sizes to 260. Oracle: products with the original are the identity on both sides; products and transposes by definition. Over F17 all 2x2 matrices are enumerated (invertible: inverse; singular: refused under C11). Non-trivial: size at least 2 and not the identity.",
        subs: vec![
            sub("inverse", 60, 64000, 640000, |t| {
                let f = t.strat(N_FIELDS);
                let n = if t.chance(1, 12) { t.range(1, 26) } else if t.chance(1, 300) { t.range(26, 70) } else { t.range(1, 7) };
                with_field!(f, F => {
                    let (m, kind) = invertible::<F>(t, n);
                    let orig = m.clone();
                    let inv = must(&format!("mat_inverse({}) over {}", show_mat(&m), FIELD_NAMES[f]), || zu::mat_inverse(&m))?;
                    if m != orig { return Err("mat_inverse changed its argument".into()); }
                    if inv.len() != n || inv.iter().any(|r| r.len() != n) { return Err(format!("mat_inverse: result has shape {}x{:?}", inv.len(), inv.iter().map(|r| r.len()).collect::<Vec<_>>())); }
                    let id = identity::<F>(n);
                    mat_eq("M * inverse(M)", &mat_mul(&m, &inv), &id, &|| format!("M = {} over {}", show_mat(&m), FIELD_NAMES[f]))?;
                    mat_eq("inverse(M) * M", &mat_mul(&inv, &m), &id, &|| format!("M = {} over {}", show_mat(&m), FIELD_NAMES[f]))?;
                    info(t, n > 1 && kind != "identity", format!("{kind} {}", if m[0][0].is_zero() { "zero corner" } else { "" }), || format!("{kind} {n}x{n} over {}: {}", FIELD_NAMES[f], show_mat(&m)))
                })
            }),
            sub("all 2x2 over F17", 1, 17, 17, |t| {
                let a = t.strat(17);
                let mut k = 0;
                for i in 0..17usize.pow(3) {
                    let v = nth_state::<F17>(i, 3, 17);
                    let m = vec![vec![F17::from(a as u64), v[0]], vec![v[1], v[2]]];
                    if m[0][0] * m[1][1] == m[0][1] * m[1][0] { continue; }
                    let inv = must(&format!("mat_inverse({}) over F17", show_mat(&m)), || zu::mat_inverse(&m))?;
                    mat_eq("M * inverse(M)", &mat_mul(&m, &inv), &identity(2), &|| format!("M = {} over F17", show_mat(&m)))?;
                    k += 1;
                }
                info(t, true, "2x2", || format!("{k} invertible 2x2 matrices over F17 with corner {a}"))
            }),
            sub("sequences of related matrices", 200, 16000, 160000, |t| {
                let f = t.strat(N_FIELDS);
                let g = t.below(N_FIELDS);
                let n = t.range(2, 6);
                with_field!(f, F => {
                    let mut m = invertible::<F>(t, n).0;
                    let mut seen = vec![m.clone()];
                    let mut how = String::new();
                    let id = identity::<F>(n);
                    for step in 0..t.range(2, 8) {
                        let mut what = "start";
                        if step > 0 {
                            let mut w = m.clone();
                            let (i, j) = (t.below(n), t.below(n));
                            match t.below(8) {
                                0 => { w[i][j] += F::from(1u64); what = "entry+1"; }
                                1 => { w[i][j] = elem(t, &m[i]); what = "entry"; }
                                2 => { w.swap(i, j); what = "rows exchanged"; }
                                3 => { w = transpose(&w); what = "transposed"; }
                                4 => { let c: F = elem(t, &[]); w[i].iter_mut().for_each(|x| *x *= c); what = "row scaled"; }
                                5 => { w = seen[t.below(seen.len())].clone(); what = "earlier one"; }
                                6 => { w = invertible::<F>(t, n).0; what = "fresh"; }
                                _ => { w[i] = w[j].clone(); what = "row copied"; }
                            }
                            if mat_inv(&w).is_none() {
                                must_refuse(&format!("mat_inverse({}) over {} after {how}", show_mat(&w), FIELD_NAMES[f]), || zu::mat_inverse(&w))?;
                                how += " refused";
                                if t.chance(1, 4) {
                                    // a matrix with the same small entries over another field
                                    with_field!(g, G => {
                                        let i2 = identity::<G>(n);
                                        let inv = must("mat_inverse(identity)", || zu::mat_inverse(&i2))?;
                                        mat_eq("inverse of the identity", &inv, &i2, &|| how.clone())?;
                                    });
                                }
                                continue;
                            }
                            m = w;
                        }
                        how += &format!(" {what}");
                        let ctx = || format!("M = {} over {}, after{how}", show_mat(&m), FIELD_NAMES[f]);
                        let inv = must(&format!("mat_inverse: {}", ctx()), || zu::mat_inverse(&m))?;
                        mat_eq("M * inverse(M)", &mat_mul(&m, &inv), &id, &ctx)?;
                        let tr = must("mat_transpose", || zu::mat_transpose(&m))?;
                        mat_eq("mat_transpose", &tr, &transpose(&m), &ctx)?;
                        let x = state::<F>(t, n);
                        let y = must("mat_vec_mul", || PoseidonParams::mat_vec_mul(&m, &x))?;
                        mat_eq("mat_vec_mul", &[y], &[mat_vec(&m, &x)], &ctx)?;
                        let y = must("mat_mat_mul", || PoseidonParams::mat_mat_mul(&m, &inv))?;
                        mat_eq("mat_mat_mul", &y, &id, &ctx)?;
                        seen.push(m.clone());
                    }
                    info(t, seen.len() > 2, FIELD_NAMES[f], || format!("{n}x{n} over {}:{how}", FIELD_NAMES[f]))
                })
            }),
            sub("transpose", 40, 32000, 320000, |t| {
                let f = t.strat(N_FIELDS);
                let top = if t.chance(1, 8) { 70 } else { 9 };
                let (r, c) = (t.range(1, top), t.range(1, top));
                with_field!(f, F => {
                    let m: Mat<F> = table(t, r, c);
                    let got = must("mat_transpose", || zu::mat_transpose(&m))?;
                    mat_eq("mat_transpose", &got, &transpose(&m), &|| format!("of {}", show_mat(&m)))?;
                    info(t, r > 1 && c > 1, if r == c { "square" } else if r < c { "wide" } else { "tall" }, || format!("transpose of {}", show_mat(&m)))
                })
            }),
            sub("large sizes", 100, 240, 4000, move |t| {
                let ns = sizes(260);
                let n = ns[t.strat(ns.len())];
                let f = if n > 70 { [1usize, 4, 5][t.below(3)] } else { t.below(N_FIELDS) };
                with_field!(f, F => {
                    let (m, kind) = invertible::<F>(t, n);
                    let b: Mat<F> = table(t, n, n);
                    let orig = m.clone();
                    let ctx = || format!("{kind} {n}x{n} over {}", FIELD_NAMES[f]);
                    let inv = must(&format!("mat_inverse of {}", ctx()), || zu::mat_inverse(&m))?;
                    let tr = must("mat_transpose", || zu::mat_transpose(&m))?;
                    if inv.len() != n || inv.iter().any(|r| r.len() != n) { return Err(format!("mat_inverse of {}: wrong shape", ctx())); }
                    if tr != transpose(&m) { return Err(format!("mat_transpose of {}", ctx())); }
                    let (r, c) = (if t.chance(1, 2) { 1 } else { n }, ns[t.below(ns.len())]);
                    let wide: Mat<F> = table(t, r, c);
                    if must("mat_transpose", || zu::mat_transpose(&wide))? != transpose(&wide) { return Err(format!("mat_transpose of a {}x{} matrix", wide.len(), wide[0].len())); }
                    let ab = must("mat_mat_mul", || PoseidonParams::mat_mat_mul(&m, &b))?;
                    if ab.len() != n || ab.iter().any(|r| r.len() != n) { return Err(format!("mat_mat_mul of {}: wrong shape", ctx())); }
                    // equality of products on the unit vectors at the ends and on random ones
                    for k in 0..5 {
                        let x: Vec<F> = match k {
                            0 => (0..n).map(|i| if i == 0 { F::one() } else { F::zero() }).collect(),
                            1 => (0..n).map(|i| if i + 1 == n { F::one() } else { F::zero() }).collect(),
                            _ => { let mut ex = t.expander(); (0..n).map(|_| ex.field()).collect() }
                        };
                        let y = must("mat_vec_mul", || PoseidonParams::mat_vec_mul(&m, &x))?;
                        let y2 = must("mat_vec_mul", || Poseidon2Params::mat_vec_mul(&m, &x))?;
                        let want = mat_vec(&m, &x);
                        if y != want || y2 != want { return Err(format!("mat_vec_mul of {} and {}: {} and {} instead of {}", ctx(), show_vec(&x), show_vec(&y), show_vec(&y2), show_vec(&want))); }
                        if mat_vec(&inv, &want) != x { return Err(format!("inverse(M) * M * x is not x for {}, x = {}, M = {}", ctx(), show_vec(&x), show_mat(&m))); }
                        if mat_vec(&m, &mat_vec(&inv, &x)) != x { return Err(format!("M * inverse(M) * x is not x for {}, x = {}, M = {}", ctx(), show_vec(&x), show_mat(&m))); }
                        let want = mat_vec(&m, &mat_vec(&b, &x));
                        if mat_vec(&ab, &x) != want { return Err(format!("mat_mat_mul(A, B) * x is not A * (B * x): {}, x = {}, A = {}, B = {}", ctx(), show_vec(&x), show_mat(&m), show_mat(&b))); }
                    }
                    if m != orig { return Err(format!("the argument changed: {}", ctx())); }
                    info(t, n > 1 && kind != "identity", kind, ctx)
                })
            }),
            sub("products", 60, 32000, 320000, |t| {
                let f = t.strat(N_FIELDS);
                let n = if t.chance(1, 12) { t.range(1, 40) } else { t.range(1, 9) };
                with_field!(f, F => {
                    let (a, b): (Mat<F>, Mat<F>) = (table(t, n, n), table(t, n, n));
                    let x = state::<F>(t, n);
                    let want = mat_vec(&a, &x);
                    let ctx = || format!("over {}: A = {}, B = {}, x = {}", FIELD_NAMES[f], show_mat(&a), show_mat(&b), show_vec(&x));
                    mat_eq("Poseidon mat_vec_mul", &[must("mat_vec_mul", || PoseidonParams::mat_vec_mul(&a, &x))?], &[want.clone()], &ctx)?;
                    mat_eq("Poseidon2 mat_vec_mul", &[must("mat_vec_mul", || Poseidon2Params::mat_vec_mul(&a, &x))?], &[want], &ctx)?;
                    mat_eq("Poseidon mat_mat_mul", &must("mat_mat_mul", || PoseidonParams::mat_mat_mul(&a, &b))?, &mat_mul(&a, &b), &ctx)?;
                    // one object on both sides
                    if t.chance(1, 4) {
                        mat_eq("Poseidon mat_mat_mul of A and A", &must("mat_mat_mul", || PoseidonParams::mat_mat_mul(&a, &a))?, &mat_mul(&a, &a), &ctx)?;
                        let k = t.below(n);
                        let want = mat_vec(&a, &a[k]);
                        mat_eq("Poseidon mat_vec_mul of A and one of its rows", &[must("mat_vec_mul", || PoseidonParams::mat_vec_mul(&a, &a[k]))?], &[want.clone()], &ctx)?;
                        mat_eq("Poseidon2 mat_vec_mul of A and one of its rows", &[must("mat_vec_mul", || Poseidon2Params::mat_vec_mul(&a, &a[k]))?], &[want], &ctx)?;
                    }
                    info(t, n > 1, format!("{n}x{n}"), ctx)
                })
            }),
        ],
    }
}

// ---------------------------------------------------------------- C18

/// An arbitrary function in place of the S-box.
fn any_sbox<F: PrimeField>(t: &mut Tape) -> (impl Fn(F) -> F, String) {
    let k = t.below(5);
    let mut ex = t.expander();
    let (a, b): (F, F) = (ex.field(), ex.field());
    (
        move |x: F| match k {
            0 => x,
            1 => x.square() + a * x + b,
            2 => power(x, 3),
            3 => power(x, 5) + a,
            _ => b,
        },
        format!("S-box {k}"),
    )
}

fn equiv1<F: PrimeField>(t: &mut Tape, field: &str, m: &Mat<F>, rc: &Mat<F>, off: usize, rp: usize) -> Result<String, String> {
    let n = m.len();
    let (sb, sname) = any_sbox::<F>(t);
    let ctx = format!("over {} t={n} rp={rp} offset={off} {sname} M={} rc={}", field, show_mat(m), show_mat(rc));
    let (m_i, v, w) = must(&format!("equivalent_matrices {ctx}"), || PoseidonParams::equivalent_matrices(m, n, rp))?;
    let opt = must(&format!("equivalent_round_constants {ctx}"), || PoseidonParams::equivalent_round_constants(rc, m, off, rp))?;
    let shape = opt.len() == rp && opt[0].len() == n && opt[1..].iter().all(|o| !o.is_empty()) && v.len() >= rp && w.len() >= rp && v.iter().all(|x| x.len() == n - 1) && w.iter().all(|x| x.len() == n - 1) && m_i.len() == n && m_i.iter().all(|x| x.len() == n);
    if !shape { return Err(format!("equivalent parameters have the wrong shape {ctx}")); }
    for _ in 0..t.range(1, 3) {
        let x = state::<F>(t, n);
        let mut want = x.clone();
        for r in 0..rp {
            want.iter_mut().zip(&rc[off + r]).for_each(|(a, b)| *a += *b);
            want[0] = sb(want[0]);
            want = mat_vec(m, &want);
        }
        let mut s: Vec<F> = x.iter().zip(&opt[0]).map(|(a, b)| *a + *b).collect();
        s = mat_vec(&m_i, &s);
        for r in 0..rp {
            s[0] = sb(s[0]);
            if r + 1 < rp { s[0] += opt[r + 1][0]; }
            let k = rp - 1 - r;
            let mut o = s.clone();
            o[0] = m[0][0] * s[0] + (1..n).map(|i| w[k][i - 1] * s[i]).sum::<F>();
            for i in 1..n { o[i] = v[k][i - 1] * s[0] + s[i]; }
            s = o;
        }
        same(&format!("equivalent partial rounds on {} {ctx}", show_vec(&x)), &s, &want)?;
    }
    Ok(ctx)
}

fn equiv2<F: PrimeField>(t: &mut Tape, field: &str, m: &Mat<F>, rc: &Mat<F>, off: usize, rp: usize) -> Result<String, String> {
    let n = m.len();
    let (sb, sname) = any_sbox::<F>(t);
    let ctx = format!("over {} t={n} rp={rp} offset={off} {sname} M={} rc={}", field, show_mat(m), show_mat(rc));
    let opt = must(&format!("equivalent_round_constants {ctx}"), || Poseidon2Params::equivalent_round_constants(rc, m, off, rp))?;
    if opt.len() != rp + 1 || opt[0].len() != n || opt[1..rp].iter().any(|o| o.is_empty()) || opt[rp] != vec![F::from(0u64); n] {
        return Err(format!("equivalent constants have the wrong shape or closing vector: {} {ctx}", show_mat(&opt)));
    }
    for _ in 0..t.range(1, 3) {
        let x = state::<F>(t, n);
        let mut want = x.clone();
        for r in 0..rp {
            want.iter_mut().zip(&rc[off + r]).for_each(|(a, b)| *a += *b);
            want[0] = sb(want[0]);
            want = mat_vec(m, &want);
        }
        let mut s: Vec<F> = x.iter().zip(&opt[0]).map(|(a, b)| *a + *b).collect();
        for r in 0..rp {
            s[0] = sb(s[0]);
            if r + 1 < rp { s[0] += opt[r + 1][0]; }
            s = mat_vec(m, &s);
        }
        same(&format!("equivalent partial rounds on {} {ctx}", show_vec(&x)), &s, &want)?;
    }
    Ok(ctx)
}

fn any_mat<F: PrimeField>(t: &mut Tape, kind: usize, n: usize) -> Mat<F> {
    if kind == 0 {
        return decomposable::<F>(t, n);
    }
    if t.chance(1, 2) {
        let d = ones_diag(&table::<F>(t, 1, n)[0]);
        if mat_inv(&d).is_some() {
            return d;
        }
    }
    invertible::<F>(t, n).0
}

pub fn c18() -> Prop {
    Prop {
        id: "C18",
        rule: "A case is a field of ten, a width (to 40 and 70), 1-700 partial rounds at an offset to 700, a decomposable matrix of one of ten shapes, constants of one of eight shapes, a function in place of the S-box and 1-3 states. Oracle: the plain partial rounds. Non-trivial: at least two partial rounds and a non-zero constant.",
        subs: vec![
            sub("sequences of related requests", 300, 10000, 100000, |t| {
                let f = t.strat(N_FIELDS);
                let kind = t.strat(2);
                let n = t.range(2, 5);
                with_field!(f, F => {
                    let mut m = any_mat::<F>(t, kind, n);
                    let (mut rp, mut off) = (t.range(1, 5), t.below(4));
                    let mut rc: Mat<F> = table(t, 12, n);
                    let (m0, rc0) = (m.clone(), rc.clone());
                    let mut how = String::new();
                    let steps = t.range(2, 6);
                    for step in 0..steps {
                        if step > 0 {
                            match t.below(7) {
                                0 => { m = any_mat::<F>(t, kind, n); how += " matrix"; }
                                1 => { let (i, j) = (t.below(12), t.below(n)); rc[i][j] = elem(t, &rc[i]); how += " constant"; }
                                2 => { rp = t.range(1, 6); how += " rounds"; }
                                3 => { off = t.below(5); how += " offset"; }
                                4 => { m = m0.clone(); rc = rc0.clone(); how += " back"; }
                                5 => { let i = t.below(11); rc.swap(i, i + 1); how += " rows exchanged"; }
                                _ => { how += " again"; }
                            }
                        }
                        let r = if kind == 0 { equiv1(t, FIELD_NAMES[f], &m, &rc, off, rp) } else { equiv2(t, FIELD_NAMES[f], &m, &rc, off, rp) };
                        r.map_err(|e| format!("after{how}: {e}"))?;
                    }
                    info(t, true, format!("{} {}", ["Poseidon", "Poseidon2"][kind], FIELD_NAMES[f]), || format!("over {}, t={n}: {steps} requests,{how}", FIELD_NAMES[f]))
                })
            }),
            sub("large sizes", 160, 400, 4000, |t| {
                let f = [1usize, 4, 6, 9, 0][t.below(5)] % N_FIELDS;
                let kind = t.strat(2);
                let ns = sizes(if kind == 0 { 40 } else { 70 });
                let rs = sizes(700);
                let (n, rp) = if t.chance(1, 2) { (ns[t.below(ns.len())].max(2), t.range(1, 6)) } else { (t.range(2, 4), rs[t.below(rs.len())]) };
                let off = if t.chance(1, 2) { t.below(6) } else { rs[t.below(rs.len())] };
                let extra = if t.chance(1, 2) { t.below(3) } else { rs[t.below(rs.len())] };
                with_field!(f, F => {
                    let m = any_mat::<F>(t, kind, n);
                    let rc: Mat<F> = table(t, off + rp + extra, n);
                    if kind == 0 { equiv1(t, FIELD_NAMES[f], &m, &rc, off, rp)?; } else { equiv2(t, FIELD_NAMES[f], &m, &rc, off, rp)?; }
                    info(t, rp > 1 && rc.iter().flatten().any(|x| !x.is_zero()), ["Poseidon", "Poseidon2"][kind], || format!("{} over {}: t={n}, {rp} partial rounds from {off} of {}", ["Poseidon", "Poseidon2"][kind], FIELD_NAMES[f], rc.len()))
                })
            }),
            sub("Poseidon", 80, 20000, 240000, |t| {
                let f = t.strat(N_FIELDS);
                let n = if t.chance(1, 10) { t.range(2, 16) } else { t.range(2, 6) };
                let rp = if t.chance(1, 10) { t.range(1, 60) } else { t.range(1, 6) };
                let off = t.below(5);
                let extra = t.below(3);
                with_field!(f, F => {
                    let m = decomposable::<F>(t, n);
                    let rc: Mat<F> = table(t, off + rp + extra, n);
                    let ctx = equiv1(t, FIELD_NAMES[f], &m, &rc, off, rp)?;
                    info(t, rp > 1 && rc.iter().flatten().any(|x| !x.is_zero()), format!("{} rp {}", FIELD_NAMES[f], if rp == 1 { "1" } else if rp < 7 { "2-6" } else { "7 or more" }), || ctx)
                })
            }),
            sub("Poseidon2", 80, 20000, 240000, |t| {
                let f = t.strat(N_FIELDS);
                let n = if t.chance(1, 10) { t.range(2, 24) } else { t.range(2, 6) };
                let rp = if t.chance(1, 10) { t.range(1, 60) } else { t.range(1, 6) };
                let off = t.below(5);
                let extra = t.below(3);
                with_field!(f, F => {
                    let m = any_mat::<F>(t, 1, n);
                    let rc: Mat<F> = table(t, off + rp + extra, n);
                    let ctx = equiv2(t, FIELD_NAMES[f], &m, &rc, off, rp)?;
                    info(t, rp > 1 && rc.iter().flatten().any(|x| !x.is_zero()), format!("{} rp {}", FIELD_NAMES[f], if rp == 1 { "1" } else if rp < 7 { "2-6" } else { "7 or more" }), || ctx)
                })
            }),
        ],
    }
}

// ---------------------------------------------------------------- C19

/// Prime factors of p-1 for the six documented primes.
const FACTORS: [&[&str]; 6] = FACTORS_OF_P_MINUS_1;
include!("factors.rs");

fn is_prime(p: &BigUint) -> bool {
    let one = BigUint::from(1u32);
    let pm1 = p - &one;
    let s = pm1.trailing_zeros().unwrap_or(0);
    let d = &pm1 >> s;
    for a in [2u32, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37] {
        let a = BigUint::from(a);
        if &a % p == BigUint::default() {
            continue;
        }
        let mut x = a.modpow(&d, p);
        if x == one || x == pm1 {
            continue;
        }
        let mut ok = false;
        for _ in 1..s {
            x = &x * &x % p;
            if x == pm1 {
                ok = true;
                break;
            }
        }
        if !ok {
            return false;
        }
    }
    true
}

fn chk<F: PrimeField>(what: impl Fn() -> String, got: F, want: BigUint) -> Result<(), String> {
    if to_big(&got) == want {
        Ok(())
    } else {
        Err(format!("{}: {}, expected 0x{}", what(), show(&got), want.to_str_radix(16)))
    }
}

fn field_case<F: PrimeField + From<i64>>(t: &mut Tape, name: &str, p: &BigUint) -> Result<Info, String> {
    let zero = BigUint::default();
    let one = BigUint::from(1u32);
    let pick = |t: &mut Tape| -> BigUint {
        match t.below(9) {
            0..=2 => to_big(&rand_elem::<F>(t)),
            3 => {
                // the internal (Montgomery) form is special
                let r = BigUint::from(1u32) << (64 * F::MODULUS.as_ref().len());
                (special_big(t, p) % p) * (r % p).modpow(&(p - 2u32), p) % p
            }
            _ => special_big(t, p),
        }
    };
    let ai = pick(t);
    let bi = match t.below(6) {
        5 => pick(t),
        0 => ai.clone(),
        1 => p - (&ai % p),
        2 | 3 => special_big(t, p),
        _ => to_big(&rand_elem::<F>(t)),
    };
    // conversions
    let a = must("from_be_bytes_mod_order", || F::from_be_bytes_mod_order(&ai.to_bytes_be()))?;
    let b = must("from_le_bytes_mod_order", || F::from_le_bytes_mod_order(&bi.to_bytes_le()))?;
    let (ai, bi) = (ai % p, bi % p);
    let c = || format!("{name}: a=0x{}, b=0x{}", ai.to_str_radix(16), bi.to_str_radix(16));
    chk(|| format!("from_be_bytes {}", c()), a, ai.clone())?;
    chk(|| format!("from_le_bytes {}", c()), b, bi.clone())?;
    let digits = ai.to_u64_digits();
    let mut bg = <F as PrimeField>::BigInt::from(0u64);
    for (i, d) in digits.iter().enumerate() {
        bg.as_mut()[i] = *d;
    }
    match must("from_bigint", || F::from_bigint(bg))? {
        Some(x) if x == a => (),
        o => return Err(format!("from_bigint {}: {o:?}", c())),
    }
    // not canonical: refused
    let off = BigUint::from(t.below(4) as u32);
    let over = p + off;
    if over.bits() <= (F::MODULUS.as_ref().len() * 64) as u64 {
        let mut bg = <F as PrimeField>::BigInt::from(0u64);
        for (i, d) in over.to_u64_digits().iter().enumerate() {
            bg.as_mut()[i] = *d;
        }
        if must("from_bigint", || F::from_bigint(bg))?.is_some() {
            return Err(format!("{name}: from_bigint accepts 0x{}", over.to_str_radix(16)));
        }
    }
    if BigUint::from_bytes_le(&a.into_bigint().to_bytes_le()) != ai {
        return Err(format!("into_bigint {}", c()));
    }
    let u = t.u64();
    chk(|| format!("{name}: from u64 {u}"), F::from(u), BigUint::from(u) % p)?;
    let u128v = (t.u64() as u128) << 64 | u as u128;
    chk(|| format!("{name}: from u128 {u128v}"), F::from(u128v), BigUint::from(u128v) % p)?;
    let iv = u as i64;
    let iw = if iv >= 0 { BigUint::from(iv as u64) % p } else { (p - BigUint::from(iv.unsigned_abs()) % p) % p };
    chk(|| format!("{name}: from i64 {iv}"), F::from(iv), iw)?;
    match ai.to_str_radix(10).parse::<F>() {
        Ok(x) if x == a => (),
        _ => return Err(format!("decimal parsing {}", c())),
    }
    if a.to_string() != ai.to_str_radix(10) && !(a.to_string().is_empty() && ai == zero) {
        return Err(format!("Display {}: {a}", c()));
    }
    // arithmetic
    chk(|| format!("a+b {}", c()), a + b, (&ai + &bi) % p)?;
    chk(|| format!("a-b {}", c()), a - b, (&ai + p - &bi) % p)?;
    chk(|| format!("a*b {}", c()), a * b, (&ai * &bi) % p)?;
    chk(|| format!("-a {}", c()), -a, (p - &ai) % p)?;
    chk(|| format!("2a {}", c()), a.double(), (&ai + &ai) % p)?;
    chk(|| format!("a^2 {}", c()), a.square(), (&ai * &ai) % p)?;
    let mut m = a;
    m += b;
    m *= a;
    m -= b;
    m.double_in_place();
    m.square_in_place();
    m.neg_in_place();
    let mut w = ((&ai + &bi) * &ai + p - &bi) % p;
    w = (&w + &w) % p;
    w = (p - &w * &w % p) % p;
    chk(|| format!("in-place sequence {}", c()), m, w)?;
    match (a.inverse(), ai == zero) {
        (None, true) => (),
        (Some(i), false) => chk(|| format!("1/a {}", c()), i, ai.modpow(&(p - 2u32), p))?,
        (o, _) => return Err(format!("inverse {}: {o:?}", c())),
    }
    if b != F::zero() {
        chk(|| format!("a/b {}", c()), a / b, &ai * bi.modpow(&(p - 2u32), p) % p)?;
    }
    // sums of products of several lengths, sums, products, batch inversion
    let mut xs = vec![a, b];
    let mut xi = vec![ai.clone(), bi.clone()];
    for _ in 2..16 {
        let v = if t.chance(1, 3) { xi[t.below(xi.len())].clone() } else { pick(t) % p };
        xs.push(from_big(&v));
        xi.push(v);
    }
    macro_rules! sop {
        ($($n:literal)*) => {$({
            let x: [F; $n] = std::array::from_fn(|i| xs[i]);
            let y: [F; $n] = std::array::from_fn(|i| xs[15 - i]);
            let w = (0..$n).fold(BigUint::default(), |s, i| (s + &xi[i] * &xi[15 - i]) % p);
            chk(|| format!("sum_of_products of {} and {}", show_vec(&x), show_vec(&y)), must("sum_of_products", || F::sum_of_products(&x, &y))?, w)?;
        })*};
    }
    match t.below(4) {
        0 => { sop!(1 2 3 4); }
        1 => { sop!(5 6 7 8); }
        2 => { sop!(9 10 11 12); }
        _ => { sop!(13 14 15 16); }
    }
    chk(|| format!("sum of {}", show_vec(&xs)), xs.iter().sum::<F>(), xi.iter().fold(BigUint::default(), |s, v| (s + v) % p))?;
    chk(|| format!("product of {}", show_vec(&xs)), xs.iter().product::<F>(), xi.iter().fold(one.clone(), |s, v| s * v % p))?;
    let mut inv = xs.clone();
    must("batch_inversion", || ark_ff::batch_inversion(&mut inv))?;
    for (i, v) in xi.iter().enumerate() {
        let w = if *v == zero { zero.clone() } else { v.modpow(&(p - 2u32), p) };
        chk(|| format!("batch inverse {i} of {}", show_vec(&xs)), inv[i], w)?;
    }
    // small integers, bytes, serialisation
    chk(|| format!("{name}: from u8 {}", u as u8), F::from(u as u8), BigUint::from(u as u8) % p)?;
    chk(|| format!("{name}: from u16 {}", u as u16), F::from(u as u16), BigUint::from(u as u16) % p)?;
    chk(|| format!("{name}: from u32 {}", u as u32), F::from(u as u32), BigUint::from(u as u32) % p)?;
    chk(|| format!("{name}: from bool"), F::from(u & 1 == 1), BigUint::from(u & 1))?;
    chk(|| format!("{name}: from BigUint {}", c()), F::from(&ai * &bi), &ai * &bi % p)?;
    let mut ser = vec![];
    a.serialize_compressed(&mut ser).map_err(|e| format!("serialisation {}: {e}", c()))?;
    if BigUint::from_bytes_le(&ser) != ai || ser.len() != (p.bits() as usize).div_ceil(8) {
        return Err(format!("serialisation {}: {ser:?}", c()));
    }
    match F::deserialize_compressed(&ser[..]) {
        Ok(x) if x == a => (),
        o => return Err(format!("deserialisation {}: {o:?}", c())),
    }
    let e = match t.below(3) {
        0 => BigUint::from(t.below(20) as u32),
        1 => special_big(t, p),
        _ => BigUint::from(u128v),
    };
    chk(|| format!("a^0x{} {}", e.to_str_radix(16), c()), a.pow(e.to_u64_digits()), ai.modpow(&e, p))?;
    // comparison
    if (a == b) != (ai == bi) || a.cmp(&b) != ai.cmp(&bi) || a.is_zero() != (ai == zero) || a.is_one() != (ai == one) {
        return Err(format!("comparison {}", c()));
    }
    // squares
    let ls = ai.modpow(&((p - 1u32) >> 1), p);
    let want = if ai == zero { LegendreSymbol::Zero } else if ls == one { LegendreSymbol::QuadraticResidue } else { LegendreSymbol::QuadraticNonResidue };
    if a.legendre() != want {
        return Err(format!("legendre {}: {:?}", c(), a.legendre()));
    }
    match (a.sqrt(), want) {
        (None, LegendreSymbol::QuadraticNonResidue) => (),
        (Some(r), LegendreSymbol::Zero | LegendreSymbol::QuadraticResidue) => {
            let ri = to_big(&r);
            if &ri * &ri % p != ai {
                return Err(format!("sqrt {}: {}", c(), show(&r)));
            }
        }
        (o, _) => return Err(format!("sqrt {}: {o:?}", c())),
    }
    match a.square().sqrt() {
        Some(r) if r == a || r == -a => (),
        o => return Err(format!("sqrt(a^2) {}: {o:?}", c())),
    }
    let tame = ai.bits() < 20 || ai.bits() + 4 > p.bits();
    info(t, ai != zero && bi != zero && ai != one && bi != one, format!("{name} {}", if tame { "near the ends" } else { "inside" }), c)
}

pub fn c19() -> Prop {
    Prop {
        id: "C19",
        rule: "A case is one of the six fields and a pair of integers (small, near p, near powers of two and limb boundaries, literals, random, equal or opposite), converted and put through every arithmetic operation, with an exponent. Oracle: integer arithmetic modulo the documented prime. Modulus, generator, two-adicity and roots of unity are compared with the prime and the factorisation of p-1. Non-trivial: both operands differ from 0 and 1.",
        subs: vec![
            sub("arithmetic", 240, 24000, 480000, |t| {
                let f = t.strat(N_SHIPPED);
                let p = documented_prime(f);
                with_shipped!(f, F => {
                    if modulus::<F>() != p { return Err(format!("{} has modulus {}", FIELD_NAMES[f + 4], modulus::<F>())); }
                    field_case::<F>(t, FIELD_NAMES[f + 4], &p)
                })
            }),
            sub("structure", 8, 600, 6000, |t| {
                let f = t.strat(N_SHIPPED);
                let p = documented_prime(f);
                let one = BigUint::from(1u32);
                let pm1 = &p - &one;
                let fs: Vec<BigUint> = FACTORS[f].iter().map(|s| BigUint::parse_bytes(s.as_bytes(), 10).unwrap()).collect();
                with_shipped!(f, F => {
                    let n = FIELD_NAMES[f + 4];
                    if modulus::<F>() != p { return Err(format!("{n} has modulus {}", modulus::<F>())); }
                    if !is_prime(&p) { return Err("HARNESS: prime".into()); }
                    let mut rest = pm1.clone();
                    for q in &fs {
                        if !is_prime(q) || &rest % q != BigUint::default() { return Err("HARNESS: factors".into()); }
                        while &rest % q == BigUint::default() { rest /= q; }
                    }
                    if rest != one { return Err("HARNESS: factorisation".into()); }
                    let g = to_big(&F::GENERATOR);
                    for q in &fs {
                        if g.modpow(&(&pm1 / q), &p) == one { return Err(format!("{n}: generator {g} is not primitive (order divides (p-1)/{q})")); }
                    }
                    let s = pm1.trailing_zeros().unwrap();
                    if F::TWO_ADICITY as u64 != s { return Err(format!("{n}: two-adicity {}", F::TWO_ADICITY)); }
                    let w = to_big(&F::TWO_ADIC_ROOT_OF_UNITY);
                    if w.modpow(&(&one << (s - 1)), &p) != pm1 { return Err(format!("{n}: root of unity {w} has the wrong order")); }
                    if F::MODULUS_BIT_SIZE as u64 != p.bits() { return Err(format!("{n}: bit size")); }
                    if BigUint::from_bytes_le(&F::MODULUS_MINUS_ONE_DIV_TWO.to_bytes_le()) != (&pm1 >> 1) { return Err(format!("{n}: (p-1)/2")); }
                    if BigUint::from_bytes_le(&F::TRACE.to_bytes_le()) != (&pm1 >> s) { return Err(format!("{n}: trace")); }
                    // a root of unity of every power-of-two order
                    let k = t.below(s as usize + 1) as u64;
                    match must("get_root_of_unity", || F::get_root_of_unity(1u64 << k.min(62)))? {
                        Some(r) => {
                            let r = to_big(&r);
                            let ok = if k == 0 { r == one } else { r.modpow(&(&one << (k - 1)), &p) == pm1 };
                            if !ok { return Err(format!("{n}: get_root_of_unity(2^{k}) = {r}")); }
                        }
                        None => return Err(format!("{n}: no root of unity of order 2^{k}")),
                    }
                    if s < 60 {
                        if let Some(r) = must("get_root_of_unity", || F::get_root_of_unity(1u64 << (s + 1)))? { return Err(format!("{n}: get_root_of_unity(2^{}) = {}", s + 1, show(&r))); }
                    }
                    info(t, true, n, || format!("{n}: generator {g}, root of unity of order 2^{k}"))
                })
            }),
        ],
    }
}

// ---------------------------------------------------------------- C20

pub fn c20() -> Prop {
    Prop {
        id: "C20",
        rule: "A case is a field of ten and a string: 0x and an even number of hexadecimal digits (0 to 6000, values around p, multiples of p, limb boundaries, leading zeros, lower, upper or mixed case), or such a string with one digit dropped, one character replaced by a non-hexadecimal one, or foreign characters (separators, signs, white space, a second prefix, letters, Unicode) added before, between or after an even number of digits. Oracle: base-256 big-endian value modulo the prime; malformed strings must panic. Non-trivial: more than two digits.",
        subs: vec![
            sub("well-formed", 80, 300000, 3000000, |t| {
                let f = t.strat(N_FIELDS);
                with_field!(f, F => {
                    let p = modulus::<F>();
                    let (s, v) = hex_string(t, &p);
                    let got = must(&format!("from_hex(\"{s}\") over {}", FIELD_NAMES[f]), || z::fields::utils::from_hex::<F>(&s))?;
                    if to_big(&got) != &v % &p {
                        return Err(format!("from_hex(\"{s}\") over {} = {}, expected 0x{}", FIELD_NAMES[f], show(&got), (v % p).to_str_radix(16)));
                    }
                    info(t, s.len() > 4, format!("{} {}", FIELD_NAMES[f], if v >= p { "at least p" } else { "below p" }), || format!("from_hex(\"{s}\") over {}", FIELD_NAMES[f]))
                })
            }),
            sub("sequences of related strings", 200, 40000, 400000, |t| {
                let f = t.strat(N_FIELDS);
                let g = if t.chance(1, 3) { t.below(N_FIELDS) } else { f };
                let p = with_field!(f, F => modulus::<F>());
                let mut seen: Vec<Vec<u8>> = vec![hex_string(t, &p).0.as_bytes()[2..].to_vec()];
                let steps = t.range(2, 10);
                let mut hist = vec![];
                for step in 0..steps {
                    let mut s = seen[t.below(seen.len())].clone();
                    if step > 0 {
                        let dg = *t.pick(b"0123456789abcdefABCDEF");
                        let at = if s.is_empty() { 0 } else { t.below(s.len()) };
                        match t.below(10) {
                            0 if !s.is_empty() => s[at] = dg,
                            1 if !s.is_empty() => s[0] = dg,
                            2 if !s.is_empty() => { let l = s.len() - 1; s[l] = dg; }
                            3 => { s.insert(0, dg); s.insert(0, *t.pick(b"0123456789abcdef")); }
                            4 => { s.push(dg); s.push(*t.pick(b"0123456789abcdef")); }
                            5 if s.len() >= 2 => { let k = 2 * t.range(1, s.len() / 2); s.drain(..k); }
                            6 if s.len() >= 2 => { let k = s.len() - 2 * t.range(1, s.len() / 2); s.truncate(k); }
                            7 => { let up = t.chance(1, 2); s.iter_mut().for_each(|c| *c = if up { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }); }
                            8 if s.len() >= 4 => { let k = 2 * t.below(s.len() / 2); s.rotate_left(k); }
                            _ => (),
                        }
                    }
                    let text = format!("0x{}", String::from_utf8(s.clone()).unwrap());
                    let v = if s.is_empty() { BigUint::default() } else { BigUint::parse_bytes(&s, 16).ok_or("HARNESS: hex")? };
                    let which = if step % 2 == 1 { g } else { f };
                    with_field!(which, F => {
                        let p = modulus::<F>();
                        let got = must(&format!("from_hex(\"{text}\") over {} after {hist:?}", FIELD_NAMES[which]), || z::fields::utils::from_hex::<F>(&text))?;
                        if to_big(&got) != &v % &p {
                            return Err(format!("from_hex(\"{text}\") over {} = {}, expected 0x{}, after {hist:?}", FIELD_NAMES[which], show(&got), (v % p).to_str_radix(16)));
                        }
                    });
                    if t.chance(1, 6) {
                        let bad = format!("{text}{}", *t.pick(&["0", "g0", "x", " "]));
                        with_field!(which, F => must_refuse(&format!("from_hex({bad:?})"), || z::fields::utils::from_hex::<F>(&bad))?);
                    }
                    hist.push(text);
                    seen.push(s);
                }
                info(t, hist.iter().collect::<std::collections::HashSet<_>>().len() > 2, format!("{} {}", FIELD_NAMES[f], if f == g { "one field" } else { "two fields" }), || format!("over {} and {}: {hist:?}", FIELD_NAMES[f], FIELD_NAMES[g]))
            }),
            sub("malformed", 80, 100000, 1000000, |t| {
                let f = t.strat(N_FIELDS);
                with_field!(f, F => {
                    let p = modulus::<F>();
                    let (mut s, _) = hex_string(t, &p);
                    let what;
                    if t.chance(1, 3) || s.len() == 2 {
                        // an odd number of digits
                        if s.len() == 2 || t.chance(1, 2) {
                            s.push(*t.pick(&['0', '1', 'a', 'F', '7']));
                        } else {
                            let i = 2 + t.below(s.len() - 2);
                            s.remove(i);
                        }
                        what = "odd number of digits";
                    } else if t.chance(1, 2) {
                        let i = match t.below(4) { 0 => 2, 1 => s.len() - 1, _ => 2 + t.below(s.len() - 2) };
                        let c = junk(t);
                        s.replace_range(i..i + 1, &c);
                        if t.chance(1, 8) && i + c.len() < s.len() && s.is_char_boundary(i + c.len() + 1) { s.replace_range(i..i + c.len() + 1, "é"); }
                        what = "non-hexadecimal character";
                    } else {
                        // an even number of digits, and something else before, between or after them
                        let c = junk(t);
                        let n = s.len();
                        match t.below(6) {
                            0 => for _ in 0..t.range(1, 3) { s.push_str(&c) },
                            1 => s.insert_str(2, &c.repeat(t.range(1, 3))),
                            2 => {
                                let every = *t.pick(&[2usize, 4, 8, 16]);
                                let d = s[2..].as_bytes().chunks(every).map(|c| String::from_utf8_lossy(c).into_owned()).collect::<Vec<_>>().join(&c);
                                s = format!("0x{d}");
                                if s.len() == n { s.push_str(&c); }
                            }
                            3 => s = format!("0x{c}{}{c}", &s[2..]),
                            4 => { let i = 2 + t.below(n - 2); s.insert_str(i, &c); let j = 2 + t.below(i - 1); if s.is_char_boundary(j) { s.insert_str(j, &c); } }
                            _ => s.insert_str(2 + t.below(n - 2), &c),
                        }
                        what = "foreign characters added";
                    }
                    must_refuse(&format!("from_hex({s:?}) over {}", FIELD_NAMES[f]), || z::fields::utils::from_hex::<F>(&s))?;
                    info(t, s.len() > 4, what, || format!("from_hex({s:?}) over {} refused", FIELD_NAMES[f]))
                })
            }),
        ],
    }
}

/// One or two characters, at least one of which is not a hexadecimal digit.
fn junk(t: &mut Tape) -> String {
    const J: [&str; 40] = ["g", "_", " ", "x", "X", "-", "+", "\n", ".", "@", "`", "/", ":", "z", "o", "O", "\0", "G", ",", "\t", "\r", "'", "0x", "0X", "h", "H", "\\", "\"", "#", "u", "\u{b}", "\u{a0}", "é", "\u{200b}", "\u{feff}", "０", "=", "%", ";", "l"];
    J[t.below(J.len())].to_string()
}

fn hex_string(t: &mut Tape, p: &BigUint) -> (String, BigUint) {
    let v = match t.below(6) {
        0 => special_big(t, p),
        1 => {
            let k = BigUint::from(t.below(6) as u32);
            p * k + BigUint::from(t.below(5) as u32)
        }
        2 => {
            let n = match t.below(40) {
                0 => t.below(3000),
                1 => {
                    let m = mined();
                    (m.int(t).min(5000) as usize + t.below(3)).saturating_sub(1)
                }
                2..=6 => t.below(300),
                _ => t.below(70),
            };
            BigUint::from_bytes_be(&t.expander().bytes(n))
        }
        3 => {
            let k = BigUint::from(t.below(5) as u32);
            let m = p * (1u32 + t.below(4) as u32);
            if m > k { m - k } else { m }
        }
        4 if t.chance(1, 3) => {
            // whole blocks of equal bytes between others
            let k = *t.pick(&[4usize, 8, 16, 32, 64]);
            let mut ex = t.expander();
            let b: Vec<u8> = (0..t.range(1, 8)).flat_map(|_| match t.below(4) {
                0 | 1 => vec![0u8; k],
                2 => vec![*t.pick(&[0xffu8, 0x01, 0x80, 0x11]); k],
                _ => ex.bytes(k),
            }).collect();
            BigUint::from_bytes_be(&b)
        }
        4 => {
            // sparse bytes
            let n = t.below(66);
            let mut b = vec![0u8; n + 1];
            for _ in 0..t.range(1, 3) {
                let i = t.below(n + 1);
                b[i] = *t.pick(&[1u8, 0x0f, 0xf0, 0xff, 0x80, 0x10]);
            }
            BigUint::from_bytes_be(&b)
        }
        _ => BigUint::from_bytes_be(&t.expander().bytes(32)),
    };
    let mut s = v.to_str_radix(16);
    if v == BigUint::default() && t.chance(1, 2) {
        s = String::new();
    }
    if s.len() % 2 == 1 {
        s.insert(0, '0');
    }
    match t.below(4) {
        0 => s = format!("{}{s}", "00".repeat(t.below(8))),
        1 => s = format!("{}{s}", "0".repeat(64usize.saturating_sub(s.len()) / 2 * 2)),
        2 if t.chance(1, 8) => s = format!("{}{s}", "00".repeat(t.below(250))),
        _ => (),
    }
    let case = t.below(3);
    let mut ex = t.expander();
    let s: String = s.chars().map(|c| if case == 1 || (case == 2 && ex.below(2) == 0) { c.to_ascii_uppercase() } else { c }).collect();
    (format!("0x{s}"), v)
}

// ---------------------------------------------------------------- C21

/// Chi-square statistic against uniform; Err when it is out of reach of chance.
/// Bounds: Wilson-Hilferty quantiles at about 8 standard deviations (1e-15).
fn uniform(what: &str, counts: &[u64]) -> Result<(), String> {
    let n: u64 = counts.iter().sum();
    let k = counts.len() as f64;
    let e = n as f64 / k;
    let chi: f64 = counts.iter().map(|c| (*c as f64 - e).powi(2) / e).sum();
    let df = k - 1.0;
    let bound = |zs: f64| {
        let q = 2.0 / (9.0 * df);
        df * (1.0 - q + zs * q.sqrt()).max(0.0).powi(3)
    };
    let too_even = if df > 50.0 { bound(-8.0) } else { -1.0 };
    if chi > bound(8.0) || chi < too_even {
        return Err(format!("{what}: counts {:?} are not uniform (chi-square {chi:.1} for {df} degrees of freedom)", &counts[..counts.len().min(40)]));
    }
    Ok(())
}

#[derive(ark_ff::MontConfig)]
#[modulus = "3"]
#[generator = "2"]
pub struct F3Config;
type F3 = ark_ff::fields::Fp64<ark_ff::fields::MontBackend<F3Config, 1>>;
#[derive(ark_ff::MontConfig)]
#[modulus = "5"]
#[generator = "2"]
pub struct F5Config;
type F5 = ark_ff::fields::Fp64<ark_ff::fields::MontBackend<F5Config, 1>>;

/// Any two bits of a draw, and of draws one or two apart, agree half of the time.
fn pairs_of_bits(name: &str, v: &[BigUint], bits: u64) -> Result<(), String> {
    let n = v.len() - 2;
    let cols: Vec<[Vec<u64>; 3]> = (0..bits)
        .map(|b| {
            [0, 1, 2].map(|lag| {
                let mut c = vec![0u64; n.div_ceil(64)];
                (0..n).for_each(|i| c[i / 64] |= u64::from(v[i + lag].bit(b)) << (i % 64));
                c
            })
        })
        .collect();
    for i in 0..cols.len() {
        for j in 0..cols.len() {
            for lag in 0..3 {
                if lag == 0 && i <= j {
                    continue;
                }
                let ones: u32 = cols[i][0].iter().zip(&cols[j][lag]).map(|(a, b)| (a ^ b).count_ones()).sum();
                if (ones as f64 - n as f64 / 2.0).abs() > 4.5 * (n as f64).sqrt() {
                    return Err(format!("bit {i} of a draw over {name} and bit {j} of the draw {lag} later differ in {ones} of {n} cases"));
                }
            }
        }
    }
    Ok(())
}

/// `draws COUNT`: draws of both samplers over the large fields, for comparison between processes.
pub fn emit_draws(a: &[String]) -> i32 {
    let n: usize = a[0].parse().unwrap();
    for f in 2..10 {
        with_field!(f, F => {
            for nz in [false, true] {
                match draws::<F>(nz, n) {
                    Ok(v) => v.iter().for_each(|x| println!("{f} {}", to_big(x).to_str_radix(16))),
                    Err(e) => println!("PANIC {e}"),
                }
            }
        });
    }
    0
}

fn draws<F: PrimeField>(nonzero: bool, n: usize) -> Result<Vec<F>, String> {
    must("random scalar", || (0..n).map(|_| if nonzero { z::fields::utils::random_scalar_without_0() } else { z::fields::utils::random_scalar() }).collect())
}

fn tiny<F: PrimeField>(t: &mut Tape, name: &str, nonzero: bool, n: usize) -> Result<Info, String> {
    let p: usize = modulus::<F>().iter_u64_digits().next().unwrap() as usize;
    let v: Vec<usize> = draws::<F>(nonzero, n)?.iter().map(|x| to_big(x).iter_u64_digits().next().unwrap_or(0) as usize).collect();
    if nonzero && v.contains(&0) {
        return Err(format!("the non-zero sampler returned 0 over {name}"));
    }
    let lo = usize::from(nonzero);
    let k = p - lo;
    let who = if nonzero { "non-zero sampler" } else { "sampler" };
    let mut c = vec![0u64; k];
    v.iter().for_each(|x| c[x - lo] += 1);
    if k > 1 {
        uniform(&format!("{who} over {name}"), &c)?;
    }
    if p < 20 && k > 1 {
        for lag in [1usize, 2, 3, 7] {
            let mut c = vec![0u64; k * k];
            v.windows(lag + 1).step_by(lag + 1).for_each(|w| c[(w[0] - lo) * k + w[lag] - lo] += 1);
            uniform(&format!("{who} over {name}, pairs at distance {lag}"), &c)?;
        }
    }
    info(t, true, format!("{who} {name}"), || format!("{who} over {name}: {n} draws, counts {:?}", &c[..k.min(17)]))
}

pub fn c21() -> Prop {
    Prop {
        id: "C21",
        rule: "A case is a field and a sampler with thousands of draws: tiny fields (3, 5, 17, 257) with chi-square on values and on pairs at several distances, large fields with chi-square on equal slices of [0, p), on residues modulo small numbers, on every bit of v and on repeats; any two bits of a draw and of draws one or two apart, limbs, sums, differences and quotients of neighbours; several threads, or processes, drawing at once must not share values. Statistics reject only beyond 8 standard deviations (below 1e-14 per test). Non-trivial: every case.",
        subs: vec![
            sub("tiny fields", 2, 80, 800, |t| {
                let nz = t.strat(2) == 1;
                match t.strat(4) {
                    0 => tiny::<F17>(t, "F17", nz, 60000),
                    1 => tiny::<F3>(t, "F3", nz, 20000),
                    2 => tiny::<F5>(t, "F5", nz, 20000),
                    _ => tiny::<F257>(t, "F257", nz, 60000),
                }
            }),
            sub("large fields", 2, 80, 800, |t| {
                let f = t.strat(8) + 2;
                let nz = t.strat(2) == 1;
                with_field!(f, F => {
                    let n = 16000;
                    let name = FIELD_NAMES[f];
                    let p = modulus::<F>();
                    let v: Vec<BigUint> = draws::<F>(nz, n)?.iter().map(to_big).collect();
                    if v.iter().any(|x| *x >= p) { return Err(format!("sampler over {name} returned a value not below p")); }
                    if nz && v.iter().any(|x| *x == BigUint::default()) { return Err(format!("the non-zero sampler returned 0 over {name}")); }
                    let mut slices = vec![0u64; 64];
                    let (mut m256, mut m7) = (vec![0u64; 256], vec![0u64; 7]);
                    for x in &v {
                        slices[(x * 64u32 / &p).iter_u64_digits().next().unwrap_or(0) as usize] += 1;
                        m256[(x % 256u32).iter_u64_digits().next().unwrap_or(0) as usize] += 1;
                        m7[(x % 7u32).iter_u64_digits().next().unwrap_or(0) as usize] += 1;
                    }
                    uniform(&format!("slices of {name}"), &slices)?;
                    uniform(&format!("low byte of {name}"), &m256)?;
                    uniform(&format!("residues mod 7 of {name}"), &m7)?;
                    for b in 0..p.bits().saturating_sub(4) {
                        let ones = v.iter().filter(|x| x.bit(b)).count() as u64;
                        // the bits far below the top are fair to within 2^-4 / number of periods
                        let dev = (ones as f64 - n as f64 / 2.0).abs() / (n as f64).sqrt() * 2.0;
                        let slack = (n as f64).sqrt() / 2f64.powi((p.bits() - b) as i32 - 3);
                        if dev > 8.5 + slack { return Err(format!("bit {b} of {name} is set in {ones} of {n} draws")); }
                    }
                    pairs_of_bits(name, &v, p.bits().saturating_sub(20))?;
                    // half of the values are squares; the stored (Montgomery) form is spread as the value is
                    let mut sq = vec![0u64; 2];
                    v.iter().take(4000).for_each(|x| sq[usize::from(from_big::<F>(x).legendre().is_qr())] += 1);
                    uniform(&format!("squares among the draws over {name}"), &sq)?;
                    let r = BigUint::from(1u32) << (64 * <F as PrimeField>::BigInt::NUM_LIMBS);
                    let ri = to_big(&from_big::<F>(&(&r % &p)).inverse().unwrap());
                    for (what, f) in [("Montgomery form", &r), ("inverse Montgomery form", &ri)] {
                        let (mut sl, mut lb) = (vec![0u64; 64], vec![0u64; 256]);
                        for x in &v {
                            let y = x * f % &p;
                            sl[(&y * 64u32 / &p).iter_u64_digits().next().unwrap_or(0) as usize] += 1;
                            lb[(&y % 256u32).iter_u64_digits().next().unwrap_or(0) as usize] += 1;
                        }
                        uniform(&format!("slices of the {what} over {name}"), &sl)?;
                        uniform(&format!("low byte of the {what} over {name}"), &lb)?;
                    }
                    // no 64-bit limb ever repeats, in whatever position
                    if p.bits() > 60 {
                        let limbs = p.bits() as usize / 60;
                        let mut l: Vec<u64> = v.iter().flat_map(|x| { let mut d = x.to_u64_digits(); d.resize(limbs.min((p.bits() as usize).div_ceil(64)), 0); d }).collect();
                        let k = l.len();
                        l.sort_unstable();
                        l.dedup();
                        if l.len() + 2 < k { return Err(format!("sampler over {name}: {} of {k} limbs of {n} draws are distinct", l.len())); }
                    }
                    // nor do sums, differences and quotients of neighbours
                    if p.bits() > 60 {
                        for k in [1usize, 2, 3] {
                            let mut a: Vec<BigUint> = v.windows(k + 1).map(|w| (&w[0] + &w[k]) % &p).collect();
                            let mut b: Vec<BigUint> = v.windows(k + 1).map(|w| (&w[0] + &p - &w[k]) % &p).collect();
                            let (m, one) = (a.len(), BigUint::from(1u32));
                            a.sort();
                            a.dedup();
                            b.sort();
                            b.dedup();
                            if a.len() < m || b.len() < m || a[0] <= one || b[0] <= one { return Err(format!("sampler over {name}: draws at distance {k} have repeated or trivial sums or differences")); }
                        }
                        let mut q: Vec<BigUint> = v.chunks(2).take(400).filter(|c| c.len() == 2).map(|c| to_big(&(from_big::<F>(&c[0]) / from_big::<F>(&c[1])))).collect();
                        let m = q.len();
                        q.sort();
                        q.dedup();
                        if q.len() < m { return Err(format!("sampler over {name}: quotients of successive draws repeat")); }
                    }
                    let mut s = v.clone();
                    s.sort();
                    s.dedup();
                    let most = if p.bits() < 40 { 12 } else { 0 };
                    if s.len() + most < n { return Err(format!("sampler over {name}: only {} of {n} draws are distinct", s.len())); }
                    // successive draws unrelated
                    let mut up = vec![0u64; 2];
                    v.windows(2).step_by(2).for_each(|w| up[usize::from(w[0] < w[1])] += 1);
                    uniform(&format!("order of successive draws of {name}"), &up)?;
                    info(t, true, format!("{name} {}", if nz { "non-zero" } else { "" }), || format!("{name}: {n} draws, first 0x{}", v[0].to_str_radix(16)))
                })
            }),
            sub("no repeats in long runs", 2, 8, 64, |t| {
                let nz = t.strat(2) == 1;
                let n: usize = if super::history::thorough() { 1 << 23 } else { 1 << 20 };
                macro_rules! go { ($F:ty, $name:expr) => {{
                    // 2^-19 repeats expected over 64-bit Goldilocks in thorough runs: two are beyond chance,
                    // and so is a value within 2^12 of 0 or p
                    let p = modulus::<$F>();
                    let mut v: Vec<u128> = draws::<$F>(nz, n)?.iter().map(|x| { let b = x.into_bigint().0; b[0] as u128 | (b.get(1).copied().unwrap_or(0) as u128) << 64 }).collect();
                    let mask = if p.bits() < 128 { u128::MAX >> (128 - p.bits().div_ceil(64) * 64) } else { u128::MAX };
                    let low = p.iter_u64_digits().take(2).enumerate().fold(0u128, |a, (i, d)| a | (d as u128) << (64 * i)) & mask;
                    // the low 128 bits of p - k and of k, for small k
                    if let Some(x) = v.iter().find(|x| **x < 4096 || low.wrapping_sub(**x) & mask <= 4096) { return Err(format!("one of {n} draws over {} is next to 0 or p (0x{x:x} in its low bits)", $name)); }
                    v.sort_unstable();
                    let rep = v.windows(2).filter(|w| w[0] == w[1]).count();
                    if rep > usize::from(p.bits() < 100) { return Err(format!("{} of {n} draws over {} repeat", rep, $name)); }
                    info(t, true, format!("{} {}", $name, if nz { "non-zero" } else { "" }), || format!("{}: {n} draws, {rep} repeats", $name))
                }}}
                match t.strat(3) {
                    0 => go!(z::fields::goldilocks::FpGoldiLocks, "GoldiLocks"),
                    1 => go!(z::fields::bn256::FpBN256, "BN256"),
                    _ => go!(z::fields::bls12::FpBLS12, "BLS12"),
                }
            }),
            sub("processes", 2, 6, 40, |t| {
                let n = 4 + t.below(20);
                let kids: Vec<_> = (0..4).map(|k| std::process::Command::new(super::history::sibling(k % 2 == 1)).args(["draws", &n.to_string()]).stdin(std::process::Stdio::null()).stderr(std::process::Stdio::null()).stdout(std::process::Stdio::piped()).spawn()).collect();
                let mut all: std::collections::BTreeMap<String, usize> = Default::default();
                let (mut total, mut shared) = (0, 0);
                for (k, c) in kids.into_iter().enumerate() {
                    let o = c.and_then(|c| c.wait_with_output()).map_err(|e| format!("HARNESS: child: {e}"))?;
                    let out = String::from_utf8_lossy(&o.stdout).into_owned();
                    if let Some(l) = out.lines().find(|l| l.starts_with("PANIC")) { return Err(l.into()); }
                    for l in out.lines() {
                        total += 1;
                        if all.insert(l.to_string(), k).is_some_and(|o| o != k) { shared += 1; }
                    }
                }
                if total != 4 * 16 * n { return Err(format!("HARNESS: {total} draws from 4 children")); }
                // 192 draws from 2^31 values per case: one repeat in 10^5 cases
                if shared > 2 { return Err(format!("{shared} of {total} values drawn by four processes were drawn by two of them")); }
                info(t, true, "four processes", || format!("{n} draws per field and sampler in each of four processes"))
            }),
            sub("threads", 2, 16, 160, |t| {
                let f = t.strat(8) + 2;
                with_field!(f, F => {
                    let name = FIELD_NAMES[f];
                    let all: Vec<Result<Vec<BigUint>, String>> = std::thread::scope(|s| {
                        let hs: Vec<_> = (0..8).map(|k| s.spawn(move || draws::<F>(k % 2 == 1, 200).map(|v| v.iter().map(to_big).collect()))).collect();
                        hs.into_iter().map(|h| h.join().unwrap_or(Err("HARNESS: thread".into()))).collect()
                    });
                    let mut v = vec![];
                    for a in all { v.extend(a?); }
                    let n = v.len();
                    v.sort();
                    v.dedup();
                    // 1600 draws from 2^31 values repeat 0.0006 times on average
                    let most = if modulus::<F>().bits() < 40 { 6 } else { 0 };
                    if v.len() + most < n { return Err(format!("threads drawing over {name} share values: {} of {n} distinct", v.len())); }
                    info(t, true, name, || format!("{name}: 8 threads, {n} draws, all distinct"))
                })
            }),
        ],
    }
}

// ---------------------------------------------------------------- C23

/// All constants a parameter set drew: (round constants row by row, others that may be any element,
/// others that may not be zero). None without hooks.
type Drawn<F> = (Vec<Vec<F>>, Vec<F>, Vec<F>);

fn drawn_gm<F: PrimeField>(t: usize, d: usize, rounds: usize) -> Result<Option<Drawn<F>>, String> {
    let p = must(&format!("GmimcParams::new({t}, {d}, {rounds})"), || z::gmimc::gmimc_params::GmimcParams::<F>::new(t, d, rounds))?;
    let Some(rc) = gm_rc(&p) else { return Ok(None) };
    if rc.len() != rounds || p.get_rounds() != rounds || p.get_t() != t {
        return Err(format!("GMiMC(t={t}, d={d}, rounds={rounds}): {} constants, get_rounds {}, get_t {}", rc.len(), p.get_rounds(), p.get_t()));
    }
    Ok(Some((rc.into_iter().map(|x| vec![x]).collect(), vec![], vec![])))
}

fn drawn_nep<F: PrimeField>(t: usize, d: usize, rf: usize, rp: usize) -> Result<Option<Drawn<F>>, String> {
    let what = format!("NeptuneParams::new({t}, {d}, {rf}, {rp})");
    let p = must(&what, || z::neptune::neptune_params::NeptuneParams::<F>::new(t, d, rf, rp))?;
    let Some(c) = nep_consts(&p) else { return Ok(None) };
    if c.rc.len() != rf + rp || c.rc.iter().any(|r| r.len() != t) || c.diag_m1.len() != t || c.m_e.len() != t || c.m_e.iter().any(|r| r.len() != t) {
        return Err(format!("{what}: constants of the wrong shape"));
    }
    let mut any = vec![c.gamma];
    for (i, r) in c.m_e.iter().enumerate() {
        for (j, x) in r.iter().enumerate() {
            if (i + j) % 2 == 1 {
                if !x.is_zero() {
                    return Err(format!("{what}: the external matrix mixes elements {i} and {j}"));
                }
            } else if t != 4 && t != 8 {
                any.push(*x);
            }
        }
    }
    Ok(Some((c.rc, any, c.diag_m1.iter().map(|x| *x + F::one()).collect())))
}

/// no value drawn twice, except by chance
fn all_distinct<F: PrimeField>(what: &str, v: &[F]) -> Result<(), String> {
    let mut s: Vec<BigUint> = v.iter().map(to_big).collect();
    s.sort();
    let rep = s.windows(2).filter(|w| w[0] == w[1]).count();
    let expect = (v.len() as f64).powi(2) / 2.0 / 2f64.powi(modulus::<F>().bits() as i32 - 1);
    // far beyond chance: ten standard deviations and five
    if rep as f64 > expect + 10.0 * expect.sqrt() + 5.0 {
        return Err(format!("{what}: {rep} of {} constants repeat", v.len()));
    }
    Ok(())
}

pub fn c23() -> Prop {
    Prop {
        id: "C23",
        rule: "A case is a GMiMC or Neptune parameter set, or several with the same numbers (one after the other or by threads at once): width 1..48, degree, 0..20000 rounds, field. All drawn constants (round constants, gamma, internal diagonal, external matrices of widths other than 4 and 8) are read through the hook: over large fields none may repeat within and between sets; over tiny fields values and neighbouring pairs must pass chi-square at 8 standard deviations and no entry of the internal diagonal may be zero. Without hooks: sets with the same numbers are different permutations. Non-trivial: at least 8 constants, or two sets.",
        subs: vec![
            sub("large fields", 24, 4000, 40000, |t| {
                let f = t.strat(8) + 2;
                let nep = t.strat(2) == 1;
                with_field!(f, F => {
                    let name = FIELD_NAMES[f];
                    let d = *t.pick(&[3usize, 5, 7]);
                    let sets = t.range(1, 4);
                    let mined_n = |t: &mut Tape, top: usize| (mined().int(t).min(top as u128) as usize + t.below(3)).saturating_sub(1);
                    let (w, rf, rp, rounds) = if nep {
                        let top = if t.chance(1, 5) { 24 } else { 8 };
                        let w = 2 * t.range(1, top);
                        let top = if t.chance(1, 6) { 80 } else { 6 };
                        let rp = match t.below(8) { 0 => mined_n(t, 700), 1 => t.below(300), _ => t.below(60) };
                        (w, 2 * t.below(top), rp, 0)
                    } else {
                        (t.range(2, 48), 0, 0, match t.below(8) { 0 => mined_n(t, 20000), 1 => t.below(20000), 2 | 3 => t.below(2000), _ => t.below(300) })
                    };
                    let threads = t.chance(1, 4);
                    let one = move || if nep { drawn_nep::<F>(w, d, rf, rp) } else { drawn_gm::<F>(w, d, rounds) };
                    let got: Vec<Result<Option<Drawn<F>>, String>> = if threads {
                        std::thread::scope(|s| { let h: Vec<_> = (0..sets).map(|_| s.spawn(one)).collect(); h.into_iter().map(|h| h.join().unwrap_or(Err("HARNESS: thread".into()))).collect() })
                    } else {
                        (0..sets).map(|_| one()).collect()
                    };
                    let desc = if nep { format!("Neptune(t={w}, rf={rf}, rp={rp}) over {name}") } else { format!("GMiMC(t={w}, rounds={rounds}) over {name}") };
                    let mut all = vec![];
                    for g in got {
                        let Some((rc, any, nonzero)) = g? else {
                            return info(t, false, "no hooks", || "no hooks".to_string());
                        };
                        if nonzero.iter().any(|x| x.is_zero()) { return Err(format!("{desc}: the internal diagonal has a zero entry")); }
                        all.extend(rc.into_iter().flatten());
                        all.extend(any);
                        all.extend(nonzero);
                    }
                    let what = format!("{sets} sets of {desc}{}", if threads { " built by threads" } else { "" });
                    all_distinct(&what, &all)?;
                    let (tiny, most) = if modulus::<F>().bits() > 60 { (48, 2) } else { (20, 10) };
                    if all.iter().filter(|x| to_big(*x).bits() + tiny < modulus::<F>().bits()).count() > most { return Err(format!("{what}: several constants are tiny")); }
                    info(t, all.len() >= 8, format!("{name} {}", if nep { "Neptune" } else { "GMiMC" }), || format!("{what}: {} constants", all.len()))
                })
            }),
            sub("tiny fields", 8, 180, 1800, |t| {
                let nep = t.strat(2) == 1;
                macro_rules! go { ($F:ty, $name:expr, $p:expr) => {{
                    let val = |x: &$F| to_big(x).iter_u64_digits().next().unwrap_or(0) as usize;
                    let (mut rc, mut any, mut nz): (Vec<Vec<Vec<$F>>>, Vec<Vec<$F>>, Vec<Vec<$F>>) = (vec![], vec![], vec![]);
                    let mut total = 0;
                    let mut ex = t.expander();
                    while total < 60_000 {
                        let d = [3usize, 5, 7][ex.below(3)];
                        let g = if nep { drawn_nep::<$F>(2 + 2 * ex.below(16), d, 2 * ex.below(4), ex.below(20))? } else { let top = [1usize, 30, 2000][ex.below(3)]; drawn_gm::<$F>(2 + ex.below(20), d, 1 + ex.below(top))? };
                        let Some((a, b, c)) = g else { return info(t, false, "no hooks", || "no hooks".to_string()) };
                        total += a.len() * a.first().map_or(0, |r| r.len()) + b.len() + c.len();
                        rc.push(a);
                        any.push(b);
                        nz.push(c);
                    }
                    let who = format!("{} over {}", if nep { "Neptune" } else { "GMiMC" }, $name);
                    if nz.iter().flatten().any(|x| x.is_zero()) { return Err(format!("{who}: the internal diagonal has a zero entry")); }
                    let count = |what: &str, lo: usize, v: &mut dyn Iterator<Item = usize>| { let mut c = vec![0u64; $p - lo]; v.for_each(|x| c[x - lo] += 1); if c.iter().sum::<u64>() as usize > 10 * $p { uniform(&format!("{what} of {who}"), &c) } else { Ok(()) } };
                    let pairs = |what: &str, v: &mut dyn Iterator<Item = (usize, usize)>| { let mut c = vec![0u64; $p * $p]; v.for_each(|(x, y)| c[x * $p + y] += 1); if c.iter().sum::<u64>() as usize > 10 * $p * $p { uniform(&format!("{what} of {who}"), &c) } else { Ok(()) } };
                    count("round constants", 0, &mut rc.iter().flatten().flatten().map(val))?;
                    count("first round constants of a round", 0, &mut rc.iter().flatten().map(|r| val(&r[0])))?;
                    pairs("neighbouring constants of a round", &mut rc.iter().flatten().flat_map(|r| r.chunks_exact(2)).map(|w| (val(&w[0]), val(&w[1]))))?;
                    pairs("constants of successive rounds", &mut rc.iter().flat_map(|s| s.chunks_exact(2)).flat_map(|w| w[0].iter().zip(&w[1])).map(|(a, b)| (val(a), val(b))))?;
                    pairs("constants of successive sets", &mut rc.chunks_exact(2).flat_map(|w| w[0].iter().flatten().zip(w[1].iter().flatten())).map(|(a, b)| (val(a), val(b))))?;
                    if nep {
                        count("external matrices", 0, &mut any.iter().flat_map(|a| &a[1..]).map(val))?;
                        count("gamma", 0, &mut any.iter().map(|a| val(&a[0])))?;
                        count("internal diagonals", 1, &mut nz.iter().flatten().map(val))?;
                        pairs("neighbouring matrix entries", &mut any.iter().flat_map(|a| a[1..].chunks_exact(2)).map(|w| (val(&w[0]), val(&w[1]))))?;
                        pairs("gamma and first constant", &mut any.iter().zip(&rc).filter_map(|(a, r)| r.first().map(|r| (val(&a[0]), val(&r[0])))))?;
                    }
                    info(t, true, who.clone(), || format!("{who}: {} sets, {total} constants", rc.len()))
                }}}
                match t.strat(3) {
                    0 => go!(F17, "F17", 17),
                    1 => go!(F5, "F5", 5),
                    _ => go!(F257, "F257", 257),
                }
            }),
            sub("many sets", 4, 48, 480, |t| {
                let f = [2usize, 3, 4, 6, 7, 8, 9][t.strat(7)];
                let nep = t.strat(2) == 1;
                with_field!(f, F => {
                    let n = t.range(500, 3000);
                    let mut ex = t.expander();
                    let mut all = vec![];
                    for _ in 0..n {
                        let d = [3usize, 5, 7][ex.below(3)];
                        let g = if nep { drawn_nep::<F>(2 + 2 * ex.below(3), d, 2 * ex.below(2), 1 + ex.below(2))? } else { drawn_gm::<F>(2 + ex.below(8), d, 1 + ex.below(5))? };
                        let Some((rc, any, nonzero)) = g else { return info(t, false, "no hooks", || "no hooks".to_string()) };
                        all.extend(rc.into_iter().flatten().chain(any).chain(nonzero));
                    }
                    let what = format!("{n} small {} sets over {}", if nep { "Neptune" } else { "GMiMC" }, FIELD_NAMES[f]);
                    all_distinct(&what, &all)?;
                    info(t, true, what.split(" over").next().unwrap().split_once(' ').unwrap().1.to_string(), || format!("{what}: {} constants", all.len()))
                })
            }),
            sub("two sets are two permutations", 60, 3000, 30000, |t| {
                let f = [2usize, 3, 4, 6, 7, 8, 9][t.strat(7)];
                let nep = t.strat(2) == 1;
                with_field!(f, F => {
                    let d = *t.pick(&[3usize, 5, 7]);
                    let w = if nep { 2 * t.range(1, 12) } else { t.range(2, 24) };
                    let (rf, rp) = if nep { (2 * t.range(1, 4), t.below(20)) } else { (0, t.range(1, 200)) };
                    let x = state::<F>(t, w);
                    let run = || -> Vec<F> {
                        if nep {
                            z::neptune::neptune::Neptune::new(&std::sync::Arc::new(z::neptune::neptune_params::NeptuneParams::<F>::new(w, d, rf, rp))).permutation(&x)
                        } else {
                            z::gmimc::gmimc::Gmimc::new(&std::sync::Arc::new(z::gmimc::gmimc_params::GmimcParams::<F>::new(w, d, rp))).permutation(&x)
                        }
                    };
                    let what = format!("{}(t={w}, d={d}, rounds {rf}+{rp}) over {}", if nep { "Neptune" } else { "GMiMC" }, FIELD_NAMES[f]);
                    let (a, b) = (must(&what, run)?, must(&what, run)?);
                    if a == b { return Err(format!("two sets {what} map {} to the same state", show_vec(&x))); }
                    info(t, true, what.split('(').next().unwrap().to_string(), || format!("{what} on {}", show_vec(&x)))
                })
            }),
        ],
    }
}
