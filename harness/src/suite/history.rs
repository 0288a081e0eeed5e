//! C08, C10, C11: processes, histories, threads, rejection.
use super::core::*;
use super::hashes::{all_shipped, cache};
use super::inst::*;
use super::model::*;
use super::trees::ref_root;
use crate::{with_field, with_shipped};
use ark_ff::PrimeField;
use sha2::Digest;
use std::collections::BTreeMap;
use std::process::{Command, Stdio};
use std::sync::{Arc, Barrier};
use z::gmimc::{gmimc::Gmimc, gmimc_params::GmimcParams};
use z::merkle_tree::{merkle_tree_f2 as tf2, merkle_tree_fp as tfp, merkle_tree_orchard as tor, merkle_tree_sapling as tsa};
use z::neptune::{neptune::Neptune, neptune_params::NeptuneParams};
use z::poseidon::{poseidon::Poseidon, poseidon_params::PoseidonParams};
use z::poseidon2::{poseidon2::Poseidon2, poseidon2_params::Poseidon2Params};

// ---------------------------------------------------------------- child processes

pub fn sibling(dbg: bool) -> std::path::PathBuf {
    let me = std::env::current_exe().expect("current_exe");
    me.with_file_name(if dbg { "suite_dbg" } else { "suite_rel" })
}

fn hexv<F: PrimeField>(v: &[F]) -> String {
    v.iter().map(|x| to_big(x).to_str_radix(16)).collect::<Vec<_>>().join(",")
}

/// Inputs of the cross-process comparison: a function of the seed only.
fn emit_input<F: PrimeField>(seed: u64, name: &str, t: usize) -> Vec<F> {
    let h = name.bytes().fold(seed, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3));
    let mut ex = Expander::new(h);
    let tape: Vec<u32> = (0..120).map(|_| ex.next() as u32).collect();
    state(&mut Tape::new(0, &tape), t)
}

const EMIT_INPUTS: u64 = 12;

/// `emit SEED ORDER THREADED`: every shipped instance on one input each, in an
/// order given by ORDER; one line per instance and path.
pub fn emit(args: &[String]) -> i32 {
    let seed: u64 = args[0].parse().unwrap();
    let order: u64 = args[1].parse().unwrap();
    let only: u64 = args[2].parse().unwrap();
    let mut list = all_shipped(|_, _| true);
    let mut ex = Expander::new(order);
    for i in (1..list.len()).rev() {
        list.swap(i, ex.below(i + 1));
    }
    if only > 0 {
        list.truncate(only as usize);
    }
    let mut out = String::new();
    for (f, k) in list {
        with_shipped!(f, F => {
            let (kind, i) = shipped_list::<F>()[k];
            let r = lib(|| {
                let (name, h, consts): (&str, AnyHash<F>, Option<Vec<F>>) = match kind {
                    0 => (F::p2()[i].name, AnyHash::P2(Poseidon2::new(&(F::p2()[i].params)())), None),
                    1 => (F::p1()[i].name, AnyHash::P1(Poseidon::new(&(F::p1()[i].params)())), None),
                    2 => {
                        let p = (F::gm()[i].params)();
                        (F::gm()[i].name, AnyHash::Gm(Gmimc::new(&p)), gm_rc(&p))
                    }
                    _ => {
                        let p = (F::nep()[i].params)();
                        (F::nep()[i].name, AnyHash::Nep(Neptune::new(&p)), nep_consts(&p).map(|c| { let mut v = c.rc.concat(); v.extend(c.diag_m1); v.extend(c.m_e.concat()); v.push(c.gamma); v }))
                    }
                };
                let xs: Vec<Vec<F>> = (0..EMIT_INPUTS).map(|k| emit_input(seed + k, name, h.t())).collect();
                let fp = consts.map(|c| { let mut d = sha2::Sha256::new(); Digest::update(&mut d, hexv(&c)); d.finalize().iter().take(8).map(|b| format!("{b:02x}")).collect::<String>() }).unwrap_or("-".into());
                let mut s = String::new();
                for p in 0..h.paths() {
                    let o: Vec<String> = xs.iter().map(|x| hexv(&h.perm(p, x))).collect();
                    s += &format!("{name} {p} {fp} {}\n", o.join("|"));
                }
                if h.t() == h.compress_width() {
                    s += &format!("{name} compress {fp} {}\n", xs.iter().map(|x| hexv(&[h.compress(&[&x[0], &x[1]])])).collect::<Vec<_>>().join("|"));
                }
                s
            });
            match r {
                Ok(s) => out += &s,
                Err(m) => out += &format!("PANIC field {f} instance {k}: {m}\n"),
            }
        });
    }
    print!("{out}");
    0
}

/// value of a variable that is to be removed; the empty name clears the environment
const UNSET: &str = "<unset>";

fn run_child(dbg: bool, args: &[String], env: &[(String, String)], dir: &str, cpus: &str, who: usize) -> Result<(String, i32), String> {
    let mut c = Command::new(sibling(dbg));
    // the same program on fewer processors
    if !cpus.is_empty() && std::path::Path::new("/usr/bin/taskset").exists() {
        static OK: std::sync::OnceLock<std::sync::Mutex<BTreeMap<String, bool>>> = std::sync::OnceLock::new();
        let ok = *OK.get_or_init(Default::default).lock().unwrap_or_else(|e| e.into_inner()).entry(cpus.into()).or_insert_with(|| {
            Command::new("/usr/bin/taskset").args(["-c", cpus, "/bin/true"]).stdout(Stdio::null()).stderr(Stdio::null()).status().map(|s| s.success()).unwrap_or(false)
        });
        if ok {
            c = Command::new("/usr/bin/taskset");
            c.args(["-c", cpus]).arg(sibling(dbg));
        }
    }
    // another name, user or standard input
    use std::os::unix::process::CommandExt as _;
    if who & 1 == 1 {
        c.arg0(if who & 2 == 2 { "zkhash" } else { "" });
    }
    if who & 12 == 12 {
        // only where that user may run the program
        static MAY: std::sync::OnceLock<bool> = std::sync::OnceLock::new();
        let may = *MAY.get_or_init(|| {
            let read = |other: bool| {
                let mut c = Command::new(sibling(false));
                c.arg("literals").env("VERIF_REPO", repo_dir()).stdin(Stdio::null()).stderr(Stdio::null());
                if other {
                    c.uid(65534).gid(65534);
                }
                c.output().ok().filter(|o| o.status.success()).map(|o| o.stdout)
            };
            let own = read(false);
            own.is_some() && own == read(true)
        });
        if may {
            c.uid(65534).gid(65534);
        }
    }
    c.args(args).stdin(if who & 16 == 16 { Stdio::piped() } else { Stdio::null() }).stderr(Stdio::null()).stdout(Stdio::piped());
    for (k, v) in env {
        match (k.as_str(), v.as_str()) {
            ("", _) => c.env_clear(),
            (k, UNSET) => c.env_remove(k),
            (k, v) => c.env(k, v),
        };
    }
    // the children make the same inputs
    c.env("VERIF_REPO", repo_dir());
    if !dir.is_empty() {
        c.current_dir(dir);
    }
    let o = c.output().map_err(|e| format!("HARNESS: child: {e}"))?;
    Ok((String::from_utf8_lossy(&o.stdout).into_owned(), o.status.code().unwrap_or(-1)))
}

type Lines = BTreeMap<(String, String), (String, String)>;
fn parse_emit(s: &str) -> Result<Lines, String> {
    let mut m = Lines::new();
    for l in s.lines() {
        if l.starts_with("PANIC") {
            return Err(l.to_string());
        }
        let w: Vec<&str> = l.split(' ').collect();
        if w.len() != 4 {
            return Err(format!("HARNESS: child line {l}"));
        }
        m.insert((w[0].into(), w[1].into()), (w[2].into(), w[3].into()));
    }
    Ok(m)
}

/// Instances that differ between processes: collected, reported by main
/// against the list of known findings.
pub static DIFFER: std::sync::Mutex<BTreeMap<String, String>> = std::sync::Mutex::new(BTreeMap::new());

pub fn c08() -> Prop {
    Prop {
        id: "C08",
        rule: "A case is an input seed and two child processes (release or debug-assertions build each, with their own environment, argument order and order of first use) that evaluate shipped instances on the inputs of that seed; their outputs, and this process's, must agree. Non-trivial: the two children differ in build or order.",
        subs: vec![sub("two processes", 48, 120, 1500, |t| {
            let seed = t.u64() >> 16;
            let mut runs: Vec<(bool, Lines)> = vec![];
            let builds = t.strat(4);
            let mut orders = vec![];
            for c in 0..2 {
                let dbg = (builds >> c) & 1 == 1;
                let order = if t.chance(1, 4) { 0 } else { t.u64() >> 16 };
                orders.push(order);
                let mut env = vec![];
                if t.chance(1, 5) {
                    env.push((String::new(), String::new()));
                }
                if t.chance(1, 6) {
                    env.extend((0..200).map(|k| (format!("VERIF_FILL_{k}"), "x".repeat(50))));
                }
                for _ in 0..t.below(3) {
                    let k = *t.pick(&["RUST_BACKTRACE", "LANG", "TZ", "HOME", "USER", "HOSTNAME", "SEED", "RAYON_NUM_THREADS", "RUST_LOG", "CARGO_PKG_VERSION", "PATH", "PWD", "TERM", "SHELL", "LC_ALL", "CI", "DEBUG", "TMPDIR"]);
                    let v = *t.pick(&["", "0", "1", "full", "C", "de_DE", "/nonexistent", UNSET]);
                    env.push((k.to_string(), v.to_string()));
                }
                let m = mined();
                if !m.names.is_empty() && t.chance(1, 2) {
                    env.push((t.pick(&m.names).clone(), t.pick(&["", "0", "1", "true", "2", "8", UNSET]).to_string()));
                }
                let cpus = *t.pick(&["", "", "0", "0,1", "1-3"]);
                let dir = *t.pick(&["", "/", "/tmp", "/usr"]);
                let mut args: Vec<String> = vec!["emit".into(), seed.to_string(), order.to_string(), "0".into()];
                args.extend((0..t.below(3)).map(|k| format!("--extra={k}")));
                let (s, rc) = run_child(dbg, &args, &env, dir, cpus, t.below(32))?;
                if rc != 0 {
                    return Err(format!("a {} process evaluating the shipped instances ended with status {rc}", if dbg { "debug" } else { "release" }));
                }
                runs.push((dbg, parse_emit(&s)?));
            }
            let mut checked = 0;
            for (key, (fp, val)) in &runs[0].1 {
                let Some((fp2, val2)) = runs[1].1.get(key) else { return Err(format!("HARNESS: {key:?} missing")) };
                checked += 1;
                if val != val2 {
                    let (k, (a, c)) = val.split('|').zip(val2.split('|')).enumerate().find(|(_, (a, c))| a != c).unwrap_or((0, (val, val2)));
                    let what = format!("{} path {} gives {a} in one process ({}) and {c} in another ({}) on the same input (number {k} of seed {seed})", key.0, key.1, build(runs[0].0), build(runs[1].0));
                    if fp == fp2 && fp == "-" && HOOKS || fp == fp2 && fp != "-" {
                        // same constants, different function
                        return Err(what);
                    }
                    DIFFER.lock().unwrap_or_else(|e| e.into_inner()).entry(key.0.clone()).or_insert(what);
                }
            }
            // and this process, for the instances with fixed constants
            for (f, k) in all_shipped(|k, _| k < 2) {
                with_shipped!(f, F => {
                    let b = cache::<F>().get(k)?;
                    let xs: Vec<Vec<F>> = (0..EMIT_INPUTS).map(|k| emit_input(seed + k, &b.desc, b.hash.t())).collect();
                    for p in 0..b.hash.paths() {
                        let mut v = vec![];
                        for x in &xs { v.push(hexv(&must(&b.desc, || b.hash.perm(p, x))?)); }
                        let v = v.join("|");
                        for (dbg, r) in &runs {
                            let got = &r.get(&(b.desc.clone(), p.to_string())).ok_or("HARNESS: missing")?.1;
                            if let Some((i, (a, c))) = v.split('|').zip(got.split('|')).enumerate().find(|(_, (a, c))| a != c) { return Err(format!("{} path {p} on {}: {a} in this process, {c} in a {} process", b.desc, show_vec(&xs[i]), build(*dbg))); }
                        }
                    }
                });
            }
            let nt = orders[0] != orders[1] || runs[0].0 != runs[1].0;
            info(t, nt, format!("{} and {}", build(runs[0].0), build(runs[1].0)), || format!("seed {seed}, orders {orders:?}, builds {:?}: {checked} outputs compared", (build(runs[0].0), build(runs[1].0))))
        })],
    }
}

fn build(dbg: bool) -> &'static str {
    if dbg {
        "debug-assertions"
    } else {
        "release"
    }
}

// ---------------------------------------------------------------- first use under contention

/// `race SEED THREADS MODE`: threads meet at a barrier and use the shipped
/// instances for the first time; all must get the same outputs, and the ones
/// the models give.
pub fn race(args: &[String]) -> i32 {
    let seed: u64 = args[0].parse().unwrap();
    let threads: usize = args[1].parse().unwrap();
    let mode: usize = args[2].parse().unwrap();
    let list = all_shipped(|_, _| true);
    let bar = Barrier::new(threads);
    let res: Vec<Result<BTreeMap<(usize, usize), Vec<String>>, String>> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..threads)
            .map(|th| {
                let (list, bar) = (&list, &bar);
                s.spawn(move || {
                    let mut l = list.clone();
                    let mut ex = Expander::new(seed.wrapping_add(if mode == 0 { 0 } else { th as u64 * 77 }));
                    for i in (1..l.len()).rev() {
                        l.swap(i, ex.below(i + 1));
                    }
                    l.truncate(24);
                    bar.wait();
                    let mut m = BTreeMap::new();
                    for (f, k) in l {
                        let r = with_shipped!(f, F => {
                            let (kind, i) = shipped_list::<F>()[k];
                            lib(|| {
                                let h: AnyHash<F> = match kind {
                                    0 => AnyHash::P2(Poseidon2::new(&(F::p2()[i].params)())),
                                    1 => AnyHash::P1(Poseidon::new(&(F::p1()[i].params)())),
                                    2 => AnyHash::Gm(Gmimc::new(&(F::gm()[i].params)())),
                                    _ => AnyHash::Nep(Neptune::new(&(F::nep()[i].params)())),
                                };
                                let x = emit_input::<F>(seed, "race", h.t());
                                (0..h.paths()).map(|p| hexv(&h.perm(p, &x))).collect::<Vec<_>>()
                            })
                        });
                        match r {
                            Ok(v) => {
                                m.insert((f, k), v);
                            }
                            Err(e) => return Err(format!("field {f} instance {k}: panic: {e}")),
                        }
                    }
                    Ok(m)
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or(Err("thread died".into()))).collect()
    });
    for (th, r) in res.iter().enumerate() {
        let m = match r {
            Ok(m) => m,
            Err(e) => {
                println!("MISMATCH thread {th}: {e}");
                return 0;
            }
        };
        for ((f, k), v) in m {
            let r: Result<(), String> = with_shipped!(*f, F => (|| {
                let b = cache::<F>().get(*k)?;
                let x = emit_input::<F>(seed, "race", b.hash.t());
                let want = match &b.model { Some(m) => hexv(&m.eval(&x)), None => hexv(&must("perm", || b.hash.perm(0, &x))?) };
                for (p, o) in v.iter().enumerate() {
                    if *o != want { return Err(format!("{} path {p} on {}: {o}, expected {want}", b.desc, show_vec(&x))); }
                }
                Ok(())
            })());
            if let Err(e) = r {
                println!("MISMATCH thread {th} of {threads}: {e}");
                return 0;
            }
        }
    }
    println!("AGREE");
    0
}

// ---------------------------------------------------------------- C10

struct Slot<F: PrimeField> {
    b: Built<F>,
    /// results seen so far, for objects without a model
    memo: Vec<(usize, Vec<F>, Vec<F>)>,
}

fn judge<F: PrimeField>(s: &mut Slot<F>, path: usize, x: &[F], got: &[F], hist: &str) -> Result<(), String> {
    let what = || format!("{} path {path} on {} after:{hist}", s.b.desc, show_vec(x));
    if let Some(m) = &s.b.model {
        return same(&what(), got, &m.eval(x));
    }
    if let Some((_, _, o)) = s.memo.iter().find(|(_, i, _)| i == x) {
        return same(&what(), got, o);
    }
    s.memo.push((path, x.to_vec(), got.to_vec()));
    Ok(())
}

/// An input that shares most of its elements, or their sum, with another.
fn relative<F: PrimeField>(t: &mut Tape, x: &[F]) -> Vec<F> {
    let mut y = x.to_vec();
    let w = y.len();
    if w == 0 {
        return y;
    }
    let (i, j) = (t.below(w), t.below(w));
    match t.below(9) {
        0 => y.swap(i, j),
        1 => y.rotate_left(i),
        2 => y.reverse(),
        3 => y[i] = elem(t, x),
        4 => y[i] = -y[i],
        5 => {
            let d: F = elem(t, x);
            y[i] += d;
            y[j] -= d;
        }
        6 => y[i] += F::one(),
        7 => y[i] = y[j],
        _ => (),
    }
    y
}

fn history<F: PrimeField>(t: &mut Tape, field: &str) -> Result<Info, String> {
    let n = t.range(2, 5);
    let same_width = t.chance(1, 2);
    let w0 = *t.pick(&[3usize, 4, 8, 2, 12]);
    let mut slots: Vec<Slot<F>> = vec![];
    let mk = |t: &mut Tape, kind: usize, width: Option<usize>| -> Result<Slot<F>, String> {
        let width = width.map(|w| if kind == 3 && w % 2 == 1 { w + 1 } else { w });
        Ok(Slot { b: gen_kind::<F>(t, kind, Want { width, max_width: Some(12), small: true, ..Want::default() })?, memo: vec![] })
    };
    let k0 = t.below(4);
    for _ in 0..n {
        let kind = if same_width { k0 } else { t.below(4) };
        if !slots.is_empty() && t.chance(1, 2) {
            let b = { let l = t.below(slots.len()); twin(t, &slots[l].b)? };
            slots.push(Slot { b, memo: vec![] });
        } else {
            slots.push(mk(t, kind, if same_width { Some(w0) } else { None })?);
        }
    }
    let mut hist = String::new();
    let mut calls: Vec<(usize, usize, Vec<F>)> = vec![];
    let mut outs: Vec<Vec<F>> = vec![];
    let mut crowd: Vec<AnyHash<F>> = vec![];
    let ops = t.range(6, 40);
    let mut kinds_used = [0usize; 12];
    for _ in 0..ops {
        let i = t.below(slots.len());
        let path = t.below(slots[i].b.hash.paths());
        let op = t.below(12);
        kinds_used[op] += 1;
        match op {
            0..=2 => {
                let w = slots[i].b.hash.t();
                let near: Vec<&Vec<F>> = calls.iter().map(|c| &c.2).chain(&outs).filter(|x| x.len() == w).collect();
                let x = if !near.is_empty() && t.chance(1, 2) { let k = t.below(near.len()); relative(t, near[k]) } else { state::<F>(t, w) };
                let keep = x.clone();
                let got = must(&format!("{hist} {i}.perm"), || slots[i].b.hash.perm(path, &x))?;
                if x != keep {
                    return Err(format!("{}: input changed", slots[i].b.desc));
                }
                hist += &format!(" {i}.perm{path}");
                judge(&mut slots[i], path, &x, &got, &hist)?;
                calls.push((i, path, x));
                outs.push(got);
            }
            3 | 4 if !calls.is_empty() => {
                // repeat an earlier input, possibly on another handle or slot of that width
                let (j, p, x) = calls[t.below(calls.len())].clone();
                if slots[j].b.hash.t() == x.len() {
                    let p = if p < slots[j].b.hash.paths() { p } else { 0 };
                    let got = must(&format!("{hist} {j}.again"), || slots[j].b.hash.perm(p, &x))?;
                    hist += &format!(" {j}.again");
                    judge(&mut slots[j], p, &x, &got, &hist)?;
                }
                if slots[i].b.hash.t() == x.len() {
                    let got = must(&format!("{hist} {i}.same-input"), || slots[i].b.hash.perm(path, &x))?;
                    hist += &format!(" {i}.same-input");
                    judge(&mut slots[i], path, &x, &got, &hist)?;
                }
            }
            5 => {
                let c = slots[i].b.hash.clone();
                slots[i].b.hash = c;
                hist += &format!(" {i}.clone");
            }
            6 => match t.below(4) {
                0 => {
                    // the parameters copied by value
                    slots[i].b.keep = slots[i].b.keep.copy();
                    slots[i].b.hash = slots[i].b.keep.handle();
                    hist += &format!(" {i}.copy");
                }
                1 => {
                    // many handles to the same parameters at once
                    let n = if t.chance(1, 10) { mined().int(t).min(66_000) as usize + 1 } else { t.range(1, 9) * t.range(1, 40) };
                    crowd.extend((0..n).map(|k| if k % 2 == 0 { slots[i].b.keep.handle() } else { slots[i].b.hash.clone() }));
                    hist += &format!(" {i}.crowd({n})");
                }
                _ => {
                    slots[i].b.hash = slots[i].b.keep.handle();
                    hist += &format!(" {i}.handle");
                }
            },
            7 => {
                // refused
                let w = slots[i].b.hash.t();
                let bad = if t.chance(1, 2) { w + 1 } else { w - 1 };
                let x = state::<F>(t, bad);
                must_refuse(&format!("{} path {path} on {bad} elements", slots[i].b.desc), || slots[i].b.hash.perm(path, &x))?;
                hist += &format!(" {i}.refused");
            }
            8 => {
                // new parameters in place of the old ones (the old object is freed)
                let (kind, w) = (slots[i].b.hash.kind(), slots[i].b.hash.t());
                let drop_first = t.chance(1, 2);
                if t.chance(1, 2) {
                    slots[i] = Slot { b: twin(t, &slots[i].b)?, memo: vec![] };
                } else if drop_first {
                    let spare = slots.swap_remove(i);
                    drop(spare);
                    let s = mk(t, kind, Some(w))?;
                    slots.push(s);
                    let l = slots.len() - 1;
                    slots.swap(i, l);
                } else {
                    slots[i] = mk(t, kind, Some(w))?;
                }
                hist += &format!(" {i}.replace");
            }
            9 => {
                let h = slots[i].b.hash.clone();
                if h.t() == h.compress_width() {
                    let l: F = elem(t, &[]);
                    let r: F = elem(t, &[l]);
                    let r_ref = if l == r { &l } else { &r };
                    let got = must(&format!("{hist} {i}.compress"), || h.compress(&[&l, r_ref]))?;
                    hist += &format!(" {i}.compress");
                    let mut x = vec![l, r];
                    x.resize(h.t(), F::zero());
                    let want = match &slots[i].b.model {
                        Some(m) => m.eval(&x)[0],
                        None => must("perm", || h.perm(0, &x))?[0],
                    };
                    same(&format!("{} compress after:{hist}", slots[i].b.desc), &[got], &[want])?;
                } else {
                    must_refuse(&format!("{} compress", slots[i].b.desc), || h.compress(&[&F::one(), &F::zero()]))?;
                    hist += &format!(" {i}.compress-refused");
                }
            }
            10 => {
                let h = slots[i].b.hash.clone();
                if h.t() == h.compress_width() {
                    let n = t.range(1, 6);
                    let v = state::<F>(t, n);
                    let mut tree = tfp::MerkleTree::new(h.clone());
                    let got = must(&format!("{hist} {i}.root"), || tree.accumulate(&v))?;
                    hist += &format!(" {i}.root({n})");
                    let want = ref_root(&v, &|_, l, r| {
                        let mut x = vec![*l, *r];
                        x.resize(h.t(), F::zero());
                        match &slots[i].b.model {
                            Some(m) => m.eval(&x)[0],
                            None => h.perm(0, &x)[0],
                        }
                    });
                    same(&format!("{} root after:{hist}", slots[i].b.desc), &[got], &[want])?;
                } else {
                    let n = t.range(1, 6);
                    let v = state::<F>(t, n);
                    must_refuse(&format!("root with {}", slots[i].b.desc), || tfp::MerkleTree::new(h.clone()).accumulate(&v))?;
                    hist += &format!(" {i}.root-refused({n})");
                }
            }
            _ => {
                // the same call in a thread of its own
                let x = state::<F>(t, slots[i].b.hash.t());
                let h = slots[i].b.hash.clone();
                let y = x.clone();
                let got = std::thread::spawn(move || lib(|| h.perm(path, &y))).join().map_err(|_| "HARNESS: thread")?.map_err(|m| format!("{hist} {i}.thread: panic: {m}"))?;
                hist += &format!(" {i}.thread");
                judge(&mut slots[i], path, &x, &got, &hist)?;
            }
        }
    }
    let distinct = kinds_used.iter().filter(|k| **k > 0).count();
    info(t, distinct >= 4, format!("{field} {}", if same_width { "one width" } else { "mixed" }), || format!("over {field}, {}:{hist}", slots.iter().map(|s| s.b.desc.clone()).collect::<Vec<_>>().join(" ")))
}

pub fn c10() -> Prop {
    let list = all_shipped(|_, _| true);
    let list2 = list.clone();
    Prop {
        id: "C10",
        rule: "Cases: (a) a history of 6-40 operations (permutation on either path, repetition, clone, copy of the parameters by value, new handle, hundreds of handles, refused call, refused compress or root, replacement of the parameters, compress, Merkle root, call in another thread) over 2-5 live objects of mixed kinds or of one kind and width, each result compared with the pure model; (b) long runs of 1.1 million calls (thorough 2^24) on one object, tree objects included; 3-12 short-lived parameter sets of the same size built, used and dropped one after the other; shipped instances interleaved with sets that have the same numbers and a few other constants; (c) eight threads sharing one object; (d) child processes in which threads race to use the shipped instances first. Non-trivial: (a) at least four kinds of operation, (b)-(d) all.",
        subs: vec![
            sub("histories", 900, 8000, 100000, |t| {
                let f = t.strat(N_FIELDS);
                with_field!(f, F => history::<F>(t, FIELD_NAMES[f]))
            }),
            sub("short-lived parameter sets", 900, 3000, 60000, |t| {
                // one after the other on this thread: built, used, dropped
                let f = t.strat(N_FIELDS);
                let kind = t.strat(4);
                with_field!(f, F => {
                    let mut b = gen_kind::<F>(t, kind, Want { max_width: Some(12), small: true, ..Want::default() })?;
                    let mut hist = String::new();
                    let n = t.range(3, 12);
                    let x0 = state::<F>(t, b.hash.t());
                    for i in 0..n {
                        let x = if t.chance(1, 2) { x0.clone() } else { state(t, b.hash.t()) };
                        for p in 0..b.hash.paths() {
                            let got = must(&format!("{} number {i} after:{hist}", b.desc), || b.hash.perm(p, &x))?;
                            if let Some(m) = &b.model { same(&format!("{} (number {i}) path {p} on {} after:{hist}", b.desc, show_vec(&x)), &got, &m.eval(&x))?; }
                        }
                        hist += &format!(" {}", b.desc);
                        let next = if t.chance(1, 8) { gen_kind::<F>(t, kind, Want { width: Some(b.hash.t()), small: true, ..Want::default() })? } else { twin(t, &b)? };
                        b = next;
                        // the library's view of the parameters is rebuilt last, so that it takes the place of a dropped one
                        if let Some((m, rc)) = b.tables.clone() {
                            let [w, d, rf, rp] = b.nums;
                            drop(b);
                            b = if kind == 0 { build_p2(w, d, rf, rp, &m[0], &rc)? } else { build_p1(w, d, rf, rp, &m, &rc)? };
                        }
                    }
                    info(t, true, format!("{} {}", KINDS[kind], FIELD_NAMES[f]), || format!("{n} sets:{hist}"))
                })
            }),
            sub("long runs", 60, 18, 18, |t| {
                let k = t.strat(9);
                let n: usize = if thorough() { 1 << 24 } else { 1_100_000 };
                // past any number that was added to the sources
                let n = mined().fresh.iter().filter(|v| **v < 12_000_000).fold(n, |n, v| n.max(*v as usize + 100_000));
                if k > 5 {
                    return super::trees::many_roots(t, k - 6, n / 10);
                }
                if k == 5 {
                    // tree objects
                    let mut d = tf2::MerkleTree::<sha2::Sha256>::new();
                    let leaf = |b: u8| { let mut o = sha2::digest::Output::<sha2::Sha256>::default(); o.iter_mut().for_each(|x| *x = b); o };
                    let v: Vec<_> = (0..3).map(leaf).collect();
                    let first = must("root", || d.accumulate(&v))?;
                    for i in 0..n / 4 {
                        if must("root", || d.accumulate(&v))? != first { return Err(format!("digest tree: root number {} differs", i + 2)); }
                    }
                    return info(t, true, "digest tree", || format!("{} roots on one tree object", n / 4 + 1));
                }
                let kind = k.min(3);
                let w = if kind == 2 { if k == 4 { 8 } else { 9 } } else { [2usize, 3, 0, 4][kind] };
                let w = if k == 4 { 8 } else { w };
                let b = if k == 4 { build_gm::<F17>(8, 3, 3)? } else { match kind {
                    0 => gen_p2::<F17>(t, Want { width: Some(w), small: true, ..Want::default() })?,
                    1 => gen_p1::<F17>(t, Want { width: Some(w), small: true, ..Want::default() })?,
                    2 => build_gm::<F17>(2, 3, 4)?,
                    _ => build_nep::<F17>(4, 3, 2, 2)?,
                } };
                let w = b.hash.t();
                let xs: Vec<Vec<F17>> = (0..16).map(|_| state(t, w)).collect();
                let mut want = vec![];
                for x in &xs {
                    want.push(match &b.model { Some(m) => m.eval(x), None => must("perm", || b.hash.perm(0, x))? });
                }
                let cw = b.hash.t() == b.hash.compress_width();
                for i in 0..n {
                    let k = i % xs.len();
                    let path = (i / xs.len()) % b.hash.paths();
                    let o = must(&format!("{} call {i}", b.desc), || b.hash.perm(path, &xs[k]))?;
                    if o != want[k] { return Err(format!("{} path {path}: call number {} on {} gives {}, expected {}", b.desc, i + 1, show_vec(&xs[k]), show_vec(&o), show_vec(&want[k]))); }
                    if cw && i % 8 == 0 {
                        let c = must("compress", || b.hash.compress(&[&xs[k][0], &xs[k][1]]))?;
                        let mut x = vec![xs[k][0], xs[k][1]];
                        x.resize(w, F17::from(0u64));
                        let m = match &b.model { Some(m) => m.eval(&x)[0], None => c };
                        if c != m { return Err(format!("{}: compress after {i} calls gives {c}, expected {m}", b.desc)); }
                    }
                }
                info(t, true, KINDS[b.hash.kind()], || format!("{} over F17: {n} calls", b.desc))
            }),
            sub("shipped instances and twins", 200, 680, 6800, move |t| {
                let (f, k) = list2[t.strat(list2.len())];
                with_shipped!(f, F => {
                    let b = cache::<F>().get(k)?;
                    let mut objs: Vec<Built<F>> = vec![];
                    for _ in 0..t.range(1, 2) { objs.push(twin(t, &b)?); }
                    let mut hist = String::new();
                    let x0 = state::<F>(t, b.hash.t());
                    for _ in 0..t.range(4, 10) {
                        let i = t.below(objs.len() + 1);
                        let o: &Built<F> = if i == 0 { &b } else { &objs[i - 1] };
                        let x = if t.chance(2, 3) { x0.clone() } else { state(t, b.hash.t()) };
                        let p = t.below(o.hash.paths());
                        let h = if t.chance(1, 2) { o.keep.handle() } else { o.hash.clone() };
                        let got = must(&format!("{} after:{hist}", b.desc), || h.perm(p, &x))?;
                        hist += &format!(" {i}.perm{p}");
                        if let Some(m) = &o.model { same(&format!("{} or twin {i} path {p} on {} after:{hist}", b.desc, show_vec(&x)), &got, &m.eval(&x))?; }
                        if i > 0 && t.chance(1, 5) {
                            objs[i - 1] = twin(t, &b)?;
                            hist += &format!(" {i}.replace");
                        }
                    }
                    info(t, true, KINDS[b.hash.kind()], || format!("{} and twins:{hist}", b.desc))
                })
            }),
            sub("shared between threads", 80, 170, 3400, move |t| {
                let (f, k) = list[t.strat(list.len())];
                with_shipped!(f, F => {
                    let b = cache::<F>().get(k)?;
                    let other = if t.chance(1, 2) { twin(t, &b)? } else { gen_kind::<F>(t, b.hash.kind(), Want { width: Some(b.hash.t()), small: true, ..Want::default() })? };
                    threads(t, &[&b, &other])
                })
            }),
            sub("shared between threads, small", 80, 400, 8000, |t| {
                let f = t.strat(3);
                let kind = t.strat(4);
                with_field!(f, F => {
                    let a = gen_kind::<F>(t, kind, Want { max_width: Some(8), small: true, ..Want::default() })?;
                    let b = if t.chance(1, 2) { twin(t, &a)? } else { gen_kind::<F>(t, kind, Want { width: Some(a.hash.t()), small: true, ..Want::default() })? };
                    threads(t, &[&a, &b])
                })
            }),
            sub("first use", 8, 64, 800, |t| {
                let seed = t.u64() >> 16;
                let th = *t.pick(&[2usize, 3, 4, 8, 8, 8, 16]);
                let mode = t.below(2);
                let dbg = t.strat(4) == 3;
                let (s, rc) = run_child(dbg, &["race".into(), seed.to_string(), th.to_string(), mode.to_string()], &[], "", "", 0)?;
                if rc != 0 { return Err(format!("first use by {th} threads (seed {seed}, mode {mode}): the process ended with status {rc}")); }
                if s.trim() != "AGREE" { return Err(format!("first use by {th} threads (seed {seed}, mode {mode}): {}", s.trim())); }
                info(t, true, format!("{th} threads"), || format!("{th} threads, order seed {seed}, mode {mode}: all agree"))
            }),
        ],
    }
}

pub fn thorough() -> bool {
    std::env::var("VERIF_TIER").map(|x| x == "thorough").unwrap_or(false)
}

fn threads<F: PrimeField>(t: &mut Tape, objs: &[&Built<F>]) -> Result<Info, String> {
    let n = 6;
    let mut jobs: Vec<(usize, usize, Vec<F>, Vec<F>)> = vec![];
    for (o, b) in objs.iter().enumerate() {
        for _ in 0..n {
            let x = state::<F>(t, b.hash.t());
            let p = t.below(b.hash.paths());
            let want = match &b.model {
                Some(m) => m.eval(&x),
                None => must("perm", || b.hash.perm(p, &x))?,
            };
            jobs.push((o, p, x, want));
        }
    }
    let bar = Barrier::new(8);
    let styles: Vec<usize> = (0..8).map(|_| t.below(6)).collect();
    let r: Vec<Result<(), String>> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..8)
            .map(|th| {
                let (jobs, bar) = (&jobs, &bar);
                let style = styles[th];
                let mut builder = std::thread::Builder::new().stack_size([2, 1, 8, 2, 64, 3][style] << 20);
                if style % 2 == 1 { builder = builder.name(format!("worker {th}")); }
                builder.spawn_scoped(s, move || {
                    let mut h: Vec<AnyHash<F>> = objs.iter().map(|b| if th % 2 == 0 { b.hash.clone() } else { b.keep.handle() }).collect();
                    bar.wait();
                    if style == 4 {
                        // an equal parameter set of its own, built while the others run
                        for (h, b) in h.iter_mut().zip(objs) {
                            if let Some((m, rc)) = &b.tables {
                                let [w, d, rf, rp] = b.nums;
                                *h = if b.hash.kind() == 0 { build_p2(w, d, rf, rp, &m[0], rc)?.hash } else { build_p1(w, d, rf, rp, m, rc)?.hash };
                            }
                        }
                    }
                    for rep in 0..3 {
                        for i in 0..jobs.len() {
                            let (o, p, x, want) = &jobs[(i * (th + 1) + rep) % jobs.len()];
                            let got = must(&objs[*o].desc, || h[*o].perm(*p, x))?;
                            same(&format!("{} path {p} on {} in thread {th} of 8", objs[*o].desc, show_vec(x)), &got, want)?;
                        }
                    }
                    Ok(())
                }).expect("HARNESS: spawn")
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or(Err("HARNESS: thread".into()))).collect()
    });
    for x in r {
        x?;
    }
    info(t, true, format!("8 threads {}", KINDS[objs[0].hash.kind()]), || format!("8 threads sharing {}", objs.iter().map(|b| b.desc.clone()).collect::<Vec<_>>().join(" and ")))
}

// ---------------------------------------------------------------- C11

fn wrong_len(t: &mut Tape, w: usize) -> usize {
    let l = match t.below(11) {
        // lengths that agree with the width in their low bits, or are around a power of two
        9 => {
            let top = if t.chance(1, 40) { 17 } else { 9 };
            w + (1 << t.range(1, top))
        }
        10 => ((1usize << t.range(1, 9)) + t.below(3)).saturating_sub(1),
        0 => 0,
        1 => w - 1,
        2 => w + 1,
        3 => 2 * w,
        4 => w + 4,
        5 => 1,
        6 => t.range(0, 3 * w),
        7 => {
            let m = mined();
            m.int(t).min(300) as usize
        }
        _ => w * w,
    };
    if l == w {
        w + 1
    } else {
        l
    }
}

/// After a refusal the object still computes its function.
fn still_fine<F: PrimeField>(t: &mut Tape, b: &Built<F>) -> Result<(), String> {
    let x = state::<F>(t, b.hash.t());
    for p in 0..b.hash.paths() {
        let o = must(&format!("{} after a refused call", b.desc), || b.hash.perm(p, &x))?;
        if let Some(m) = &b.model {
            same(&format!("{} path {p} on {} after a refused call", b.desc, show_vec(&x)), &o, &m.eval(&x))?;
        }
    }
    Ok(())
}

struct LvId;
impl tor::MerkleTreeHash for LvId {
    fn compress(&self, _: usize, i: &[&pasta_curves::pallas::Base; 2]) -> pasta_curves::pallas::Base {
        *i[0]
    }
}
impl tsa::MerkleTreeHash for LvId {
    fn compress(&self, _: usize, i: &[&jubjub::Base; 2]) -> jubjub::Base {
        *i[0]
    }
}
struct First;
impl<F: PrimeField> tfp::MerkleTreeHash<F> for First {
    fn compress(&self, i: &[&F]) -> F {
        *i[0]
    }
}

fn bad_degree(t: &mut Tape, good: &[usize]) -> usize {
    loop {
        let d = match t.below(4) {
            0 => t.range(0, 16),
            1 => good[t.below(good.len())] * t.range(2, 4),
            2 => good[t.below(good.len())] + (1 << if t.chance(1, 3) { t.range(4, 63) } else { t.range(4, 33) }),
            _ => t.range(0, 300),
        };
        if !good.contains(&d) {
            return d;
        }
        t.u32();
        if t.pos() > 4000 {
            return 0;
        }
    }
}

pub fn c11() -> Prop {
    let list = all_shipped(|_, _| true);
    let list2 = all_shipped(|k, w| w != if k == 3 { 4 } else { 3 });
    Prop {
        id: "C11",
        rule: "A case is one invalid call: a state of a wrong length (0, width±1, multiples, squares, up to hundreds) on either path of a shipped or generated object; compress on, or a Merkle root with, an object of another width; an empty leaf list for one of the four trees; a non-square or singular matrix (zero or repeated or dependent rows or columns, by construction); a parameter set with a wrong degree, odd full rounds, a matrix of the wrong size, odd Neptune width or unsupported Poseidon2 width. Oracle: it must panic (construction or first use), and the object used must still match its model, and roots the reference, afterwards. Non-trivial: every case.",
        subs: vec![
            sub("wrong length, generated", 120, 36000, 360000, |t| {
                let f = t.strat(N_FIELDS);
                let kind = t.strat(4);
                with_field!(f, F => {
                    let width = if t.chance(1, 20) && kind != 0 { Some(2 * t.range(1, [0, 20, 60, 24][kind])) } else { None };
                    let b = gen_kind::<F>(t, kind, Want { small: true, width, ..Want::default() })?;
                    let l = wrong_len(t, b.hash.t());
                    let x = state::<F>(t, l);
                    let p = t.below(b.hash.paths());
                    must_refuse(&format!("{} path {p} on {l} elements {}", b.desc, show_vec(&x)), || b.hash.perm(p, &x))?;
                    still_fine(t, &b)?;
                    info(t, true, format!("{} {}", KINDS[kind], if l < b.hash.t() { "short" } else { "long" }), || format!("{} on {l} elements refused", b.desc))
                })
            }),
            sub("wrong length, shipped", 60, 8500, 85000, move |t| {
                let (f, k) = list[t.strat(list.len())];
                with_shipped!(f, F => {
                    let b = cache::<F>().get(k)?;
                    let l = wrong_len(t, b.hash.t());
                    let x = state::<F>(t, l);
                    let p = t.below(b.hash.paths());
                    must_refuse(&format!("{} path {p} on {l} elements", b.desc), || b.hash.perm(p, &x))?;
                    still_fine(t, &b)?;
                    info(t, true, "shipped", || format!("{} on {l} elements refused", b.desc))
                })
            }),
            sub("compress of the wrong width", 100, 12000, 120000, |t| {
                let f = t.strat(N_FIELDS);
                let kind = t.strat(4);
                with_field!(f, F => {
                    let mut b = gen_kind::<F>(t, kind, Want { small: true, ..Want::default() })?;
                    if b.hash.t() == b.hash.compress_width() {
                        b = gen_kind::<F>(t, kind, Want { small: true, width: Some(if kind == 3 { 6 } else { 4 }), ..Want::default() })?;
                    }
                    let (l, r): (F, F) = (elem(t, &[]), elem(t, &[]));
                    must_refuse(&format!("{} compress", b.desc), || b.hash.compress(&[&l, &r]))?;
                    still_fine(t, &b)?;
                    info(t, true, KINDS[kind], || format!("{} compress refused", b.desc))
                })
            }),
            sub("root with a hash of the wrong width", 200, 6000, 60000, |t| {
                let f = t.strat(N_FIELDS);
                let kind = t.strat(4);
                with_field!(f, F => {
                    let b = gen_kind::<F>(t, kind, Want { small: true, ..Want::default() })?;
                    if b.hash.t() == b.hash.compress_width() {
                        return info(t, false, "right width", || b.desc.clone());
                    }
                    let n = t.range(1, 12);
                    let v = state::<F>(t, n);
                    let mut tree = tfp::MerkleTree::new(b.hash.clone());
                    for _ in 0..t.range(1, 3) {
                        must_refuse(&format!("root of {n} leaves with {}", b.desc), || tree.accumulate(&v))?;
                    }
                    super::trees::roots_fine(t).map_err(|e| format!("after a refused root: {e}"))?;
                    still_fine(t, &b)?;
                    info(t, true, KINDS[kind], || format!("root of {n} leaves with {} refused", b.desc))
                })
            }),
            sub("compress of the wrong width, shipped", 40, 4000, 40000, move |t| {
                let (f, k) = list2[t.strat(list2.len())];
                with_shipped!(f, F => {
                    let b = cache::<F>().get(k)?;
                    let (l, r): (F, F) = (elem(t, &[]), elem(t, &[]));
                    must_refuse(&format!("{} compress", b.desc), || b.hash.compress(&[&l, &r]))?;
                    info(t, true, "shipped", || format!("{} compress refused", b.desc))
                })
            }),
            sub("empty leaf lists", 200, 800, 4000, |t| {
                let k = t.strat(4);
                let before = t.below(3);
                match k {
                    0 => {
                        let mut tree = tfp::MerkleTree::<F17, _>::new(First);
                        for _ in 0..before { must("root", || tree.accumulate(&[F17::from(3u64)]))?; }
                        must_refuse("field tree on an empty list", || tree.accumulate(&[]))?; super::trees::roots_fine(t)?;
                        if must("root", || tree.accumulate(&[F17::from(5u64)]))? != F17::from(5u64) { return Err("field tree after a refused list".into()); }
                    }
                    1 => {
                        let mut tree = tf2::MerkleTree::<sha2::Sha256>::new();
                        let l = [sha2::digest::Output::<sha2::Sha256>::default()];
                        for _ in 0..before { must("root", || tree.accumulate(&l))?; }
                        must_refuse("digest tree on an empty list", || tree.accumulate(&[]))?; super::trees::roots_fine(t)?;
                        let want = sha2::Sha256::digest([0u8; 64]);
                        if must("root", || tree.accumulate(&l))? != want { return Err("digest tree after a refused list".into()); }
                    }
                    2 => {
                        let mut tree = tor::MerkleTree::new(LvId);
                        for _ in 0..before { must("root", || tree.accumulate(&[pasta_curves::pallas::Base::from(3)]))?; }
                        must_refuse("Orchard tree on an empty list", || tree.accumulate(&[]))?; super::trees::roots_fine(t)?;
                    }
                    _ => {
                        let mut tree = tsa::MerkleTree::new(LvId);
                        for _ in 0..before { must("root", || tree.accumulate(&[jubjub::Base::from(3)]))?; }
                        must_refuse("Sapling tree on an empty list", || tree.accumulate(&[]))?; super::trees::roots_fine(t)?;
                    }
                }
                info(t, true, ["field", "digest", "Orchard", "Sapling"][k], || format!("{} tree, {before} roots before", ["field", "digest", "Orchard", "Sapling"][k]))
            }),
            sub("singular or non-square matrices", 80, 60000, 600000, |t| {
                let f = t.strat(N_FIELDS);
                with_field!(f, F => {
                    let n = if t.chance(1, 60) { t.range(1, 50) } else { t.range(1, 7) };
                    let mut ex = t.expander();
                    let dens = 1 + ex.below(4);
                    let mut m: Mat<F> = (0..n).map(|_| (0..n).map(|_| if ex.below(4) < dens { ex.field() } else { F::from(0u64) }).collect()).collect();
                    let what;
                    match t.below(7) {
                        0 => {
                            let c = { let c = match t.below(4) { 0 => n + 1, 1 => 2 * n, 2 => t.range(1, 60), _ => t.range(1, 8) }; if c == n { n + 1 } else { c } };
                            m = (0..n).map(|_| (0..c).map(|_| ex.field()).collect()).collect();
                            what = "non-square";
                        }
                        1 => { let i = t.below(n); m[i] = vec![F::from(0u64); n]; what = "zero row"; }
                        2 => { let j = t.below(n); m.iter_mut().for_each(|r| r[j] = F::from(0u64)); what = "zero column"; }
                        3 if n > 1 => { let i = t.below(n); let j = (i + t.range(1, n - 1)) % n; m[i] = m[j].clone(); what = "repeated row"; }
                        4 if n > 1 => { let i = t.below(n); let j = (i + t.range(1, n - 1)) % n; m.iter_mut().for_each(|r| r[i] = r[j]); what = "repeated column"; }
                        5 => {
                            // product through a narrower space
                            let k = t.below(n);
                            if k == 0 { m = vec![vec![F::from(0u64); n]; n]; } else {
                                let a: Mat<F> = (0..n).map(|_| (0..k).map(|_| ex.field()).collect()).collect();
                                let b: Mat<F> = (0..k).map(|_| (0..n).map(|_| ex.field()).collect()).collect();
                                m = mat_mul(&a, &b);
                            }
                            what = "low rank";
                        }
                        _ => {
                            // one row a combination of the others
                            let i = t.below(n);
                            let cs: Vec<F> = (0..n).map(|_| ex.field()).collect();
                            m[i] = (0..n).map(|c| (0..n).filter(|r| *r != i).map(|r| cs[r] * m[r][c]).sum()).collect();
                            what = "dependent row";
                        }
                    }
                    must_refuse(&format!("mat_inverse of a {what} matrix {m:?} over {}", FIELD_NAMES[f]), || z::utils::mat_inverse(&m))?;
                    info(t, true, what, || format!("{what} {n}x{} over {}", m[0].len(), FIELD_NAMES[f]))
                })
            }),
            sub("unsupported parameters", 120, 36000, 360000, |t| {
                let f = t.strat(N_FIELDS);
                let what = t.strat(9);
                with_field!(f, F => {
                    let mut ex = t.expander();
                    let (mut rf, mut rp) = (2 * t.range(0, 3), t.range(1, 4));
                    if t.chance(1, 3) {
                        rf = 2 * match t.below(3) { 0 => t.range(0, 60), 1 => (1 << t.range(0, 7)) - 1, _ => t.range(3, 6) };
                        rp = t.range(1, 70);
                    }
                    let wide = if t.chance(1, 6) { 24 } else { 6 };
                    let w = *t.pick(&P2_WIDTHS);
                    let tabl = |ex: &mut Expander, r: usize, c: usize| -> Mat<F> { (0..r).map(|_| (0..c).map(|_| ex.field()).collect()).collect() };
                    let x: Vec<F> = (0..600).map(|_| ex.field()).collect();
                    let desc;
                    let p2 = |w: usize, d: usize, rf: usize, rp: usize, ex: &mut Expander| {
                        let diag: Vec<F> = (0..w).map(|_| ex.field()).collect();
                        let rc = tabl(ex, rf + rp, w);
                        let m = ones_diag(&diag);
                        let x = x[..w].to_vec();
                        move || Poseidon2::new(&Arc::new(Poseidon2Params::new(w, d, rf, rp, &diag, &m, &rc))).permutation(&x)
                    };
                    let p1 = |w: usize, d: usize, rf: usize, rp: usize, m: Mat<F>, ex: &mut Expander| {
                        let rc = tabl(ex, rf + rp, w);
                        let x = x[..w].to_vec();
                        move |plain: bool| {
                            let h = Poseidon::new(&Arc::new(PoseidonParams::new(w, d, rf, rp, &m, &rc)));
                            if plain { h.permutation_not_opt(&x) } else { h.permutation(&x) }
                        }
                    };
                    let plain = t.chance(1, 2);
                    match what {
                        0 => {
                            let d = bad_degree(t, &P2_DEGREES);
                            desc = format!("Poseidon2 degree {d}");
                            must_refuse(&desc, p2(w, d, rf, rp, &mut ex))?;
                        }
                        1 => {
                            rf += 1;
                            desc = format!("Poseidon2 with {rf} full rounds");
                            must_refuse(&desc, p2(w, *t.pick(&P2_DEGREES), rf, rp, &mut ex))?;
                        }
                        2 => {
                            let w = { let w = match t.below(8) { 0 | 1 => 4 * t.range(0, 12), 2 => ((1usize << t.range(1, 8)) + t.below(3)).saturating_sub(1), 3 => *t.pick(&P2_WIDTHS) + 256, 4 => *t.pick(&P2_WIDTHS) * t.range(2, 8), _ => t.range(0, 48) }; if P2_WIDTHS.contains(&w) { w + 1 + usize::from(w == 2 || w == 3) } else { w } };
                            let w = if P2_WIDTHS.contains(&w) { 28 } else { w };
                            desc = format!("Poseidon2 width {w}, {rf} full rounds");
                            must_refuse(&desc, p2(w, *t.pick(&P2_DEGREES), rf, rp, &mut ex))?;
                        }
                        3 => {
                            let d = bad_degree(t, &DEGREES);
                            desc = format!("Poseidon degree {d}");
                            let w = t.range(2, wide);
                            let m = decomposable::<F>(t, w);
                            let g = p1(w, d, rf, rp, m, &mut ex);
                            must_refuse(&desc, || g(plain))?;
                        }
                        4 => {
                            rf += 1;
                            desc = format!("Poseidon with {rf} full rounds");
                            let w = t.range(2, wide);
                            let m = decomposable::<F>(t, w);
                            let g = p1(w, *t.pick(&DEGREES), rf, rp, m, &mut ex);
                            must_refuse(&desc, || g(plain))?;
                        }
                        5 => {
                            let w = t.range(2, wide);
                            let n = { let n = match t.below(3) { 0 => t.range(1, 8), 1 => w + 1, _ => t.range(1, 2 * w) }; if n == w { w + 1 } else { n } };
                            // n x n, n x w or w x n
                            let shape = t.below(3);
                            let m = match shape { 0 => decomposable::<F>(t, n), 1 => tabl(&mut ex, n, w), _ => tabl(&mut ex, w, n) };
                            desc = format!("Poseidon width {w} with a {}x{} matrix", m.len(), m[0].len());
                            let g = p1(w, *t.pick(&DEGREES), rf, rp, m, &mut ex);
                            must_refuse(&desc, || g(plain))?;
                        }
                        6 => {
                            let d = bad_degree(t, &DEGREES);
                            let (w, r) = (t.range(2, 2 * wide), t.range(1, if wide > 6 { 400 } else { 12 }));
                            desc = format!("GMiMC degree {d}, width {w}, {r} rounds");
                            must_refuse(&desc, || { let h = Gmimc::new(&Arc::new(GmimcParams::<F>::new(w, d, r))); if plain { h.permutation_not_opt(&x[..w]) } else { h.permutation(&x[..w]) } })?;
                        }
                        7 => {
                            let d = bad_degree(t, &DEGREES);
                            let w = 2 * t.range(1, wide);
                            desc = format!("Neptune degree {d}, width {w}");
                            must_refuse(&desc, || Neptune::new(&Arc::new(NeptuneParams::<F>::new(w, d, rf, rp))).permutation(&x[..w]))?;
                        }
                        _ => {
                            let odd_w = t.chance(1, 2);
                            let top = if t.chance(1, 10) { 130 } else { wide };
                            let w = if odd_w { 2 * t.range(0, top) + 1 } else { 2 * t.range(1, wide) };
                            let rf = if odd_w { rf } else { rf + 1 };
                            desc = format!("Neptune width {w}, {rf} full rounds");
                            must_refuse(&desc, || Neptune::new(&Arc::new(NeptuneParams::<F>::new(w, *t.pick(&DEGREES), rf, rp))).permutation(&x[..w]))?;
                        }
                    }
                    info(t, true, desc.split(|c: char| c.is_ascii_digit()).next().unwrap_or("").trim().to_string(), || format!("{desc} over {}", FIELD_NAMES[f]))
                })
            }),
        ],
    }
}
