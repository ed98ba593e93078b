//! C12 (codec), C22 (hash), C23 (command line), C24 (seeding).
use crate::oram::pool;
use crate::util::*;
use crate::{refused, Case, Prop, Res, BEAT};
use concrete_core::commons::crypto::encoding::{Plaintext, PlaintextList};
use concrete_core::commons::math::polynomial::Polynomial;
use concrete_core::commons::math::tensor::{AsMutTensor, AsRefSlice, AsRefTensor};
use concrete_core::prelude::{DecompositionBaseLog, DecompositionLevelCount, DispersionParameter, PolynomialSize};
use panacea::codec::Codec;
use panacea::context::Context;
use panacea::lwe::LWECiphertext;
use panacea::naive_hash::NaiveHash;
use panacea::params::TFHEParameters;
use panacea::rlwe::RLWEKeyswitchKey;
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::process::{Command, Stdio};
use std::sync::atomic::Ordering::Relaxed;
use std::time::{Duration, Instant};

// ------------------------------------------------------------------------------------- C12

fn c12(c: &mut Case) -> Res {
    let lt = 1 + (c.k % 40) as u32;
    let t = 1u64 << lt;
    c.note(format!("t=2^{lt}"));
    let codec = Codec::new(t);
    let delta = 1u64 << (64 - lt);
    if codec.pt_modulus() != t || codec.pt_modulus_bits() != lt as usize || codec.largest_error() != delta / 2 {
        return Err(format!("codec for 2^{lt}: modulus {}, {} bits, largest error {}", codec.pt_modulus(), codec.pt_modulus_bits(), codec.largest_error()));
    }
    let all = lt <= 10 && c.k < 40;
    let vals: Vec<u64> = if all {
        (0..t).collect()
    } else {
        let mut v = vec![0, 1, t - 1, t / 2, t / 2 - 1, t.saturating_sub(2)];
        v.extend((0..200).map(|_| c.rng.below(t)));
        v
    };
    let half = delta / 2;
    for m in vals {
        let mut e = m;
        codec.encode(&mut e);
        if e != m.wrapping_mul(delta) {
            return Err(format!("{m} modulo 2^{lt} is encoded as {e:#x}"));
        }
        let mut errs = vec![0, 1, u64::MAX, half - 1, 0u64.wrapping_sub(half - 1), half / 2, 0u64.wrapping_sub(half / 2), half - 1 - c.rng.below(half.min(1000))];
        for _ in 0..4 {
            let x = c.rng.below(half);
            errs.push(if c.rng.bool() { x } else { 0u64.wrapping_sub(x) });
        }
        for err in errs {
            let mut x = e.wrapping_add(err);
            codec.decode(&mut x);
            if x != m {
                return Err(format!("{m} modulo 2^{lt} with error {} decodes to {x}", err as i64));
            }
            c.eval(None);
        }
        c.eval(Some(hash_u64s(&[t, m])));
    }
    // polynomials
    let n = *c.rng.pick(&[1usize, 2, 7, 32, 256]);
    let v: Vec<u64> = (0..n).map(|_| c.rng.below(t)).collect();
    let mut p = Polynomial::from_container(v.clone());
    codec.poly_encode(&mut p);
    let got = p.as_tensor().as_slice().to_vec();
    if got != scale(&v, delta) {
        return Err(format!("encoding a polynomial modulo 2^{lt}"));
    }
    for x in p.as_mut_tensor().iter_mut() {
        let e = c.rng.below(half);
        *x = if c.rng.bool() { x.wrapping_add(e) } else { x.wrapping_sub(e) };
    }
    codec.poly_decode(&mut p);
    if p.as_tensor().as_slice() != &v[..] {
        return Err(format!("decoding a polynomial modulo 2^{lt}"));
    }
    c.eval(Some(hash_u64s(&v)));
    // refusals
    for bad in [t, t + 1, u64::MAX, t + c.rng.below(u64::MAX - t), 1 << 63, t.saturating_mul(2)] {
        if bad < t {
            continue;
        }
        if refused(|| codec.encode(&mut { bad })).is_err() {
            return Err(format!("encoding {bad} modulo 2^{lt} is not refused"));
        }
        let mut w = v.clone();
        w[c.rng.index(n)] = bad;
        if refused(|| codec.poly_encode(&mut Polynomial::from_container(w))).is_err() {
            return Err(format!("encoding a polynomial with the coefficient {bad} modulo 2^{lt} is not refused"));
        }
        c.eval(None);
        c.add("refusals", 2.0);
    }
    for bad in [0, 3, t + 1, t.wrapping_sub(1), c.rng.u64() | 1, (c.rng.u64() | 1).wrapping_mul(2), 6, u64::MAX, t | 1] {
        if bad.is_power_of_two() {
            continue;
        }
        if refused(|| Codec::new(bad)).is_err() {
            return Err(format!("a codec for the modulus {bad} is not refused"));
        }
        c.eval(None);
        c.add("refusals", 1.0);
    }
    // ternary
    let sixth = (1u128 << 64) as f64 / 6.0;
    let lim = sixth as u64 - (1 << 16);
    let mut vals = vec![];
    for m in [0, 1, u64::MAX] {
        let mut e = m;
        Codec::ternary_encode(&mut e);
        let want = match m {
            0 => 0u64,
            1 => (u64::MAX / 3) as u64,
            _ => u64::MAX / 3 * 2,
        };
        if (e.wrapping_sub(want) as i64).unsigned_abs() > 1 << 14 {
            return Err(format!("the ternary value {} is encoded as {e:#x}", m as i64));
        }
        for i in 0..60 {
            let err = match i {
                0 => 0,
                1 => lim,
                2 => 0u64.wrapping_sub(lim),
                3 => 1,
                4 => u64::MAX,
                _ => {
                    let x = if i % 2 == 0 { c.rng.below(lim) } else { lim - c.rng.below(1 << 20) };
                    if c.rng.bool() {
                        x
                    } else {
                        0u64.wrapping_sub(x)
                    }
                }
            };
            let mut x = e.wrapping_add(err);
            Codec::ternary_decode(&mut x);
            if x != m {
                return Err(format!("the ternary value {} with error {} decodes to {}", m as i64, err as i64, x as i64));
            }
            c.eval(Some(hash_u64s(&[m, err, 3])));
            vals.push((e.wrapping_add(err), m));
        }
    }
    let mut p = Polynomial::from_container(vals.iter().map(|x| x.0).collect::<Vec<_>>());
    Codec::poly_ternary_decode(&mut p);
    if p.as_tensor().as_slice().iter().zip(&vals).any(|(x, y)| *x != y.1) {
        return Err("decoding a ternary polynomial".into());
    }
    let tern = gen_ternary(&mut c.rng, 64);
    let mut p = Polynomial::from_container(tern.clone());
    Codec::poly_ternary_encode(&mut p);
    let enc = p.as_tensor().as_slice().to_vec();
    Codec::poly_ternary_decode(&mut p);
    if p.as_tensor().as_slice() != &tern[..] || enc.iter().zip(&tern).any(|(x, y)| (*x == 0) != (*y == 0)) {
        return Err("encoding a ternary polynomial".into());
    }
    for bad in [2, 3, u64::MAX - 1, c.rng.range(2, 1 << 60) as u64] {
        if refused(|| Codec::ternary_encode(&mut { bad })).is_err() {
            return Err(format!("the ternary encoding of {bad} is not refused"));
        }
        let mut w = tern.clone();
        w[c.rng.index(64)] = bad;
        if refused(|| Codec::poly_ternary_encode(&mut Polynomial::from_container(w))).is_err() {
            return Err(format!("the ternary encoding of a polynomial with {bad} is not refused"));
        }
        c.add("refusals", 2.0);
    }
    Ok(())
}

// ------------------------------------------------------------------------------------- C22

fn c22(c: &mut Case) -> Res {
    let h = c.rng.range(1, 8);
    let n = match c.rng.below(4) {
        _ if c.k % 50 == 21 => c.rng.range(20000, 70000),
        0 => c.rng.range(1, 6),
        1 => 1 << c.rng.range(1, 10),
        _ => c.rng.range(1, 400),
    };
    let n = if c.light { n.min(400) } else { n };
    c.note(format!("h={h} items={n}"));
    let hash = NaiveHash::new(h, n);
    if hash.h_count() != h || hash.input_domain() != n || hash.output_domain() != h * n {
        return Err(format!("shape {} {} {}", hash.h_count(), hash.input_domain(), hash.output_domain()));
    }
    let mut seen = vec![false; h * n];
    for i in 0..n {
        for j in 0..h {
            let x = hash.hash(j, i);
            if x >= h * n || seen[x] {
                return Err(format!("hash {j} of item {i} is {x}: {}", if x < h * n { "taken twice" } else { "outside the domain" }));
            }
            seen[x] = true;
            if hash.checked_hash(j, i) != Some(x) {
                return Err(format!("checked hash {j} of item {i} is {:?} instead of {x}", hash.checked_hash(j, i)));
            }
            let short = match j {
                0 => hash.hash0(i),
                1 => hash.hash1(i),
                2 => hash.hash2(i),
                _ => x,
            };
            if short != x {
                return Err(format!("hash{j}({i}) is {short} instead of {x}"));
            }
        }
    }
    c.eval(Some(hash_u64s(&[h as u64, n as u64, (0..n).fold(0, |a, i| a ^ (hash.hash(0, i) as u64).wrapping_mul(i as u64 + 1))])));
    c.add("cells", (h * n) as f64);
    for (j, i) in [(h, 0), (0, n), (h, n), (h + 1, 0), (0, n + 1), (h - 1, n), (h, n - 1), (usize::MAX, 0), (0, usize::MAX), (c.rng.range(h, 1000), c.rng.us(n)), (c.rng.us(h), c.rng.range(n, 5000))] {
        if let Some(x) = hash.checked_hash(j, i) {
            return Err(format!("checked hash {j} of item {i} is {x} outside the domain of {h} functions and {n} items"));
        }
    }
    c.eval(None);
    let copy = hash.clone();
    for d in [1, 2, h * n, c.rng.range(1, h * n), c.rng.range(1, 64)] {
        for _ in 0..8 {
            let (j, i) = (c.rng.us(h), c.rng.us(n));
            let (r, col) = hash.hash_to_tuple(j, i, d);
            if col >= d || r * d + col != hash.hash(j, i) {
                return Err(format!("position of hash {j} of item {i} with {d} columns is ({r},{col}), hash {}", hash.hash(j, i)));
            }
        }
        // placements
        for _ in 0..6 {
            let mut items: Vec<usize> = (0..n).collect();
            c.rng.shuffle(&mut items);
            let want = match c.rng.below(4) {
                0 => n,
                1 => 0,
                _ => c.rng.range(1, n.min(12)),
            };
            items.truncate(want);
            let rows_of = |i: usize| -> BTreeSet<usize> { (0..h).map(|j| hash.hash(j, i) / d).collect() };
            let mut all = BTreeSet::new();
            let disjoint = items.iter().all(|i| rows_of(*i).into_iter().all(|r| all.insert(r)));
            match refused(|| hash.hash_to_mapping(&items, d)) {
                Ok(_) => {
                    if disjoint {
                        return Err(format!("placement of {items:?} with {d} columns is refused although no two replicas share a row"));
                    }
                    // in whatever order items are placed, one that has a replica in as many rows as there are items finds a free one
                    if items.iter().all(|i| rows_of(*i).len() >= items.len()) {
                        return Err(format!("placement of {items:?} with {d} columns is refused although every item has replicas in at least {} rows", items.len()));
                    }
                    c.add("refused_because_crowded", 1.0);
                    c.add("refused_placements", 1.0);
                    c.eval(None);
                }
                Err(map) => {
                    if map.len() != items.len() {
                        return Err(format!("{} of {} items are placed", map.len(), items.len()));
                    }
                    let mut got = BTreeSet::new();
                    let wanted: BTreeSet<usize> = items.iter().copied().collect();
                    for (r, (col, i)) in &map {
                        if !wanted.contains(i) || !got.insert(*i) {
                            return Err(format!("row {r} serves item {i}, requested {items:?}"));
                        }
                        if !(0..h).any(|j| hash.hash_to_tuple(j, *i, d) == (*r, *col) && hash.hash(j, *i) == r * d + col) {
                            return Err(format!("item {i} is placed at ({r},{col}) where it has no replica"));
                        }
                    }
                    // everyone computes the same placement
                    let again: BTreeMap<_, _> = copy.hash_to_mapping(&items, d).into_iter().collect();
                    if again != map.into_iter().collect::<BTreeMap<_, _>>() {
                        return Err("a copy of the hash places the items elsewhere".into());
                    }
                    c.add("placements", 1.0);
                    c.add("items_placed", items.len() as f64);
                    c.eval(Some(hash_u64s(&[h as u64, n as u64, d as u64, hash_u64s(&items.iter().map(|x| *x as u64).collect::<Vec<_>>()), hash.hash(0, 0) as u64])));
                }
            }
        }
    }
    // another hash of the same size is another placement, drawn anew
    if h * n >= 64 {
        let other = NaiveHash::new(h, n);
        if (0..n).all(|i| (0..h).all(|j| other.hash(j, i) == hash.hash(j, i))) {
            return Err(format!("two hashes of {h} functions and {n} items are the same"));
        }
        c.add("pairs_of_hashes_that_differ", 1.0);
    }
    if c.k % 25 == 9 {
        // every cell is as likely a place for every replica as any other
        let (h, n) = (c.rng.range(1, 4), c.rng.range(2, 20));
        let cells = h * n;
        let mean = 60;
        let mut count = vec![0u32; cells * cells];
        for _ in 0..mean * cells {
            let x = NaiveHash::new(h, n);
            for i in 0..n {
                for j in 0..h {
                    count[(i * h + j) * cells + x.hash(j, i)] += 1;
                }
            }
        }
        // tails of a binomial of mean 60 outside 9 standard deviations up and 7 down: less than 1e-13
        if let Some(at) = count.iter().position(|x| *x > 130 || *x < 6) {
            return Err(format!("replica {} of item {} is at cell {} in {} of {} hashes of {h} functions and {n} items", at / cells % h, at / cells / h, at % cells, count[at], mean * cells));
        }
        c.eval(Some(hash_u64s(&[h as u64, n as u64, hash_u64s(&count.iter().map(|x| *x as u64).collect::<Vec<_>>())])));
        c.add("frequencies_of_cells", (cells * cells) as f64);
    }
    if refused(|| NaiveHash::new(0, n)).is_err() {
        return Err("a hash without functions is not refused".into());
    }
    Ok(())
}

// ------------------------------------------------------------------------------------- C23

struct Scratch(std::path::PathBuf);
impl Scratch {
    fn new(tag: &str) -> Scratch {
        let base = std::env::var("PVERIF_SCRATCH").unwrap_or_else(|_| "/tmp".into());
        let d = std::path::PathBuf::from(base).join(format!("pverif-{}-{tag}", std::process::id()));
        std::fs::create_dir_all(&d).expect("HARNESS: scratch directory");
        Scratch(d)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

struct Out {
    code: Option<i32>,
    text: String,
    err: String,
    secs: f64,
}

/// Run a child; a child that sleeps for 40 s without using the processor is deadlocked.
fn run_child(mut cmd: Command) -> Result<Out, String> {
    let start = Instant::now();
    let mut ch = cmd.stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped()).spawn().map_err(|e| format!("HARNESS: cannot start the program: {e}"))?;
    let mut so = ch.stdout.take().unwrap();
    let mut se = ch.stderr.take().unwrap();
    let a = std::thread::spawn(move || {
        let mut s = String::new();
        let _ = std::io::Read::read_to_string(&mut so, &mut s);
        s
    });
    let b = std::thread::spawn(move || {
        let mut s = String::new();
        let _ = std::io::Read::read_to_string(&mut se, &mut s);
        s
    });
    let cpu = |pid: u32| -> u64 {
        let s = std::fs::read_to_string(format!("/proc/{pid}/stat")).unwrap_or_default();
        let f: Vec<&str> = s.rsplit(')').next().unwrap_or("").split_whitespace().collect();
        f.get(11).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0) + f.get(12).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0)
    };
    let (mut last, mut since) = (0, Instant::now());
    loop {
        BEAT.fetch_add(1, Relaxed);
        if let Some(st) = ch.try_wait().map_err(|e| format!("HARNESS: {e}"))? {
            return Ok(Out { code: st.code(), text: a.join().unwrap_or_default(), err: b.join().unwrap_or_default(), secs: start.elapsed().as_secs_f64() });
        }
        let t = cpu(ch.id());
        if t != last {
            last = t;
            since = Instant::now();
        }
        if since.elapsed().as_secs() > 40 {
            let _ = ch.kill();
            let _ = ch.wait();
            return Err("the program sleeps without making progress".into());
        }
        if start.elapsed().as_secs() > 400 {
            let _ = ch.kill();
            let _ = ch.wait();
            return Err("HARNESS: the program takes too long".into());
        }
        std::thread::sleep(Duration::from_millis(10));
    }
}

#[derive(Clone, Debug)]
enum Orm {
    Single(usize, usize),
    Multi(usize, usize, usize),
    Batch(usize, usize, usize),
}
impl Orm {
    fn json(&self) -> serde_json::Value {
        match self {
            Orm::Single(i, it) => json!({"SingleQuery": {"item_count": i, "iterations": it}}),
            Orm::Multi(i, q, it) => json!({"MultiQuery": {"item_count": i, "query_count": q, "iterations": it}}),
            Orm::Batch(r, co, it) => json!({"Batched": {"rows": r, "cols": co, "iterations": it}}),
        }
    }
    fn columns(&self) -> Vec<String> {
        let lg = |x: usize| format!("2^{}", usize::BITS - 1 - x.leading_zeros());
        let d = || "-".to_string();
        match self {
            Orm::Single(i, _) => vec!["0".into(), i.to_string(), d(), d(), d(), lg(*i)],
            Orm::Multi(i, q, _) => vec!["1".into(), i.to_string(), q.to_string(), d(), d(), lg(*i)],
            Orm::Batch(r, co, _) => vec!["2".into(), (r * co / 3).to_string(), d(), r.to_string(), co.to_string(), lg(r * co / 3)],
        }
    }
    fn mode(&self) -> usize {
        match self {
            Orm::Single(..) => 0,
            Orm::Multi(..) => 1,
            Orm::Batch(..) => 2,
        }
    }
    fn iters(&self) -> usize {
        match self {
            Orm::Single(_, i) | Orm::Multi(_, _, i) | Orm::Batch(_, _, i) => *i,
        }
    }
    fn cols(&self) -> usize {
        match self {
            Orm::Single(i, _) | Orm::Multi(i, _, _) => *i,
            Orm::Batch(_, co, _) => *co,
        }
    }
}
fn tfhe_json(p: &TFHEParameters) -> serde_json::Value {
    json!({"standard_deviation": p.standard_deviation, "polynomial_size": p.polynomial_size, "base_log": p.base_log, "level_count": p.level_count,
        "key_switch_base_log": p.key_switch_base_log, "key_switch_level_count": p.key_switch_level_count,
        "negs_base_log": p.negs_base_log, "negs_level_count": p.negs_level_count, "plaintext_modulus": p.plaintext_modulus, "secure_seed": p.secure_seed})
}
fn tfhe_columns(p: &TFHEParameters) -> Vec<String> {
    vec![
        p.standard_deviation.to_string(),
        p.polynomial_size.to_string(),
        p.base_log.to_string(),
        p.level_count.to_string(),
        p.key_switch_base_log.to_string(),
        p.key_switch_level_count.to_string(),
        p.negs_base_log.to_string(),
        p.negs_level_count.to_string(),
        format!("2^{}", p.plaintext_modulus.trailing_zeros()),
        p.secure_seed.to_string(),
    ]
}
const HEADER: &str = "standard_deviation,polynomial_size,base_log,level_count,key_switch_base_log,key_switch_level_count,negs_base_log,negs_level_count,plaintext_modulus,secure_seed,mode,item_count,query_count,rows,cols,n,setup_duration,server_duration,response_duration,final_noise";

/// Check the whole output against the requested combinations.
fn check_report(c: &mut Case, out: &Out, want: &[(Orm, TFHEParameters)], dry: bool) -> Res {
    let brief: String = out.text.chars().take(600).collect();
    if out.code != Some(0) {
        return Err(format!("exit status {:?}; output {brief:?}; errors {:?}", out.code, out.err.chars().take(600).collect::<String>()));
    }
    let lines: Vec<&str> = out.text.lines().collect();
    let mut it = lines.iter();
    if it.next() != Some(&HEADER) {
        return Err(format!("the header is {:?}", lines.first()));
    }
    let names: Vec<&str> = HEADER.split(',').collect();
    for (k, (o, p)) in want.iter().enumerate() {
        let Some(l) = it.next() else {
            return Err(format!("line {k} of {} is missing; output {brief:?}", want.len()));
        };
        let f: Vec<&str> = l.split(',').collect();
        if f.len() != names.len() {
            return Err(format!("line {k} has {} columns: {l:?}", f.len()));
        }
        let mut cols = tfhe_columns(p);
        cols.extend(o.columns());
        for (j, w) in cols.iter().enumerate() {
            if f[j] != w {
                return Err(format!("line {k}: column {} says {:?}, {w:?} was requested ({o:?}): {l:?}", names[j], f[j]));
            }
        }
        let m = Noise::new(p);
        let noise_ok = |x: &str, step: usize| -> Result<f64, String> {
            let v: f64 = x.parse().map_err(|_| format!("line {k}: the noise is {x:?}"))?;
            let co = o.cols() as f64;
            let per = match o {
                Orm::Multi(_, q, _) => *q as f64,
                Orm::Batch(..) => 3.0,
                _ => 1.0,
            };
            let pred = 64.0 + log_std(m.response(co, m.s0 + step as f64 * per * m.access(co)));
            let lo = 64.0 + p.standard_deviation - 2.0;
            let hi = (pred + 13f64.log2()).min(63.0 - (p.plaintext_modulus as f64).log2());
            if v < lo || v > hi {
                return Err(format!("line {k}, iteration {step}: the noise is reported as {v}, expected from {lo:.1} to {hi:.1}"));
            }
            Ok(v)
        };
        if dry {
            if f[16..] != ["-", "-", "-", "-"] {
                return Err(format!("a dry run reports {:?}", &f[16..]));
            }
        } else {
            let d: Vec<f64> = f[16..19].iter().map(|x| x.parse::<f64>().unwrap_or(-1.0)).collect();
            if d.iter().any(|x| *x <= 0.0 || *x > out.secs) || d[2] >= d[1] || d[0] + d[1] > out.secs {
                return Err(format!("line {k}: durations {:?} in a run of {} s", &f[16..19], out.secs));
            }
            let v = noise_ok(f[19], 0)?;
            c.max("noise", v);
            for i in 1..o.iters() {
                let l = it.next().copied().unwrap_or("");
                let pre = format!("### mode={}, iter={i}, noise=", o.mode());
                let Some(x) = l.strip_prefix(&pre) else {
                    return Err(format!("line {k}, iteration {i}: {l:?}"));
                };
                noise_ok(x, i)?;
                c.add("iteration_lines", 1.0);
            }
        }
        c.add("lines", 1.0);
        c.eval(Some(hash_u64s(&[phash(p), hash_str(&format!("{o:?}")), dry as u64])));
    }
    if let Some(l) = it.next() {
        return Err(format!("an extra line {l:?} after {} combinations", want.len()));
    }
    Ok(())
}

fn any_tfhe(r: &mut Rng) -> TFHEParameters {
    // reported only: the values need not be secure or correct
    TFHEParameters {
        standard_deviation: match r.below(3) {
            0 => -55.0,
            1 => -(r.range(20, 62) as f64) - 0.5,
            _ => -(r.below(6000) as f64) / 100.0,
        },
        polynomial_size: 1 << r.range(5, 13),
        base_log: r.range(1, 20),
        level_count: r.range(1, 30),
        key_switch_base_log: r.range(1, 20),
        key_switch_level_count: r.range(1, 30),
        negs_base_log: r.range(1, 20),
        negs_level_count: r.range(1, 30),
        plaintext_modulus: 1 << r.range(1, 40),
        secure_seed: r.bool(),
    }
}
fn any_orm(r: &mut Rng) -> Orm {
    match r.below(3) {
        0 => Orm::Single(r.range(2, 1 << 20), r.range(1, 5)),
        1 => Orm::Multi(r.range(2, 1 << 20), r.range(1, 300), r.range(1, 5)),
        _ => Orm::Batch(3 * r.range(1, 400), 1 << r.range(1, 14), r.range(1, 5)),
    }
}
fn real_orm(r: &mut Rng) -> Orm {
    let it = r.range(1, 3);
    match r.below(3) {
        0 => Orm::Single(1 << r.range(1, 5), it),
        1 => {
            let n = 1 << r.range(1, 5);
            Orm::Multi(n, r.range(1, (n - 1).min(5)), it)
        }
        // enough rows for two items with three replicas each
        _ => Orm::Batch(3 * r.range(16, 24), 1 << r.range(1, 2), it),
    }
}

/// Noise far above half a step: nothing decrypts correctly, and the run must not report success.
fn c23_hopeless(c: &mut Case, bin: &str, dir: &Scratch) -> Res {
    let file = dir.0.join("params.json");
    let o = real_orm(&mut c.rng);
    let mut p = gen_params(&mut c.rng, Need { cols: o.cols(), accesses: 24, expand: false, max_n: 64, min_n: 32, max_t: 256 });
    let good = p.clone();
    p.standard_deviation = -(c.rng.range(2, 4) as f64);
    p.plaintext_modulus = 1 << c.rng.range(6, 9);
    let first = c.rng.bool(); // a good combination precedes
    let ts: Vec<_> = if first { vec![tfhe_json(&good), tfhe_json(&p)] } else { vec![tfhe_json(&p)] };
    let text = json!([[[o.json()], ts]]).to_string();
    c.note(format!("hopeless {text}"));
    std::fs::write(&file, text).map_err(|e| format!("HARNESS: {e}"))?;
    let mut cmd = Command::new(bin);
    cmd.current_dir(&dir.0).arg("--params").arg(&file);
    let out = run_child(cmd)?;
    let figures = out.text.lines().filter(|l| l.split(',').count() == 20).count() - 1;
    if out.code == Some(0) || figures > first as usize {
        return Err(format!("a run whose responses cannot decrypt ends with status {:?} and reports {:?}", out.code, out.text));
    }
    c.eval(Some(hash_u64s(&[phash(&p), hash_str(&format!("{o:?}"))])));
    c.add("runs", 1.0);
    c.add("failed_runs", 1.0);
    Ok(())
}

/// The set-up and the server's work are almost all of a run on a larger database.
fn c23_timed(c: &mut Case, bin: &str, dir: &Scratch) -> Res {
    let file = dir.0.join("params.json");
    let o = match c.rng.below(3) {
        0 => Orm::Single(4096, 1),
        1 => Orm::Multi(2048, 2, 1),
        _ => Orm::Batch(48, 64, 1),
    };
    let p = tfhe(512, -60.0, (7, 6), (5, 11), (5, 11), 16, true);
    let text = json!([[[o.json()], [tfhe_json(&p)]]]).to_string();
    c.note(format!("timed {text}"));
    std::fs::write(&file, text).map_err(|e| format!("HARNESS: {e}"))?;
    let mut cmd = Command::new(bin);
    cmd.current_dir(&dir.0).arg("--params").arg(&file);
    let out = run_child(cmd)?;
    check_report(c, &out, &[(o.clone(), p)], false)?;
    let f: Vec<f64> = out.text.lines().nth(1).unwrap_or("").split(',').skip(16).map(|x| x.parse().unwrap_or(0.0)).collect();
    let rest = out.secs - f[0] - f[1];
    c.max("seconds_outside_the_reported_phases", rest);
    c.max("share_outside_the_reported_phases", rest / out.secs);
    c.max("server_time_over_response_time", f[1] / f[2]);
    if f[1] > 20.0 * f[2] {
        return Err(format!("{o:?}: answering takes {} s of the server's {} s", f[2], f[1]));
    }
    if rest > 0.15 * out.secs + 0.2 {
        return Err(format!("{o:?}: set-up {} s and server {} s of a run of {} s are reported", f[0], f[1], out.secs));
    }
    c.eval(Some(hash_u64s(&[hash_str(&format!("{o:?}")), f[3].to_bits()])));
    c.add("runs", 1.0);
    c.add("larger_runs", 1.0);
    Ok(())
}

fn c23(c: &mut Case) -> Res {
    let bin = std::env::var("PANACEA_BIN").map_err(|_| "HARNESS: PANACEA_BIN is not set".to_string())?;
    let dir = Scratch::new(&format!("c23-{}", c.k));
    let file = dir.0.join("params.json");
    let kind = c.k % 8;
    if c.k % 12 == 11 {
        return c23_hopeless(c, &bin, &dir);
    }
    if c.k % 40 == 13 {
        return c23_timed(c, &bin, &dir);
    }
    let mut cmd = Command::new(&bin);
    cmd.current_dir(&dir.0);
    if c.rng.bool() {
        cmd.env("RAYON_NUM_THREADS", c.rng.range(1, 5).to_string());
    }
    let (want, dry): (Vec<(Orm, TFHEParameters)>, bool) = match kind {
        // a parameter file
        0 | 1 | 2 | 3 => {
            let real = kind < 2;
            let mut blocks = vec![];
            for _ in 0..c.rng.range(if real { 1 } else { 0 }, if real { 2 } else { 4 }) {
                let os: Vec<Orm> = (0..c.rng.range(if real { 1 } else { 0 }, if real { 2 } else { 4 })).map(|_| if real { real_orm(&mut c.rng) } else { any_orm(&mut c.rng) }).collect();
                let cols = os.iter().map(|o| o.cols()).max().unwrap_or(2);
                let ts: Vec<TFHEParameters> = (0..c.rng.range(1, if real { 2 } else { 4 }))
                    .map(|_| if real { gen_params(&mut c.rng, Need { cols, accesses: 24, expand: false, max_n: 64, min_n: 32, max_t: 256 }) } else { any_tfhe(&mut c.rng) })
                    .collect();
                blocks.push((os, ts));
            }
            let text = serde_json::Value::Array(
                blocks.iter().map(|(os, ts)| json!([os.iter().map(Orm::json).collect::<Vec<_>>(), ts.iter().map(tfhe_json).collect::<Vec<_>>()])).collect(),
            );
            let text = if c.rng.bool() { text.to_string() } else { serde_json::to_string_pretty(&text).unwrap() };
            c.note(format!("file {}", text.chars().take(1500).collect::<String>()));
            std::fs::write(&file, text).map_err(|e| format!("HARNESS: {e}"))?;
            cmd.arg("--params").arg(if c.rng.bool() { file.clone() } else { "params.json".into() });
            // the options must be ignored
            if c.rng.bool() {
                cmd.args(["--mode", "1", "--item-count", "77", "--polynomial-size", "64"]);
            }
            let want = blocks.iter().flat_map(|(os, ts)| os.iter().flat_map(move |o| ts.iter().map(move |t| (o.clone(), t.clone())))).collect();
            (want, !real)
        }
        // an unparsable file
        4 => {
            let text = match c.rng.below(12) {
                0 => String::new(),
                1 => "{".into(),
                2 => "[[[{\"SingleQuery\":{\"item_count\":4}}],[]]]".into(),
                3 => "null".into(),
                4 => format!("[[[{}],[{}]]", Orm::Single(4, 1).json(), tfhe_json(&TFHEParameters::default())),
                5 => {
                    let mut t = tfhe_json(&TFHEParameters::default());
                    t["polynomial_size"] = json!("64");
                    json!([[[Orm::Single(4, 1).json()], [t]]]).to_string()
                }
                k @ 7..=11 => {
                    // an entry that lacks a field, misspells one, or gives it a value of another kind
                    let mut t = tfhe_json(&any_tfhe(&mut c.rng));
                    let mut o = any_orm(&mut c.rng).json();
                    let orm = k == 11 || c.rng.one_in(3);
                    let fields = if orm { o.as_object_mut().unwrap().values_mut().next().unwrap() } else { &mut t };
                    let fields = fields.as_object_mut().unwrap();
                    let names: Vec<String> = fields.keys().cloned().collect();
                    let name = c.rng.pick(&names).clone();
                    let old = fields.remove(&name).unwrap();
                    match c.rng.below(5) {
                        0 | 1 => {}
                        2 => {
                            fields.insert(format!("{name}s"), old);
                        }
                        3 => {
                            fields.insert(name.to_uppercase(), old);
                        }
                        _ => {
                            let odd = [json!(null), json!([old.clone()]), json!("8"), json!({})];
                            fields.insert(name, c.rng.pick(&odd).clone());
                        }
                    }
                    // it may stand among well-formed entries
                    let (mut os, mut ts) = (vec![o], vec![t]);
                    if c.rng.bool() {
                        os.insert(c.rng.below(2) as usize, Orm::Single(4, 1).json());
                        ts.insert(c.rng.below(2) as usize, tfhe_json(&TFHEParameters::default()));
                    }
                    json!([[os, ts]]).to_string()
                }
                _ => format!("{} trailing", json!([[[Orm::Single(4, 1).json()], [tfhe_json(&TFHEParameters::default())]]])),
            };
            c.note(format!("unparsable {text}"));
            std::fs::write(&file, text).map_err(|e| format!("HARNESS: {e}"))?;
            cmd.arg("--params").arg(&file);
            (vec![(Orm::Batch(384, 16, 1), TFHEParameters::default())], true)
        }
        // options
        _ => {
            let real = kind != 7;
            let o = match if real { real_orm(&mut c.rng) } else { any_orm(&mut c.rng) } {
                Orm::Single(i, _) => Orm::Single(i, 1),
                Orm::Multi(i, q, _) => Orm::Multi(i, q, 1),
                Orm::Batch(r, co, _) => Orm::Batch(r, co, 1),
            };
            let mut p = if real { gen_params(&mut c.rng, Need { cols: o.cols(), accesses: 24, expand: false, max_n: 64, min_n: 32, max_t: 256 }) } else { any_tfhe(&mut c.rng) };
            p.secure_seed = true;
            let def = TFHEParameters::default();
            let mut args: Vec<String> = vec![];
            let mut opt = |c: &mut Case, name: &str, v: String, keep: bool| {
                if keep || c.rng.bool() {
                    args.push(format!("--{name}"));
                    args.push(v);
                    true
                } else {
                    false
                }
            };
            let mut o = o;
            match &mut o {
                Orm::Single(i, _) => {
                    opt(c, "mode", "0".into(), true);
                    if !opt(c, "item-count", i.to_string(), real) {
                        *i = 4096;
                    }
                }
                Orm::Multi(i, q, _) => {
                    opt(c, "mode", "1".into(), true);
                    if !opt(c, "item-count", i.to_string(), real) {
                        *i = 4096;
                    }
                    if !opt(c, "query-count", q.to_string(), real) {
                        *q = 1;
                    }
                }
                Orm::Batch(r, co, _) => {
                    let m = c.rng.range(2, 5).to_string();
                    opt(c, "mode", m, false);
                    if !opt(c, "rows", r.to_string(), real) {
                        *r = 96;
                    }
                    if !opt(c, "cols", co.to_string(), real) {
                        *co = 64;
                    }
                }
            }
            if !opt(c, "standard-deviation", p.standard_deviation.to_string(), real) {
                p.standard_deviation = def.standard_deviation;
            }
            let fields: [(&str, &mut usize, usize); 7] = [
                ("polynomial-size", &mut p.polynomial_size, def.polynomial_size),
                ("base-log", &mut p.base_log, def.base_log),
                ("level-count", &mut p.level_count, def.level_count),
                ("key-switch-base-log", &mut p.key_switch_base_log, def.key_switch_base_log),
                ("key-switch-level-count", &mut p.key_switch_level_count, def.key_switch_level_count),
                ("negs-base-log", &mut p.negs_base_log, def.negs_base_log),
                ("negs-level-count", &mut p.negs_level_count, def.negs_level_count),
            ];
            for (name, x, d) in fields {
                if !opt(c, name, x.to_string(), real) {
                    *x = d;
                }
            }
            if !opt(c, "plaintext-modulus", p.plaintext_modulus.to_string(), real) {
                p.plaintext_modulus = def.plaintext_modulus;
            }
            if c.rng.one_in(4) {
                args.push("--verbose".into());
            }
            if c.rng.bool() {
                args.push("--params".into());
                args.push(dir.0.join("missing.json").to_string_lossy().into_owned());
            }
            c.note(format!("options {args:?}"));
            cmd.args(&args);
            (vec![(o, p)], !real)
        }
    };
    if dry {
        cmd.arg("--dryrun");
    }
    let out = run_child(cmd)?;
    c.add("runs", 1.0);
    check_report(c, &out, &want, dry)
}

// ------------------------------------------------------------------------------------- C24

/// Everything random a context produces.
pub struct Sample {
    key: Vec<u64>,
    key2: Vec<u64>,
    lwe_key: Vec<u64>,
    masks: Vec<u64>,
    noise: Vec<u64>,
    pts: Vec<u64>,
    bits: Vec<u64>,
    words: Vec<u64>,
    all: Vec<u64>,
}

fn lwe_bits(ctx: &mut Context) -> Vec<u64> {
    let k = ctx.gen_lwe_sk();
    key_bits(&k.to_rlwe_sk())
}

pub fn sample(p: &TFHEParameters) -> Sample {
    let mut ctx = Context::new(p.clone());
    let n = p.polynomial_size;
    let sk = ctx.gen_rlwe_sk();
    let key = key_bits(&sk);
    let bits = pv(&ctx.gen_binary_pt());
    let mut masks = vec![];
    let mut noise = vec![];
    let mut all = key.clone();
    for i in 0..4u64 {
        let mut c = rlwe0(n);
        let m: Vec<u64> = (0..n as u64).map(|j| hash_u64s(&[i, j])).collect();
        sk.encrypt_rlwe(&mut c, &pl(&m), ctx.std, &mut ctx.encryption_generator);
        masks.extend(mask(&c));
        noise.extend(subv(&own_phase(&key, &c), &m));
        all.extend(raw(&c));
    }
    let mut words = PlaintextList::allocate(0u64, concrete_core::prelude::PlaintextCount(2 * n));
    ctx.random_generator.fill_tensor_with_random_uniform(words.as_mut_tensor());
    let words = pv(&words);
    let key2 = key_bits(&ctx.gen_rlwe_sk());
    let lwe_key = lwe_bits(&mut ctx);
    let pts = pv(&ctx.gen_pt());
    let mut g = new_rgsw(n, p.base_log, p.level_count);
    sk.encrypt_constant_rgsw(&mut g, &Plaintext(1), &mut ctx);
    for i in 0..g.ciphertext_count().0 {
        let r = g.get_nth_row(i);
        masks.extend(mask(&r));
        all.extend(raw(&r));
    }
    let mut k = RLWEKeyswitchKey::allocate(DecompositionBaseLog(5), DecompositionLevelCount(4), PolynomialSize(n));
    k.fill_with_keyswitch_key(&sk, &sk, ctx.std, &mut ctx.encryption_generator);
    for r in k.get_keyswitch_key() {
        masks.extend(mask(r));
        all.extend(raw(r));
    }
    let mut l = LWECiphertext::allocate(ctx.lwe_size());
    ctx.gen_lwe_sk().encode_encrypt_lwe(&mut l, &Plaintext(1), &mut ctx);
    let lv = l.as_tensor().as_slice().to_vec();
    masks.extend(&lv[..n]);
    all.extend(lv);
    all.extend(&bits);
    all.extend(&words);
    all.extend(&key2);
    all.extend(&lwe_key);
    all.extend(&pts);
    all.extend(pv(&ctx.gen_ternary_ptxt()));
    all.push(ctx.gen_scalar_binary_pt().0);
    Sample { key, key2, lwe_key, masks, noise, pts, bits, words, all }
}

/// hash of a context's stream and of its secret key, for comparison between processes
pub fn print_sample(secure: bool) {
    let p = tfhe(256, -40.0, (5, 9), (5, 11), (5, 11), 256, secure);
    let s = sample(&p);
    println!("{:016x} {:016x} {:016x}", hash_u64s(&s.all), hash_u64s(&s.key), hash_u64s(&s.masks[..8]));
}

/// agreement of two bit strings beyond chance
fn related(a: &[u64], b: &[u64]) -> bool {
    let n = a.len().min(b.len());
    let same = (0..n).filter(|&i| a[i] & 1 == b[i] & 1).count() as f64;
    (same - n as f64 / 2.0).abs() > 7.0 * (n as f64).sqrt() / 2.0
}
/// the least significant bits of the bytes
fn byte_bits(w: &[u64]) -> Vec<u64> {
    w.iter().flat_map(|x| x.to_le_bytes().map(|b| (b & 1) as u64)).collect()
}

/// Hundreds of secure contexts of one process, some made at the same time: nothing they draw coincides.
fn c24_many(c: &mut Case) -> Res {
    use rayon::prelude::*;
    let p = tfhe(64, -30.0, (4, 2), (4, 2), (4, 2), 1 << 20, true);
    let count = if c.light { 40 } else if c.thorough { 20_000 } else { 5000 };
    let threads = c.rng.range(1, 8);
    c.note(format!("{count} contexts threads={threads}"));
    let one = |_: usize| -> [u64; 6] {
        let mut ctx = Context::new(p.clone());
        let pack = |b: Vec<u64>| b.iter().fold(0u64, |a, x| a << 1 | x);
        let sk = ctx.gen_rlwe_sk();
        let zero = vec![0; 64];
        let mut ct = rlwe0(64);
        sk.encrypt_rlwe(&mut ct, &pl(&zero), ctx.std, &mut ctx.encryption_generator);
        let noise = phase(&sk, &ct);
        [pack(key_bits(&sk)), pack(lwe_bits(&mut ctx)), mask(&ct)[0], hash_u64s(&noise), hash_u64s(&pv(&ctx.gen_pt())), pack(pv(&ctx.gen_binary_pt()))]
    };
    let all: Vec<[u64; 6]> = if c.rng.bool() { (0..count).map(one).collect() } else { pool(threads).install(|| (0..count).into_par_iter().map(one).collect()) };
    let names = ["ring key", "scalar key", "mask", "noise", "random plaintext", "binary plaintext"];
    // all contexts made by this process: a repetition among 2^32 seeds is expected among these
    static SEEN: std::sync::Mutex<BTreeMap<u64, (u64, usize)>> = std::sync::Mutex::new(BTreeMap::new());
    let mut seen = SEEN.lock().unwrap_or_else(|e| e.into_inner());
    for (i, x) in all.iter().enumerate() {
        for (k, w) in x.iter().enumerate() {
            if let Some((case, j)) = seen.insert(*w, (c.k, i)) {
                return Err(format!("the {} of secure context {i} occurred before, in context {j} of case {case}, in the same process", names[k]));
            }
        }
        c.eval(Some(x[0]));
    }
    c.add("secure_contexts", count as f64);
    Ok(())
}

fn c24(c: &mut Case) -> Res {
    if c.k % 6 == 3 {
        return c24_many(c);
    }
    let n = *c.rng.pick(if c.light { &[64usize, 128][..] } else { &[256usize, 512, 1024, 2048][..] });
    let t = 1u64 << c.rng.range(1, 20);
    let p = tfhe(n, -40.0, (c.rng.range(2, 7), c.rng.range(1, 8)), (c.rng.range(2, 7), c.rng.range(1, 8)), (c.rng.range(2, 7), c.rng.range(1, 8)), t, true);
    c.note(show(&p));
    // the context carries its parameters
    for secure in [true, false] {
        let mut q = p.clone();
        q.secure_seed = secure;
        q.standard_deviation = -(c.rng.range(20, 60) as f64);
        let mut ctx = Context::new(q.clone());
        let got = (ctx.poly_size.0, ctx.base_log.0, ctx.level_count.0, ctx.ks_base_log.0, ctx.ks_level_count.0, ctx.negs_base_log.0, ctx.negs_level_count.0, ctx.codec.pt_modulus(), ctx.std.get_log_standard_dev());
        let want = (n, q.base_log, q.level_count, q.key_switch_base_log, q.key_switch_level_count, q.negs_base_log, q.negs_level_count, t, q.standard_deviation);
        if got != want || ctx.lwe_dim().0 != n || ctx.lwe_size().0 != n + 1 || ctx.plaintext_count().0 != n {
            return Err(format!("the context carries {got:?} instead of {want:?}"));
        }
        // domains
        for _ in 0..3 {
            let b = pv(&ctx.gen_binary_pt());
            let m = pv(&ctx.gen_pt());
            let z = pv(&ctx.gen_ternary_ptxt());
            let k = key_bits(&ctx.gen_rlwe_sk());
            let l = lwe_bits(&mut ctx);
            let s = ctx.gen_scalar_binary_pt().0;
            for (name, v, ok) in [
                ("binary plaintext", &b, b.iter().all(|x| *x < 2)),
                ("plaintext", &m, m.iter().all(|x| *x < t)),
                ("ternary plaintext", &z, z.iter().all(|x| *x < 2 || *x == u64::MAX)),
                ("ring key", &k, k.iter().all(|x| *x < 2)),
                ("scalar key", &l, l.iter().all(|x| *x < 2)),
            ] {
                if v.len() != n || !ok {
                    return Err(format!("a generated {name} leaves its domain: {:?}...", &v[..4]));
                }
            }
            if s > 1 {
                return Err(format!("a binary scalar is {s}"));
            }
            // every part of the domain is used, evenly
            let tol = 7.0 * (n as f64).sqrt() / 2.0;
            let half = |v: &[u64], f: &dyn Fn(u64) -> bool| (v.iter().filter(|x| f(**x)).count() as f64 - n as f64 / 2.0).abs() > tol;
            if half(&b, &|x| x == 1) || half(&k, &|x| x == 1) || half(&l, &|x| x == 1) {
                return Err("generated bits are not balanced".into());
            }
            for j in 0..t.trailing_zeros() {
                if half(&m, &|x| x >> j & 1 == 1) {
                    return Err(format!("bit {j} of generated plaintexts is not balanced"));
                }
            }
            for w in [0, 1, u64::MAX] {
                let k = z.iter().filter(|x| **x == w).count() as f64;
                if (k - n as f64 / 3.0).abs() > 7.0 * (n as f64 * 2.0 / 9.0).sqrt() {
                    return Err(format!("{k} of {n} ternary coefficients are {}", w as i64));
                }
            }
            c.eval(Some(hash_u64s(&b)));
        }
        let i = c.rng.index(n);
        let mut unit = vec![0; n];
        unit[i] = 1;
        let mut one = vec![0; n];
        one[0] = 1;
        if pv(&ctx.gen_demuxed_pt(i)) != unit || pv(&ctx.gen_unit_pt()) != one || pv(&ctx.gen_zero_pt()) != vec![0; n] || ctx.gen_scalar_unit_pt().0 != 1 || ctx.gen_scalar_zero_pt().0 != 0 {
            return Err("fixed plaintexts".into());
        }
    }
    // insecure seeding reproduces everything, in any thread
    let mut q = p.clone();
    q.secure_seed = false;
    let a = sample(&q);
    let b = pool(c.rng.range(1, 4)).install(|| {
        let _ = Context::new(p.clone());
        sample(&q)
    });
    if a.all != b.all {
        let i = (0..a.all.len()).find(|&i| a.all[i] != b.all[i]).unwrap_or(0);
        return Err(format!("two insecurely seeded contexts differ at word {i}"));
    }
    c.eval(Some(hash_u64s(&a.all)));
    c.add("words_reproduced", a.all.len() as f64);
    // secure contexts share nothing
    let k = if c.light { 2 } else { 4 };
    let mut ss: Vec<Sample> = (0..k).map(|_| sample(&p)).collect();
    ss.extend(pool(3).install(|| {
        use rayon::prelude::*;
        (0..3).into_par_iter().map(|_| sample(&p)).collect::<Vec<_>>()
    }));
    ss.push(a);
    let last = ss.len() - 1;
    let mut seen: HashSet<u64> = HashSet::new();
    for (i, s) in ss.iter().enumerate() {
        for w in &s.masks {
            if !seen.insert(*w) {
                return Err(format!("the mask word {w:#x} occurs twice (context {i})"));
            }
        }
        // one context: independent streams
        if i != last {
            let streams: [(&str, Vec<u64>); 7] = [
                ("ring key", s.key.clone()),
                ("second key", s.key2.clone()),
                ("scalar key", s.lwe_key.clone()),
                ("binary plaintext", s.bits.clone()),
                ("mask words", s.masks[..n].to_vec()),
                ("mask bytes", byte_bits(&s.masks[..n])),
                ("noise", s.noise.clone()),
            ];
            for x in 0..streams.len() {
                for y in 0..x {
                    if (x, y) == (5, 4) {
                        continue;
                    }
                    if related(&streams[x].1, &streams[y].1) {
                        return Err(format!("{} and {} of one secure context are related", streams[x].0, streams[y].0));
                    }
                    c.eval(None);
                }
            }
            let ms: HashSet<u64> = s.masks.iter().copied().collect();
            if s.words.iter().any(|w| ms.contains(w)) {
                return Err("the public random words occur among the masks".into());
            }
        }
        for (j, o) in ss.iter().enumerate().take(i) {
            for (name, x, y) in [
                ("ring keys", &s.key, &o.key),
                ("second keys", &s.key2, &o.key2),
                ("scalar keys", &s.lwe_key, &o.lwe_key),
                ("keys", &s.key, &o.key2),
                ("binary plaintexts", &s.bits, &o.bits),
                ("noise", &s.noise, &o.noise),
                ("random plaintexts", &s.pts, &o.pts),
            ] {
                if related(x, y) {
                    return Err(format!("the {name} of contexts {i} and {j} are related"));
                }
                c.eval(None);
            }
            if s.words[..4].iter().any(|w| o.words.contains(w)) {
                return Err(format!("the random words of contexts {i} and {j} overlap"));
            }
        }
        c.eval(Some(hash_u64s(&s.key)));
    }
    c.add("secure_contexts", last as f64);
    c.add("mask_words", seen.len() as f64);
    // other processes
    if c.k % 4 == 0 {
        let exe = std::env::current_exe().map_err(|e| format!("HARNESS: {e}"))?;
        let get = |what: &str| -> Result<Vec<String>, String> {
            let mut cmd = Command::new(&exe);
            cmd.arg(what);
            let o = run_child(cmd)?;
            if o.code != Some(0) {
                return Err(format!("a process sampling its context exits with {:?}: {}", o.code, o.err));
            }
            Ok(o.text.split_whitespace().map(str::to_string).collect())
        };
        let ins: Vec<_> = (0..2).map(|_| get("sample-insecure")).collect::<Result<_, _>>()?;
        let here = sample(&tfhe(256, -40.0, (5, 9), (5, 11), (5, 11), 256, false));
        let own = format!("{:016x}", hash_u64s(&here.all));
        if ins[0] != ins[1] || ins[0][0] != own {
            return Err(format!("insecurely seeded contexts of several processes differ: {ins:?}, here {own}"));
        }
        let mut words = HashSet::new();
        for _ in 0..4 {
            let s = get("sample-secure")?;
            for w in s {
                if !words.insert(w) {
                    return Err("secure contexts of two processes coincide".into());
                }
            }
        }
        c.eval(Some(hash_str(&own)));
        c.add("processes", 6.0);
    }
    Ok(())
}

// ------------------------------------------------------------------------------------- C29

fn c29(c: &mut Case) -> Res {
    use panacea::params::{InputParamsList, ORAMParameters, ServerParams};
    use panacea::utils::{log2, parse_csv, pt_to_lossy_u64, transpose};
    // transposition
    for _ in 0..20 {
        let (r, k) = match c.rng.below(60) {
            0 => (c.rng.range(1, 3), c.rng.range(200, 5000)),
            1 => (c.rng.range(200, 5000), c.rng.range(1, 3)),
            2..=8 => (c.rng.range(1, 20), 0),
            _ => (c.rng.range(1, 20), c.rng.range(1, 40)),
        };
        let m: Vec<Vec<u64>> = (0..r).map(|_| (0..k).map(|_| c.rng.u64()).collect()).collect();
        let t = transpose(m.clone());
        if t.len() != k {
            return Err(format!("the transpose of a {r}x{k} table has {} rows", t.len()));
        }
        for (j, row) in t.iter().enumerate() {
            same_list("a transposed row", row, &m.iter().map(|x| x[j]).collect::<Vec<_>>())?;
        }
        c.eval(Some(hash_u64s(&[1, r as u64, k as u64, m[0].first().copied().unwrap_or(0)])));
    }
    if refused(|| transpose(Vec::<Vec<u8>>::new())).is_ok() {
        c.add("refused_empty_tables", 1.0);
    }
    // integers of bit polynomials
    for _ in 0..20 {
        let n = *c.rng.pick(&[1usize, 2, 8, 32, 63, 64, 65, 128, 1024]);
        let bits: Vec<u64> = match c.rng.below(4) {
            0 => vec![1; n],
            1 => (0..n).map(|i| (i == n.min(64) - 1) as u64).collect(),
            _ => (0..n).map(|_| c.rng.below(2)).collect(),
        };
        let want = bits.iter().take(64).enumerate().fold(0u64, |a, (i, b)| a | b << i);
        let got = pt_to_lossy_u64(&pl(&bits));
        if got != want {
            return Err(format!("{n} bits convert to {got:#x} instead of {want:#x}"));
        }
        c.eval(Some(hash_u64s(&[2, n as u64, want])));
        let mut bad = bits.clone();
        let at = c.rng.us(n.min(64));
        bad[at] = 2 + c.rng.below(u64::MAX - 2);
        if refused(|| pt_to_lossy_u64(&pl(&bad))).is_err() {
            return Err(format!("{:#x} as coefficient {at} of {n} is taken for a bit", bad[at]));
        }
        c.eval(None);
    }
    // logarithms
    for _ in 0..50 {
        let x = c.rng.u64() >> c.rng.below(64);
        for x in [x, 1 << c.rng.below(64), (1 << c.rng.range(1, 63)) - 1] {
            if x > 0 {
                let g = log2(x as usize);
                if g > 63 || x >> g != 1 {
                    return Err(format!("the logarithm of {x} is {g}"));
                }
                c.eval(None);
            }
        }
    }
    // tables of numbers in a file
    let dir = Scratch::new(&format!("c29-{}", c.k));
    for _ in 0..4 {
        let (r, k) = (c.rng.range(0, 30), c.rng.range(1, 12));
        let m: Vec<Vec<usize>> = (0..r).map(|_| (0..k).map(|_| (c.rng.u64() >> c.rng.below(64)) as usize).collect()).collect();
        let mut text: String = (0..k).map(|j| format!("f{j}")).collect::<Vec<_>>().join(",");
        let end = *c.rng.pick(&["\n", "\r\n"]);
        for row in &m {
            text += end;
            text += &row.iter().map(|x| if c.rng.one_in(6) { format!("\"{x}\"") } else { x.to_string() }).collect::<Vec<_>>().join(",");
        }
        if c.rng.bool() {
            text += end;
        }
        let f = dir.0.join("table.csv");
        std::fs::write(&f, &text).map_err(|e| format!("HARNESS: {e}"))?;
        let got = parse_csv(&f);
        if got != m {
            return Err(format!("the table {text:?} is read as {got:?}"));
        }
        c.eval(Some(hash_str(&text)));
        c.add("tables", 1.0);
    }
    // parameter lists: file format and expansion
    for _ in 0..4 {
        let mut blocks = vec![];
        for _ in 0..c.rng.range(0, 4) {
            let os: Vec<Orm> = (0..c.rng.range(0, 4)).map(|_| any_orm(&mut c.rng)).collect();
            let ts: Vec<TFHEParameters> = (0..c.rng.range(0, 4)).map(|_| any_tfhe(&mut c.rng)).collect();
            blocks.push((os, ts));
        }
        let text = json!(blocks.iter().map(|(os, ts)| json!([os.iter().map(Orm::json).collect::<Vec<_>>(), ts.iter().map(tfhe_json).collect::<Vec<_>>()])).collect::<Vec<_>>());
        let mut list: InputParamsList = serde_json::from_value(text.clone()).map_err(|e| format!("a parameter list is not read: {e}"))?;
        let back = serde_json::to_value(&list).map_err(|e| e.to_string())?;
        if back != text {
            return Err(format!("the parameter list {text} is written as {back}"));
        }
        list = serde_json::from_str(&serde_json::to_string_pretty(&back).unwrap()).map_err(|e| format!("a written parameter list is not read: {e}"))?;
        let got = ServerParams::from_input_params_list(list);
        let want: Vec<(&Orm, &TFHEParameters)> = blocks.iter().flat_map(|(os, ts)| os.iter().flat_map(move |o| ts.iter().map(move |t| (o, t)))).collect();
        if got.len() != want.len() {
            return Err(format!("{} combinations expanded from {text}", got.len()));
        }
        for (k, (g, (o, t))) in got.iter().zip(&want).enumerate() {
            let go = match &g.oram {
                ORAMParameters::SingleQuery { item_count, iterations } => Orm::Single(*item_count, *iterations),
                ORAMParameters::MultiQuery { item_count, query_count, iterations } => Orm::Multi(*item_count, *query_count, *iterations),
                ORAMParameters::Batched { rows, cols, iterations } => Orm::Batch(*rows, *cols, *iterations),
            };
            if format!("{go:?}") != format!("{o:?}") || tfhe_json(&g.tfhe) != tfhe_json(t) {
                return Err(format!("combination {k} of {text} is {go:?} with {}", tfhe_json(&g.tfhe)));
            }
        }
        c.eval(Some(hash_str(&text.to_string())));
        c.add("parameter_lists", 1.0);
        c.add("combinations", want.len() as f64);
    }
    // a context is what its parameters say
    for _ in 0..2 {
        let mut p = any_tfhe(&mut c.rng);
        p.polynomial_size = 1 << c.rng.range(5, 9);
        let x = Context::new(p.clone());
        let n = p.polynomial_size;
        let got = [
            x.poly_size.0, x.base_log.0, x.level_count.0, x.ks_base_log.0, x.ks_level_count.0, x.negs_base_log.0, x.negs_level_count.0,
            x.plaintext_count().0, x.lwe_size().0, x.gen_zero_pt().count().0,
        ];
        let want = [
            n, p.base_log, p.level_count, p.key_switch_base_log, p.key_switch_level_count, p.negs_base_log, p.negs_level_count, n, n + 1, n,
        ];
        if got != want || x.std.0 != p.standard_deviation {
            return Err(format!("the context of {} has {got:?}, deviation {}", show(&p), x.std.0));
        }
        let mut m = 1u64;
        x.codec.encode(&mut m);
        if m != 1 << (64 - p.plaintext_modulus.trailing_zeros()) {
            return Err(format!("the context of {} encodes 1 as {m:#x}", show(&p)));
        }
        c.eval(Some(phash(&p)));
        // its description, and that of a simulation, state these numbers, in whatever form
        let inputs = c.rng.us(1 << 20);
        let ms = std::time::Duration::from_millis(c.rng.below(5000));
        let labels: Vec<u64> = (0..c.rng.below(5)).map(|_| c.rng.u64()).collect();
        let r = panacea::decision_tree::SimulationResult::new(inputs, ms, ms * 2, labels.clone(), &x);
        let got = [r.poly_size.0, r.base_log.0, r.level_count.0, r.ks_base_log.0, r.ks_level_count.0, r.negs_base_log.0, r.negs_level_count.0, r.input_count];
        let want = [n, p.base_log, p.level_count, p.key_switch_base_log, p.key_switch_level_count, p.negs_base_log, p.negs_level_count, inputs];
        if got != want || r.std.0 != p.standard_deviation || r.predictions != labels || r.setup_duration != ms || r.server_duration != ms * 2 {
            return Err(format!("the result of a simulation with {} has {got:?}, deviation {}, {:?}, {:?}, {:?}", show(&p), r.std.0, r.setup_duration, r.server_duration, r.predictions));
        }
        for (text, more) in [(x.to_string(), p.plaintext_modulus), (r.to_string(), inputs as u64)] {
            let stated: Vec<f64> = text.split(|x: char| !(x.is_ascii_digit() || x == '.' || x == '-')).filter_map(|x| x.parse().ok()).collect();
            for v in want[..7].iter().map(|x| *x as f64).chain([p.standard_deviation, more as f64]) {
                if !stated.iter().any(|x| (x - v).abs() <= 1e-9 * v.abs()) {
                    return Err(format!("the description {text:?} does not state {v}, of {}", show(&p)));
                }
            }
        }
        c.add("descriptions", 2.0);
    }
    Ok(())
}
fn same_list(what: &str, got: &[u64], want: &[u64]) -> Res {
    if got != want {
        return Err(format!("{what} is {got:?} instead of {want:?}"));
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C12", quick: 20000, thorough: 200000, workers: 8, secs: 25.0, min_evals: 10000, rule: "distinct (modulus, value) pairs each decoded under 12 errors, and ternary (value, error) pairs", f: c12 },
        Prop { id: "C22", quick: 30000, thorough: 100000, workers: 8, secs: 25.0, min_evals: 3000, rule: "distinct (functions, items, columns, request set) placements", f: c22 },
        Prop { id: "C23", quick: 400, thorough: 2500, workers: 6, secs: 50.0, min_evals: 60, rule: "distinct (ORAM parameters, TFHE parameters, dry run) lines checked column by column", f: c23 },
        Prop { id: "C24", quick: 200, thorough: 1500, workers: 8, secs: 40.0, min_evals: 400, rule: "distinct contexts (keys, streams, generated plaintexts) compared with each other", f: c24 },
        Prop { id: "C29", quick: 3000, thorough: 12000, workers: 8, secs: 25.0, min_evals: 5000, rule: "distinct tables, bit strings, files, parameter lists and parameter sets converted and compared", f: c29 },
    ]
}
