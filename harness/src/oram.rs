//! C01-C09, C27: the ORAM.
use crate::util::*;
use crate::{alloc, cpu_secs, refused, Case, Prop, Res};
use concrete_core::commons::math::tensor::{AsRefSlice, AsRefTensor};
use panacea::context::Context;
use panacea::naive_hash::NaiveHash;
use panacea::oram::{setup_random_oram, Client, ClientQuery, Server};
use panacea::params::TFHEParameters;
use panacea::rlwe::RLWECiphertext;
use std::collections::{BTreeMap, BTreeSet, VecDeque};

pub struct Sys {
    pub client: Client,
    pub server: Server,
    pub hash: NaiveHash,
    pub model: Vec<Vec<u64>>,
    pub params: TFHEParameters,
    pub rows: usize,
    pub cols: usize,
    pub h: usize,
    pub n: usize,
}

impl Sys {
    pub fn new(params: &TFHEParameters, rows: usize, cols: usize, h: usize) -> Sys {
        Sys::with_hash(params, rows, cols, h, NaiveHash::new(h, rows * cols / h))
    }
    pub fn with_hash(params: &TFHEParameters, rows: usize, cols: usize, h: usize, hash: NaiveHash) -> Sys {
        let items = rows * cols / h;
        let (client, server, pts) = setup_random_oram(rows, cols, &hash, params.clone());
        Sys { client, server, hash, model: pts.iter().map(pv).collect(), params: params.clone(), rows, cols, h, n: items }
    }
    pub fn t(&self) -> u64 {
        self.params.plaintext_modulus
    }
    pub fn deg(&self) -> usize {
        self.params.polynomial_size
    }
    pub fn dec(&self, c: &RLWECiphertext) -> Vec<u64> {
        dec(&self.client.sk, c, &self.client.ctx)
    }
    pub fn db(&self) -> Option<Vec<Vec<RLWECiphertext>>> {
        snapshot(&self.server)
    }
    /// Every replica of every item must decrypt to the model's value.
    pub fn check_db(&self, when: &str) -> Res {
        let Some(db) = self.db() else { return Ok(()) };
        if db.len() != self.rows || db.iter().any(|r| r.len() != self.cols) {
            return Err(format!("{when}: the stored database changed its shape"));
        }
        for i in 0..self.n {
            for h in 0..self.h {
                let cell = self.hash.hash(h, i);
                let (r, col) = (cell / self.cols, cell % self.cols);
                let got = self.dec(&db[r][col]);
                if got != self.model[i] {
                    return Err(format!("{when}: replica {h} of item {i} (row {r}, column {col}) holds {} instead of {}", brief(&got), brief(&self.model[i])));
                }
            }
        }
        Ok(())
    }
    pub fn new_value(&self, r: &mut Rng) -> Vec<u64> {
        gen_pt_vec(r, self.deg(), self.t())
    }
    /// another client holding the same key
    pub fn other_client(&self) -> Client {
        let mut c = Client::new(self.rows, self.cols, self.params.clone());
        c.sk = self.client.sk.clone();
        c
    }
}

pub fn brief(v: &[u64]) -> String {
    format!("{:?}{}", &v[..v.len().min(6)], if v.len() > 6 { "..." } else { "" })
}

#[cfg(panacea_verif)]
pub fn snapshot(s: &Server) -> Option<Vec<Vec<RLWECiphertext>>> {
    Some(s.verif_data())
}
#[cfg(not(panacea_verif))]
pub fn snapshot(_: &Server) -> Option<Vec<Vec<RLWECiphertext>>> {
    None
}

/// Injected delays: every `1/every` observation point sleeps or yields.
#[cfg(panacea_verif)]
pub fn with_delays<T>(seed: u64, every: u64, max_us: u64, f: impl FnOnce() -> T) -> (T, u64) {
    use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
    use std::sync::Arc;
    let n = Arc::new(AtomicU64::new(0));
    let m = n.clone();
    panacea::verif::set_callback(Some(Box::new(move |_| {
        let i = m.fetch_add(1, Relaxed);
        let x = hash_u64s(&[seed, i]);
        if x % every == 0 {
            let us = (x >> 20) % (max_us + 1);
            if us == 0 {
                std::thread::yield_now();
            } else {
                std::thread::sleep(std::time::Duration::from_micros(us));
            }
        }
    })));
    let out = f();
    panacea::verif::set_callback(None);
    (out, n.load(Relaxed))
}
#[cfg(not(panacea_verif))]
pub fn with_delays<T>(_seed: u64, _every: u64, _max_us: u64, f: impl FnOnce() -> T) -> (T, u64) {
    (f(), 0)
}

pub fn pool(n: usize) -> rayon::ThreadPool {
    rayon::ThreadPoolBuilder::new().num_threads(n).build().expect("thread pool")
}
/// Run `f` in a pool of `n` threads, or (n = 0) outside every pool, so that the global one is used.
pub fn in_pool<T: Send>(n: usize, f: impl FnOnce() -> T + Send) -> T {
    if n == 0 {
        f()
    } else {
        pool(n).install(f)
    }
}
fn gen_threads(r: &mut Rng) -> usize {
    *r.pick(&[0, 0, 1, 2, 3, 4, 8, 13])
}

fn gen_cols(c: &mut Case) -> usize {
    let big = if c.light { 0 } else { 1 };
    1 << c.rng.weighted(&[(3, 1), (4, 2), (5, 3), (5, 4), (2, 5), (1, 6), (big, 8)])
}
fn oram_need(c: &mut Case, cols: usize, accesses: usize) -> Need {
    let max_n = if c.light {
        64
    } else if cols > 64 {
        64
    } else if c.rng.one_in(25) && cols <= 8 {
        2048
    } else {
        *c.rng.pick(&[32, 64, 128, 256, 256])
    };
    let min_n = if max_n >= 1024 { max_n } else { 32 };
    // binary and byte-sized items are common, but nothing limits them to a byte
    let max_t = *c.rng.pick(&[2, 256, 256, 256, 1 << 18, 1 << 18]);
    Need { cols, accesses, expand: false, max_n, min_n, max_t }
}

/// a few accesses of a small database with a large ring
fn large_need(c: &mut Case, cols: usize, accesses: usize) -> Need {
    let n = *c.rng.pick(&[1024, 2048, 4096, if accesses <= 6 { 8192 } else { 4096 }]);
    c.max("largest_ring", n as f64);
    Need { cols, accesses, expand: false, max_n: n, min_n: n, max_t: 1 << 18 }
}

/// pick an index: hot ones, neighbours of the last one, and random ones
fn pick_item(r: &mut Rng, n: usize, hot: &[usize], last: usize) -> usize {
    match r.below(8) {
        0 | 1 | 2 => *r.pick(hot),
        3 => (last ^ (1 << r.us(usize::BITS as usize - n.leading_zeros() as usize))) % n,
        4 => n - 1 - last,
        5 => r.index(n),
        _ => r.us(n),
    }
}

// ------------------------------------------------------------------------------------- C01

/// Parameters of a small ring under which thousands of accesses stay decryptable.
fn durable(r: &mut Rng, cols: usize, accesses: usize) -> TFHEParameters {
    loop {
        let g = *r.pick(&[(5, 9), (4, 10), (3, 15), (6, 7)]);
        let ng = *r.pick(&[(5, 11), (4, 14)]);
        let p = tfhe(32, -60.0, g, (5, 11), ng, 1 << r.range(1, 6), !r.one_in(4));
        if margin(&p, Need { cols, accesses, expand: false, max_n: 32, min_n: 32, max_t: 64 }) >= 7.0 {
            return p;
        }
    }
}

/// Thousands of accesses of one small database: whatever is counted or accumulated goes on.
fn c01_history(c: &mut Case) -> Res {
    let cols = 1 << c.rng.range(1, 3);
    let ops = if c.thorough { 12_000 } else { 2500 };
    let p = durable(&mut c.rng, cols, ops);
    let threads = c.rng.range(1, 3);
    c.note(format!("{} cols={cols} threads={threads} history of {ops}", show(&p)));
    let mut s = Sys::new(&p, 1, cols, 1);
    let tp = pool(threads);
    for step in 0..ops {
        let i = c.rng.index(cols);
        let write = c.rng.one_in(3);
        let val = s.new_value(&mut c.rng);
        let q = if write { s.client.gen_write_query_one(i, &pl(&val), &s.hash) } else { s.client.gen_read_query_one(i, &s.hash) };
        let server = &mut s.server;
        let y = tp.install(|| server.process_one(q).0);
        let got = s.dec(&y);
        if got != s.model[i] {
            return Err(format!("access {step} ({} item {i}) returned {} instead of {}", if write { "write" } else { "read" }, brief(&got), brief(&s.model[i])));
        }
        if write {
            s.model[i] = val;
        }
        if step % 10 == 9 || step + 1 == ops {
            s.check_db(&format!("after access {step}"))?;
            c.add("cells_checked", cols as f64);
        }
        c.eval(Some(hash_u64s(&[phash(&p), cols as u64, i as u64, write as u64, threads as u64, step as u64])));
    }
    c.max("accesses_of_one_history", ops as f64);
    Ok(())
}

fn c01(c: &mut Case) -> Res {
    if c.k % 200 == 11 && !c.light {
        return c01_history(c);
    }
    // now and then a database of more than 2^8 columns
    let wide = c.k % 60 == 37 && !c.light;
    let ring = c.k % 50 == 23 && !c.light;
    let cols = if wide { *c.rng.pick(&[512, 1024, 2048]) } else if ring { 2 << c.rng.us(2) } else { gen_cols(c) };
    let ops = if c.light { c.rng.range(2, 5) } else if cols > 64 { 4 } else if ring { 6 } else { c.rng.range(4, 14) };
    let need = if ring { large_need(c, cols, ops) } else { oram_need(c, cols, ops) };
    let p = gen_params(&mut c.rng, need);
    let threads = gen_threads(&mut c.rng);
    c.note(format!("{} cols={cols} threads={threads}", show(&p)));
    let mut s = Sys::new(&p, 1, cols, 1);
    if s.model.len() != cols {
        return Err(format!("{} items reported for {cols} cells", s.model.len()));
    }
    s.check_db("initially")?;
    let mut other = s.other_client();
    let hot: Vec<usize> = (0..3).map(|_| c.rng.index(cols)).collect();
    let mut last = 0;
    for step in 0..ops {
        let i = if wide && step == 0 { cols / 2 + c.rng.us(cols / 2) } else { pick_item(&mut c.rng, cols, &hot, last) };
        last = i;
        let write = c.rng.one_in(2) || wide && step == 0;
        let second = c.rng.one_in(3);
        let val = s.new_value(&mut c.rng);
        let cl = if second { &mut other } else { &mut s.client };
        let q = if write { cl.gen_write_query_one(i, &pl(&val), &s.hash) } else { cl.gen_read_query_one(i, &s.hash) };
        let server = &mut s.server;
        let y = in_pool(threads, || server.process_one(q).0);
        let got = s.dec(&y);
        c.note(format!("{}{i}{}", if write { "W" } else { "R" }, if second { "'" } else { "" }));
        if got != s.model[i] {
            return Err(format!("step {step}: {} of item {i} returned {} instead of {}", if write { "write" } else { "read" }, brief(&got), brief(&s.model[i])));
        }
        if write {
            s.model[i] = val;
        }
        s.check_db(&format!("after step {step} ({} item {i})", if write { "write" } else { "read" }))?;
        c.eval(Some(hash_u64s(&[phash(&p), cols as u64, i as u64, write as u64, threads as u64, second as u64])));
        c.add(if write { "writes" } else { "reads" }, 1.0);
        c.add("cells_checked", cols as f64);
    }
    if s.t() == 2 || c.rng.one_in(6) {
        check_decrypt_db(c, &mut s)?;
    }
    Ok(())
}

/// `decrypt_db` must agree with the model (binary databases only).
fn check_decrypt_db(c: &mut Case, s: &mut Sys) -> Res {
    if s.model.iter().any(|v| v.iter().any(|x| *x > 1)) {
        return Ok(());
    }
    let got = s.server.decrypt_db(&s.client.sk);
    for i in 0..s.n {
        for h in 0..s.h {
            let cell = s.hash.hash(h, i);
            let want = s.model[i].iter().take(64).enumerate().fold(0u64, |a, (j, b)| a | (b << j));
            let g = got.get(cell / s.cols).and_then(|r| r.get(cell % s.cols)).copied();
            if g != Some(want) {
                return Err(format!("decrypted database reports {g:?} for item {i}, expected {want}"));
            }
        }
    }
    c.add("decrypted_databases", 1.0);
    Ok(())
}

// ------------------------------------------------------------------------------------- C02

fn brief_txt(v: &[String]) -> String {
    if v.len() <= 20 { v.join(" ") } else { format!("{} ... ({} queries)", v[..20].join(" "), v.len()) }
}

fn c02(c: &mut Case) -> Res {
    // now and then many calls, very long ones, or a wide database
    let (many, long, wide) = if c.light { (false, false, false) } else { (c.k % 110 == 17, c.k % 55 == 29, c.k % 110 == 67) };
    let ring = c.k % 55 == 41 && !c.light;
    let cols = if many || long || ring { 1 << c.rng.range(1, if ring { 2 } else { 3 }) } else if wide { *c.rng.pick(&[256, 512, 1024]) } else { gen_cols(c).min(64) };
    let calls = if c.light || long || wide || ring { 2 } else if many { 400 } else { c.rng.range(2, 5) };
    let max_q = if long { c.rng.range(257, 600) } else if wide { 3 } else if ring { 4 } else if many { 4 } else if cols >= 32 { 6 } else { 14 };
    let need = if ring { large_need(c, cols, calls * max_q) } else { oram_need(c, cols, calls * max_q) };
    let p = if many || long { durable(&mut c.rng, cols, calls * max_q) } else { gen_params(&mut c.rng, need) };
    c.max("queries_of_one_call", max_q as f64);
    c.max("calls_of_one_server", calls as f64);
    let threads = gen_threads(&mut c.rng);
    c.note(format!("{} cols={cols} threads={threads}", show(&p)));
    let mut s = Sys::new(&p, 1, cols, 1);
    let hot: Vec<usize> = (0..2).map(|_| c.rng.index(cols)).collect();
    for call in 0..calls {
        let nq = match c.rng.below(8) {
            0 => 1,
            1 => max_q,
            2 if call > 0 => 0,
            _ => c.rng.range(2, max_q),
        };
        let style = c.rng.below(4); // 0: distinct items, 1: few items, 2: mixed, 3: one item
        let mut used = BTreeSet::new();
        let mut ops = vec![];
        for _ in 0..nq {
            let mut i = match style {
                0 | 2 => c.rng.index(cols),
                1 => *c.rng.pick(&hot),
                _ => hot[0],
            };
            if style == 0 {
                if used.len() == cols {
                    break;
                }
                while used.contains(&i) {
                    i = (i + 1) % cols;
                }
            }
            used.insert(i);
            let w = c.rng.one_in(2);
            ops.push((i, if w { Some(s.new_value(&mut c.rng)) } else { None }));
        }
        let mut qs = vec![];
        for (i, v) in &ops {
            qs.push(match v {
                Some(v) => s.client.gen_write_query_one(*i, &pl(v), &s.hash),
                None => s.client.gen_read_query_one(*i, &s.hash),
            });
        }
        let txt: Vec<String> = ops.iter().map(|(i, v)| format!("{}{i}", if v.is_some() { "W" } else { "R" })).collect();
        if call < 20 {
            c.note(format!("call[{}]", brief_txt(&txt)));
        }
        let server = &mut s.server;
        let ys = in_pool(threads, || server.process_multi(qs).0);
        if ys.len() != ops.len() {
            return Err(format!("call {call}: {} responses for {} queries", ys.len(), ops.len()));
        }
        for (j, (y, (i, _))) in ys.iter().zip(&ops).enumerate() {
            let got = s.dec(y);
            if got != s.model[*i] {
                return Err(format!("call {call}: response {j} (item {i}) is {} instead of the value before the call {}", brief(&got), brief(&s.model[*i])));
            }
        }
        let mut dup = 0;
        let mut seen = BTreeSet::new();
        for (i, v) in &ops {
            if !seen.insert(*i) {
                dup += 1;
            }
            if let Some(v) = v {
                s.model[*i] = v.clone();
            }
        }
        s.check_db(&format!("after call {call} [{}]", brief_txt(&txt)))?;
        c.eval(if ops.is_empty() { None } else { Some(hash_u64s(&[phash(&p), cols as u64, hash_str(&txt.join(" ")), threads as u64])) });
        c.add("calls", 1.0);
        c.add("queries", ops.len() as f64);
        c.add("repeated_items", dup as f64);
        c.add("cells_checked", cols as f64);
        // a single access in between
        if c.rng.one_in(3) {
            let i = c.rng.index(cols);
            let q = s.client.gen_read_query_one(i, &s.hash);
            let server = &mut s.server;
            let y = in_pool(threads, || server.process_one(q).0);
            if s.dec(&y) != s.model[i] {
                return Err(format!("single read of item {i} after call {call} returned {}", brief(&s.dec(&y))));
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------------------------- C03

/// (rows, cols, h) with rows*cols divisible by h
fn gen_shape(r: &mut Rng, max_cells: usize) -> (usize, usize, usize) {
    loop {
        let h = r.weighted(&[(2, 1), (6, 2), (10, 3), (6, 4), (4, 5), (2, 6), (1, 7), (1, 8), (1, 9), (1, 10)]);
        let cols = 1 << r.range(1, 5);
        let rows = r.range(1, 13);
        if rows * cols % h == 0 && rows * cols <= max_cells && rows * cols / h >= 1 && rows >= h {
            return (rows, cols, h);
        }
    }
}

/// A set whose last item finds the rows of its first replicas taken, so that a late hash function places it.
fn crowded(c: &mut Case, s: &Sys, want: usize) -> Option<Vec<usize>> {
    let row = |h: usize, i: usize| s.hash.hash(h, i) / s.cols;
    for _ in 0..40 {
        let x = c.rng.us(s.n);
        let depth = if c.rng.bool() { s.h - 1 } else { 1 + c.rng.us(s.h) };
        let depth = depth.min(s.h - 1).min(want - 1);
        let mut set: Vec<usize> = vec![];
        let mut rows = BTreeSet::new();
        for k in 0..depth {
            let r = row(k, x);
            if !rows.insert(r) {
                continue;
            }
            let cand: Vec<usize> = (0..s.n).filter(|i| *i != x && row(0, *i) == r && !set.contains(i)).collect();
            if cand.is_empty() {
                break;
            }
            set.push(*c.rng.pick(&cand));
        }
        if set.len() == depth && depth > 0 && !rows.contains(&row(depth, x)) {
            set.push(x);
            c.max("placed_by_function", (depth + 1) as f64);
            c.add("crowded_sets", 1.0);
            return Some(set);
        }
    }
    None
}

/// A set of distinct items which the placement accepts, with the placement.
fn placeable(c: &mut Case, s: &Sys, want: usize) -> (Vec<usize>, BTreeMap<usize, (usize, usize)>) {
    let mut items: Vec<usize> = (0..s.n).collect();
    c.rng.shuffle(&mut items);
    if c.rng.one_in(3) && want <= 2 {
        items.sort();
    }
    items.truncate(want.min(s.n));
    if want >= 2 && (s.client.ctx.poly_size.0 >= 1024 || c.rng.one_in(2)) {
        if let Some(deep) = crowded(c, s, want) {
            items = deep;
        }
    }
    loop {
        match refused(|| s.hash.hash_to_mapping(&items, s.cols)) {
            Err(m) => {
                let m: BTreeMap<usize, (usize, usize)> = m.into_iter().collect();
                return (items, m);
            }
            Ok(_) => {
                c.add("placements_refused", 1.0);
                items.pop();
            }
        }
    }
}

fn c03(c: &mut Case) -> Res {
    // now and then many calls, or a wide or a high database
    let (many, wide, high) = if c.light { (false, false, false) } else { (c.k % 130 == 21, c.k % 130 == 57, c.k % 20 == 19) };
    let ring = c.k % 50 == 34 && !c.light;
    let (rows, cols, h) = if many {
        *c.rng.pick(&[(2, 2, 2), (3, 2, 2), (4, 2, 2), (3, 4, 3)])
    } else if ring {
        *c.rng.pick(&[(2, 2, 2), (3, 2, 2), (3, 4, 3), (3, 4, 3)])
    } else if wide {
        *c.rng.pick(&[(3, 128, 3), (2, 256, 2), (2, 512, 1), (3, 256, 3)])
    } else if high {
        let h = c.rng.range(1, 3);
        match c.rng.below(2) {
            0 => (c.rng.range(70, 160) / h * h, 2, h),
            _ => (c.rng.range(17, 70) / h * h, *c.rng.pick(&[2, 4]), h),
        }
    } else {
        gen_shape(&mut c.rng, if c.light { 24 } else { 96 })
    };
    let calls = if high { if rows >= 64 { 24 } else { 4 } } else if c.light || wide { 2 } else if ring { 1 } else if many { 500 } else { c.rng.range(2, 5) };
    let mut need = if ring { large_need(c, cols, 2 * calls) } else { oram_need(c, cols, 2 * calls) };
    if !ring {
        need.max_n = need.max_n.min(if high { 32 } else if wide { 64 } else { 256 });
        need.min_n = 32;
    }
    let p = if many || (high && rows >= 64) { durable(&mut c.rng, cols, 4 * calls) } else { gen_params(&mut c.rng, need) };
    c.max("rows", rows as f64);
    c.max("cols", cols as f64);
    c.max("calls_of_one_server", calls as f64);
    // the repair adds two more products per access
    let threads = if high { c.rng.range(4, 16) } else { gen_threads(&mut c.rng) };
    c.note(format!("{} rows={rows} cols={cols} h={h} threads={threads}", show(&p)));
    let mut s = Sys::new(&p, rows, cols, h);
    s.check_db("initially")?;
    for call in 0..calls {
        let want = match c.rng.below(5) {
            _ if ring => rows,
            0 => 0,
            1 => 1,
            2 => rows,
            _ => c.rng.range(1, rows),
        };
        let (items, map) = placeable(c, &s, want);
        // every requested item must own a row, at a cell where one of its replicas lies
        let served: BTreeSet<usize> = map.values().map(|x| x.1).collect();
        if served != items.iter().copied().collect::<BTreeSet<usize>>() || map.len() != items.len() {
            return Err(format!("call {call}: items {items:?} were placed as {map:?}"));
        }
        let mode = if ring { 1 } else { c.rng.below(4) }; // 0: read batch, 1: write batch, 2: per-row mix, 3: write batch again and again
        let (mut qs, written): (Vec<ClientQuery>, BTreeMap<usize, Vec<u64>>) = match mode {
            0 => (s.client.gen_read_query_batch(&items, &s.hash), BTreeMap::new()),
            1 | 3 => {
                let v = s.new_value(&mut c.rng);
                (s.client.gen_write_query_batch(&items, &pl(&v), &s.hash), items.iter().map(|i| (*i, v.clone())).collect())
            }
            _ => {
                // the same placement, but each row chooses between reading and writing one of two values
                let (v, w) = (s.new_value(&mut c.rng), s.new_value(&mut c.rng));
                let rd = s.client.gen_read_query_batch(&items, &s.hash);
                let wv = s.client.gen_write_query_batch(&items, &pl(&v), &s.hash);
                let ww = s.client.gen_write_query_batch(&items, &pl(&w), &s.hash);
                let mut out = vec![];
                let mut written = BTreeMap::new();
                for (r, ((a, b), d)) in rd.into_iter().zip(wv).zip(ww).enumerate() {
                    match c.rng.below(3) {
                        0 => out.push(a),
                        1 => {
                            out.push(b);
                            if let Some(x) = map.get(&r) {
                                written.insert(x.1, v.clone());
                            }
                        }
                        _ => {
                            out.push(d);
                            if let Some(x) = map.get(&r) {
                                written.insert(x.1, w.clone());
                            }
                        }
                    }
                }
                (out, written)
            }
        };
        let txt = format!("mode{mode} items={items:?} written={:?}", written.keys().collect::<Vec<_>>());
        if call < 20 {
            c.note(txt.clone());
        }
        if qs.len() != rows {
            return Err(format!("call {call}: {} queries for {rows} rows", qs.len()));
        }
        let (server, hash) = (&mut s.server, &s.hash);
        let ys = in_pool(threads, move || server.process_batch(std::mem::take(&mut qs), hash).0);
        if ys.len() != rows {
            return Err(format!("call {call}: {} responses for {rows} rows", ys.len()));
        }
        for (r, (_, i)) in &map {
            let got = s.dec(&ys[*r]);
            if got != s.model[*i] {
                return Err(format!("call {call} ({txt}): row {r} should return item {i} = {} but returned {}", brief(&s.model[*i]), brief(&got)));
            }
        }
        for (i, v) in &written {
            s.model[*i] = v.clone();
        }
        s.check_db(&format!("after call {call} ({txt})"))?;
        c.eval(if items.is_empty() { None } else { Some(hash_u64s(&[phash(&p), rows as u64, cols as u64, h as u64, hash_str(&txt), threads as u64])) });
        c.add("calls", 1.0);
        c.add("items_served", items.len() as f64);
        c.add("items_written", written.len() as f64);
        c.add("replicas_checked", (s.n * h) as f64);
    }
    check_decrypt_db(c, &mut s)
}

// ------------------------------------------------------------------------------------- C04

fn c04(c: &mut Case) -> Res {
    // item numbers that need more than 16 bits
    let huge = c.k % 1000 == 333 && !c.light;
    let (rows, cols, h) = loop {
        if huge {
            let h = c.rng.range(1, 2);
            break if c.rng.bool() { (h, c.rng.range(65_600, 80_000), h) } else { (h * c.rng.range(32_800, 36_000), 2, h) };
        }
        let h = match c.rng.below(4) {
            0 => c.rng.range(1, 20),
            _ => c.rng.weighted(&[(3, 1), (2, 2), (3, 3), (1, 4), (1, 6)]),
        };
        let cols = 1 << c.rng.range(1, if c.light { 6 } else { 9 });
        let rows = if h == 1 && c.rng.bool() { 1 } else { c.rng.range(1, 24) };
        let cells = rows * cols;
        let max = if c.light { 300 } else if c.rng.one_in(8) { 8192 } else { 1500 };
        if cells % h == 0 && cells <= max {
            break (rows, cols, h);
        }
    };
    let items = rows * cols / h;
    let p = {
        let max_n = match rows * cols {
            1501.. => 32,
            0..=64 if !c.light && c.rng.one_in(8) => *c.rng.pick(&[1024, 2048, 4096, 8192]),
            _ => 256,
        };
        let min_n = if max_n > 256 { max_n } else { 32 };
        gen_params(&mut c.rng, Need { cols: 0, accesses: 0, expand: false, max_n, min_n, max_t: 4096 })
    };
    c.note(format!("{} rows={rows} cols={cols} h={h} items={items}", show(&p)));
    let t = p.plaintext_modulus;
    let hash = NaiveHash::new(h, items);
    let via_setup = c.rng.bool() && cfg!(panacea_verif);
    let (client, plain, db) = if via_setup {
        let (client, server, plain) = setup_random_oram(rows, cols, &hash, p.clone());
        let db = snapshot(&server).unwrap();
        (client, plain, db)
    } else {
        let mut client = Client::new(rows, cols, p.clone());
        let (plain, db) = client.gen_dummy_database(&hash);
        (client, plain, db)
    };
    if plain.len() != items {
        return Err(format!("{} plaintexts reported for {items} items", plain.len()));
    }
    if db.len() != rows || db.iter().any(|r| r.len() != cols) {
        return Err("the database does not have the requested shape".into());
    }
    let mut filled = vec![false; rows * cols];
    for (i, m) in plain.iter().enumerate() {
        let m = pv(m);
        if m.len() != p.polynomial_size || m.iter().any(|x| *x >= t) {
            return Err(format!("plaintext {i} is outside the plaintext space: {}", brief(&m)));
        }
        for k in 0..h {
            let cell = hash.hash(k, i);
            let got = dec(&client.sk, &db[cell / cols][cell % cols], &client.ctx);
            if got != m {
                return Err(format!("replica {k} of item {i} of {items} decrypts to {} instead of {}", brief(&got), brief(&m)));
            }
            if filled[cell] {
                return Err(format!("cell {cell} is used twice"));
            }
            filled[cell] = true;
            if mask(&db[cell / cols][cell % cols]).iter().all(|x| *x == 0) {
                return Err(format!("cell {cell} holds no encryption"));
            }
        }
        c.eval(if i >= 1 || h > 1 { Some(hash_u64s(&[rows as u64, cols as u64, h as u64, i as u64, p.polynomial_size as u64, t])) } else { None });
    }
    if let Some(x) = filled.iter().position(|f| !f) {
        return Err(format!("cell {x} is not occupied"));
    }
    // the random values must not be all the same
    let distinct: BTreeSet<Vec<u64>> = plain.iter().map(pv).collect();
    if distinct.len() < items.min(16) {
        return Err(format!("only {} distinct values among {items} random items", distinct.len()));
    }
    c.add("replicas_checked", (items * h) as f64);
    c.max("items", items as f64);
    Ok(())
}

// ------------------------------------------------------------------------------------- C05

/// Statistics of one stream of ciphertext rows (mask, error).
#[derive(Default)]
struct Fresh {
    masks: Vec<u64>,
    errors: Vec<Vec<i64>>,
    sum2: f64,
    count: u64,
    bytes: Vec<[u64; 256]>,
}

impl Fresh {
    fn row(&mut self, what: &str, mask: &[u64], err: &[u64], sigma: f64) -> Res {
        let n = mask.len() as f64;
        let e: Vec<i64> = err.iter().map(|x| *x as i64).collect();
        let s2: f64 = e.iter().map(|x| (*x as f64) * (*x as f64)).sum();
        let m = e.iter().map(|x| x.unsigned_abs()).max().unwrap();
        if e.iter().all(|x| *x == 0) {
            return Err(format!("{what}: a ciphertext without any noise"));
        }
        if m as f64 > 10.0 * sigma + 2.0 {
            return Err(format!("{what}: error {m} is larger than ten standard deviations ({sigma})"));
        }
        let sd = (s2 / n).sqrt();
        if sd < sigma * (1.0 - 8.0 / (2.0 * n).sqrt()) || sd > sigma * (1.0 + 8.0 / (2.0 * n).sqrt()) {
            return Err(format!("{what}: errors have standard deviation {sd} instead of {sigma}"));
        }
        self.sum2 += s2;
        self.count += mask.len() as u64;
        if self.bytes.is_empty() {
            self.bytes = vec![[0; 256]; 8];
        }
        for x in mask {
            for (b, t) in self.bytes.iter_mut().enumerate() {
                t[(x >> (8 * b)) as usize & 255] += 1;
            }
        }
        self.masks.extend_from_slice(mask);
        self.errors.push(e);
        Ok(())
    }
    fn verdict(&mut self, sigma: f64) -> Res {
        let k = self.count as f64;
        let sd = (self.sum2 / k).sqrt();
        let tol = 0.02 + 8.0 / (2.0 * k).sqrt();
        if (sd / sigma - 1.0).abs() > tol {
            return Err(format!("the errors of all rows together have standard deviation {sd} instead of {sigma}"));
        }
        for (b, t) in self.bytes.iter().enumerate() {
            let ex = k / 256.0;
            let chi: f64 = t.iter().map(|x| (*x as f64 - ex).powi(2) / ex).sum();
            // 255 degrees of freedom, standard deviation 22.6
            if chi > 255.0 + 10.0 * 22.6 {
                return Err(format!("byte {b} of the masks is not uniform (chi-square {chi:.0} at 255 degrees of freedom)"));
            }
        }
        let mut m = self.masks.clone();
        m.sort_unstable();
        if m.windows(2).any(|w| w[0] == w[1]) {
            return Err("a mask coefficient occurs twice: randomness is reused".into());
        }
        // error vectors of different rows must be unrelated
        let n = self.errors.len();
        for i in 0..n {
            for j in [i + 1, i + 2, i + 3, n - 1, n / 2] {
                if j == i || j >= n {
                    continue;
                }
                let (a, b) = (&self.errors[i], &self.errors[j]);
                let dot: f64 = a.iter().zip(b).map(|(x, y)| *x as f64 * *y as f64).sum();
                let rho = dot / (a.len() as f64 * sigma * sigma);
                if rho.abs() > 10.0 / (a.len() as f64).sqrt() {
                    return Err(format!("errors of rows {i} and {j} are correlated ({rho:.2})"));
                }
            }
        }
        // any two identical error vectors
        let mut keys: Vec<u64> = self.errors.iter().map(|e| hash_u64s(&e.iter().map(|x| *x as u64).collect::<Vec<_>>())).collect();
        keys.sort_unstable();
        if keys.windows(2).any(|w| w[0] == w[1]) {
            return Err("two rows carry the same error vector".into());
        }
        Ok(())
    }
}

/// error of a gadget row for the constant message that fits best; returns (message, error)
fn gadget_row(s: &[u64], row: &RLWECiphertext, r: usize, bl: usize, poly: Option<&[u64]>) -> (u64, Vec<u64>) {
    let n = s.len();
    let ph = own_phase(s, row);
    let g = 1u64 << (64 - bl * (r / 2 + 1));
    let expect = |m: &[u64]| -> Vec<u64> {
        let mg = scale(m, g);
        if r % 2 == 0 {
            // m*g was added to the mask: the phase is -m*g*s
            scale(&negmul(&mg, s), u64::MAX)
        } else {
            mg
        }
    };
    if let Some(p) = poly {
        return (0, subv(&ph, &expect(p)));
    }
    let mut best = (0, subv(&ph, &vec![0; n]));
    let mut one = vec![0; n];
    one[0] = 1;
    let e1 = subv(&ph, &expect(&one));
    if max_abs(&e1) < max_abs(&best.1) {
        best = (1, e1);
    }
    best
}

/// What else leaves the owner of the key: the database, the evaluation keys of a tree evaluation, feature
/// vectors and scalar ciphertexts.
fn c05_owner(c: &mut Case) -> Res {
    use concrete_core::commons::crypto::encoding::Plaintext;
    use concrete_core::prelude::{LweDimension, LweSize};
    use panacea::decision_tree::encrypt_feature_vector;
    use panacea::lwe::{LWECiphertext, LWESecretKey};
    let n = *c.rng.pick(&[256usize, 256, 512, 1024]);
    let std = *c.rng.pick(&[-55.0, -50.0, -45.0, -40.0]);
    let t = 1 << c.rng.range(1, 8);
    let p = tfhe(n, std, *c.rng.pick(&[(5, 9), (7, 6), (4, 9)]), *c.rng.pick(&[(5, 11), (9, 3)]), *c.rng.pick(&[(5, 11), (8, 6)]), t, c.rng.bool());
    let h = c.rng.range(1, 4);
    let (rows, cols) = if c.rng.one_in(3) { (h * c.rng.range(20, 40), 2) } else { (h * c.rng.range(1, 4), 1 << c.rng.range(1, 4)) };
    let items = rows * cols / h;
    c.note(format!("owner {} rows={rows} cols={cols} h={h}", show(&p)));
    let hash = NaiveHash::new(h, items);
    let mut client = Client::new(rows, cols, p.clone());
    let s = key_bits(&client.sk);
    let sigma = (64.0 + std).exp2();
    let mut f = Fresh::default();
    let step = 64 - t.trailing_zeros();
    for round in 0..2 {
        // the database: cells may share a ciphertext only if they hold the same plaintext
        let (pts, db) = client.gen_dummy_database(&hash);
        let pts: Vec<Vec<u64>> = pts.iter().map(|x| x.as_tensor().as_slice().to_vec()).collect();
        let mut distinct: BTreeMap<Vec<u64>, Vec<u64>> = BTreeMap::new();
        for i in 0..items {
            for k in 0..h {
                let (r, co) = hash.hash_to_tuple(k, i, cols);
                let known = distinct.insert(raw(&db[r][co]), pts[i].clone());
                if known.is_some_and(|x| x != pts[i]) {
                    return Err(format!("round {round}: different items share the ciphertext of replica {k} of item {i}"));
                }
            }
        }
        c.add("distinct_database_ciphertexts", distinct.len() as f64);
        for (ct, v) in &distinct {
            let (m, b) = ct.split_at(n);
            let ph = subv(b, &negmul(m, &s));
            let e = subv(&ph, &v.iter().map(|x| x << step).collect::<Vec<_>>());
            f.row(&format!("database of round {round}"), m, &e, sigma)?;
        }
        // the keys of a tree evaluation
        let ksks = panacea::rlwe::gen_all_subs_ksk(&client.sk, &mut client.ctx);
        let mut ks: Vec<_> = ksks.iter().collect();
        ks.sort_by_key(|x| x.0);
        for (k, ksk) in ks {
            // s(X^k)
            let mut sk = vec![0u64; n];
            for (i, b) in s.iter().enumerate() {
                let d = i * k % (2 * n);
                sk[d % n] = if d < n { *b } else { b.wrapping_neg() };
            }
            for (l, row) in ksk.get_keyswitch_key().iter().enumerate() {
                let g = 1u64 << (64 - p.key_switch_base_log * (l + 1));
                let e = subv(&own_phase(&s, row), &scale(&sk, g));
                f.row(&format!("round {round}: substitution key {k}, level {l}"), &mask(row), &e, sigma)?;
            }
        }
        c.add("substitution_keys", ksks.len() as f64);
        let v: Vec<usize> = (0..4).map(|j| if j == 2 { 0 } else { c.rng.index(n) }).collect();
        if p.base_log * p.level_count + n.trailing_zeros() as usize <= 63 {
            let fs = encrypt_feature_vector(&client.sk, &v, &mut client.ctx);
            for (j, x) in fs.iter().enumerate() {
                for (l, ct) in x.iter().enumerate() {
                    let mut e = own_phase(&s, ct);
                    e[v[j]] = e[v[j]].wrapping_sub(1 << (64 - p.base_log * (l + 1) - n.trailing_zeros() as usize));
                    f.row(&format!("round {round}: feature {j}, level {l}"), &mask(ct), &e, sigma)?;
                }
            }
            c.add("features", 4.0);
        }
        // scalar ciphertexts
        let lsk = if c.rng.bool() { client.ctx.gen_lwe_sk() } else { LWESecretKey::generate_binary(LweDimension(n), &mut client.ctx.secret_generator) };
        let bits = key_bits(&lsk.to_rlwe_sk());
        let (mut first, mut errs) = (vec![], vec![]);
        let mut seen = BTreeSet::new();
        for _ in 0..256 {
            let mut ct = LWECiphertext::allocate(LweSize(n + 1));
            let x = c.rng.below(t);
            lsk.encode_encrypt_lwe(&mut ct, &Plaintext(x), &mut client.ctx);
            let w: Vec<u64> = ct.as_tensor().as_slice().to_vec();
            let ph = w[..n].iter().zip(&bits).fold(w[n], |a, (m, b)| a.wrapping_sub(m.wrapping_mul(*b)));
            errs.push(ph.wrapping_sub(x << step));
            first.push(w[c.rng.index(n)]);
            if !w[..n].iter().all(|x| seen.insert(*x)) {
                return Err(format!("round {round}: a mask coefficient of a scalar ciphertext was used before"));
            }
        }
        f.row(&format!("round {round}: scalar ciphertexts"), &first, &errs, sigma)?;
        c.eval(Some(hash_u64s(&[phash(&p), round, rows as u64, cols as u64, c.k])));
    }
    f.verdict(sigma)?;
    c.add("mask_coefficients", f.count as f64);
    Ok(())
}

/// One client issues hundreds of queries: no mask ever comes back.
#[cfg(panacea_verif)]
fn c05_long(c: &mut Case) -> Res {
    let cols = 1 << c.rng.range(1, 4);
    let p = tfhe(32, -45.0, *c.rng.pick(&[(5, 9), (4, 11)]), (5, 11), (5, 11), 4, c.rng.bool());
    let count = if c.thorough { 20_000 } else { 1500 };
    c.note(format!("{} cols={cols}, {count} queries", show(&p)));
    let hash = NaiveHash::new(1, cols);
    // clients without a fixed seed have nothing in common
    let mut clients: Vec<(Client, Vec<u64>)> = (0..if p.secure_seed { 3 } else { 1 })
        .map(|_| {
            let client = Client::new(1, cols, p.clone());
            let s = key_bits(&client.sk);
            (client, s)
        })
        .collect();
    let total = clients.len();
    let mut seen: std::collections::HashMap<u64, usize> = Default::default();
    let mut errors: std::collections::HashMap<u64, usize> = Default::default();
    let (mut sum2, mut k) = (0f64, 0f64);
    let sigma = 19f64.exp2();
    for j in 0..count {
        let (client, s) = &mut clients[j % total];
        let val = vec![1; 32];
        let i = c.rng.index(cols);
        let write = c.rng.bool();
        let q = if write { client.gen_write_query_one(i, &pl(&val), &hash) } else { client.gen_read_query_one(i, &hash) };
        let (a, op, data) = q.verif_parts();
        let mut cts: Vec<RLWECiphertext> = vec![data.clone()];
        for g in a.iter().chain([op]) {
            cts.extend((0..2 * p.level_count).map(|r| g.get_nth_row(r)));
        }
        for (r, ct) in cts.iter().enumerate() {
            if let Some(b) = seen.insert(mask(ct)[0], j) {
                return Err(format!("the mask of ciphertext {r} of query {j} was used in query {b} ({total} clients take turns)"));
            }
        }
        // the error of the data: what lies below the step
        let e: Vec<i64> = own_phase(s, data).iter().map(|x| (x << 2) as i64 >> 2).collect();
        if e.iter().all(|x| *x == 0) || e.iter().any(|x| x.unsigned_abs() as f64 > 10.0 * sigma) {
            return Err(format!("the data of query {j} has the errors {:?}...", &e[..4]));
        }
        if let Some(b) = errors.insert(hash_u64s(&e.iter().map(|x| *x as u64).collect::<Vec<_>>()), j) {
            return Err(format!("the errors of the data of query {j} were used in query {b} ({total} clients take turns)"));
        }
        sum2 += e.iter().map(|x| (*x as f64).powi(2)).sum::<f64>();
        k += 32.0;
        c.eval(Some(hash_u64s(&[j as u64, 5, mask(data)[0]])));
    }
    let sd = (sum2 / k).sqrt() / sigma;
    if (sd - 1.0).abs() > 0.02 + 8.0 / (2.0 * k).sqrt() {
        return Err(format!("the errors of the data of {count} queries have {sd:.3} times the configured standard deviation"));
    }
    c.add("ciphertext_rows", seen.len() as f64);
    c.max("queries_of_one_client", count as f64);
    Ok(())
}

#[cfg(panacea_verif)]
fn c05(c: &mut Case) -> Res {
    if c.k % 15 == 8 && !c.light {
        return c05_long(c);
    }
    if c.k % 6 == 3 {
        return c05_owner(c);
    }
    let n = *c.rng.pick(&[256usize, 256, 512, 1024]);
    let (rows, cols, h) = if c.rng.bool() {
        (1, 1 << c.rng.range(1, 5), 1)
    } else {
        let h = c.rng.range(1, 4);
        (h * c.rng.range(1, 3), 1 << c.rng.range(1, 4), h)
    };
    let std = *c.rng.pick(&[-55.0, -50.0, -45.0, -40.0]);
    let t = 1 << c.rng.range(1, 8);
    let p = tfhe(n, std, *c.rng.pick(&[(5, 9), (7, 6), (4, 9)]), (5, 11), *c.rng.pick(&[(5, 11), (8, 6)]), t, c.rng.bool());
    c.note(format!("{} rows={rows} cols={cols} h={h}", show(&p)));
    let items = rows * cols / h;
    let hash = NaiveHash::new(h, items);
    let mut client = Client::new(rows, cols, p.clone());
    let s = key_bits(&client.sk);
    if s.iter().any(|x| *x > 1) {
        return Err("the secret key is not binary".into());
    }
    let sigma = (64.0 + std).exp2();
    let mut f = Fresh::default();
    // the evaluation key
    let neg = client.gen_neg_sk();
    let minus_s = scale(&s, u64::MAX);
    for r in 0..2 * p.negs_level_count {
        let row = neg.get_nth_row(r);
        let (_, e) = gadget_row(&s, &row, r, p.negs_base_log, Some(&minus_s));
        f.row(&format!("evaluation key row {r}"), &mask(&row), &e, sigma)?;
    }
    if neg.ciphertext_count().0 != 2 * p.negs_level_count || neg.decomposition_base_log().0 != p.negs_base_log {
        return Err("the evaluation key does not have the configured decomposition".into());
    }
    let shape = |q: &ClientQuery| {
        let (a, op, data) = q.verif_parts();
        let g = |x: &panacea::rgsw::RGSWCiphertext| (x.polynomial_size().0, x.decomposition_base_log().0, x.decomposition_level_count().0, x.ciphertext_count().0);
        (a.iter().map(g).collect::<Vec<_>>(), g(op), data.polynomial_size().0)
    };
    let want_shape = {
        let g = (n, p.base_log, p.level_count, 2 * p.level_count);
        (vec![g; cols.trailing_zeros() as usize], g, n)
    };
    let reqs = if c.thorough { 10 } else { 5 };
    for req in 0..reqs {
        let write = c.rng.bool();
        let val = if c.rng.one_in(3) { vec![0; n] } else { gen_pt_vec(&mut c.rng, n, t) };
        let idx = c.rng.index(items);
        let single = rows == 1;
        let mut set = vec![idx];
        if !single {
            let k = c.rng.range(0, rows);
            set = (0..items).collect();
            c.rng.shuffle(&mut set);
            set.truncate(k);
            while refused(|| hash.hash_to_mapping(&set, cols)).is_ok() {
                set.pop();
            }
        }
        // repeat the very same request
        for rep in 0..2 {
            let qs = match (single, write) {
                (true, true) => vec![client.gen_write_query_one(idx, &pl(&val), &hash)],
                (true, false) => vec![client.gen_read_query_one(idx, &hash)],
                (false, true) => client.gen_write_query_batch(&set, &pl(&val), &hash),
                (false, false) => client.gen_read_query_batch(&set, &hash),
            };
            if qs.len() != rows {
                return Err(format!("request {req}: {} queries for {rows} rows ({} items)", qs.len(), set.len()));
            }
            for (row, q) in qs.iter().enumerate() {
                let what = format!("request {req}.{rep} {} row {row}", if write { "write" } else { "read" });
                if shape(q) != want_shape {
                    return Err(format!("{what}: the query has shape {:?}, expected {:?}", shape(q), want_shape));
                }
                let (a, op, data) = q.verif_parts();
                let mut rows_seen = 0;
                for g in a.iter().chain([op]) {
                    // the row with the largest scale decides the message
                    let (m, _) = gadget_row(&s, &g.get_nth_row(1), 1, p.base_log, None);
                    let mut msg = vec![0; n];
                    msg[0] = m;
                    for r in 0..2 * p.level_count {
                        let ct = g.get_nth_row(r);
                        let (_, e) = gadget_row(&s, &ct, r, p.base_log, Some(&msg));
                        f.row(&format!("{what} gadget row {r}"), &mask(&ct), &e, sigma)?;
                        rows_seen += 1;
                    }
                }
                // the data: the error is the distance to the nearest multiple of the step
                let ph = own_phase(&s, data);
                let step_log = 64 - t.trailing_zeros();
                let e: Vec<u64> = ph
                    .iter()
                    .map(|x| {
                        let lo = x.wrapping_add(1 << (step_log - 1)) >> step_log << step_log;
                        x.wrapping_sub(lo)
                    })
                    .collect();
                f.row(&format!("{what} data"), &mask(data), &e, sigma)?;
                if write && single && decode_vec(&ph, t) != val {
                    return Err(format!("{what}: the data does not decrypt to the written value"));
                }
                c.eval(Some(hash_u64s(&[phash(&p), req as u64, rep, row as u64, idx as u64, c.k])));
                c.add("ciphertext_rows", rows_seen as f64 + 1.0);
                c.add("dummy_or_served_queries", 1.0);
            }
        }
    }
    f.verdict(sigma)?;
    c.add("mask_coefficients", f.count as f64);
    Ok(())
}
/// Without hooks the components of a query are out of reach: the encryption calls they are made of are judged.
#[cfg(not(panacea_verif))]
fn c05(c: &mut Case) -> Res {
    if c.k % 6 == 3 {
        return c05_owner(c);
    }
    use concrete_core::commons::crypto::encoding::Plaintext;
    let n = *c.rng.pick(&[256usize, 256, 512, 1024]);
    let std = *c.rng.pick(&[-55.0, -50.0, -45.0, -40.0]);
    let t = 1 << c.rng.range(1, 8);
    let p = tfhe(n, std, *c.rng.pick(&[(5, 9), (7, 6), (4, 9)]), (5, 11), *c.rng.pick(&[(5, 11), (8, 6)]), t, c.rng.bool());
    c.note(show(&p));
    let mut client = Client::new(1, 4, p.clone());
    let s = key_bits(&client.sk);
    let sigma = (64.0 + std).exp2();
    let mut f = Fresh::default();
    let neg = client.gen_neg_sk();
    let minus_s = scale(&s, u64::MAX);
    for r in 0..2 * p.negs_level_count {
        let row = neg.get_nth_row(r);
        let (_, e) = gadget_row(&s, &row, r, p.negs_base_log, Some(&minus_s));
        f.row(&format!("evaluation key row {r}"), &mask(&row), &e, sigma)?;
    }
    for req in 0..if c.thorough { 20 } else { 10 } {
        let m = c.rng.below(2);
        let mut msg = vec![0; n];
        msg[0] = m;
        let mut g = new_rgsw(n, p.base_log, p.level_count);
        for rep in 0..2 {
            client.sk.encrypt_constant_rgsw(&mut g, &Plaintext(m), &mut client.ctx);
            for r in 0..2 * p.level_count {
                let ct = g.get_nth_row(r);
                let (_, e) = gadget_row(&s, &ct, r, p.base_log, Some(&msg));
                f.row(&format!("encryption {req}.{rep} gadget row {r}"), &mask(&ct), &e, sigma)?;
            }
            let v = gen_pt_vec(&mut c.rng, n, t);
            let ct = enc(&client.sk, &v, &mut client.ctx);
            let step = 64 - t.trailing_zeros();
            let e = subv(&own_phase(&s, &ct), &v.iter().map(|x| x << step).collect::<Vec<_>>());
            f.row(&format!("encryption {req}.{rep}"), &mask(&ct), &e, sigma)?;
            c.eval(Some(hash_u64s(&[phash(&p), req as u64, rep, c.k])));
            c.add("ciphertext_rows", 2.0 * p.level_count as f64 + 1.0);
        }
    }
    f.verdict(sigma)?;
    c.add("mask_coefficients", f.count as f64);
    Ok(())
}

// ------------------------------------------------------------------------------------- C06

fn unchanged_cells(before: &[Vec<RLWECiphertext>], after: &[Vec<RLWECiphertext>]) -> Option<String> {
    for (r, (x, y)) in before.iter().zip(after).enumerate() {
        for (j, (a, b)) in x.iter().zip(y).enumerate() {
            let same_m = mask(a).iter().zip(mask(b)).filter(|(u, v)| **u == *v).count();
            let same_b = body(a).iter().zip(body(b)).filter(|(u, v)| **u == *v).count();
            let n = body(a).len();
            if same_m > n / 4 || same_b > n / 4 {
                return Some(format!("row {r} column {j} ({same_m} of {n} mask and {same_b} body coefficients unchanged)"));
            }
        }
    }
    None
}

fn c06(c: &mut Case) -> Res {
    let kind = c.k % 3; // single, multi, batch
    let n = 512; // allocations of polynomial size are then far above those of the scheduler
    let (rows, cols, h) = if kind == 2 {
        let h = c.rng.range(1, 3);
        (h * if c.rng.bool() { c.rng.range(1, 2) } else { c.rng.range(3, 12 / h) }, 1 << c.rng.range(1, 2), h)
    } else {
        let max = if c.rng.one_in(3) { 6 } else { 4 };
        (1, 1 << c.rng.range(1, max), 1)
    };
    let p = tfhe(n, -55.0, *c.rng.pick(&[(5, 9), (8, 5), (7, 6)]), (5, 11), *c.rng.pick(&[(5, 11), (9, 6)]), 1 << c.rng.range(1, 5), c.rng.bool());
    c.note(format!("{} rows={rows} cols={cols} h={h} kind={kind}", show(&p)));
    let mut s = Sys::new(&p, rows, cols, h);
    let one = pool(1);
    let nq = if kind == 1 { c.rng.range(1, 3) } else { 1 };
    let mut first: Option<(Vec<u64>, String)> = None;
    let rounds = if c.thorough { 14 } else { 8 };
    for round in 0..rounds {
        let before = s.db();
        let mut txt = String::new();
        let mut ops = vec![];
        let trace;
        match kind {
            0 | 1 => {
                let mut qs = vec![];
                for _ in 0..nq {
                    let i = match round {
                        0 | 1 => 0,
                        2 => cols - 1,
                        _ => c.rng.index(cols),
                    };
                    let w = match round {
                        0 => false,
                        1 => true,
                        _ => c.rng.bool(),
                    };
                    let v = if round == 3 { s.model[i].clone() } else { s.new_value(&mut c.rng) };
                    qs.push(if w { s.client.gen_write_query_one(i, &pl(&v), &s.hash) } else { s.client.gen_read_query_one(i, &s.hash) });
                    txt += &format!("{}{i} ", if w { "W" } else { "R" });
                    if w {
                        ops.push((i, v));
                    }
                }
                let server = &mut s.server;
                trace = record(|| {
                    one.install(|| {
                        alloc::trace_begin(n * 8);
                        if kind == 0 {
                            server.process_one(qs.remove(0));
                        } else {
                            server.process_multi(qs);
                        }
                        alloc::trace_end()
                    })
                });
            }
            _ => {
                let w = c.rng.bool();
                let want = if round == 0 { 0 } else { c.rng.range(0, rows) };
                let (items, _) = placeable(c, &s, want);
                let v = s.new_value(&mut c.rng);
                let qs = if w { s.client.gen_write_query_batch(&items, &pl(&v), &s.hash) } else { s.client.gen_read_query_batch(&items, &s.hash) };
                txt += &format!("{}{items:?}", if w { "W" } else { "R" });
                if w {
                    for i in &items {
                        ops.push((*i, v.clone()));
                    }
                }
                let (server, hash) = (&mut s.server, &s.hash);
                trace = record(|| {
                    one.install(|| {
                        alloc::trace_begin(n * 8);
                        server.process_batch(qs, hash);
                        alloc::trace_end()
                    })
                });
            }
        }
        for (i, v) in ops {
            s.model[i] = v;
        }
        c.note(txt.clone());
        if let (Some(before), Some(after)) = (before, s.db()) {
            if let Some(e) = unchanged_cells(&before, &after) {
                return Err(format!("round {round} ({txt}): not rewritten: {e}"));
            }
        }
        // replicas must also be rewritten to something new, not to older ciphertexts
        if trace.len() < 10 {
            return Err(format!("HARNESS: only {} events were traced", trace.len()));
        }
        c.add("trace_events", trace.len() as f64);
        c.add("cells_compared", (rows * cols) as f64);
        c.eval(Some(hash_u64s(&[phash(&p), kind, hash_str(&txt), rows as u64, cols as u64])));
        // the first call may set up caches
        if round == 0 {
            continue;
        }
        match &first {
            None => first = Some((trace, txt)),
            Some((t0, q0)) => {
                if *t0 != trace {
                    let at = t0.iter().zip(&trace).position(|(a, b)| a != b).unwrap_or(t0.len().min(trace.len()));
                    return Err(format!(
                        "queries of the same shape are processed by different operation sequences: [{q0}] made {} steps, [{txt}] made {}, first difference at step {at}",
                        t0.len(),
                        trace.len()
                    ));
                }
            }
        }
    }
    Ok(())
}
/// Without hooks only the allocations are traced.
#[cfg(not(panacea_verif))]
fn record<T>(f: impl FnOnce() -> T) -> T {
    f()
}
#[cfg(panacea_verif)]
fn record<T>(f: impl FnOnce() -> T) -> T {
    panacea::verif::set_callback(Some(Box::new(|name| alloc::trace_event(hash_str(name) >> 8))));
    let t = f();
    panacea::verif::set_callback(None);
    t
}

// ------------------------------------------------------------------------------------- C07

#[cfg(panacea_verif)]
fn c07(c: &mut Case) -> Res {
    if c.k % 10 == 9 && !c.light {
        return c07_tree(c);
    }
    if c.k % 10 == 4 {
        return c07_decrypt(c);
    }
    let kind = c.k % 4; // single, multi, batch, several servers at once
    let (rows, cols, h) = if kind == 2 { gen_shape(&mut c.rng, 48) } else { (1, gen_cols(c).min(32), 1) };
    let mut need = oram_need(c, cols, 12);
    need.max_n = need.max_n.min(256);
    need.min_n = 32;
    let p = gen_params(&mut c.rng, need);
    c.note(format!("{} rows={rows} cols={cols} h={h} kind={kind}", show(&p)));
    let mut s = Sys::new(&p, rows, cols, h);
    let neg = s.client.gen_neg_sk();
    let db = s.db().unwrap();
    let threads: Vec<usize> = {
        let mut v = vec![1, 2, 3, 5, 8, 16];
        c.rng.shuffle(&mut v);
        v.truncate(if c.thorough { 6 } else { 4 });
        v.push(0);
        v
    };
    let rounds = 2;
    // the queries of every round are fixed, and cloned for every run
    let mut plan: Vec<Vec<ClientQuery>> = vec![];
    for _ in 0..rounds {
        plan.push(match kind {
            2 => {
                let want = c.rng.range(0, rows);
                let (items, _) = placeable(c, &s, want);
                let v = s.new_value(&mut c.rng);
                if c.rng.bool() {
                    s.client.gen_write_query_batch(&items, &pl(&v), &s.hash)
                } else {
                    s.client.gen_read_query_batch(&items, &s.hash)
                }
            }
            _ => {
                let k = if kind == 1 { c.rng.range(1, 9) } else { 1 };
                (0..k)
                    .map(|_| {
                        let i = c.rng.index(cols);
                        let v = s.new_value(&mut c.rng);
                        if c.rng.bool() {
                            s.client.gen_write_query_one(i, &pl(&v), &s.hash)
                        } else {
                            s.client.gen_read_query_one(i, &s.hash)
                        }
                    })
                    .collect()
            }
        });
    }
    type Out = (Vec<Vec<u64>>, Vec<Vec<Vec<u64>>>);
    let run = |t: usize| -> Out {
        let mut srv = Server::new(db.clone(), neg.clone(), p.clone());
        let plan = plan.clone();
        let hash = &s.hash;
        in_pool(t, move || {
            let mut resp = vec![];
            for qs in plan {
                match kind {
                    0 | 3 => resp.extend(qs.into_iter().map(|q| raw(&srv.process_one(q).0))),
                    1 => resp.extend(srv.process_multi(qs).0.iter().map(raw)),
                    _ => resp.extend(srv.process_batch(qs, hash).0.iter().map(raw)),
                }
            }
            let db = srv.verif_data().iter().map(|r| r.iter().map(raw).collect()).collect();
            (resp, db)
        })
    };
    let reference = run(1);
    let compare = |o: &Out, how: &str| -> Res {
        if o.0.len() != reference.0.len() {
            return Err(format!("{how}: {} responses instead of {}", o.0.len(), reference.0.len()));
        }
        for (i, (a, b)) in o.0.iter().zip(&reference.0).enumerate() {
            if a != b {
                return Err(format!("{how}: response {i} differs from the single-threaded run"));
            }
        }
        for (r, (a, b)) in o.1.iter().zip(&reference.1).enumerate() {
            for (j, (x, y)) in a.iter().zip(b).enumerate() {
                if x != y {
                    return Err(format!("{how}: stored cell ({r},{j}) differs from the single-threaded run"));
                }
            }
        }
        Ok(())
    };
    let rng = &mut c.rng;
    let mut outs = vec![];
    let points;
    {
        let (seed, every, us) = (rng.u64(), *rng.pick(&[3, 20, 200]), *rng.pick(&[0, 20, 200]));
        let ((), pts) = with_delays(seed, every, us, || {
            if kind == 3 {
                // the same call on several servers at once, from plain threads and inside one pool
                let res: Vec<Out> = std::thread::scope(|sc| {
                    let hs: Vec<_> = (0..4).map(|i| { let run = &run; sc.spawn(move || run([0, 0, 2, 3][i])) }).collect();
                    hs.into_iter().map(|x| x.join().unwrap()).collect()
                });
                for o in res {
                    outs.push((o, "several servers at once".to_string()));
                }
                use rayon::prelude::*;
                let res: Vec<Out> = pool(3).install(|| (0..4usize).into_par_iter().map(|_| run(0)).collect());
                for o in res {
                    outs.push((o, "several servers inside one pool".to_string()));
                }
            } else {
                for t in &threads {
                    outs.push((run(*t), format!("{t} threads")));
                }
            }
        });
        points = pts;
    }
    for (o, how) in &outs {
        compare(o, how)?;
        c.eval(Some(hash_u64s(&[phash(&p), rows as u64, cols as u64, kind, hash_str(how), c.k])));
    }
    c.add("runs_compared", outs.len() as f64);
    c.add("delay_points_passed", points as f64);
    c.add("ciphertexts_compared", outs.iter().map(|(o, _)| o.0.len() + o.1.iter().map(|r| r.len()).sum::<usize>()).sum::<usize>() as f64);
    Ok(())
}
/// Without hooks neither queries nor stored ciphertexts can be copied; clients with the insecure
/// seed make the same queries again, and the stored cells are compared through reads of every item.
#[cfg(not(panacea_verif))]
fn c07(c: &mut Case) -> Res {
    if c.k % 10 == 9 && !c.light {
        return c07_tree(c);
    }
    if c.k % 10 == 4 {
        return c07_decrypt(c);
    }
    let kind = c.k % 3;
    let (rows, cols, h) = if kind == 2 { gen_shape(&mut c.rng, 48) } else { (1, gen_cols(c).min(32), 1) };
    let mut need = oram_need(c, cols, 12);
    need.max_n = need.max_n.min(256);
    need.min_n = 32;
    let mut p = gen_params(&mut c.rng, need);
    p.secure_seed = false;
    c.note(format!("{} rows={rows} cols={cols} h={h} kind={kind}", show(&p)));
    let s = Sys::new(&p, rows, cols, h);
    let items = if kind == 2 {
        let want = c.rng.range(0, rows);
        placeable(c, &s, want).0
    } else {
        (0..c.rng.range(1, 6)).map(|_| c.rng.index(cols)).collect()
    };
    let write: Vec<bool> = items.iter().map(|_| c.rng.bool()).collect();
    let v = s.new_value(&mut c.rng);
    let hash = &s.hash;
    let run = |t: usize| -> Vec<Vec<u64>> {
        let mut s = Sys::with_hash(&p, rows, cols, h, hash.clone());
        let (client, server) = (&mut s.client, &mut s.server);
        let calls: Vec<Vec<ClientQuery>> = match kind {
            2 => vec![
                client.gen_write_query_batch(&items, &pl(&v), hash),
                client.gen_read_query_batch(&items, hash),
                client.gen_read_query_batch(&[], hash),
            ],
            _ => {
                let qs = items.iter().zip(&write).map(|(i, w)| if *w { client.gen_write_query_one(*i, &pl(&v), hash) } else { client.gen_read_query_one(*i, hash) }).collect();
                vec![qs, (0..cols).map(|i| client.gen_read_query_one(i, hash)).collect()]
            }
        };
        in_pool(t, move || {
            let mut resp = vec![];
            for qs in calls {
                match kind {
                    0 => resp.extend(qs.into_iter().map(|q| raw(&server.process_one(q).0))),
                    1 => resp.extend(server.process_multi(qs).0.iter().map(raw)),
                    _ => resp.extend(server.process_batch(qs, hash).0.iter().map(raw)),
                }
            }
            resp
        })
    };
    let reference = run(1);
    if reference != run(1) {
        return Ok(()); // the clients do not repeat their queries: nothing to compare
    }
    for t in [2, 3, 5, 8, 0] {
        let got = run(t);
        if got != reference {
            return Err(format!("{t} threads: the responses differ from the single-threaded run"));
        }
        c.eval(Some(hash_u64s(&[phash(&p), rows as u64, cols as u64, kind, t as u64, c.k])));
        c.add("ciphertexts_compared", got.len() as f64);
    }
    Ok(())
}

/// The owner's view of the database: the same on every pool.
fn c07_decrypt(c: &mut Case) -> Res {
    let (rows, cols) = if c.light { (4, 2) } else { (c.rng.range(2, 64), 1 << c.rng.range(1, 3)) };
    let n = *c.rng.pick(&[32usize, 64, 128]);
    let p = tfhe(n, -60.0, (5, 9), (5, 11), (5, 11), 2, true);
    c.note(format!("{} rows={rows} cols={cols} decrypting the database", show(&p)));
    let s = Sys::new(&p, rows, cols, 1);
    let mut want = vec![vec![0u64; cols]; rows];
    for (i, v) in s.model.iter().enumerate() {
        let cell = s.hash.hash(0, i);
        want[cell / cols][cell % cols] = v.iter().take(64).enumerate().fold(0, |a, (j, b)| a | b << j);
    }
    for t in [1usize, 2, 3, 8, 16] {
        let tp = pool(t);
        for _ in 0..if c.light { 1 } else { 8 } {
            let (server, sk) = (&s.server, &s.client.sk);
            let got = tp.install(|| server.decrypt_db(sk));
            if got != want {
                let r = (0..rows).find(|r| got.get(*r) != Some(&want[*r])).unwrap_or(0);
                return Err(format!("{t} threads: row {r} of the decrypted database is {:?} instead of {:?} ({} rows)", got.get(r), want[r], got.len()));
            }
            c.add("databases_decrypted", 1.0);
        }
        c.eval(Some(hash_u64s(&[phash(&p), rows as u64, cols as u64, 4, t as u64, c.k])));
    }
    Ok(())
}

fn c07_tree(c: &mut Case) -> Res {
    // one comparison node, several feature vectors: predictions must come back in input order
    let d = c.rng.range(1, 2046);
    let tree = crate::tree::parse(&format!(
        r#"{{"internal":{{"threshold":{d},"feature":0,"index":0,"op":"leq","left":{{"leaf":2}},"right":{{"leaf":1}}}}}}"#
    ));
    let k = c.rng.range(2, 5);
    let feats: Vec<Vec<usize>> = (0..k).map(|_| vec![if c.rng.bool() { d } else { d + 1 }]).collect();
    let want: Vec<u64> = feats.iter().map(|f| if f[0] <= d { 2 } else { 1 }).collect();
    for t in [1, 3, 0] {
        let (tree, feats) = (&tree, &feats);
        let got = in_pool(t, || panacea::decision_tree::simulate(tree, feats, true).predictions);
        if got != want {
            return Err(format!("parallel tree evaluation on {t} threads: predictions {got:?} instead of {want:?}"));
        }
        c.eval(Some(hash_u64s(&[77, d as u64, k as u64, t as u64])));
    }
    c.note(format!("tree threshold {d} features {feats:?}"));
    c.add("tree_runs", 3.0);
    Ok(())
}

// ------------------------------------------------------------------------------------- C08

/// Run a call and judge its completion by the CPU time of the process: calls of this size take
/// milliseconds, so a call that burned minutes of CPU does not make progress. (Sleeping forever
/// is detected by the driver's watchdog.)
pub fn must_finish<T: Send>(what: &str, budget: f64, f: impl FnOnce() -> T + Send) -> Result<T, String> {
    use std::sync::atomic::{AtomicBool, Ordering::SeqCst};
    let done = AtomicBool::new(false);
    let start = cpu_secs();
    std::thread::scope(|s| {
        let d = &done;
        let monitor = s.spawn(move || {
            while !d.load(SeqCst) {
                // rarely, or the process never looks idle
                std::thread::park_timeout(std::time::Duration::from_millis(500));
                if cpu_secs() - start > budget {
                    println!("{what}: the call used more than {budget} s of CPU time without returning");
                    println!("VIOLATION-NOW {what} does not complete");
                    std::process::exit(7);
                }
            }
        });
        struct Fin<'a>(&'a AtomicBool, std::thread::Thread);
        impl Drop for Fin<'_> {
            fn drop(&mut self) {
                self.0.store(true, SeqCst);
                self.1.unpark();
            }
        }
        let _fin = Fin(d, monitor.thread().clone());
        Ok(f())
    })
}

fn c08(c: &mut Case) -> Res {
    let kind = c.k % 7; // single, multi, batch, nested/concurrent, tree, crowds
    if kind == 4 {
        return c08_tree(c);
    }
    if kind > 4 {
        return c08_crowd(c, kind == 6);
    }
    let (rows, cols, h) = if kind == 2 { gen_shape(&mut c.rng, 48) } else { (1, gen_cols(c).min(32), 1) };
    let mut need = oram_need(c, cols, 16);
    need.max_n = need.max_n.min(128);
    need.min_n = 32;
    let p = gen_params(&mut c.rng, need);
    c.note(format!("{} rows={rows} cols={cols} h={h} kind={kind}", show(&p)));
    let mut s = Sys::new(&p, rows, cols, h);
    let (seed, every, us) = (c.rng.u64(), *c.rng.pick(&[2, 10, 100]), *c.rng.pick(&[0, 10, 100]));
    let budget = 240.0;
    let (res, pts) = with_delays(seed, every, us, || -> Res {
        let mut list = vec![1, 2, 3, 4, 7, 8, 16, 32, 64, 0];
        c.rng.shuffle(&mut list);
        list.truncate(5);
        if kind == 3 {
            // several servers used concurrently, from threads, inside pools and nested pools
            use rayon::prelude::*;
            let mut systems: Vec<Sys> = (0..4).map(|_| Sys::new(&p, 1, cols, 1)).collect();
            for t in list.iter().take(3) {
                let i = c.rng.index(cols);
                let mut work: Vec<(&mut Sys, ClientQuery, Vec<ClientQuery>)> = vec![];
                for s in systems.iter_mut() {
                    let q = s.client.gen_read_query_one(i, &s.hash);
                    let m = vec![s.client.gen_read_query_one(0, &s.hash), s.client.gen_read_query_one(cols - 1, &s.hash)];
                    work.push((s, q, m));
                }
                let go = |(s, q, m): (&mut Sys, ClientQuery, Vec<ClientQuery>)| -> Res {
                    let y = s.server.process_one(q).0;
                    let ys = s.server.process_multi(m).0;
                    if s.dec(&y) != s.model[i] || s.dec(&ys[0]) != s.model[0] || s.dec(&ys[1]) != s.model[cols - 1] {
                        return Err(format!("concurrent servers: wrong response for item {i}"));
                    }
                    Ok(())
                };
                let rs: Vec<Res> = if *t == 0 {
                    must_finish("concurrent servers on the global pool", budget, || {
                        std::thread::scope(|sc| {
                            let hs: Vec<_> = work.into_iter().map(|w| sc.spawn(move || go(w))).collect();
                            hs.into_iter().map(|h| h.join().unwrap_or_else(|e| Err(crate::panic_text(&*e)))).collect()
                        })
                    })?
                } else {
                    let outer = pool(*t);
                    must_finish("concurrent servers inside a pool", budget, || outer.install(|| work.into_par_iter().map(go).collect()))?
                };
                for r in rs {
                    r?;
                }
                c.eval(Some(hash_u64s(&[phash(&p), cols as u64, *t as u64, 333])));
            }
            return Ok(());
        }
        for t in &list {
            let tp = if *t == 0 { None } else { Some(pool(*t)) };
            match kind {
                0 | 1 => {
                    let k = if kind == 0 { 1 } else { c.rng.range(1, 2 * (*t).max(2)).min(12) };
                    let ops: Vec<(usize, bool)> = (0..k).map(|_| (c.rng.index(cols), c.rng.one_in(3))).collect();
                    let mut qs = vec![];
                    let mut next = s.model.clone();
                    for (i, w) in &ops {
                        if *w {
                            let v = s.new_value(&mut c.rng);
                            qs.push(s.client.gen_write_query_one(*i, &pl(&v), &s.hash));
                            next[*i] = v;
                        } else {
                            qs.push(s.client.gen_read_query_one(*i, &s.hash));
                        }
                    }
                    let server = &mut s.server;
                    let call = || if kind == 0 { vec![server.process_one(qs.remove(0)).0] } else { server.process_multi(qs).0 };
                    let ys = must_finish("server call", budget, || match &tp {
                        None => call(),
                        Some(tp) => tp.install(call),
                    })?;
                    for (y, (i, _)) in ys.iter().zip(&ops) {
                        if s.dec(y) != s.model[*i] {
                            return Err(format!("{t} threads: wrong response for item {i}"));
                        }
                    }
                    if ys.len() != ops.len() {
                        return Err(format!("{t} threads: {} responses for {} queries", ys.len(), ops.len()));
                    }
                    s.model = next;
                }
                _ => {
                    let want = c.rng.range(0, rows);
                    let (items, map) = placeable(c, &s, want);
                    let v = s.new_value(&mut c.rng);
                    let w = c.rng.bool();
                    let qs = if w { s.client.gen_write_query_batch(&items, &pl(&v), &s.hash) } else { s.client.gen_read_query_batch(&items, &s.hash) };
                    let (server, hash) = (&mut s.server, &s.hash);
                    let call = || server.process_batch(qs, hash).0;
                    let ys = must_finish("server call", budget, || match &tp {
                        None => call(),
                        Some(tp) => tp.install(call),
                    })?;
                    for (r, (_, i)) in map {
                        if s.dec(&ys[r]) != s.model[i] {
                            return Err(format!("{t} threads: wrong response for item {i} in row {r}"));
                        }
                    }
                    if w {
                        for i in items {
                            s.model[i] = v.clone();
                        }
                    }
                }
            }
            s.check_db(&format!("lost work on {t} threads"))?;
            c.eval(Some(hash_u64s(&[phash(&p), rows as u64, cols as u64, *t as u64, kind])));
            c.max("pool_size", *t as f64);
        }
        Ok(())
    });
    c.add("delay_points_passed", pts as f64);
    res
}

/// Far more queries than workers over wide rows, so that workers steal from each other all the time.
fn c08_crowd(c: &mut Case, batch: bool) -> Res {
    let light = c.light;
    let cols = if light { 8 } else { *c.rng.pick(&[16usize, 32, 32, 64]) };
    let (rows, h) = if batch { (3 * c.rng.range(4, if light { 4 } else { 10 }), 3) } else { (1, 1) };
    let n = if light { 32 } else { *c.rng.pick(&[32, 64, 128]) };
    let p = tfhe(n, -55.0, *c.rng.pick(&[(5, 9), (8, 5), (3, 14)]), (5, 11), (5, 11), 4, true);
    c.note(format!("{} rows={rows} cols={cols} h={h} crowd", show(&p)));
    let mut s = Sys::new(&p, rows, cols, h);
    let mut list = vec![2, 3, 4, 5, 6, 7, 8, 16, 0];
    c.rng.shuffle(&mut list);
    list.truncate(if light { 2 } else { 5 });
    let (seed, every, us) = (c.rng.u64(), *c.rng.pick(&[20, 200, 2000]), *c.rng.pick(&[0, 20, 200]));
    for t in list {
        let tp = if t == 0 { None } else { Some(pool(t)) };
        for round in 0..if light { 1 } else { 3 } {
            let mut qs = vec![];
            let mut want = vec![];
            let mut next = s.model.clone();
            if batch {
                let k = c.rng.range(rows / 4, rows);
                let (items, map) = placeable(c, &s, k);
                if c.rng.bool() {
                    let v = s.new_value(&mut c.rng);
                    qs = s.client.gen_write_query_batch(&items, &pl(&v), &s.hash);
                    for i in &items {
                        next[*i] = v.clone();
                    }
                } else {
                    qs = s.client.gen_read_query_batch(&items, &s.hash);
                }
                want.extend(map.iter().map(|(r, (_, i))| (*r, *i)));
            } else {
                for j in 0..if light { 8 } else { c.rng.range(10, 28) } {
                    let i = c.rng.index(cols);
                    if c.rng.one_in(4) {
                        let v = s.new_value(&mut c.rng);
                        qs.push(s.client.gen_write_query_one(i, &pl(&v), &s.hash));
                        next[i] = v;
                    } else {
                        qs.push(s.client.gen_read_query_one(i, &s.hash));
                    }
                    want.push((j, i));
                }
            }
            let queries = qs.len();
            let (server, hash) = (&mut s.server, &s.hash);
            let call = || if batch { server.process_batch(qs, hash).0 } else { server.process_multi(qs).0 };
            // every other round undisturbed
            let (every, us) = if round % 2 == 0 { (u64::MAX, 0) } else { (every, us) };
            let (ys, pts) = with_delays(seed, every, us, || {
                must_finish("server call", 240.0, || match &tp {
                    None => call(),
                    Some(tp) => tp.install(call),
                })
            });
            let ys = ys?;
            c.add("delay_points_passed", pts as f64);
            for (j, i) in want {
                if ys.get(j).map(|y| s.dec(y)).as_ref() != Some(&s.model[i]) {
                    return Err(format!("{t} threads: wrong response {j} for item {i}"));
                }
            }
            s.model = next;
            s.check_db(&format!("lost work on {t} threads"))?;
            c.eval(Some(hash_u64s(&[phash(&p), rows as u64, cols as u64, t as u64, queries as u64])));
            c.max("queries_in_a_call", queries as f64);
        }
    }
    Ok(())
}

fn c08_tree(c: &mut Case) -> Res {
    if c.light {
        return Ok(());
    }
    let d = c.rng.range(0, 2047);
    let tree = crate::tree::parse(&format!(
        r#"{{"internal":{{"threshold":{d},"feature":0,"index":0,"op":"leq","left":{{"leaf":1}},"right":{{"leaf":0}}}}}}"#
    ));
    let k = c.rng.range(1, 4);
    let feats: Vec<Vec<usize>> = (0..k).map(|_| vec![c.rng.index(2048)]).collect();
    let want: Vec<u64> = feats.iter().map(|f| (f[0] <= d) as u64).collect();
    let t = *c.rng.pick(&[1, 2, 9, 0]);
    c.note(format!("tree threshold {d} features {feats:?} threads {t}"));
    let (tr, fs) = (&tree, &feats);
    let got = must_finish("parallel tree evaluation", 600.0, || in_pool(t, || panacea::decision_tree::simulate(tr, fs, true).predictions))?;
    if got != want {
        return Err(format!("predictions {got:?} instead of {want:?}"));
    }
    c.eval(Some(hash_u64s(&[d as u64, k as u64, t as u64, 4])));
    Ok(())
}

// ------------------------------------------------------------------------------------- C09

/// Workers without work cost a constant amount each.
fn c09_scaling(c: &mut Case) -> Res {
    let kind = c.rng.below(3);
    let n = *c.rng.pick(&[32usize, 64, 128]);
    let (rows, cols, h) = if kind == 2 { (2, 2, 1) } else { (1, 2, 1) };
    let p = tfhe(n, -55.0, (8, 5), (5, 11), (8, 6), 4, true);
    c.note(format!("{} rows={rows} cols={cols} kind={kind} scaling", show(&p)));
    let mut s = Sys::new(&p, rows, cols, h);
    let before = alloc::live() as f64;
    let bufs: Vec<_> = (0..8).map(|_| s.client.ctx.gen_fft_ctx()).collect();
    let buf = (alloc::live() as f64 - before) / 8.0;
    drop(bufs);
    let rgsw = (2 * n * 8 * 2 * 6) as f64;
    let mut peaks = vec![];
    for t in [16usize, 64] {
        let tp = pool(t);
        let mut worst = 0f64;
        for _ in 0..5 {
            let i = c.rng.index(s.n);
            let mut qs: Vec<ClientQuery> = match kind {
                2 => s.client.gen_read_query_batch(&[i], &s.hash),
                _ => vec![s.client.gen_read_query_one(i, &s.hash)],
            };
            let before = alloc::live() as f64;
            alloc::reset_peak();
            let (server, hash) = (&mut s.server, &s.hash);
            let ys = tp.install(|| match kind {
                0 => vec![server.process_one(qs.remove(0)).0],
                1 => server.process_multi(qs).0,
                _ => server.process_batch(qs, hash).0,
            });
            worst = worst.max(alloc::peak() as f64 - before);
            drop(ys);
            c.eval(Some(hash_u64s(&[n as u64, rows as u64, kind, t as u64, 99])));
        }
        peaks.push(worst);
    }
    let per = (peaks[1] - peaks[0]) / 48.0;
    let bound = 4.0 * buf + 8192.0 + 30.0 * rgsw / 48.0;
    c.max("bytes_per_idle_worker_over_bound", per / bound);
    if per > bound {
        return Err(format!("with 64 instead of 16 workers, each further worker takes {per:.0} bytes (its scratch buffer has {buf:.0}, allowed are {bound:.0})"));
    }
    Ok(())
}

/// Thousands of calls on a tiny database: what grows by a few bytes with each of them shows.
fn c09_history(c: &mut Case) -> Res {
    let kind = c.k / 15 % 3;
    let (rows, cols, h) = if kind == 2 { (2, 2, 1) } else { (1, 2, 1) };
    let p = tfhe(32, -55.0, (8, 1), (8, 1), (8, 1), 4, true);
    let threads = c.rng.range(1, 3);
    c.note(format!("{} rows={rows} cols={cols} kind={kind} threads={threads} history", show(&p)));
    let mut s = Sys::new(&p, rows, cols, h);
    let tp = pool(threads);
    let (warm, calls) = (1000, if c.thorough { 20_000 } else { 4000 });
    let mut start = 0;
    for call in 0..calls {
        if call == warm {
            start = alloc::live();
        }
        let i = c.rng.index(s.n);
        let v = pl(&s.new_value(&mut c.rng));
        let write = c.rng.bool();
        let mut qs: Vec<ClientQuery> = match (kind, write) {
            (2, false) => s.client.gen_read_query_batch(&[i], &s.hash),
            (2, true) => s.client.gen_write_query_batch(&[i], &v, &s.hash),
            (_, false) => vec![s.client.gen_read_query_one(i, &s.hash)],
            (_, true) => vec![s.client.gen_write_query_one(i, &v, &s.hash)],
        };
        let (server, hash) = (&mut s.server, &s.hash);
        let ys = tp.install(|| match kind {
            0 => vec![server.process_one(qs.remove(0)).0],
            1 => server.process_multi(qs).0,
            _ => server.process_batch(qs, hash).0,
        });
        if ys.is_empty() {
            return Err("no response".into());
        }
        if call % 50 == 0 {
            c.eval(Some(hash_u64s(&[kind, threads as u64, call as u64, 77])));
        }
    }
    let per = (alloc::live() - start) as f64 / (calls - warm) as f64;
    c.max("bytes_kept_per_call_of_a_long_history", per);
    c.max("calls_of_a_long_history", calls as f64);
    if per > 4.0 {
        return Err(format!("after {calls} calls, each keeps {per:.1} bytes"));
    }
    Ok(())
}

/// Batched calls on many rows: linear memory, of which nothing is kept.
fn c09_rows(c: &mut Case) -> Res {
    let n = *c.rng.pick(&[32usize, 64]);
    let cols = *c.rng.pick(&[2usize, 4, 8]);
    let h = c.rng.range(1, 3);
    let rows = c.rng.range(if c.thorough { 200 } else { 120 }, 400) / h * h;
    let threads = *c.rng.pick(&[1usize, 2, 4, 16, 32]);
    let p = tfhe(n, -55.0, (8, 2), (8, 2), (8, 2), 4, true);
    c.note(format!("{} rows={rows} cols={cols} h={h} threads={threads} many rows", show(&p)));
    let mut s = Sys::new(&p, rows, cols, h);
    let tp = pool(threads);
    let rlwe = (2 * n * 8) as f64;
    let rgsw = rlwe * 2.0 * 2.0;
    let cells = (rows * cols) as f64;
    let work = cells * (2.0 * rgsw + 12.0 * rlwe) + rows as f64 * rgsw * 4.0 + threads as f64 * (12.0 * rgsw + 64.0 * rlwe) + 0.25 * (1 << 20) as f64;
    // scratch buffers may stay
    let keep = threads as f64 * (12.0 * rgsw + 64.0 * rlwe) + 0.1 * cells * rlwe + 0.125 * (1 << 20) as f64;
    tp.install(|| ());
    let start = alloc::live() as f64;
    for call in 0..3 {
        let i = c.rng.index(s.n);
        let qs = if c.rng.bool() { s.client.gen_read_query_batch(&[i], &s.hash) } else { s.client.gen_write_query_batch(&[i], &pl(&s.new_value(&mut c.rng)), &s.hash) };
        let before = alloc::live() as f64;
        alloc::reset_peak();
        let (server, hash) = (&mut s.server, &s.hash);
        let ys = tp.install(|| server.process_batch(qs, hash).0);
        let peak = alloc::peak() as f64 - before;
        c.max("peak_over_bound_many_rows", peak / work);
        if peak > work {
            return Err(format!("call {call}: the peak of {:.1} MiB exceeds {:.1} MiB, which covers database, selectors, responses and per-thread buffers with room to spare", peak / 1048576.0, work / 1048576.0));
        }
        drop(ys);
        let kept = alloc::live() as f64 - start;
        c.max("kept_over_bound", kept / keep);
        if kept > keep {
            return Err(format!("after call {call} {kept:.0} bytes stay in memory (the database has {:.0}, per-thread buffers would be less than {keep:.0})", cells * rlwe));
        }
        c.eval(Some(hash_u64s(&[n as u64, rows as u64, cols as u64, h as u64, threads as u64, call, 55])));
    }
    Ok(())
}

fn c09(c: &mut Case) -> Res {
    if c.k % 15 == 6 || c.k % 15 == 11 {
        return c09_rows(c);
    }
    if c.k % 15 == 2 {
        return c09_history(c);
    }
    if c.k % 5 == 4 {
        return c09_scaling(c);
    }
    let kind = c.k % 3;
    let n = *c.rng.pick(&[64usize, 128, 128, 256, 256, 512, 1024]);
    let (rows, cols, h) = if kind == 2 {
        let h = c.rng.range(1, 3);
        (h * c.rng.range(1, 2), 1 << c.rng.range(1, 3), h)
    } else {
        (1, 1 << c.rng.range(1, 4), 1)
    };
    let n = if n == 1024 && cols > 4 { 256 } else { n };
    let threads = *c.rng.pick(&[1usize, 2, 4, 8]);
    let p = tfhe(n, -55.0, *c.rng.pick(&[(5, 9), (8, 5)]), (5, 11), (5, 11), 4, true);
    c.note(format!("{} rows={rows} cols={cols} h={h} kind={kind} threads={threads}", show(&p)));
    let mut s = Sys::new(&p, rows, cols, h);
    let tp = pool(threads);
    let nq = if kind == 1 { c.rng.range(1, 6) } else { rows };
    let rlwe = (2 * n * 8) as f64;
    let rgsw = rlwe * 2.0 * p.level_count as f64;
    let negs = rlwe * 2.0 * p.negs_level_count as f64;
    let cells = (rows * cols) as f64;
    // selectors of all cells, per query; demultiplexed inputs; per-thread scratch; responses
    let work = nq as f64 * (cols as f64 * (rgsw + rlwe * (p.level_count as f64 + 4.0)) + rgsw * 4.0)
        + cells * (rgsw + 4.0 * rlwe)
        + threads as f64 * (8.0 * rgsw + 4.0 * negs + 64.0 * rlwe)
        + 0.5 * (1 << 20) as f64;
    let bound = work;
    let calls = if c.thorough { 36 } else { 12 };
    let mut lives = vec![];
    for call in 0..calls {
        let i = c.rng.index(s.n);
        let qs: Vec<ClientQuery> = match kind {
            2 => s.client.gen_read_query_batch(&[i], &s.hash),
            _ => (0..nq).map(|_| s.client.gen_read_query_one(i, &s.hash)).collect(),
        };
        let before = alloc::live() as f64;
        alloc::reset_peak();
        let (server, hash) = (&mut s.server, &s.hash);
        let ys: Vec<RLWECiphertext> = tp.install(|| match kind {
            0 => vec![server.process_one({ let mut q = qs; q.remove(0) }).0],
            1 => server.process_multi(qs).0,
            _ => server.process_batch(qs, hash).0,
        });
        let peak = alloc::peak() as f64 - before;
        c.max("peak_mib", peak / (1 << 20) as f64);
        c.max("peak_over_bound", peak / bound);
        if peak > bound {
            return Err(format!("call {call}: the peak of {:.1} MiB exceeds {:.1} MiB, which covers database, selectors, responses and per-thread buffers with room to spare", peak / 1048576.0, bound / 1048576.0));
        }
        if ys.is_empty() {
            return Err("no response".into());
        }
        drop(ys);
        lives.push(alloc::live() as f64);
        c.eval(Some(hash_u64s(&[n as u64, rows as u64, cols as u64, h as u64, kind, threads as u64, nq as u64, p.level_count as u64])));
    }
    // growth per call after warming up; the median of the second half against the first half
    let w = 4;
    let half = (calls - w) / 2;
    let med = |v: &[f64]| {
        let mut v = v.to_vec();
        v.sort_by(|a, b| a.partial_cmp(b).unwrap());
        v[v.len() / 2]
    };
    let growth = (med(&lives[w + half..]) - med(&lives[w..w + half])) / half as f64;
    c.max("growth_bytes_per_call", growth);
    if growth > rlwe / 2.0 {
        return Err(format!("live memory grows by {growth:.0} bytes per call (a ciphertext has {rlwe} bytes)"));
    }
    Ok(())
}

// ------------------------------------------------------------------------------------- C27

fn c27(c: &mut Case) -> Res {
    let kind = c.k % 2; // row server, batch server
    let (rows, cols, h) = if kind == 1 {
        let (mut r, co, h) = gen_shape(&mut c.rng, 48);
        r = r.max(h);
        while r * co % h != 0 {
            r += 1;
        }
        (r, co, h)
    } else {
        (1, gen_cols(c).min(16), 1)
    };
    let mut need = oram_need(c, cols.max(4), 8);
    need.max_n = need.max_n.min(128);
    need.min_n = 32;
    let p = gen_params(&mut c.rng, need);
    let t = p.plaintext_modulus;
    let n = p.polynomial_size;
    let threads = gen_threads(&mut c.rng);
    c.note(format!("{} rows={rows} cols={cols} h={h} threads={threads}", show(&p)));
    let mut s = Sys::new(&p, rows, cols, h);
    let steps = if c.light { 3 } else { 7 };
    for step in 0..steps {
        let before = s.db();
        let what: String;
        // an invalid request; each returns Err(()) if it was not refused
        let res: Result<String, ()> = match c.rng.below(11) {
            which @ (0 | 10) => {
                let (mut cl, other_cols);
                if which == 0 {
                    // query for another width
                    other_cols = if c.rng.bool() { cols * 2 } else if cols > 2 { cols / 2 } else { cols * 4 };
                    cl = s.other_client();
                    what = format!("query for {other_cols} columns");
                } else {
                    // query for another ring
                    other_cols = cols;
                    let m = if c.rng.bool() || n == 32 { 2 * n } else { n / 2 };
                    cl = Client::new(1, cols, TFHEParameters { polynomial_size: m, ..p.clone() });
                    what = format!("query for a ring of size {m}");
                }
                let hash2 = NaiveHash::new(1, other_cols);
                cl.rows = 1;
                cl.cols = other_cols;
                let n = cl.ctx.poly_size.0;
                let i = c.rng.index(other_cols);
                let q = if c.rng.bool() { cl.gen_read_query_one(i, &hash2) } else { cl.gen_write_query_one(i, &zero_pl(n), &hash2) };
                let good = s.client.gen_read_query_batch(&[], &s.hash);
                let kind2 = if kind == 1 { 2 } else { c.rng.below(2) };
                let (server, hash) = (&mut s.server, &s.hash);
                let call = || match kind2 {
                    0 => drop(server.process_one(q)),
                    1 => {
                        let mut g = good;
                        g.push(q);
                        drop(server.process_multi(g))
                    }
                    _ => {
                        let mut g = good;
                        g.pop();
                        g.push(q);
                        drop(server.process_batch(g, hash))
                    }
                };
                refused(|| in_pool(threads, call)).map_err(|_| ())
            }
            1 | 2 => {
                // wrong number of batched queries
                let mut qs = s.client.gen_read_query_batch(&[], &s.hash);
                if c.rng.bool() || qs.len() == 1 {
                    qs.extend(s.client.gen_read_query_batch(&[0], &s.hash).into_iter().take(c.rng.range(1, 2)));
                } else {
                    let k = c.rng.range(1, qs.len() - 1);
                    qs.truncate(k);
                }
                what = format!("{} batched queries for {rows} rows", qs.len());
                let (server, hash) = (&mut s.server, &s.hash);
                refused(|| in_pool(threads, || drop(server.process_batch(qs, hash)))).map_err(|_| ())
            }
            3 => {
                let mut v = s.new_value(&mut c.rng);
                let j = c.rng.index(n);
                v[j] = match c.rng.below(3) {
                    0 => t,
                    1 => u64::MAX,
                    _ => t + c.rng.below(1000),
                };
                what = format!("write of the value {} with modulus {t}", v[j]);
                let i = c.rng.index(s.n);
                if c.rng.bool() {
                    refused(|| s.client.gen_write_query_one(i, &pl(&v), &s.hash)).map(|x| x).map_err(|_| ())
                } else {
                    refused(|| s.client.gen_write_query_batch(&[i], &pl(&v), &s.hash)).map_err(|_| ())
                }
            }
            4 => {
                let i = s.n + c.rng.range(0, 3);
                what = format!("item {i} of {}", s.n);
                if c.rng.bool() {
                    refused(|| s.client.gen_read_query_one(i, &s.hash)).map_err(|_| ())
                } else {
                    refused(|| s.client.gen_write_query_batch(&[i], &zero_pl(n), &s.hash)).map_err(|_| ())
                }
            }
            5 => {
                let d = n + c.rng.range(0, 2) * c.rng.range(0, n);
                what = format!("comparison with {d} in a ring of size {n}");
                let mut ct = enc(&s.client.sk, &vec![0; n], &mut s.client.ctx);
                if c.rng.bool() {
                    refused(|| ct.less_eq_than(d)).map_err(|_| ())
                } else {
                    refused(|| ct.eq_to(d)).map_err(|_| ())
                }
            }
            6 if c.rng.bool() => {
                // a tree that asks for more than it is given
                use panacea::decision_tree::{compare_expand, encrypt_feature_vector, EncNode, Internal, Node, Op};
                let mut ctx = Context::new(tfhe(n, -55.0, (5, 9), (5, 11), (5, 11), t, true));
                let sk = ctx.gen_rlwe_sk();
                let neg = sk.neg_gsw(&mut ctx);
                let map = panacea::rlwe::gen_all_subs_ksk_fourier(&sk, &mut ctx);
                let count = c.rng.range(1, 3);
                let given = encrypt_feature_vector(&sk, &vec![1; count], &mut ctx);
                let feature = count + c.rng.range(0, 3);
                let node = |feature: usize, left: Option<Node>| Internal { threshold: 3, feature, index: 0, op: Op::LEQ, left, right: Some(Node::Leaf(1)) };
                if c.rng.bool() {
                    what = format!("feature {feature} of {count}");
                    let flat = vec![node(0, None), node(feature, None)];
                    refused(|| compare_expand(&flat, &given, &neg, &map, &ctx).count()).map_err(|_| ())
                } else {
                    let nodes = c.rng.range(2, 5);
                    what = format!("{nodes} nodes with {} selectors", nodes - 1);
                    let mut tree = Node::Leaf(1);
                    for _ in 0..nodes {
                        tree = Node::Internal(Box::new(node(0, Some(tree))));
                    }
                    let flat: Vec<Internal> = (1..nodes).map(|_| node(0, None)).collect();
                    refused(|| {
                        EncNode::new(&tree, &mut compare_expand(&flat, &given, &neg, &map, &ctx));
                    })
                    .map_err(|_| ())
                }
            }
            6 => {
                let f = n + c.rng.range(0, 5);
                what = format!("feature {f} in a ring of size {n}");
                // a context whose gadget leaves room for the trace factor
                let mut ctx = Context::new(tfhe(n, -55.0, (5, 9), (5, 11), (5, 11), t, true));
                let sk = ctx.gen_rlwe_sk();
                let mut fs = vec![1, f];
                c.rng.shuffle(&mut fs);
                refused(|| panacea::decision_tree::encrypt_feature_vector(&sk, &fs, &mut ctx)).map_err(|_| ())
            }
            7 => {
                let bad_n = s.n + 1;
                what = format!("{rows}x{cols} database for a hash with {} cells", bad_n * h);
                let hash = NaiveHash::new(h, bad_n);
                refused(|| setup_random_oram(rows, cols, &hash, p.clone()).2).map_err(|_| ())
            }
            8 => {
                // more items than can be placed: rows + 1 distinct items
                if s.n <= rows {
                    continue;
                }
                let mut items: Vec<usize> = (0..s.n).collect();
                c.rng.shuffle(&mut items);
                items.truncate(rows + 1);
                what = format!("{} items in {rows} rows", items.len());
                if c.rng.bool() {
                    refused(|| s.client.gen_read_query_batch(&items, &s.hash)).map_err(|_| ())
                } else {
                    refused(|| s.client.gen_write_query_batch(&items, &zero_pl(n), &s.hash)).map_err(|_| ())
                }
            }
            _ => {
                let v = t + c.rng.below(5);
                what = format!("encoding of {v} with modulus {t}");
                let ctx = &s.client.ctx;
                if c.rng.bool() {
                    let mut x = v;
                    refused(|| ctx.codec.encode(&mut x)).map_err(|_| ())
                } else {
                    let mut ct = rlwe0(n);
                    let mut m = vec![0; n];
                    m[c.rng.index(n)] = v;
                    let (sk, ctx) = (&s.client.sk, &mut s.client.ctx);
                    refused(|| sk.encode_encrypt_rlwe(&mut ct, &pl(&m), ctx)).map_err(|_| ())
                }
            }
        };
        c.note(what.clone());
        if res.is_err() {
            return Err(format!("step {step}: {what} was not refused"));
        }
        c.eval(Some(hash_u64s(&[phash(&p), rows as u64, cols as u64, hash_str(&what)])));
        c.add("refused_requests", 1.0);
        // nothing may have changed
        if let (Some(a), Some(b)) = (&before, &s.db()) {
            for (x, y) in a.iter().flatten().zip(b.iter().flatten()) {
                if raw(x) != raw(y) {
                    return Err(format!("step {step}: the refused request ({what}) changed the database"));
                }
            }
        }
        // and the server must still serve
        if step % 2 == 1 || step + 1 == steps {
            let i = c.rng.index(s.n);
            let v = s.new_value(&mut c.rng);
            let w = c.rng.bool();
            if kind == 1 {
                let map = s.hash.hash_to_mapping(&[i], cols);
                let qs = if w { s.client.gen_write_query_batch(&[i], &pl(&v), &s.hash) } else { s.client.gen_read_query_batch(&[i], &s.hash) };
                let (server, hash) = (&mut s.server, &s.hash);
                let ys = in_pool(threads, || server.process_batch(qs, hash).0);
                for (r, _) in map {
                    if s.dec(&ys[r]) != s.model[i] {
                        return Err(format!("step {step}: wrong response for item {i} after a refused request"));
                    }
                }
            } else {
                let q = if w { s.client.gen_write_query_one(i, &pl(&v), &s.hash) } else { s.client.gen_read_query_one(i, &s.hash) };
                let multi = c.rng.one_in(3);
                let server = &mut s.server;
                let y = in_pool(threads, || if multi { server.process_multi(vec![q]).0.remove(0) } else { server.process_one(q).0 });
                if s.dec(&y) != s.model[i] {
                    return Err(format!("step {step}: wrong response for item {i} after a refused request"));
                }
            }
            if w {
                s.model[i] = v;
            }
            s.check_db(&format!("after the valid request of step {step}"))?;
            c.add("valid_requests", 1.0);
        }
    }
    Ok(())
}

pub fn plaintext_len(p: &Pt) -> usize {
    p.as_tensor().as_slice().len()
}

// ------------------------------------------------------------------------------------- C28

#[cfg(panacea_verif)]
fn copy_query(q: &ClientQuery) -> Option<ClientQuery> {
    Some(q.clone())
}
#[cfg(not(panacea_verif))]
fn copy_query(_: &ClientQuery) -> Option<ClientQuery> {
    None
}

struct Pending {
    q: ClientQuery,
    item: usize,
    value: Option<Vec<u64>>,
    name: String,
}

/// Queries made ahead of time by several clients, processed later, in another order and by all kinds of calls.
fn c28(c: &mut Case) -> Res {
    let (many, wide) = if c.light { (false, false) } else { (c.k % 50 == 13, c.k % 50 == 38) };
    let ring = c.k % 50 == 29 && !c.light;
    let cols = if many { 1 << c.rng.range(1, 3) } else if ring { 2 } else if wide { *c.rng.pick(&[128, 256, 512]) } else { gen_cols(c).min(32) };
    let budget = if c.light || wide || ring { 6 } else if many { 1200 } else { c.rng.range(8, 24) };
    let need = if ring { large_need(c, cols, budget) } else { oram_need(c, cols, budget) };
    let p = if many { durable(&mut c.rng, cols, budget) } else { gen_params(&mut c.rng, need) };
    c.note(format!("{} cols={cols}", show(&p)));
    c.max("queries_of_one_history", budget as f64);
    let mut s = Sys::new(&p, 1, cols, 1);
    let mut clients = vec![s.other_client()];
    let mut pending: Vec<Pending> = vec![];
    let hot: Vec<usize> = (0..3).map(|_| c.rng.index(cols)).collect();
    let (mut used, mut made, mut last) = (0, 0, 0);
    // calls to come next, whatever the order of the others
    let mut script: VecDeque<(u64, Vec<Pending>)> = VecDeque::new();
    while used < budget {
        if script.is_empty() && c.rng.one_in(4) {
            // a write, another of the same item, and the first one again
            let i = pick_item(&mut c.rng, cols, &hot, last);
            last = i;
            let mut mk = |s: &mut Sys, c: &mut Case, write: bool| {
                let value = if write { Some(s.new_value(&mut c.rng)) } else { None };
                let k = c.rng.us(clients.len() + 1);
                let cl = if k == 0 { &mut s.client } else { &mut clients[k - 1] };
                let q = match &value {
                    Some(v) => cl.gen_write_query_one(i, &pl(v), &s.hash),
                    None => cl.gen_read_query_one(i, &s.hash),
                };
                made += 1;
                Pending { q, item: i, value, name: format!("{}{i}#{}", if write { "W" } else { "R" }, made - 1) }
            };
            let first = { let w = !c.rng.one_in(4); mk(&mut s, c, w) };
            let again: Vec<Pending> = copy_query(&first.q).into_iter().map(|q| Pending { q, item: i, value: first.value.clone(), name: format!("{}'", first.name) }).collect();
            let kinds: Vec<u64> = if c.rng.bool() { let k = c.rng.below(3); vec![k, c.rng.below(3), k] } else { (0..3).map(|_| c.rng.below(3)).collect() };
            script.push_back((kinds[0], vec![first]));
            let between = if kinds[1] == 1 { c.rng.range(1, 3) } else { 1 };
            let group = (0..between).map(|_| mk(&mut s, c, true)).collect();
            script.push_back((kinds[1], group));
            if !again.is_empty() {
                script.push_back((kinds[2], again));
                c.add("writes_repeated_after_another", 1.0);
            }
        }
        if script.is_empty() && (pending.is_empty() || (pending.len() < 8 && c.rng.bool())) {
            for _ in 0..c.rng.range(1, 4) {
                let i = pick_item(&mut c.rng, cols, &hot, last);
                last = i;
                let value = if c.rng.bool() { Some(s.new_value(&mut c.rng)) } else { None };
                let k = c.rng.us(clients.len() + 1);
                let cl = if k == 0 { &mut s.client } else { &mut clients[k - 1] };
                let q = match &value {
                    Some(v) => cl.gen_write_query_one(i, &pl(v), &s.hash),
                    None => cl.gen_read_query_one(i, &s.hash),
                };
                let name = format!("{}{i}#{made}", if value.is_some() { "W" } else { "R" });
                made += 1;
                pending.push(Pending { q, item: i, value, name });
            }
            if c.rng.one_in(5) {
                // clients come and go
                if clients.len() > 1 {
                    clients.remove(0);
                } else {
                    clients.push(s.other_client());
                }
            }
            continue;
        }
        // 0: one, 1: multi, 2: batch of a one-row database
        let (kind, group) = match script.pop_front() {
            Some(x) => x,
            None => {
                let kind = c.rng.below(3);
                let want = if kind == 1 { c.rng.range(1, pending.len().min(5)) } else { 1 };
                (kind, (0..want).map(|_| pending.remove(c.rng.us(pending.len()))).collect::<Vec<_>>())
            }
        };
        if c.rng.one_in(4) {
            // the same query again later
            let x = c.rng.pick(&group);
            if let Some(q) = copy_query(&x.q) {
                let y = Pending { q, item: x.item, value: x.value.clone(), name: format!("{}'", x.name) };
                pending.push(y);
                c.add("replayed_queries", 1.0);
            }
        }
        used += group.len();
        let threads = gen_threads(&mut c.rng);
        let txt = format!("{}[{}]", ["one", "multi", "batch"][kind as usize], group.iter().map(|x| x.name.as_str()).collect::<Vec<_>>().join(" "));
        if used < 60 {
            c.note(format!("{txt}@{threads}"));
        }
        let (mut qs, mut ops) = (vec![], vec![]);
        for x in group {
            qs.push(x.q);
            ops.push((x.item, x.value));
        }
        let (server, hash) = (&mut s.server, &s.hash);
        let ys = in_pool(threads, move || match kind {
            0 => vec![server.process_one(qs.remove(0)).0],
            1 => server.process_multi(qs).0,
            _ => server.process_batch(qs, hash).0,
        });
        if ys.len() != ops.len() {
            return Err(format!("{txt}: {} responses", ys.len()));
        }
        for (j, (y, (i, _))) in ys.iter().zip(&ops).enumerate() {
            let got = if c.rng.bool() { s.dec(y) } else { dec(&clients[0].sk, y, &clients[0].ctx) };
            if got != s.model[*i] {
                return Err(format!("{txt}: response {j} (item {i}) is {} instead of {}", brief(&got), brief(&s.model[*i])));
            }
        }
        for (i, v) in &ops {
            if let Some(v) = v {
                s.model[*i] = v.clone();
            }
        }
        s.check_db(&format!("after {txt}"))?;
        c.eval(Some(hash_u64s(&[phash(&p), cols as u64, hash_str(&txt), threads as u64])));
        c.add(["single_calls", "multi_calls", "batched_calls"][kind as usize], 1.0);
        c.add("queries", ops.len() as f64);
        c.max("queries_made_ahead", pending.len() as f64);
    }
    // whoever joins last reads the same memory
    let mut fresh = s.other_client();
    for i in 0..cols.min(3) {
        let i = if i == 0 { last } else { c.rng.us(cols) };
        let q = fresh.gen_read_query_one(i, &s.hash);
        let y = s.server.process_one(q).0;
        if dec(&fresh.sk, &y, &fresh.ctx) != s.model[i] {
            return Err(format!("a new client reads item {i} as {} instead of {}", brief(&s.dec(&y)), brief(&s.model[i])));
        }
    }
    Ok(())
}

// ------------------------------------------------------------------------------------- C30

/// What the observation points saw of one call: when the first product and the first write of the database began,
/// and how many products there were before that write.
#[derive(Default, Clone, Copy)]
struct Phases {
    first: Option<f64>,
    write: Option<f64>,
    products: u64,
}

/// Run `f`; the product number `at` and every write of the database take `ms` longer.
#[cfg(panacea_verif)]
fn timed<T>(at: u64, ms: u64, f: impl FnOnce() -> T) -> (T, Phases, f64) {
    use std::sync::{Arc, Mutex};
    let start = std::time::Instant::now();
    let seen = Arc::new(Mutex::new(Phases::default()));
    let s2 = seen.clone();
    panacea::verif::set_callback(Some(Box::new(move |name| {
        let nap = {
            let mut p = s2.lock().unwrap();
            if name == "external_product" {
                p.first.get_or_insert(start.elapsed().as_secs_f64());
                if p.write.is_none() {
                    p.products += 1;
                }
                p.write.is_none() && p.products == at
            } else if name.ends_with("before_write") {
                let fresh = p.write.is_none();
                p.write.get_or_insert(start.elapsed().as_secs_f64());
                fresh
            } else {
                false
            }
        };
        if nap && ms > 0 {
            std::thread::sleep(std::time::Duration::from_millis(ms));
        }
    })));
    let out = f();
    let wall = start.elapsed().as_secs_f64();
    panacea::verif::set_callback(None);
    let p = *seen.lock().unwrap();
    (out, p, wall)
}
#[cfg(not(panacea_verif))]
fn timed<T>(_at: u64, _ms: u64, f: impl FnOnce() -> T) -> (T, Phases, f64) {
    let start = std::time::Instant::now();
    let out = f();
    (out, Phases::default(), start.elapsed().as_secs_f64())
}

/// Reported times are those of the answering phase.
fn c30(c: &mut Case) -> Res {
    if c.k % 12 == 7 {
        return c30_simulate(c);
    }
    let kind = c.k % 3;
    let (rows, cols, h) = if kind == 2 {
        let h = c.rng.range(1, 3);
        (h * c.rng.range(1, 4), *c.rng.pick(&[2, 4, 8]), h)
    } else {
        (1, *c.rng.pick(&[2, 4, 8, 16, 32]), 1)
    };
    let n = *c.rng.pick(&[32usize, 64, 256]);
    let p = tfhe(n, -60.0, *c.rng.pick(&[(5, 9), (7, 6)]), (5, 11), (5, 11), 4, true);
    let threads = gen_threads(&mut c.rng);
    c.note(format!("{} rows={rows} cols={cols} h={h} threads={threads} kind={kind}", show(&p)));
    let mut s = Sys::new(&p, rows, cols, h);
    let mut products = 0;
    for call in 0..5 {
        let count = match kind {
            1 => c.rng.range(1, 5),
            _ => 1,
        };
        let val = s.new_value(&mut c.rng);
        let mut qs = vec![];
        for _ in 0..count {
            let i = c.rng.us(s.n);
            if kind == 2 {
                qs = if c.rng.bool() { s.client.gen_write_query_batch(&[i], &pl(&val), &s.hash) } else { s.client.gen_read_query_batch(&[i], &s.hash) };
            } else {
                qs.push(if c.rng.bool() { s.client.gen_write_query_one(i, &pl(&val), &s.hash) } else { s.client.gen_read_query_one(i, &s.hash) });
            }
        }
        // the first call shows how many products come before the first write
        let ms = if call == 0 { 0 } else { c.rng.range(20, 60) as u64 };
        let at = if call == 0 { 0 } else { 1 + c.rng.below((products * 3 / 4).max(1)) };
        let (server, hash) = (&mut s.server, &s.hash);
        // the pool is made beforehand: only the call is timed
        let workers = if threads == 0 { None } else { Some(pool(threads)) };
        let ((dur, inner), ph, wall) = timed(at, ms, || {
            let run = || {
                let begin = std::time::Instant::now();
                let d = match kind {
                    0 => server.process_one(qs.pop().unwrap()).1,
                    1 => server.process_multi(qs).1,
                    _ => server.process_batch(qs, hash).1,
                };
                (d.as_secs_f64(), begin.elapsed().as_secs_f64())
            };
            match &workers {
                Some(w) => w.install(run),
                None => run(),
            }
        });
        let what = format!("call {call} ({} queries): {dur:.6} s of {inner:.6} s reported", count);
        if dur <= 0.0 || dur > inner {
            return Err(format!("{what}: more than the call took, or nothing"));
        }
        if let Some(w) = ph.write {
            if dur > w {
                return Err(format!("{what}, although the first cell was rewritten {w:.6} s after the beginning: the time includes the update"));
            }
            if call > 0 && ph.products >= at && dur < ms as f64 / 1000.0 {
                return Err(format!("{what}, although product {at} of {} before the first write was delayed by {ms} ms: the time misses a part of the answering phase", ph.products));
            }
            if let Some(first) = ph.first {
                c.max("reported_share_of_time_before_the_first_write", dur / (w - first).max(1e-9));
            }
        }
        if call == 0 {
            products = ph.products / count as u64;
        }
        c.eval(Some(hash_u64s(&[phash(&p), rows as u64, cols as u64, kind as u64, threads as u64, call, at])));
        c.add("timed_calls", 1.0);
        c.add("products_before_the_first_write", ph.products as f64);
        c.add("wall_ms", wall * 1000.0);
    }
    Ok(())
}

fn c30_simulate(c: &mut Case) -> Res {
    use panacea::decision_tree::simulate;
    let text = format!(
        r#"{{"internal": {{"threshold": {}, "feature": 0, "index": 0, "op": "leq", "left": {{"leaf": 1}}, "right": {{"leaf": 2}}}}}}"#,
        c.rng.us(2048)
    );
    let tree: panacea::decision_tree::Node = serde_json::from_str(&text).map_err(|e| format!("HARNESS: {e}"))?;
    let feats: Vec<Vec<usize>> = (0..c.rng.range(1, 3)).map(|_| vec![c.rng.us(2048)]).collect();
    let parallel = c.rng.bool();
    c.note(format!("simulate parallel={parallel} features={feats:?}"));
    let (_, ph, _) = timed(0, 0, || simulate(&tree, &feats, parallel).server_duration);
    let ms = c.rng.range(100, 400) as u64;
    let at = 1 + c.rng.below((ph.products * 9 / 10).max(1));
    let ((setup, server), ph2, wall) = timed(at, ms, || {
        let r = simulate(&tree, &feats, parallel);
        (r.setup_duration.as_secs_f64(), r.server_duration.as_secs_f64())
    });
    let what = format!("set-up {setup:.6} s and server {server:.6} s of {wall:.6} s reported");
    if setup <= 0.0 || server <= 0.0 || setup + server > wall {
        return Err(format!("{what}: more than the simulation took, or nothing"));
    }
    if let Some(first) = ph2.first {
        if setup > first {
            return Err(format!("{what}, although the server's first product began after {first:.6} s"));
        }
        if ph2.products >= at && server < ms as f64 / 1000.0 {
            return Err(format!("{what}, although product {at} of {} was delayed by {ms} ms", ph2.products));
        }
    }
    c.eval(Some(hash_u64s(&[9, at, ms, feats.len() as u64, parallel as u64])));
    c.add("timed_simulations", 1.0);
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C01", quick: 400, thorough: 6000, workers: 4, secs: 60.0, min_evals: 200, f: c01,
            rule: "a case is a random database (size, parameters, pool) and a random history of single reads and writes by two clients sharing the key; one evaluation is one processed access whose response and whole stored database were decrypted and compared with an array model; distinct by (parameters, size, item, operation, pool, client); all are non-trivial" },
        Prop { id: "C02", quick: 220, thorough: 4000, workers: 4, secs: 60.0, min_evals: 100, f: c02,
            rule: "a case is a random database and several multi-query calls with distinct or repeated items; one evaluation is one call whose responses (snapshot semantics) and resulting database (last write wins) were compared with an array model; empty calls are trivial" },
        Prop { id: "C03", quick: 400, thorough: 3500, workers: 4, secs: 50.0, min_evals: 80, f: c03,
            rule: "a case is a random shape and hash and several batched calls (reads, writes, per-row mixes); one evaluation is one call whose served rows and all replicas of all items were compared with the model; calls requesting no item are trivial" },
        Prop { id: "C04", quick: 3000, thorough: 10000, workers: 6, secs: 45.0, min_evals: 2000, f: c04,
            rule: "a case generates a database of a random shape; one evaluation is one item all of whose replicas were decrypted and compared with the reported plaintext; the first item of an unreplicated database is trivial" },
        Prop { id: "C05", quick: 72, thorough: 400, workers: 6, secs: 50.0, min_evals: 60, f: c05,
            rule: "a case is one client and several requests, each issued twice (one evaluation is one query whose every ciphertext row was checked for shape, mask uniformity, reuse and noise level), or one owner and its database, keys and encrypted inputs (one evaluation is one set of ciphertexts of a kind checked for mask reuse, uniformity and error size)" },
        Prop { id: "C06", quick: 40, thorough: 500, workers: 1, secs: 50.0, min_evals: 60, f: c06,
            rule: "a case processes queries of one shape with different operations, items and data on a one-thread pool; one evaluation is one call after which every stored cell was compared with its previous ciphertext and the trace of products and polynomial-sized allocations with that of the other calls" },
        Prop { id: "C07", quick: 80, thorough: 1500, workers: 1, secs: 40.0, min_evals: 100, f: c07,
            rule: "a case fixes a server state and queries and replays them on pools of several sizes, under injected delays, and on several servers at once; one evaluation is one run whose responses and stored ciphertexts were compared bit by bit with the single-threaded run" },
        Prop { id: "C08", quick: 80, thorough: 1500, workers: 1, secs: 40.0, min_evals: 100, f: c08,
            rule: "a case issues calls on pools of 1 to 64 threads, from inside and outside pools, nested and concurrent, with injected delays; one evaluation is one call that returned and whose effects were all present" },
        Prop { id: "C09", quick: 45, thorough: 600, workers: 1, secs: 45.0, min_evals: 100, f: c09,
            rule: "a case repeats one kind of call on one database; one evaluation is one call whose peak allocation was compared with the bound; growth of live memory is judged per case; distinct by (shape, parameters, pool, kind)" },
        Prop { id: "C28", quick: 100, thorough: 1200, workers: 4, secs: 35.0, min_evals: 200, f: c28,
            rule: "a case is a history of single, multi and batched calls on one server with queries made ahead by several clients, reordered and replayed; one evaluation is one call whose responses and resulting database were compared with the sequential model; distinct by (parameters, columns, call, threads)" },
        Prop { id: "C30", quick: 120, thorough: 1500, workers: 1, secs: 45.0, min_evals: 150, f: c30,
            rule: "a case is a server and five calls of one kind, or one tree simulation, with a delay injected at a random product of the answering phase and at the first write of the database; one evaluation is one call whose reported time was compared with when those happened; distinct by (parameters, shape, kind, pool, delayed product)" },
        Prop { id: "C27", quick: 400, thorough: 3000, workers: 4, secs: 50.0, min_evals: 150, f: c27,
            rule: "a case mixes invalid requests with valid ones on one server; one evaluation is one invalid request that was refused, after which the stored ciphertexts were compared bit by bit; distinct by (parameters, shape, kind of invalidity)" },
    ]
}
