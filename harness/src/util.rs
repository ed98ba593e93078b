//! Random numbers, parameter generation, plaintext oracles and noise predictions.
use concrete_core::commons::crypto::encoding::PlaintextList;
use concrete_core::commons::math::tensor::{AsMutTensor, AsRefSlice, AsRefTensor};
use concrete_core::prelude::{DecompositionBaseLog, DecompositionLevelCount, PolynomialSize};
use panacea::context::Context;
use panacea::params::TFHEParameters;
use panacea::rgsw::RGSWCiphertext;
use panacea::rlwe::{RLWECiphertext, RLWESecretKey};

pub type Pt = PlaintextList<Vec<u64>>;

/// splitmix64 based generator, deterministic in (seed, property, case)
#[derive(Clone)]
pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed ^ 0x9E37_79B9_7F4A_7C15);
        r.u64();
        r
    }
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    /// uniform below n (n > 0)
    pub fn below(&mut self, n: u64) -> u64 {
        ((self.u64() as u128 * n as u128) >> 64) as u64
    }
    pub fn us(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// uniform in a..=b
    pub fn range(&mut self, a: usize, b: usize) -> usize {
        a + self.us(b - a + 1)
    }
    pub fn bool(&mut self) -> bool {
        self.u64() >> 63 == 1
    }
    /// true with probability 1/n
    pub fn one_in(&mut self, n: u64) -> bool {
        self.below(n) == 0
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.us(v.len())]
    }
    pub fn weighted<T: Copy>(&mut self, v: &[(u64, T)]) -> T {
        let total: u64 = v.iter().map(|x| x.0).sum();
        let mut r = self.below(total);
        for (w, x) in v {
            if r < *w {
                return *x;
            }
            r -= w;
        }
        unreachable!()
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            v.swap(i, self.us(i + 1));
        }
    }
    /// an index below n, biased towards the ends
    pub fn index(&mut self, n: usize) -> usize {
        match self.below(8) {
            0 => 0,
            1 => n - 1,
            2 => n / 2,
            _ => self.us(n),
        }
    }
}

pub fn hash_u64s(v: &[u64]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for x in v {
        h = (h ^ x).wrapping_mul(0x0000_0100_0000_01B3);
        h ^= h >> 29;
        h = h.wrapping_mul(0xBF58_476D_1CE4_E5B9);
    }
    h
}
pub fn hash_str(s: &str) -> u64 {
    hash_u64s(&s.bytes().map(u64::from).collect::<Vec<_>>())
}

// ---------------------------------------------------------------- plaintexts

pub fn pl(v: &[u64]) -> Pt {
    PlaintextList::from_container(v.to_vec())
}
pub fn pv(p: &Pt) -> Vec<u64> {
    p.as_tensor().as_slice().to_vec()
}
pub fn zero_pl(n: usize) -> Pt {
    pl(&vec![0; n])
}

/// A plaintext polynomial with coefficients below t, of a random kind.
pub fn gen_pt_vec(r: &mut Rng, n: usize, t: u64) -> Vec<u64> {
    match r.below(10) {
        0 => vec![0; n],
        1 => vec![t - 1; n],
        2 => vec![t / 2; n],
        3 => {
            let mut v = vec![0; n];
            v[r.index(n)] = 1 + r.below(t - 1);
            v
        }
        4 => (0..n).map(|_| r.below(2)).collect(),
        5 => (0..n).map(|i| if i % 2 == 0 { t - 1 } else { 0 }).collect(),
        _ => (0..n).map(|_| r.below(t)).collect(),
    }
}
pub fn gen_ternary(r: &mut Rng, n: usize) -> Vec<u64> {
    match r.below(6) {
        0 => {
            let mut v = vec![0; n];
            v[r.index(n)] = if r.bool() { 1 } else { u64::MAX };
            v
        }
        1 => vec![u64::MAX; n],
        _ => (0..n).map(|_| [0, 1, u64::MAX][r.us(3)]).collect(),
    }
}

/// negacyclic product in Z_{2^64}[X]/(X^n+1); skips zero coefficients of `b`
pub fn negmul(a: &[u64], b: &[u64]) -> Vec<u64> {
    let n = a.len();
    let mut out = vec![0u64; n];
    for (j, &y) in b.iter().enumerate() {
        if y == 0 {
            continue;
        }
        for (i, &x) in a.iter().enumerate() {
            let p = x.wrapping_mul(y);
            if i + j < n {
                out[i + j] = out[i + j].wrapping_add(p);
            } else {
                out[i + j - n] = out[i + j - n].wrapping_sub(p);
            }
        }
    }
    out
}
/// p(X^k), k odd
pub fn automorph(a: &[u64], k: usize) -> Vec<u64> {
    let n = a.len();
    let mut out = vec![0u64; n];
    for (i, &x) in a.iter().enumerate() {
        let e = ((i as u128 * k as u128) % (2 * n as u128)) as usize;
        if e < n {
            out[e] = out[e].wrapping_add(x);
        } else {
            out[e - n] = out[e - n].wrapping_sub(x);
        }
    }
    out
}
/// a / X^m in Z[X]/(X^n+1)
pub fn monodiv(a: &[u64], m: usize) -> Vec<u64> {
    let n = a.len();
    let mut out = vec![0u64; n];
    for (i, &x) in a.iter().enumerate() {
        let e = ((i as i128 - m as i128).rem_euclid(2 * n as i128)) as usize;
        if e < n {
            out[e] = x;
        } else {
            out[e - n] = 0u64.wrapping_sub(x);
        }
    }
    out
}
pub fn addv(a: &[u64], b: &[u64]) -> Vec<u64> {
    a.iter().zip(b).map(|(x, y)| x.wrapping_add(*y)).collect()
}
pub fn subv(a: &[u64], b: &[u64]) -> Vec<u64> {
    a.iter().zip(b).map(|(x, y)| x.wrapping_sub(*y)).collect()
}
pub fn scale(a: &[u64], c: u64) -> Vec<u64> {
    a.iter().map(|x| x.wrapping_mul(c)).collect()
}
pub fn max_abs(v: &[u64]) -> u64 {
    v.iter().map(|x| (*x as i64).unsigned_abs()).max().unwrap_or(0)
}
/// log2 of the largest absolute difference
pub fn log_err(a: &[u64], b: &[u64]) -> f64 {
    (max_abs(&subv(a, b)) as f64).log2()
}

// ---------------------------------------------------------------- ciphertexts

pub fn mask(c: &RLWECiphertext) -> Vec<u64> {
    c.get_mask().as_tensor().as_slice().to_vec()
}
pub fn body(c: &RLWECiphertext) -> Vec<u64> {
    c.get_body().as_tensor().as_slice().to_vec()
}
pub fn raw(c: &RLWECiphertext) -> Vec<u64> {
    let mut v = mask(c);
    v.extend(body(c));
    v
}
pub fn from_parts(m: &[u64], b: &[u64]) -> RLWECiphertext {
    let mut c = RLWECiphertext::allocate(PolynomialSize(m.len()));
    c.get_mut_mask().as_mut_tensor().as_mut_slice().copy_from_slice(m);
    c.get_mut_body().as_mut_tensor().as_mut_slice().copy_from_slice(b);
    c
}
use concrete_core::commons::math::tensor::AsMutSlice;

pub fn garbage_ct(r: &mut Rng, n: usize) -> RLWECiphertext {
    let m: Vec<u64> = (0..n).map(|_| r.u64()).collect();
    let b: Vec<u64> = (0..n).map(|_| r.u64()).collect();
    from_parts(&m, &b)
}
/// Raw decryption through the public API.
pub fn phase(sk: &RLWESecretKey, c: &RLWECiphertext) -> Vec<u64> {
    let mut p = zero_pl(c.polynomial_size().0);
    sk.decrypt_rlwe(&mut p, c);
    pv(&p)
}
/// The bits of the secret key: decrypt the ciphertext with mask -1 and body 0.
pub fn key_bits(sk: &RLWESecretKey) -> Vec<u64> {
    let n = sk.polynomial_size().0;
    let mut m = vec![0u64; n];
    m[0] = u64::MAX;
    phase(sk, &from_parts(&m, &vec![0; n]))
}
/// Raw decryption computed here, b - a*s, not by the code under test.
pub fn own_phase(s: &[u64], c: &RLWECiphertext) -> Vec<u64> {
    subv(&body(c), &negmul(&mask(c), s))
}
pub fn decode_vec(v: &[u64], t: u64) -> Vec<u64> {
    let lt = t.trailing_zeros();
    v.iter()
        .map(|x| (x.wrapping_add(1u64 << (63 - lt)) >> (64 - lt)) & (t - 1))
        .collect()
}
/// Decrypt and decode with the code under test.
pub fn dec(sk: &RLWESecretKey, c: &RLWECiphertext, ctx: &Context) -> Vec<u64> {
    let mut p = zero_pl(c.polynomial_size().0);
    sk.decrypt_decode_rlwe(&mut p, c, ctx);
    pv(&p)
}
pub fn enc(sk: &RLWESecretKey, m: &[u64], ctx: &mut Context) -> RLWECiphertext {
    let mut c = RLWECiphertext::allocate(PolynomialSize(m.len()));
    sk.encode_encrypt_rlwe(&mut c, &pl(m), ctx);
    c
}
pub fn new_rgsw(n: usize, bl: usize, lc: usize) -> RGSWCiphertext {
    RGSWCiphertext::allocate(PolynomialSize(n), DecompositionBaseLog(bl), DecompositionLevelCount(lc))
}
pub fn rlwe0(n: usize) -> RLWECiphertext {
    RLWECiphertext::allocate(PolynomialSize(n))
}

// ---------------------------------------------------------------- parameters and noise

pub fn show(p: &TFHEParameters) -> String {
    format!(
        "N={} std=2^{} gadget={}x{} ks={}x{} negs={}x{} t={} secure={}",
        p.polynomial_size,
        p.standard_deviation,
        p.base_log,
        p.level_count,
        p.key_switch_base_log,
        p.key_switch_level_count,
        p.negs_base_log,
        p.negs_level_count,
        p.plaintext_modulus,
        p.secure_seed
    )
}
pub fn phash(p: &TFHEParameters) -> u64 {
    hash_str(&show(p))
}

/// base 2^(2*x): variances are kept in units of the torus
fn p2(x: f64) -> f64 {
    2f64.powf(x)
}
#[derive(Clone, Copy)]
pub struct Noise {
    pub n: f64,
    pub s0: f64,
    pub g: (f64, f64),
    pub ks: (f64, f64),
    pub ng: (f64, f64),
    /// 1 for inputs that look uniform; more for structured ones, whose digits are coherent in the transform
    pub coh: f64,
    /// squared norms of the key and of its square (their expectation unless `with_key`)
    pub hs: f64,
    pub ss: f64,
}
impl Noise {
    pub fn new(p: &TFHEParameters) -> Self {
        Noise {
            n: p.polynomial_size as f64,
            s0: p2(2.0 * p.standard_deviation),
            g: (p.base_log as f64, p.level_count as f64),
            ks: (p.key_switch_base_log as f64, p.key_switch_level_count as f64),
            ng: (p.negs_base_log as f64, p.negs_level_count as f64),
            coh: 1.0,
            hs: p.polynomial_size as f64 / 2.0,
            ss: (p.polynomial_size as f64).powi(3) / 48.0 + (p.polynomial_size as f64).powi(2) * 0.375,
        }
    }
    pub fn with_key(mut self, s: &[u64]) -> Self {
        let norm = |x: &[u64]| x.iter().map(|x| (*x as i64 as f64).powi(2)).sum::<f64>();
        self.hs = norm(s);
        self.ss = norm(&negmul(s, s));
        self
    }
    /// the same model for an input that need not look uniform
    pub fn structured(mut self) -> Self {
        self.coh = 512.0;
        self
    }
    /// rounding of doubles in the transforms, per product with digits: measured as a relative standard
    /// deviation of 2^-53 (+-0.4 bits, every ring size and base); the error of the mask is multiplied by the key
    fn fft(&self) -> f64 {
        p2(-105.4) * (1.0 + self.hs) * self.coh
    }
    /// variance of levels*N digit-times-error products for each of `rows` components
    pub fn digits(&self, d: (f64, f64), rows: f64, v_row: f64) -> f64 {
        let size = if self.coh > 1.0 { 4.0 } else { 12.0 };
        rows * d.1 * self.n * ((p2(2.0 * d.0) / size + 0.5) * v_row + p2(2.0 * d.0) / 12.0 * self.fft())
            // the result is rounded to the torus
            + p2(-128.0) * d.1 * (1.0 + self.hs)
    }
    /// rounding error of the decomposed input, after multiplication with mask*s
    pub fn rounding(&self, d: (f64, f64)) -> f64 {
        p2(-2.0 * d.0 * d.1) * self.rounding_unit(self.hs) + p2(-126.0)
    }
    /// variance of the inner product of rounding errors (of unit width) with binary vectors of weight `w`; for
    /// structured inputs all errors may be alike, and what counts is that 13 deviations cover their sum
    fn rounding_unit(&self, w: f64) -> f64 {
        let usual = (1.0 + w) / 12.0;
        if self.coh > 1.0 {
            usual.max(((1.0 + w) / 2.0 / 13.0).powi(2) * 1.1)
        } else {
            usual
        }
    }
    /// external product by a fresh gadget ciphertext of a bit
    pub fn ext(&self, v_in: f64) -> f64 {
        self.digits(self.g, 2.0, self.s0) + self.rounding(self.g) + v_in
    }
    pub fn keyswitch(&self, v_in: f64) -> f64 {
        self.digits(self.ks, 1.0, self.s0) + p2(-2.0 * self.ks.0 * self.ks.1) * self.rounding_unit(self.n / 2.0) + p2(-126.0) + v_in
    }
    /// external product by RGSW(-s): errors of the input are multiplied by the key, and those parts of them
    /// that already are multiples of the key by its square, whose coefficients reach N/4
    pub fn negs(&self, v_in: f64) -> f64 {
        self.digits(self.ng, 2.0, self.s0) + p2(-2.0 * self.ng.0 * self.ng.1) / 12.0 * (self.hs + self.ss) + (self.hs + self.ss / self.hs.max(1.0)) * v_in
    }
    /// one demultiplexed output with k selector bits
    pub fn demux(&self, k: f64, v_in: f64) -> f64 {
        2.0 * k * (self.digits(self.g, 2.0, self.s0) + self.rounding(self.g)) + v_in
    }
    /// product by a gadget ciphertext whose rows have variances v (body rows) and negs(v)
    pub fn by_derived(&self, v: f64, v_in: f64, m2: f64) -> f64 {
        self.digits(self.g, 1.0, v) + self.digits(self.g, 1.0, self.negs(v)) + m2 * (self.rounding(self.g) + v_in)
    }
    /// what one access adds to a cell
    pub fn access(&self, cols: f64) -> f64 {
        let v = self.demux(cols.log2(), 0.0);
        self.by_derived(v, 0.0, 1.0) + self.ext(0.0)
    }
    /// response of an access to cells with variance v_db
    pub fn response(&self, cols: f64, v_db: f64) -> f64 {
        let v = self.demux(cols.log2(), 0.0);
        cols * self.by_derived(v, 0.0, 0.0) + self.rounding(self.g) + v_db
    }
    /// trace: log N key switches, constant coefficient multiplied by N
    pub fn trace(&self, v_in: f64) -> f64 {
        let mut v = v_in;
        let steps = self.n.log2() as usize;
        for _ in 0..steps {
            v = 4.0 * v + self.keyswitch(0.0);
        }
        v
    }
    /// gadget ciphertext from expansion: variance of the body rows
    pub fn expanded(&self) -> f64 {
        self.trace(self.s0)
    }
}
pub fn log_std(v: f64) -> f64 {
    0.5 * v.log2()
}

pub fn tfhe(n: usize, std: f64, g: (usize, usize), ks: (usize, usize), ng: (usize, usize), t: u64, secure: bool) -> TFHEParameters {
    TFHEParameters {
        standard_deviation: std,
        polynomial_size: n,
        base_log: g.0,
        level_count: g.1,
        key_switch_base_log: ks.0,
        key_switch_level_count: ks.1,
        negs_base_log: ng.0,
        negs_level_count: ng.1,
        plaintext_modulus: t,
        secure_seed: secure,
    }
}

fn gen_decomp(r: &mut Rng, lo: usize, hi: usize) -> (usize, usize) {
    loop {
        // few large digits are as good as many small ones
        let (b, most) = match r.below(40) {
            0 => (1, 40),
            1..=8 => (r.range(10, 32), 6),
            _ => (r.range(2, 9), 20),
        };
        let l = r.range(1, most);
        if b * l >= lo && b * l <= hi {
            return (b, l);
        }
    }
}

/// What a workload needs from the parameters.
#[derive(Clone, Copy)]
pub struct Need {
    /// columns of the database (0: no ORAM)
    pub cols: usize,
    pub accesses: usize,
    pub expand: bool,
    pub max_n: usize,
    pub min_n: usize,
    pub max_t: u64,
}
pub const ALGEBRA: Need = Need { cols: 0, accesses: 0, expand: false, max_n: 512, min_n: 32, max_t: 256 };

/// Random parameters whose predicted noise leaves at least 7 bits (128 sigma) below half a step.
pub fn gen_params(r: &mut Rng, need: Need) -> TFHEParameters {
    for _ in 0..1000 {
        let n = r.weighted(&[(6, 32), (5, 64), (4, 128), (3, 256), (2, 512), (2, 1024), (1, 2048), (1, 4096), (1, 8192)]);
        if n > need.max_n || n < need.min_n {
            continue;
        }
        let logn = (n as f64).log2() as usize;
        let std = *r.pick(&[-60.0, -55.0, -55.0, -52.5, -50.0, -48.0, -44.0, -38.0, -30.0]);
        let g = if r.one_in(3) { (5, 9) } else { gen_decomp(r, 30, if need.expand { 63 - logn } else { 63 }) };
        let ks = if r.one_in(3) { (5, 11) } else { gen_decomp(r, 36, 63) };
        let ng = match r.below(4) {
            0 => (5, 11),
            1 => (g.0, g.1),
            _ => gen_decomp(r, 40, 63),
        };
        let t = 1u64 << if need.max_t > 4096 && r.one_in(3) { r.range(9, 18) } else { r.range(1, 12) };
        if t > need.max_t {
            continue;
        }
        let p = tfhe(n, std, g, ks, ng, t, !r.one_in(4));
        if margin(&p, need) >= 7.0 {
            return p;
        }
    }
    let n = need.min_n.max(64).min(need.max_n);
    let mut t = need.max_t.min(256);
    loop {
        let p = tfhe(n, -55.0, (5, 9), (5, 11), (5, 11), t, true);
        if t == 2 || margin(&p, need) >= 7.0 {
            return p;
        }
        t /= 2;
    }
}

/// bits between half an encoding step and the predicted standard deviation
pub fn margin(p: &TFHEParameters, need: Need) -> f64 {
    let m = Noise::new(p);
    let half = -(p.plaintext_modulus as f64).log2() - 1.0;
    let mut v = m.ext(m.s0).max(m.keyswitch(m.s0));
    if need.cols > 0 {
        let c = need.cols as f64;
        v = v.max(m.response(c, m.s0 + need.accesses as f64 * m.access(c)));
    }
    if need.expand {
        v = v.max(m.by_derived(m.expanded(), m.s0, 1.0) * 8.0);
    }
    half - log_std(v)
}
