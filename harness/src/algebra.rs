//! C11, C13-C19: encryption, ring operations, products, key switching, expansion, comparison, demultiplexing.
use crate::util::*;
use crate::{refused, Case, Prop, Res};
use concrete_core::commons::crypto::encoding::Plaintext;
use concrete_core::commons::math::polynomial::Polynomial;
use concrete_core::commons::math::tensor::{AsRefSlice, AsRefTensor, Tensor};
use concrete_core::prelude::{DecompositionBaseLog, DecompositionLevelCount, LogStandardDev, LweSize, MonomialDegree, PolynomialSize};
use panacea::context::{Context, FftBuffer};
use panacea::decision_tree::{bit_decomposed_rgsw, demux, demux_with, encrypt_feature_vector};
use panacea::lwe::{conv_lwe_to_rlwe, LWECiphertext, LWESecretKey, LWEtoRLWEKeyswitchKey};
use panacea::params::TFHEParameters;
use panacea::rgsw::RGSWCiphertext;
use panacea::rlwe::{
    decomposed_rlwe_to_rgsw, expand, expand_fourier, expand_slow, gen_all_subs_ksk, gen_all_subs_ksk_fourier, make_decomposed_rlwe_ct, make_decomposed_rlwe_ct2,
    naive_update_with_mul, naive_update_with_mul_acc, FourierRLWECiphertext, RLWECiphertext, RLWEKeyswitchKey, RLWESecretKey,
};

/// sigma bound on single errors (including the error of the prediction itself)
const SIGMAS: f64 = 13.0;

pub struct Alg {
    pub p: TFHEParameters,
    pub n: usize,
    pub t: u64,
    pub ctx: Context,
    pub sk: RLWESecretKey,
    pub s: Vec<u64>,
    pub m: Noise,
}

impl Alg {
    pub fn new(p: TFHEParameters) -> Alg {
        let mut ctx = Context::new(p.clone());
        let sk = ctx.gen_rlwe_sk();
        let s = key_bits(&sk);
        let m = Noise::new(&p).with_key(&s);
        Alg { n: p.polynomial_size, t: p.plaintext_modulus, ctx, sk, s, m, p }
    }
    pub fn gen(c: &mut Case, need: Need) -> Alg {
        let p = gen_params(&mut c.rng, need);
        c.note(show(&p));
        Alg::new(p)
    }
    /// fresh encryption of the raw polynomial
    pub fn raw_enc(&mut self, m: &[u64]) -> RLWECiphertext {
        let mut c = rlwe0(self.n);
        self.sk.encrypt_rlwe(&mut c, &pl(m), self.ctx.std, &mut self.ctx.encryption_generator);
        c
    }
    pub fn enc(&mut self, m: &[u64]) -> RLWECiphertext {
        enc(&self.sk, m, &mut self.ctx)
    }
    pub fn dec(&self, c: &RLWECiphertext) -> Vec<u64> {
        dec(&self.sk, c, &self.ctx)
    }
    pub fn phase(&self, c: &RLWECiphertext) -> Vec<u64> {
        own_phase(&self.s, c)
    }
    pub fn delta(&self) -> u64 {
        1 << (64 - self.t.trailing_zeros())
    }
    pub fn encode(&self, m: &[u64]) -> Vec<u64> {
        scale(m, self.delta())
    }
    pub fn gadget(&mut self, bl: usize, lc: usize, m: u64) -> RGSWCiphertext {
        let mut g = new_rgsw(self.n, bl, lc);
        self.sk.encrypt_constant_rgsw(&mut g, &Plaintext(m), &mut self.ctx);
        g
    }
    pub fn rgsw(&mut self, m: u64) -> RGSWCiphertext {
        let (b, l) = (self.p.base_log, self.p.level_count);
        self.gadget(b, l, m)
    }
    /// the same noise model with another gadget decomposition
    pub fn noise_for(&self, bl: usize, lc: usize) -> Noise {
        let mut m = self.m;
        m.g = (bl as f64, lc as f64);
        m
    }
    pub fn key(&self) -> u64 {
        phash(&self.p)
    }
}

/// The difference of the two polynomials must be noise of the predicted variance.
pub fn within(c: &mut Case, what: &str, got: &[u64], want: &[u64], var: f64) -> Res {
    let bound = 64.0 + log_std(var + 2f64.powi(-126)) + SIGMAS.log2();
    let e = log_err(got, want);
    c.max("log2_error_over_bound", e - bound);
    if e > bound {
        let i = (0..got.len()).max_by_key(|&i| (got[i].wrapping_sub(want[i]) as i64).unsigned_abs()).unwrap_or(0);
        return Err(format!("{what}: error 2^{e:.2} exceeds the bound 2^{bound:.2} (coefficient {i}: {:#x} instead of {:#x})", got[i], want[i]));
    }
    Ok(())
}
pub fn same(what: &str, got: &[u64], want: &[u64]) -> Res {
    if got != want {
        let i = (0..got.len().min(want.len())).find(|&i| got[i] != want[i]).unwrap_or(0);
        return Err(format!("{what}: coefficient {i} is {:?} instead of {:?} (lengths {} and {})", got.get(i), want.get(i), got.len(), want.len()));
    }
    Ok(())
}

fn gen_raw(r: &mut Rng, n: usize) -> Vec<u64> {
    match r.below(8) {
        0 => vec![0; n],
        1 => vec![u64::MAX; n],
        2 => vec![1 << 63; n],
        3 => {
            let mut v = vec![0; n];
            v[r.index(n)] = r.u64();
            v
        }
        4 => vec![(1 << 63) - 1; n],
        _ => (0..n).map(|_| r.u64()).collect(),
    }
}
fn any_degree(r: &mut Rng, light: bool) -> usize {
    let v: &[usize] = if light { &[32, 64] } else { &[32, 32, 64, 64, 128, 256, 512, 1024, 2048, 4096] };
    *r.pick(v)
}
/// every 20th case or so uses one of the large rings
fn large_ring(c: &mut Case) -> Option<usize> {
    if c.light {
        return None;
    }
    match c.k % 60 {
        19 => Some(1024),
        39 => Some(2048),
        9 => Some(4096),
        49 => Some(8192),
        _ => None,
    }
}
fn algebra_need(c: &mut Case) -> Need {
    let max_t = *c.rng.pick(&[256, 256, 1 << 18]);
    if let Some(n) = large_ring(c) {
        return Need { max_n: n, min_n: n, max_t, ..ALGEBRA };
    }
    let max_n = if c.light { 64 } else { *c.rng.pick(&[32, 64, 128, 256, 512, 2048]) };
    Need { max_n, max_t, ..ALGEBRA }
}
fn expand_need(c: &mut Case) -> Need {
    if let Some(n) = large_ring(c) {
        return Need { expand: true, max_n: n, min_n: n, ..ALGEBRA };
    }
    let max_n = if c.light { 64 } else { *c.rng.pick(&[32, 64, 64, 128, 128, 256, 512]) };
    Need { expand: true, max_n, max_t: 256, ..ALGEBRA }
}

// ------------------------------------------------------------------------------------- C11

/// The error has the configured size: the sample deviation of n Gaussians is within 7 of its own deviations.
fn sized(c: &mut Case, what: &str, got: &[u64], want: &[u64], log_std: f64) -> Res {
    let n = got.len() as f64;
    let v = subv(got, want).iter().map(|x| (*x as i64 as f64).powi(2)).sum::<f64>() / n;
    let ratio = 0.5 * v.log2() - (64.0 + log_std);
    // the relative deviation is 1/sqrt(2n); its lower tail is longer on the logarithmic scale
    let tol = (1.0 + 7.0 / (2.0 * n).sqrt()).log2() + 0.05;
    if ratio > tol || ratio < -2.5 * tol {
        return Err(format!("{what}: noise of 2^{:.2} where 2^{:.2} was configured", 0.5 * v.log2(), 64.0 + log_std));
    }
    c.add("noise_sizes_measured", 1.0);
    Ok(())
}

fn c11(c: &mut Case) -> Res {
    let n = any_degree(&mut c.rng, c.light);
    let std = -62.0 + c.rng.below(420) as f64 / 10.0; // up to -20
    let max_lt = ((-std - 1.0 - 4.0) as u64).min(40); // half a step is at least 16 sigma
    let lt = 1 + c.rng.below(max_lt);
    let p = tfhe(n, std, (5, 9), (5, 11), (5, 11), 1 << lt, !c.rng.one_in(4));
    c.note(show(&p));
    let mut a = Alg::new(p);
    if a.s.iter().any(|x| *x > 1) {
        return Err("the secret key is not binary".into());
    }
    let other = a.ctx.gen_rlwe_sk();
    let var = a.m.s0;
    let dirty = |r: &mut Rng| -> RLWECiphertext {
        if r.bool() {
            garbage_ct(r, n)
        } else {
            rlwe0(n)
        }
    };
    let rounds = if c.light { 1 } else { 3 };
    for _ in 0..rounds {
        // modular
        let m = gen_pt_vec(&mut c.rng, n, a.t);
        let mut ct = dirty(&mut c.rng);
        a.sk.encode_encrypt_rlwe(&mut ct, &pl(&m), &mut a.ctx);
        let mut out = pl(&gen_raw(&mut c.rng, n));
        a.sk.decrypt_decode_rlwe(&mut out, &ct, &a.ctx);
        same("modular decryption", &pv(&out), &m)?;
        within(c, "modular encryption", &a.phase(&ct), &a.encode(&m), var)?;
        sized(c, "modular encryption", &a.phase(&ct), &a.encode(&m), std)?;
        same("raw decryption is b - a*s", &phase(&a.sk, &ct), &a.phase(&ct))?;
        if n as u64 * lt >= 64 {
            let mut out = zero_pl(n);
            other.decrypt_decode_rlwe(&mut out, &ct, &a.ctx);
            if pv(&out) == m {
                return Err("an unrelated key decrypts the ciphertext".into());
            }
        }
        c.eval(Some(hash_u64s(&[a.key(), 1, m[0], m[n - 1]])));
        // ternary
        if std < -10.0 {
            let m = gen_ternary(&mut c.rng, n);
            let mut ct = dirty(&mut c.rng);
            a.sk.ternary_encrypt_rlwe(&mut ct, &pl(&m), &mut a.ctx);
            let mut out = pl(&gen_raw(&mut c.rng, n));
            a.sk.ternary_decrypt_rlwe(&mut out, &ct);
            same("ternary decryption", &pv(&out), &m)?;
            let third = (u64::MAX / 3) as f64;
            let want: Vec<u64> = m.iter().map(|x| if *x == 0 { 0 } else if *x == 1 { u64::MAX / 3 } else { (u64::MAX / 3) * 2 }).collect();
            within(c, "ternary encryption", &a.phase(&ct), &want, var + (third * 2f64.powi(-52) * 2f64.powi(-64)).powi(2))?;
            if std > -50.0 {
                // below, the rounding of the thirds to doubles counts too
                sized(c, "ternary encryption", &a.phase(&ct), &want, std)?;
            }
            c.eval(Some(hash_u64s(&[a.key(), 2, m[0], m[n - 1]])));
        }
        // raw
        let m = gen_raw(&mut c.rng, n);
        let mut ct = dirty(&mut c.rng);
        a.sk.encrypt_rlwe(&mut ct, &pl(&m), a.ctx.std, &mut a.ctx.encryption_generator);
        let mut out = pl(&gen_raw(&mut c.rng, n));
        a.sk.decrypt_rlwe(&mut out, &ct);
        within(c, "raw encryption", &pv(&out), &m, var)?;
        sized(c, "raw encryption", &pv(&out), &m, std)?;
        c.eval(Some(hash_u64s(&[a.key(), 3, m[0], m[n - 1]])));
        // raw with another noise level than the context's
        let std2 = -60.0 + c.rng.below(400) as f64 / 10.0;
        a.sk.encrypt_rlwe(&mut ct, &pl(&m), LogStandardDev::from_log_standard_dev(std2), &mut a.ctx.encryption_generator);
        within(c, "raw encryption, given noise", &a.phase(&ct), &m, 4f64.powf(std2))?;
        sized(c, "raw encryption, given noise", &a.phase(&ct), &m, std2)?;
        c.eval(Some(hash_u64s(&[a.key(), 4, m[0], std2.to_bits()])));
        // constant
        let x = c.rng.u64();
        let mut ct = dirty(&mut c.rng);
        a.sk.encrypt_constant_rlwe(&mut ct, &Plaintext(x), &mut a.ctx);
        let mut want = vec![0; n];
        want[0] = x;
        within(c, "constant encryption", &a.phase(&ct), &want, var)?;
        sized(c, "constant encryption", &a.phase(&ct), &want, std)?;
        c.eval(Some(hash_u64s(&[a.key(), 5, x])));
        // scalar
        let lsk = if c.rng.bool() { a.ctx.gen_lwe_sk() } else { LWESecretKey::generate_binary(a.ctx.lwe_dim(), &mut a.ctx.secret_generator) };
        for x in [0, a.t - 1, a.t / 2, c.rng.below(a.t)] {
            let mut ct = LWECiphertext::allocate(a.ctx.lwe_size());
            if c.rng.bool() {
                let g: Vec<u64> = (0..n + 1).map(|_| c.rng.u64()).collect();
                ct.fill_with_tensor(&Tensor::from_container(g));
            }
            lsk.encode_encrypt_lwe(&mut ct, &Plaintext(x), &mut a.ctx);
            let mut out = Plaintext(c.rng.u64());
            lsk.decode_decrypt_lwe(&mut out, &ct, &a.ctx);
            same("scalar decryption", &[out.0], &[x])?;
            let y = c.rng.u64();
            lsk.encrypt_lwe(&mut ct, &Plaintext(y), a.ctx.std, &mut a.ctx.encryption_generator);
            lsk.decrypt_lwe(&mut out, &ct);
            within(c, "raw scalar encryption", &[out.0], &[y], var)?;
            c.eval(Some(hash_u64s(&[a.key(), 6, x, y])));
        }
    }
    // gadget ciphertexts of any polynomial: every row
    {
        let few = if n > 512 { 4 } else { 8 };
        let (bl, lc) = [(9, 4), (17, 3), (31, 2), (32, 1), (5, 9), (4, 11), (1, 8), (2, 20)][c.rng.us(few)];
        let (g, m) = if c.rng.bool() {
            let m = if c.rng.one_in(3) { gen_ternary(&mut c.rng, n) } else { gen_raw(&mut c.rng, n) };
            let mut g = new_rgsw(n, bl, lc);
            a.sk.encrypt_rgsw(&mut g, &pl(&m), &mut a.ctx);
            (g, m)
        } else {
            let mut m = vec![0; n];
            m[0] = c.rng.u64();
            (a.gadget(bl, lc, m[0]), m)
        };
        let (mut got, mut want) = (vec![], vec![]);
        for l in 1..=lc {
            let u = scale(&m, 1 << (64 - bl * l));
            let w: Vec<u64> = negmul(&u, &a.s).iter().map(|x| x.wrapping_neg()).collect();
            for (row, want_row) in [(2 * l - 2, w), (2 * l - 1, u)] {
                let r = a.phase(&g.get_nth_row(row));
                within(c, &format!("row {row} of a gadget ciphertext with base 2^{bl}"), &r, &want_row, var)?;
                got.extend(r);
                want.extend(want_row);
            }
        }
        sized(c, "gadget encryption", &got, &want, std)?;
        c.eval(Some(hash_u64s(&[a.key(), 7, m[0], m[n - 1], bl as u64])));
        c.add("gadget_rows", 2.0 * lc as f64);
    }
    // the errors of scalar ciphertexts, of many of them together
    let lsk = a.ctx.gen_lwe_sk();
    let (mut got, mut want) = (vec![], vec![]);
    for k in 0..if c.light { 4 } else { 48 } {
        let mut ct = LWECiphertext::allocate(a.ctx.lwe_size());
        let mut out = Plaintext(0);
        if k % 2 == 0 {
            let x = c.rng.below(a.t);
            lsk.encode_encrypt_lwe(&mut ct, &Plaintext(x), &mut a.ctx);
            want.push(x << (64 - lt));
        } else {
            let x = c.rng.u64();
            lsk.encrypt_lwe(&mut ct, &Plaintext(x), a.ctx.std, &mut a.ctx.encryption_generator);
            want.push(x);
        }
        lsk.decrypt_lwe(&mut out, &ct);
        got.push(out.0);
    }
    if !c.light {
        sized(c, "scalar encryption", &got, &want, std)?;
    }
    Ok(())
}

// ------------------------------------------------------------------------------------- C13

fn c13(c: &mut Case) -> Res {
    let n = any_degree(&mut c.rng, c.light).min(if c.k % 100 == 7 { 4096 } else { 512 });
    let p = tfhe(n, -55.0, (5, 9), (5, 11), (5, 11), 2, true);
    let mut a = Alg::new(p);
    c.note(format!("N={n}"));
    let kind = c.rng.below(3);
    let mk = |c: &mut Case, a: &mut Alg| -> RLWECiphertext {
        match kind {
            0 => garbage_ct(&mut c.rng, n),
            1 => {
                let m = gen_raw(&mut c.rng, n);
                a.raw_enc(&m)
            }
            _ => from_parts(&gen_raw(&mut c.rng, n), &gen_raw(&mut c.rng, n)),
        }
    };
    let x = mk(c, &mut a);
    let y = match c.rng.below(10) {
        0 => x.clone(),
        1 => from_parts(&mask(&x), &gen_raw(&mut c.rng, n)),
        2 => from_parts(&gen_raw(&mut c.rng, n), &body(&x)),
        3 => from_parts(&vec![0; n], &gen_raw(&mut c.rng, n)),
        4 => from_parts(&mask(&x).iter().map(|x| x.wrapping_neg()).collect::<Vec<_>>(), &body(&x).iter().map(|x| x.wrapping_neg()).collect::<Vec<_>>()),
        _ => mk(c, &mut a),
    };
    let x = match c.rng.below(8) {
        0 => from_parts(&vec![0; n], &body(&x)),
        1 => from_parts(&mask(&x), &vec![0; n]),
        _ => x,
    };
    let (xm, xb, ym, yb) = (mask(&x), body(&x), mask(&y), body(&y));
    let key = |op: u64| Some(hash_u64s(&[n as u64, op, xm[0], xb[0], ym[1], yb[1]]));
    let check = |c: &mut Case, name: &str, op: u64, z: &RLWECiphertext, m: &[u64], b: &[u64]| -> Res {
        same(&format!("{name}: mask"), &mask(z), m)?;
        same(&format!("{name}: body"), &body(z), b)?;
        c.eval(key(op));
        Ok(())
    };
    let mut z = x.clone();
    z.update_with_add(&y);
    check(c, "addition", 1, &z, &addv(&xm, &ym), &addv(&xb, &yb))?;
    same("addition under the key", &phase(&a.sk, &z), &addv(&phase(&a.sk, &x), &phase(&a.sk, &y)))?;
    let mut z = x.clone();
    z.update_with_sub(&y);
    check(c, "subtraction", 2, &z, &subv(&xm, &ym), &subv(&xb, &yb))?;
    same("subtraction under the key", &phase(&a.sk, &z), &subv(&phase(&a.sk, &x), &phase(&a.sk, &y)))?;
    // components
    let q = gen_raw(&mut c.rng, n);
    let qp = Polynomial::from_container(q.clone());
    let mut z = x.clone();
    z.update_mask_with_add(&qp);
    check(c, "mask addition", 3, &z, &addv(&xm, &q), &xb)?;
    let mut z = x.clone();
    z.update_mask_with_sub(&qp.as_view());
    check(c, "mask subtraction", 4, &z, &subv(&xm, &q), &xb)?;
    let mut z = x.clone();
    z.update_body_with_add(&qp);
    check(c, "body addition", 5, &z, &xm, &addv(&xb, &q))?;
    let mut z = x.clone();
    z.update_body_with_sub(&qp.as_view());
    check(c, "body subtraction", 6, &z, &xm, &subv(&xb, &q))?;
    // monomial division
    for d in [0, 1, n - 1, n, n + 1, c.rng.us(n), c.rng.us(4 * n)] {
        let mut z = x.clone();
        z.update_with_monomial_div(MonomialDegree(d));
        check(c, &format!("division by X^{d}"), 7 + ((d as u64) << 8), &z, &monodiv(&xm, d), &monodiv(&xb, d))?;
    }
    // negation
    let nb = |b: &[u64]| -> Vec<u64> {
        let mut v: Vec<u64> = b.iter().map(|x| 0u64.wrapping_sub(*x)).collect();
        v[0] = v[0].wrapping_add(1 << 63);
        v
    };
    let nm: Vec<u64> = xm.iter().map(|x| 0u64.wrapping_sub(*x)).collect();
    let z = x.not();
    check(c, "not", 8, &z, &nm, &nb(&xb))?;
    let mut z = x.clone();
    z.not_in_place();
    check(c, "not in place", 9, &z, &nm, &nb(&xb))?;
    let bit = c.rng.below(2);
    let mut m = vec![0; n];
    m[0] = bit;
    let ct = a.enc(&m);
    let got = a.dec(&ct.not());
    if got[0] != 1 - bit || got[1..].iter().any(|x| *x != 0) {
        return Err(format!("negation of the bit {bit} decrypts to {:?}...", &got[..4]));
    }
    let mut back = ct.not();
    back.not_in_place();
    same("double negation", &raw(&back), &raw(&ct))?;
    c.eval(key(10 + bit));
    // copies
    // onto anything, in particular onto what agrees with the source in part
    for onto in 0..8 {
        let target = |c: &mut Case| match onto {
            0 => garbage_ct(&mut c.rng, n),
            1 => from_parts(&xm, &gen_raw(&mut c.rng, n)),
            2 => from_parts(&gen_raw(&mut c.rng, n), &xb),
            3 => x.clone(),
            4 => rlwe0(n),
            5 | 6 => {
                // one coefficient differs
                let (mut m, mut b) = (xm.clone(), xb.clone());
                let i = if c.rng.bool() { n - 1 } else { c.rng.index(n) };
                let v = if onto == 5 { &mut m } else { &mut b };
                v[i] ^= 1 << c.rng.below(64);
                from_parts(&m, &b)
            }
            _ => y.clone(),
        };
        let mut z = target(c);
        z.fill_with_copy(&x);
        check(c, "copy", 12 + (onto << 8), &z, &xm, &xb)?;
        let mut z = target(c);
        z.fill_with_tensor(&Tensor::from_container(raw(&x)));
        check(c, "fill with tensor", 13 + (onto << 8), &z, &xm, &xb)?;
        same("the source of a copy", &raw(&x), &[&xm[..], &xb[..]].concat())?;
    }
    let mut z = x.clone();
    z.clear();
    check(c, "clear", 14, &z, &vec![0; n], &vec![0; n])?;
    // products, schoolbook
    let shape = c.rng.below(7);
    let structured = (3..=5).contains(&shape);
    let b = match shape {
        0 => gen_ternary(&mut c.rng, n),
        1 => (0..n).map(|_| c.rng.below(1 << 10).wrapping_sub(1 << 9)).collect(),
        2 => gen_raw(&mut c.rng, n),
        3 => {
            // a few terms of any size and sign
            let mut v = vec![0; n];
            for _ in 0..*c.rng.pick(&[1, 1, 1, 2, 2, 3, 5]) {
                let x = match c.rng.below(4) {
                    0 => 2,
                    1 => 1 << c.rng.below(19),
                    _ => c.rng.below(1 << 19),
                };
                v[c.rng.index(n)] = if c.rng.bool() { x } else { x.wrapping_neg() };
            }
            v
        }
        4 => {
            // the same everywhere, or with a period
            let (p, x) = (1 << c.rng.below(n.trailing_zeros() as u64 + 1), 1 + c.rng.below(1 << 8));
            (0..n as u64).map(|i| if i % p == 0 { x } else { 0 }).collect()
        }
        5 => {
            // one half only
            let lower = c.rng.bool();
            (0..n).map(|i| if (i < n / 2) == lower { c.rng.below(64).wrapping_sub(31) } else { 0 }).collect()
        }
        _ => {
            let mut v = vec![0; n];
            v[c.rng.index(n)] = if c.rng.bool() { 1 } else { u64::MAX };
            v
        }
    };
    let mut bm = Polynomial::from_container(b.clone());
    let (pm, pb) = (negmul(&xm, &b), negmul(&xb, &b));
    let mut z = x.clone();
    z.update_mask_with_mul(&bm.as_mut_view());
    check(c, "mask product", 15, &z, &pm, &xb)?;
    let mut z = x.clone();
    z.update_body_with_mul(&bm.as_mut_view());
    check(c, "body product", 16, &z, &xm, &pb)?;
    let mut z = x.clone();
    z.update_body_with_mul(&bm.as_mut_view());
    z.update_mask_with_mul(&bm.as_mut_view());
    same("product under the key", &phase(&a.sk, &z), &negmul(&phase(&a.sk, &x), &b))?;
    let mut acc = Polynomial::from_container(yb.clone());
    naive_update_with_mul_acc(&mut acc, &Polynomial::from_container(xb.clone()), &bm);
    same("accumulated product", acc.as_tensor().as_slice(), &addv(&yb, &pb))?;
    let mut acc = Polynomial::from_container(xb.clone());
    naive_update_with_mul(&mut acc, &bm);
    same("in-place product", acc.as_tensor().as_slice(), &pb)?;
    c.eval(key(17));
    // products, transform: only integers of moderate size are meaningful
    let big = max_abs(&b);
    if big < 1 << 20 {
        let norm = b.iter().map(|x| (*x as i64 as f64).powi(2)).sum::<f64>();
        // three bits more than what is seen: constant operands are coherent in the transform
        let var = if structured { 128.0 } else { 64.0 } * norm * 4f64.powi(-53) * (n as f64).log2() + 4f64.powi(-63);
        let mut z = x.clone();
        z.update_mask_with_mul_with_buf(&bm.as_view());
        within(c, "mask product (transform)", &mask(&z), &pm, var)?;
        same("mask product (transform): body", &body(&z), &xb)?;
        let mut z = x.clone();
        z.update_body_with_mul_with_buf(&bm.as_view());
        within(c, "body product (transform)", &body(&z), &pb, var)?;
        same("body product (transform): mask", &mask(&z), &xm)?;
        c.eval(key(18));
    }
    // gadget ciphertexts add row by row
    let (bl, lc) = (c.rng.range(2, 8), c.rng.range(1, 6));
    let mut g1 = a.gadget(bl, lc, 1);
    let g2 = a.gadget(bl, lc, 0);
    let rows = 2 * lc;
    if g1.ciphertext_count().0 != rows {
        return Err(format!("{} rows for {lc} levels", g1.ciphertext_count().0));
    }
    let want: Vec<Vec<u64>> = (0..rows).map(|i| addv(&raw(&g1.get_nth_row(i)), &raw(&g2.get_nth_row(i)))).collect();
    g1.update_with_add(&g2);
    for (i, w) in want.iter().enumerate() {
        same("gadget addition", &raw(&g1.get_nth_row(i)), w)?;
    }
    c.eval(key(19));
    Ok(())
}

// ------------------------------------------------------------------------------------- C14

/// Every row of a gadget ciphertext of `m` must be a fresh encryption of the scaled message.
pub fn check_rows(c: &mut Case, a: &Alg, what: &str, g: &RGSWCiphertext, m: &[u64], bl: usize, lc: usize, body_var: f64, mask_var: f64) -> Res {
    if g.decomposition_base_log().0 != bl || g.decomposition_level_count().0 != lc || g.polynomial_size().0 != a.n || g.ciphertext_count().0 != 2 * lc {
        return Err(format!("{what}: shape ({},{}) N={} with {} rows", g.decomposition_base_log().0, g.decomposition_level_count().0, g.polynomial_size().0, g.ciphertext_count().0));
    }
    let neg_sm: Vec<u64> = negmul(m, &a.s).iter().map(|x| 0u64.wrapping_sub(*x)).collect();
    for l in 1..=lc {
        let f = 1u64 << (64 - bl * l);
        within(c, &format!("{what}: body row of level {l}"), &a.phase(&g.get_nth_row(2 * l - 1)), &scale(m, f), body_var)?;
        within(c, &format!("{what}: mask row of level {l}"), &a.phase(&g.get_nth_row(2 * l - 2)), &scale(&neg_sm, f), mask_var)?;
        c.add("gadget_rows_checked", 2.0);
    }
    same("the last row", &raw(&g.get_last_row()), &raw(&g.get_nth_row(2 * lc - 1)))?;
    Ok(())
}

fn norm2(m: &[u64]) -> f64 {
    m.iter().map(|x| (*x as i64 as f64).powi(2)).sum()
}

/// variance covering the rounding of an input of a product by a gadget ciphertext of m
fn rounded(m: &[u64], s: &[u64], bits: usize, structured: bool) -> f64 {
    let ms = negmul(m, s);
    let unit = 4f64.powi(-(bits as i32));
    let usual = unit / 12.0 * (norm2(m) + norm2(&ms)) + 4f64.powi(-62);
    if !structured {
        return usual;
    }
    let l1 = |v: &[u64]| v.iter().map(|x| (*x as i64).unsigned_abs() as f64).sum::<f64>();
    usual.max(unit * ((l1(m) + l1(&ms)) / 2.0 / SIGMAS).powi(2) * 1.1)
}

/// A ciphertext that no encryption yields: its parts are constant, sparse or empty.
fn odd_ct(c: &mut Case, a: &Alg, pt: &[u64]) -> RLWECiphertext {
    let n = a.n;
    let part = |c: &mut Case| match c.rng.below(4) {
        0 => vec![0; n],
        1 => (0..n).map(|_| c.rng.u64()).collect(),
        _ => gen_raw(&mut c.rng, n),
    };
    let m = if c.rng.bool() { vec![0; n] } else { part(c) };
    let b = match c.rng.below(4) {
        0 => vec![0; n],
        1 => part(c),
        _ => a.encode(pt),
    };
    from_parts(&m, &b)
}

fn c14(c: &mut Case) -> Res {
    let need = algebra_need(c);
    let mut a = Alg::gen(c, need);
    let n = a.n;
    let rounds = if c.light { 2 } else { 5 };
    let mut buf = if c.rng.bool() { a.ctx.gen_fft_ctx() } else { FftBuffer::new(PolynomialSize(n)) };
    for _ in 0..rounds {
        // decomposition: the context's or another
        let (bl, lc) = if c.rng.bool() {
            (a.p.base_log, a.p.level_count)
        } else {
            loop {
                let b = if c.rng.one_in(4) { c.rng.range(13, 32) } else { c.rng.range(1, 12) };
                let l = c.rng.range(1, 16);
                if b * l < 64 && b * l >= 24 {
                    break (b, l);
                }
            }
        };
        let nz = a.noise_for(bl, lc);
        // message of the gadget ciphertext
        let kind = c.rng.below(8);
        let mut m = vec![0u64; n];
        match kind {
            0 => {}
            1 => m[0] = 1,
            2 => m[0] = c.rng.range(2, 9) as u64,
            3 => m[0] = u64::MAX,
            4 => m[c.rng.index(n)] = if c.rng.bool() { 1 } else { u64::MAX },
            5 => m = gen_ternary(&mut c.rng, n),
            6 => m = (0..n).map(|_| c.rng.below(2)).collect(),
            _ => m[0] = c.rng.below(2),
        }
        let g = if m[1..].iter().all(|x| *x == 0) && c.rng.bool() {
            if (bl, lc) == (a.p.base_log, a.p.level_count) && c.rng.bool() {
                let extra = c.rng.below(2);
                let v = a.sk.encrypt_constant_rgsw_vec(&[Plaintext(extra), Plaintext(m[0])], &mut a.ctx);
                if v.len() != 2 {
                    return Err(format!("{} gadget ciphertexts for 2 plaintexts", v.len()));
                }
                let mut e = vec![0; n];
                e[0] = extra;
                check_rows(c, &a, "vector encryption", &v[0], &e, bl, lc, a.m.s0, a.m.s0)?;
                v[1].clone()
            } else {
                a.gadget(bl, lc, m[0])
            }
        } else {
            let mut g = new_rgsw(n, bl, lc);
            if c.rng.one_in(3) {
                // what was in it before must not matter
                a.sk.encrypt_constant_rgsw(&mut g, &Plaintext(1), &mut a.ctx);
            }
            a.sk.encrypt_rgsw(&mut g, &pl(&m), &mut a.ctx);
            g
        };
        let v0 = a.m.s0;
        check_rows(c, &a, &format!("gadget encryption ({bl},{lc})"), &g, &m, bl, lc, v0, v0)?;
        // external product
        let pt = gen_pt_vec(&mut c.rng, n, a.t);
        let noiseless = c.rng.one_in(3);
        let nz = if noiseless { nz.structured() } else { nz };
        let d = if noiseless { odd_ct(c, &a, &pt) } else { a.enc(&pt) };
        let before = if c.rng.bool() { rlwe0(n) } else { a.raw_enc(&gen_raw(&mut Rng::new(c.rng.u64()), n)) };
        let d_raw = raw(&d);
        let mut out = before.clone();
        g.external_product_with_buf(&mut out, &d, &mut buf);
        same("the input of an external product", &raw(&d), &d_raw)?;
        let want = addv(&a.phase(&before), &negmul(&a.phase(&d), &m));
        let var = nz.digits(nz.g, 2.0, v0) + rounded(&m, &a.s, bl * lc, noiseless);
        within(c, &format!("external product ({bl},{lc}) by message kind {kind}"), &a.phase(&out), &want, var)?;
        let mut fresh = before.clone();
        g.external_product(&mut fresh, &d);
        same("external product with a fresh buffer", &raw(&fresh), &raw(&out))?;
        c.eval(Some(hash_u64s(&[a.key(), bl as u64, lc as u64, kind, hash_u64s(&pt)])));
        c.add("external_products", 2.0);
        // the sum of two gadget ciphertexts acts by the sum of their messages
        if c.rng.one_in(3) {
            let m2: Vec<u64> = match c.rng.below(3) {
                0 => gen_ternary(&mut c.rng, n),
                1 => m.clone(),
                _ => (0..n).map(|i| if i == 0 { 1 } else { 0 }).collect(),
            };
            let mut other = new_rgsw(n, bl, lc);
            a.sk.encrypt_rgsw(&mut other, &pl(&m2), &mut a.ctx);
            let kept = other.clone();
            let mut sum = g.clone();
            sum.update_with_add(&other);
            let ms = addv(&m, &m2);
            check_rows(c, &a, &format!("gadget sum ({bl},{lc})"), &sum, &ms, bl, lc, 2.0 * v0, 2.0 * v0)?;
            check_rows(c, &a, "the added gadget ciphertext", &kept, &m2, bl, lc, v0, v0)?;
            let mut out = rlwe0(n);
            sum.external_product_with_buf(&mut out, &d, &mut buf);
            let var = nz.digits(nz.g, 2.0, 2.0 * v0) + rounded(&ms, &a.s, bl * lc, noiseless);
            within(c, &format!("product by a sum ({bl},{lc})"), &a.phase(&out), &negmul(&a.phase(&d), &ms), var)?;
            c.add("sum_products", 1.0);
        }
        // cmux
        let bit = c.rng.below(2);
        let sel = a.gadget(bl, lc, bit);
        let (p0, p1) = (gen_pt_vec(&mut c.rng, n, a.t), gen_pt_vec(&mut c.rng, n, a.t));
        let odd = c.rng.one_in(4);
        let nz = if odd { nz.structured() } else { nz };
        let (ct0, ct1) = match c.rng.below(4) {
            _ if !odd => (a.enc(&p0), a.enc(&p1)),
            0 => {
                let x = a.enc(&p0);
                (x.clone(), x)
            }
            1 => {
                let x = a.enc(&p0);
                let y = from_parts(&mask(&x), &body(&odd_ct(c, &a, &p1)));
                (x, y)
            }
            2 => (a.enc(&p0), odd_ct(c, &a, &p1)),
            _ => (odd_ct(c, &a, &p0), odd_ct(c, &a, &p1)),
        };
        let mut out = garbage_ct(&mut c.rng, n);
        sel.cmux_with_buf(&mut out, &ct0, &ct1, &mut buf);
        let want = if bit == 0 { &ct0 } else { &ct1 };
        within(c, &format!("cmux ({bl},{lc}) with selector {bit}"), &a.phase(&out), &a.phase(want), nz.digits(nz.g, 2.0, v0) + nz.rounding(nz.g))?;
        if !odd && margin(&a.p, Need { max_n: n, ..ALGEBRA }) > 4.0 && (bl, lc) == (a.p.base_log, a.p.level_count) {
            same("cmux", &a.dec(&out), if bit == 0 { &p0 } else { &p1 })?;
        }
        let mut fresh = garbage_ct(&mut c.rng, n);
        sel.cmux(&mut fresh, &ct0, &ct1);
        same("cmux with a fresh buffer", &raw(&fresh), &raw(&out))?;
        c.eval(Some(hash_u64s(&[a.key(), bl as u64, lc as u64, 100 + bit, hash_u64s(&p0)])));
        c.add("selections", 2.0);
    }
    // the negated key
    let ng = a.sk.neg_gsw(&mut a.ctx);
    let neg_s: Vec<u64> = a.s.iter().map(|x| 0u64.wrapping_sub(*x)).collect();
    let v0 = a.m.s0;
    check_rows(c, &a, "negated key", &ng, &neg_s, a.p.negs_base_log, a.p.negs_level_count, v0, v0)?;
    let pt = gen_raw(&mut c.rng, n);
    let d = a.raw_enc(&pt);
    let mut out = rlwe0(n);
    ng.external_product_with_buf(&mut out, &d, &mut buf);
    let var = a.m.negs(0.0);
    within(c, "product by the negated key", &a.phase(&out), &negmul(&a.phase(&d), &neg_s), var)?;
    c.eval(Some(hash_u64s(&[a.key(), 7, pt[0]])));
    Ok(())
}

// ------------------------------------------------------------------------------------- C15

fn ks_of(a: &Alg, bl: usize, lc: usize) -> Noise {
    let mut m = a.m;
    m.ks = (bl as f64, lc as f64);
    m
}

fn c15(c: &mut Case) -> Res {
    let need = algebra_need(c);
    let mut a = Alg::gen(c, need);
    let n = a.n;
    let std = a.ctx.std;
    let rounds = if c.light { 1 } else { 3 };
    let mut reused: Option<RLWEKeyswitchKey> = None;
    for _ in 0..rounds {
        let (bl, lc) = if c.rng.bool() {
            (a.p.key_switch_base_log, a.p.key_switch_level_count)
        } else {
            loop {
                let b = if c.rng.one_in(4) { c.rng.range(13, 32) } else { c.rng.range(1, 12) };
                let l = c.rng.range(1, 15);
                if b * l < 64 && b * l >= 20 {
                    break (b, l);
                }
            }
        };
        let mut nz = ks_of(&a, bl, lc);
        let mut ksk = match reused.take() {
            Some(k) if k.decomposition_base_log().0 == bl && k.decomposition_level_count().0 == lc => k,
            _ => RLWEKeyswitchKey::allocate(DecompositionBaseLog(bl), DecompositionLevelCount(lc), PolynomialSize(n)),
        };
        if ksk.decomposition_base_log().0 != bl || ksk.decomposition_level_count().0 != lc || ksk.polynomial_size().0 != n {
            return Err("the key-switching key reports another decomposition".into());
        }
        // from one key to another
        let from = match c.rng.below(4) {
            0 => a.sk.clone(),
            1 => RLWESecretKey::zero(PolynomialSize(n)),
            _ => a.ctx.gen_rlwe_sk(),
        };
        let fs = key_bits(&from);
        let msg = gen_raw(&mut c.rng, n);
        let mut before = rlwe0(n);
        from.encrypt_rlwe(&mut before, &pl(&msg), std, &mut a.ctx.encryption_generator);
        if c.rng.one_in(4) {
            before = odd_ct(c, &a, &msg);
            nz = nz.structured();
        }
        let var = nz.keyswitch(0.0);
        let want = own_phase(&fs, &before);
        ksk.fill_with_keyswitch_key(&from, &a.sk, std, &mut a.ctx.encryption_generator);
        // the rows of the key
        for (l, row) in ksk.get_keyswitch_key().iter().enumerate() {
            within(c, &format!("key-switching row {l}"), &a.phase(row), &scale(&fs, 1 << (64 - bl * (l + 1))), a.m.s0)?;
        }
        let raw_before = raw(&before);
        let mut after = garbage_ct(&mut c.rng, n);
        ksk.keyswitch_ciphertext(&mut after, &before);
        within(c, &format!("key switching ({bl},{lc})"), &a.phase(&after), &want, var)?;
        let g = RGSWCiphertext::from_keyswitch_key(&ksk);
        let mut after_g = rlwe0(n);
        g.keyswitch_ciphertext(&mut after_g, &before);
        let rnd = 4f64.powf(-((bl * lc) as f64)) / 12.0;
        within(c, &format!("key switching by a gadget ciphertext ({bl},{lc})"), &a.phase(&after_g), &want, var + rnd + nz.digits(nz.ks, 1.0, 0.0))?;
        let mut buf = a.ctx.gen_fft_ctx();
        let mut after_h = rlwe0(n);
        g.keyswitch_ciphertext_with_buf(&mut after_h, &before, &mut buf);
        same("key switching with a buffer", &raw(&after_h), &raw(&after_g))?;
        let fk = ksk.clone().into_fourier();
        let mut fc = FourierRLWECiphertext::new(n);
        for round in 0..2 {
            // the second time the output is dirty
            fk.keyswitch_ciphertext(&mut fc, &before);
            let after_f = fc.backward_as_torus();
            within(c, &format!("Fourier key switching ({bl},{lc}), use {round}"), &a.phase(&after_f), &want, var)?;
        }
        same("the input of a key switch", &raw(&before), &raw_before)?;
        c.eval(Some(hash_u64s(&[a.key(), bl as u64, lc as u64, 1, want[0]])));
        c.add("key_switches", 5.0);
        // substitution
        let k = match c.rng.below(4) {
            0 => 2 * n - 1,
            1 => n / (1 << c.rng.us(n.trailing_zeros() as usize)) + 1,
            2 => 1,
            _ => 2 * c.rng.us(n) + 1,
        };
        let mut dummy = RLWESecretKey::zero(PolynomialSize(n));
        ksk.fill_with_subs_keyswitch_key(&mut dummy, &a.sk, k, std, &mut a.ctx.encryption_generator);
        if ksk.get_subs_k() != k {
            return Err(format!("substitution key for {k} reports {}", ksk.get_subs_k()));
        }
        let msg = gen_raw(&mut c.rng, n);
        let odd = c.rng.one_in(4);
        let ct = if odd { odd_ct(c, &a, &msg) } else { a.raw_enc(&msg) };
        let nz = if odd { nz.structured() } else { nz };
        let var = nz.keyswitch(0.0);
        let ct_raw = raw(&ct);
        let want = automorph(&a.phase(&ct), k);
        let mut after = garbage_ct(&mut c.rng, n);
        ksk.subs(&mut after, &ct);
        within(c, &format!("substitution k={k} ({bl},{lc})"), &a.phase(&after), &want, var)?;
        let fk = ksk.clone().into_fourier();
        if fk.get_subs_k() != k {
            return Err(format!("Fourier substitution key for {k} reports {}", fk.get_subs_k()));
        }
        fk.subs(&mut fc, &ct);
        within(c, &format!("Fourier substitution k={k} ({bl},{lc})"), &a.phase(&fc.backward_as_torus()), &want, var)?;
        same("the input of a substitution", &raw(&ct), &ct_raw)?;
        c.eval(Some(hash_u64s(&[a.key(), bl as u64, lc as u64, 2, k as u64, want[0]])));
        c.add("substitutions", 2.0);
        c.max("k", k as f64);
        reused = Some(ksk);
    }
    // the generated set
    if n <= 256 || c.rng.one_in(3) {
        let km = gen_all_subs_ksk(&a.sk, &mut a.ctx);
        let kf = gen_all_subs_ksk_fourier(&a.sk, &mut a.ctx);
        let var = a.m.keyswitch(0.0);
        let msg = gen_raw(&mut c.rng, n);
        let ct = a.raw_enc(&msg);
        let mut x = n;
        while x >= 2 {
            let k = x + 1;
            let (Some(k1), Some(k2)) = (km.get(&k), kf.get(&k)) else {
                return Err(format!("the generated set has no key for k={k}"));
            };
            if k1.get_subs_k() != k || k2.get_subs_k() != k {
                return Err(format!("the generated key for k={k} substitutes {} and {}", k1.get_subs_k(), k2.get_subs_k()));
            }
            let want = automorph(&a.phase(&ct), k);
            let mut after = rlwe0(n);
            k1.subs(&mut after, &ct);
            within(c, &format!("generated substitution key k={k}"), &a.phase(&after), &want, var)?;
            let mut fc = FourierRLWECiphertext::new(n);
            k2.subs(&mut fc, &ct);
            within(c, &format!("generated Fourier substitution key k={k}"), &a.phase(&fc.backward_as_torus()), &want, var)?;
            c.eval(Some(hash_u64s(&[a.key(), 3, k as u64])));
            c.add("substitutions", 2.0);
            x /= 2;
        }
    }
    Ok(())
}

// ------------------------------------------------------------------------------------- C16

fn c16(c: &mut Case) -> Res {
    let need = expand_need(c);
    let mut a = Alg::gen(c, need);
    let n = a.n;
    let km = gen_all_subs_ksk(&a.sk, &mut a.ctx);
    let kf = gen_all_subs_ksk_fourier(&a.sk, &mut a.ctx);
    let ng = a.sk.neg_gsw(&mut a.ctx);
    // trace
    for _ in 0..3 {
        let msg = gen_raw(&mut c.rng, n);
        let structured = c.rng.one_in(4);
        let ct = if structured { odd_ct(c, &a, &msg) } else { a.raw_enc(&msg) };
        let before = raw(&ct);
        let mut want = vec![0; n];
        want[0] = a.phase(&ct)[0].wrapping_mul(n as u64);
        let nz = a.m;
        let var = if structured { nz.structured() } else { nz }.trace(0.0);
        within(c, "trace", &a.phase(&ct.trace1(&km)), &want, var)?;
        let mut out = garbage_ct(&mut c.rng, n);
        ct.trace1_fourier(&mut out, &kf);
        within(c, "Fourier trace", &a.phase(&out), &want, var)?;
        same("the input of a trace", &raw(&ct), &before)?;
        c.eval(Some(hash_u64s(&[a.key(), 1, msg[0], msg[1]])));
        c.add("traces", 2.0);
    }
    // expansion
    let (bl, lc) = (a.p.base_log, a.p.level_count);
    let logn = n.trailing_zeros() as usize;
    let slow = n <= 64 || (n == 128 && c.rng.one_in(4));
    let lk = if slow {
        let lsk = a.ctx.gen_lwe_sk();
        // the scalar key with the ring key's bits
        let mut k = LWEtoRLWEKeyswitchKey::allocate(&a.ctx);
        let old = std::mem::replace(&mut a.sk, lsk.to_rlwe_sk());
        k.fill_with_keyswitching_key(&lsk, &mut a.ctx);
        let s2 = key_bits(&a.sk);
        let ng2 = a.sk.neg_gsw(&mut a.ctx);
        let sk2 = std::mem::replace(&mut a.sk, old);
        Some((k, sk2, s2, ng2))
    } else {
        None
    };
    for bit in [c.rng.below(2), 0, 1] {
        let own = c.rng.bool();
        let cts = if own {
            (1..=lc)
                .map(|l| {
                    let mut m = gen_raw(&mut c.rng, n);
                    m[0] = bit << (64 - bl * l - logn);
                    a.raw_enc(&m)
                })
                .collect()
        } else {
            make_decomposed_rlwe_ct(&a.sk, bit, &mut a.ctx)
        };
        if cts.len() != lc {
            return Err(format!("{} scaled ciphertexts for {lc} levels", cts.len()));
        }
        let before: Vec<Vec<u64>> = cts.iter().map(raw).collect();
        let mut m = vec![0; n];
        m[0] = bit;
        let v = a.m.expanded();
        for which in 0..2 {
            let g = if which == 0 { expand(&cts, &km, &ng, &a.ctx) } else { expand_fourier(&cts, &kf, &ng, &a.ctx) };
            use_expanded(c, &a, ["expand", "expand_fourier"][which], &g, bit, &m, v)?;
        }
        for (x, y) in cts.iter().zip(&before) {
            same("the input of an expansion", &raw(x), y)?;
        }
        // directly from ciphertexts of the scaled bit
        let rows: Vec<RLWECiphertext> = (1..=lc)
            .map(|l| {
                let mut m = vec![0; n];
                m[0] = bit << (64 - bl * l);
                a.raw_enc(&m)
            })
            .collect();
        let mut buf = a.ctx.gen_fft_ctx();
        let g = decomposed_rlwe_to_rgsw(&rows, &ng, &a.ctx, &mut buf);
        let v0 = a.m.s0;
        use_expanded(c, &a, "decomposed_rlwe_to_rgsw", &g, bit, &m, v0)?;
        if let Some((k, sk2, s2, ng2)) = &lk {
            let (sk1, s1) = (std::mem::replace(&mut a.sk, sk2.clone()), std::mem::replace(&mut a.s, s2.clone()));
            a.m = a.m.with_key(&a.s);
            let cts = make_decomposed_rlwe_ct2(&a.sk, bit, &mut a.ctx);
            let g = expand_slow(&cts, k, ng2, &a.ctx);
            let v = conv_var(&a) + a.m.s0;
            let r = use_expanded(c, &a, "expand_slow", &g, bit, &m, v);
            a.sk = sk1;
            a.s = s1;
            a.m = a.m.with_key(&a.s);
            r?;
        }
    }
    Ok(())
}

/// variance added by the conversion of a scalar ciphertext
fn conv_var(a: &Alg) -> f64 {
    a.m.digits(a.m.ks, 1.0, a.m.s0) + a.n as f64 / 2.0 * 4f64.powf(-a.m.ks.0 * a.m.ks.1) / 12.0
}

fn use_expanded(c: &mut Case, a: &Alg, what: &str, g: &RGSWCiphertext, bit: u64, m: &[u64], v: f64) -> Res {
    check_rows(c, a, what, g, m, a.p.base_log, a.p.level_count, v, a.m.negs(v))?;
    let mut ctx = Context::new(a.p.clone());
    let (p0, p1) = (gen_pt_vec(&mut c.rng, a.n, a.t), gen_pt_vec(&mut c.rng, a.n, a.t));
    let (c0, c1) = (enc(&a.sk, &p0, &mut ctx), enc(&a.sk, &p1, &mut ctx));
    let var = a.m.by_derived(v, 0.0, 1.0);
    let mut out = rlwe0(a.n);
    g.external_product(&mut out, &c0);
    let zero = vec![0; a.n];
    let want = if bit == 1 { a.phase(&c0) } else { zero };
    within(c, &format!("external product by {what}"), &a.phase(&out), &want, var)?;
    same(&format!("external product by {what}"), &a.dec(&out), &scale(&p0, bit))?;
    g.cmux(&mut out, &c0, &c1);
    within(c, &format!("selection by {what}"), &a.phase(&out), &a.phase(if bit == 0 { &c0 } else { &c1 }), var)?;
    same(&format!("selection by {what}"), &a.dec(&out), if bit == 0 { &p0 } else { &p1 })?;
    c.eval(Some(hash_u64s(&[a.key(), hash_str(what), bit, hash_u64s(&p0)])));
    c.add("expansions", 1.0);
    Ok(())
}

// ------------------------------------------------------------------------------------- C17

fn lwe_raw(c: &LWECiphertext) -> Vec<u64> {
    c.as_tensor().as_slice().to_vec()
}
fn lwe_phase(s: &[u64], c: &LWECiphertext) -> u64 {
    let v = lwe_raw(c);
    let n = s.len();
    let mut x = v[n];
    for i in 0..n {
        x = x.wrapping_sub(v[i].wrapping_mul(s[i]));
    }
    x
}

fn c17(c: &mut Case) -> Res {
    let need = match if c.k % 240 < 60 { large_ring(c) } else { None } {
        Some(n) => Need { max_n: n, min_n: n, ..ALGEBRA },
        None => Need { max_n: if c.light { 64 } else { *c.rng.pick(&[32, 32, 64, 64, 128, 256]) }, ..ALGEBRA },
    };
    let mut a = Alg::gen(c, need);
    let n = a.n;
    let lsk = a.ctx.gen_lwe_sk();
    if lsk.key_size().0 != n {
        return Err(format!("scalar key of size {} for N={n}", lsk.key_size().0));
    }
    a.sk = lsk.to_rlwe_sk();
    a.s = key_bits(&a.sk);
    // key conversion: read the scalar key through decryption
    // all of them in a small ring, the ends and a sample of a large one
    let some: Vec<usize> = if n <= 512 { (0..n).collect() } else { (0..n).filter(|i| *i < 8 || *i + 8 >= n || i % 1024 == 0 || c.rng.one_in(n as u64 / 64)).collect() };
    for &i in &some {
        let mut v = vec![0u64; n + 1];
        v[i] = u64::MAX;
        let mut ct = LWECiphertext::allocate(LweSize(n + 1));
        ct.fill_with_tensor(&Tensor::from_container(v));
        let mut out = Plaintext(7);
        lsk.decrypt_lwe(&mut out, &ct);
        if out.0 != a.s[i] || out.0 > 1 {
            return Err(format!("key conversion: bit {i} is {} in the scalar key and {} in the ring key", out.0, a.s[i]));
        }
    }
    c.eval(Some(hash_u64s(&a.s)));
    // every coefficient
    for round in 0..2 {
        let msg = gen_pt_vec(&mut c.rng, n, a.t);
        let ct = if round == 0 { a.enc(&msg) } else { garbage_ct(&mut c.rng, n) };
        let ph = a.phase(&ct);
        let before = raw(&ct);
        let mut l = LWECiphertext::allocate(a.ctx.lwe_size());
        for &i in &some {
            if c.rng.one_in(4) {
                let g: Vec<u64> = (0..n + 1).map(|_| c.rng.u64()).collect();
                l.fill_with_tensor(&Tensor::from_container(g));
            }
            l.fill_with_sample_extract(&ct, MonomialDegree(i));
            let mut out = Plaintext(3);
            lsk.decrypt_lwe(&mut out, &l);
            if out.0 != ph[i] || lwe_phase(&a.s, &l) != ph[i] {
                return Err(format!("extracted coefficient {i} decrypts to {:#x}, the ring ciphertext to {:#x}", out.0, ph[i]));
            }
            if round == 0 {
                lsk.decode_decrypt_lwe(&mut out, &l, &a.ctx);
                same(&format!("extracted coefficient {i}"), &[out.0], &[msg[i]])?;
            }
            if i == 0 {
                let first = lwe_raw(&l);
                let mut k = LWECiphertext::allocate(a.ctx.lwe_size());
                k.fill_with_const_sample_extract(&ct);
                same("constant extraction", &lwe_raw(&k), &first)?;
            }
            c.eval(Some(hash_u64s(&[a.key(), i as u64, ph[i]])));
        }
        c.add("coefficients_extracted", some.len() as f64);
        same("the input of an extraction", &raw(&ct), &before)?;
    }
    let mut l = LWECiphertext::allocate(a.ctx.lwe_size());
    lsk.encode_encrypt_lwe(&mut l, &Plaintext(1), &mut a.ctx);
    let copy = l.clone();
    l.clear();
    if lwe_raw(&l).iter().any(|x| *x != 0) || lwe_raw(&copy).len() != n + 1 {
        return Err("clearing a scalar ciphertext".into());
    }
    // conversion to a ring ciphertext
    if n <= 128 || n == 256 && c.k % 7 == 0 || n == 1024 && c.k % if c.thorough { 480 } else { 9600 } == 19 {
        let mut k = LWEtoRLWEKeyswitchKey::allocate(&a.ctx);
        if c.rng.one_in(3) {
            let other = a.ctx.gen_lwe_sk();
            k.fill_with_keyswitching_key(&other, &mut a.ctx);
        }
        k.fill_with_keyswitching_key(&lsk, &mut a.ctx);
        for round in 0..5 {
            let x = c.rng.u64();
            let mut l = LWECiphertext::allocate(a.ctx.lwe_size());
            lsk.encrypt_lwe(&mut l, &Plaintext(x), a.ctx.std, &mut a.ctx.encryption_generator);
            if round >= 3 {
                // any vector is a ciphertext: here with zeros in its mask
                let mut v = lwe_raw(&l);
                let kind = c.rng.below(6);
                let low = c.rng.range(1, 60);
                let (i, j) = (c.rng.us(n), c.rng.us(n));
                for k in 0..n {
                    match kind {
                        0 if k == 0 => v[k] = 0,
                        1 => v[k] = 0,
                        2 if k != i => v[k] = 0,
                        3 if c.rng.bool() => v[k] = 0,
                        4 => v[k] = v[k] >> low << low,
                        5 if k == i || k == j || k == n - 1 => v[k] = 0,
                        _ => {}
                    }
                }
                if c.rng.one_in(4) {
                    v[n] = 0;
                }
                l.fill_with_tensor(&Tensor::from_container(v));
                c.add("conversions_of_sparse_masks", 1.0);
            }
            let before = lwe_raw(&l);
            let r = conv_lwe_to_rlwe(&k, &l, &a.ctx);
            let mut want = vec![0; n];
            want[0] = lwe_phase(&a.s, &l);
            let var = conv_var(&a);
            within(c, "conversion to a ring ciphertext", &a.phase(&r), &want, var)?;
            same("the input of a conversion", &lwe_raw(&l), &before)?;
            c.eval(Some(hash_u64s(&[a.key(), 2, x])));
            c.add("conversions", 1.0);
        }
    }
    Ok(())
}

// ------------------------------------------------------------------------------------- C18

fn c18(c: &mut Case) -> Res {
    let k = c.k;
    let n = if c.light { 32 } else { [32, 64, 128, 256, 512, 1024, 2048, 32, 64, 4096, 128, 256, 8192][(k % 13) as usize] };
    let lt = c.rng.range(1, 20);
    let p = tfhe(n, -55.0, (5, 9), (5, 11), (5, 11), 1 << lt, true);
    c.note(format!("N={n} t=2^{lt}"));
    let mut a = Alg::new(p);
    let mut pairs = vec![];
    if n <= if c.light { 32 } else { 64 } {
        for m in 0..n {
            for d in 0..n {
                pairs.push((m, d));
            }
        }
        c.rng.shuffle(&mut pairs);
        if c.light {
            pairs.truncate(64);
        }
        c.add("ring_sizes_exhausted", 1.0);
    } else {
        let edge = [0, 1, 2, n / 2 - 1, n / 2, n / 2 + 1, n - 2, n - 1];
        for m in edge {
            for d in edge {
                pairs.push((m, d));
            }
        }
        if n > 2048 {
            c.rng.shuffle(&mut pairs);
            pairs.truncate(81920 / n);
        }
        for _ in 0..if n > 2048 { 3 } else if n > 512 { 60 } else { 250 } {
            let m = c.rng.us(n);
            pairs.push((m, c.rng.us(n)));
            pairs.push((m, m));
            pairs.push((m, (m + 1) % n));
            pairs.push(((m + 1) % n, m));
        }
    }
    let enc_of: Vec<Option<RLWECiphertext>> = vec![None; n];
    let mut enc_of = enc_of;
    for (m, d) in pairs {
        if enc_of[m].is_none() {
            let pt = a.ctx.gen_demuxed_pt(m);
            let mut ct = rlwe0(n);
            a.sk.encode_encrypt_rlwe(&mut ct, &pt, &mut a.ctx);
            let mut want = vec![0; n];
            want[m] = 1;
            same("the plaintext X^m", &pv(&pt), &want)?;
            enc_of[m] = Some(ct);
        }
        let ct = enc_of[m].as_ref().unwrap();
        let s0 = a.m.s0;
        // the digits of a comparison are coherent
        let fft = 16.0 * 4f64.powi(-53) * (n as f64).log2();
        let mut x = ct.clone();
        x.less_eq_than(d);
        let le = (m <= d) as u64;
        let got = phase(&a.sk, &x)[0];
        // rounding errors of the mask are multiplied by the key
        within(c, &format!("{m} <= {d} (N={n})"), &[got], &[le.wrapping_mul(a.delta())], (d as f64 + 1.0) * (s0 + fft * (1.0 + n as f64 / 2.0)))?;
        let mut y = ct.clone();
        y.eq_to(d);
        let eq = (m == d) as u64;
        let got = phase(&a.sk, &y)[0];
        within(c, &format!("{m} == {d} (N={n})"), &[got], &[eq.wrapping_mul(a.delta())], s0 + fft * (1.0 + n as f64 / 2.0))?;
        c.eval(Some(hash_u64s(&[n as u64, m as u64, d as u64])));
        c.eval(None);
        c.add("comparisons", 2.0);
        c.add("true_leq", le as f64);
        c.add("true_eq", eq as f64);
    }
    for d in [n, n + 1, 2 * n - 1, 2 * n, usize::MAX] {
        let ct = a.enc(&vec![0; n]);
        let (mut x, mut y) = (ct.clone(), ct.clone());
        if refused(move || x.less_eq_than(d)).is_err() {
            return Err(format!("comparison with {d} is not refused (N={n})"));
        }
        if refused(move || y.eq_to(d)).is_err() {
            return Err(format!("equality with {d} is not refused (N={n})"));
        }
        c.eval(None);
        c.add("refusals", 2.0);
    }
    // the encrypted feature itself
    let need = match large_ring(c) {
        Some(n) => Need { expand: true, max_n: n, min_n: n, ..ALGEBRA },
        None => Need { expand: true, max_n: 256, ..ALGEBRA },
    };
    let mut a = Alg::gen(c, need);
    let n = a.n;
    let fs: Vec<usize> = (0..3).map(|_| c.rng.index(n)).collect();
    let cts = encrypt_feature_vector(&a.sk, &fs, &mut a.ctx);
    if cts.len() != fs.len() || cts.iter().any(|v| v.len() != a.p.level_count) {
        return Err("an encrypted feature vector has the wrong shape".into());
    }
    for (v, row) in fs.iter().zip(&cts) {
        for (l, ct) in row.iter().enumerate() {
            let mut want = vec![0; n];
            want[*v] = 1u64 << (64 - a.p.base_log * (l + 1) - n.trailing_zeros() as usize);
            let var = a.m.s0;
            within(c, &format!("level {l} of the encrypted feature {v}"), &a.phase(ct), &want, var)?;
        }
        c.eval(Some(hash_u64s(&[a.key(), *v as u64])));
    }
    Ok(())
}

// ------------------------------------------------------------------------------------- C19

fn c19(c: &mut Case) -> Res {
    let large = if c.k % 480 < 60 { large_ring(c) } else { None };
    let k = match large {
        Some(_) => 1 + (c.k / 480 + c.k) as usize % 4,
        None if c.light => 1 + (c.k % 3) as usize,
        None => [1, 2, 3, 4, 5, 6, 3, 7, 4, 8, 5, 10][(c.k % 12) as usize],
    };
    let cells = 1usize << k;
    let max_n = if c.light || k > 6 { 64 } else { *c.rng.pick(&[32, 64, 128, 256]) };
    let (min_n, max_n) = match large {
        Some(n) => (n, n),
        None => (32, max_n),
    };
    let need = Need { max_n, min_n, cols: cells, ..ALGEBRA };
    let mut a = Alg::gen(c, need);
    c.note(format!("n=2^{k}"));
    let n = a.n;
    let mut buf = a.ctx.gen_fft_ctx();
    let all: Vec<usize> = if large.is_some() { vec![0, cells - 1, c.rng.index(cells)] } else if k <= 4 { (0..cells).collect() } else { (0..if k > 6 { 2 } else { 6 }).map(|_| c.rng.index(cells)).collect() };
    for i in all {
        let bits = bit_decomposed_rgsw(i, cells, &a.sk, &mut a.ctx);
        if bits.len() != k {
            return Err(format!("{} selector bits for n=2^{k}", bits.len()));
        }
        let zero = vec![0; n];
        for which in 0..2 {
            let (base, out) = if which == 0 {
                let mut d = zero.clone();
                d[0] = a.delta();
                (d, demux(&bits, &a.ctx, &mut buf))
            } else {
                let m = gen_pt_vec(&mut c.rng, n, a.t);
                // every pair of polynomials is a ciphertext of its phase
                let mask: Vec<u64> = (0..n).map(|_| c.rng.u64()).collect();
                let b = match c.rng.below(7) {
                    0 | 1 => from_parts(&zero, &a.encode(&m)),
                    2 => from_parts(&mask, &zero),
                    3 => {
                        let (i, v) = (c.rng.us(n), c.rng.u64());
                        let mut w = zero.clone();
                        w[i] = v;
                        if c.rng.bool() {
                            from_parts(&w, &zero)
                        } else {
                            from_parts(&mask, &w)
                        }
                    }
                    _ => a.enc(&m),
                };
                (a.phase(&b), demux_with(b, &bits, &a.ctx, &mut buf))
            };
            if out.len() != cells {
                return Err(format!("{} outputs for n=2^{k}", out.len()));
            }
            let var = a.m.demux(k as f64, 0.0);
            for (j, x) in out.iter().enumerate() {
                within(c, &format!("output {j} for index {i} of 2^{k}"), &a.phase(x), if j == i { &base } else { &zero }, var)?;
            }
            if which == 0 {
                same(&format!("demultiplexing {i} of 2^{k}"), &a.dec(&out[i])[..2], &[1 % a.t, 0])?;
            }
            c.eval(Some(hash_u64s(&[a.key(), k as u64, i as u64, which, base[0]])));
            c.add("outputs_checked", cells as f64);
        }
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C11", quick: 800, thorough: 6000, workers: 8, secs: 40.0, min_evals: 300, rule: "distinct (parameters, form, plaintext) triples encrypted and decrypted", f: c11 },
        Prop { id: "C13", quick: 8000, thorough: 40000, workers: 8, secs: 40.0, min_evals: 500, rule: "distinct (ring size, operation, operands) triples compared coefficient by coefficient", f: c13 },
        Prop { id: "C14", quick: 400, thorough: 5000, workers: 8, secs: 40.0, min_evals: 200, rule: "distinct (parameters, decomposition, gadget message, plaintext) products and selections", f: c14 },
        Prop { id: "C15", quick: 600, thorough: 4000, workers: 8, secs: 40.0, min_evals: 200, rule: "distinct (parameters, decomposition, key pair or k, message) key switches and substitutions", f: c15 },
        Prop { id: "C16", quick: 160, thorough: 1500, workers: 8, secs: 45.0, min_evals: 80, rule: "distinct (parameters, path, bit, message) traces and expansions", f: c16 },
        Prop { id: "C17", quick: 1600, thorough: 8000, workers: 8, secs: 40.0, min_evals: 500, rule: "distinct (parameters, coefficient, value) extractions and conversions", f: c17 },
        Prop { id: "C18", quick: 100, thorough: 400, workers: 8, secs: 45.0, min_evals: 3000, rule: "distinct (N, m, d) triples compared by both comparisons", f: c18 },
        Prop { id: "C19", quick: 2400, thorough: 9000, workers: 8, secs: 40.0, min_evals: 100, rule: "distinct (parameters, k, index, base message) demultiplexings", f: c19 },
    ]
}
