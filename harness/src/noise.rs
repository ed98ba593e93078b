//! C25, C26: noise measurement and noise growth.
use crate::algebra::Alg;
use crate::oram::Sys;
use crate::util::*;
use crate::{Case, Prop, Res};
use concrete_core::commons::math::tensor::Tensor;
use concrete_core::prelude::{DecompositionBaseLog, DecompositionLevelCount, PolynomialSize};
use panacea::codec::Codec;
use panacea::context::FftBuffer;
use panacea::lwe::{conv_lwe_to_rlwe, LWECiphertext, LWEtoRLWEKeyswitchKey};
use panacea::rgsw::{compute_noise_rgsw1, RGSWCiphertext};
use panacea::rlwe::{
    compute_noise, compute_noise_encoded, compute_noise_ternary, expand, expand_fourier, expand_slow, gen_all_subs_ksk, gen_all_subs_ksk_fourier, make_decomposed_rlwe_ct, FourierRLWECiphertext,
    RLWECiphertext, RLWEKeyswitchKey,
};

// ------------------------------------------------------------------------------------- C25

/// A noise polynomial and its largest absolute value.
fn plant(r: &mut Rng, n: usize) -> (Vec<u64>, u64) {
    let lmax = r.below(64); // largest absolute value in [2^lmax, 2^(lmax+1)), or exactly half the modulus
    let big: u64 = match r.below(5) {
        0 => 1 << lmax,
        1 if lmax < 63 => (1 << (lmax + 1)) - 1,
        2 => 1 << 63,
        _ if lmax < 63 => (1 << lmax) | (r.u64() & ((1 << lmax) - 1)),
        _ => (1 << 63) - r.below(1000),
    };
    let big = big.max(1);
    let mut e: Vec<u64> = match r.below(3) {
        0 => vec![0; n],
        _ => (0..n)
            .map(|_| {
                let x = if big == 1 << 63 { r.u64() >> 2 } else { r.below(big) };
                if r.bool() {
                    x
                } else {
                    0u64.wrapping_sub(x)
                }
            })
            .collect(),
    };
    let at = r.index(n);
    e[at] = if r.bool() { big } else { 0u64.wrapping_sub(big) };
    (e, big)
}

fn close(what: &str, got: f64, want: f64) -> Res {
    if !(got - want).abs().is_finite() || (got - want).abs() > 1e-9 {
        return Err(format!("{what} reports {got}, the actual noise is {want}"));
    }
    Ok(())
}

fn c25(c: &mut Case) -> Res {
    let n = *c.rng.pick(if c.light { &[32usize, 64][..] } else { &[32usize, 64, 128, 256, 512, 1024, 2048, 4096][..] });
    let t = 1u64 << c.rng.range(1, 30);
    let std = -60.0 + c.rng.below(50) as f64;
    let (bl, lc) = loop {
        let (b, l) = (c.rng.range(1, 12), c.rng.range(1, 12));
        if b * l < 64 {
            break (b, l);
        }
    };
    let p = tfhe(n, std, (bl, lc), (5, 11), (5, 11), t, true);
    c.note(show(&p));
    let mut a = Alg::new(p);
    let third = (u64::MAX as f64 / 3.0) as u64;
    for _ in 0..if c.light { 3 } else if n > 1024 { 4 } else { 12 } {
        let (e, big) = plant(&mut c.rng, n);
        let want = (big as f64).log2();
        let mk: Vec<u64> = if c.rng.one_in(3) { vec![0; n] } else { (0..n).map(|_| c.rng.u64()).collect() };
        let base = negmul(&mk, &a.s);
        let ct = |m: &[u64]| from_parts(&mk, &addv(&addv(&base, m), &e));
        // raw
        let m: Vec<u64> = (0..n).map(|_| c.rng.u64()).collect();
        close("compute_noise", compute_noise(&a.sk, &ct(&m), &pl(&m)), want)?;
        // modular
        let m = gen_pt_vec(&mut c.rng, n, t);
        close("compute_noise_encoded", compute_noise_encoded(&a.sk, &ct(&a.encode(&m)), &pl(&m), &a.ctx.codec), want)?;
        let t2 = 1u64 << c.rng.range(1, 20);
        let m = gen_pt_vec(&mut c.rng, n, t2);
        let d2 = 1u64 << (64 - t2.trailing_zeros());
        close("compute_noise_encoded (other codec)", compute_noise_encoded(&a.sk, &ct(&scale(&m, d2)), &pl(&m), &Codec::new(t2)), want)?;
        // ternary: the encoding of -1 and 1 is only fixed up to a rounding of 2^12
        let m = gen_ternary(&mut c.rng, n);
        if big > 1 << 32 && big < (1 << 63) - (1 << 32) || m.iter().all(|x| *x == 0) {
            let enc: Vec<u64> = m.iter().map(|x| if *x == 0 { 0 } else if *x == 1 { third } else { 2 * third }).collect();
            let got = compute_noise_ternary(&a.sk, &ct(&enc), &pl(&m));
            if m.iter().all(|x| *x == 0) {
                close("compute_noise_ternary", got, want)?;
            } else if (got - want).abs() > 1e-5 {
                return Err(format!("compute_noise_ternary reports {got}, the actual noise is {want}"));
            }
            c.add("ternary_measurements", 1.0);
        } else {
            // exactly the library's own encoding
            let mut enc = pl(&m);
            Codec::poly_ternary_encode(&mut enc.as_mut_polynomial());
            close("compute_noise_ternary", compute_noise_ternary(&a.sk, &ct(&pv(&enc)), &pl(&m)), want)?;
            c.add("ternary_measurements", 1.0);
        }
        c.eval(Some(hash_u64s(&[a.key(), hash_u64s(&e)])));
        c.add("planted", 1.0);
        c.max("log2_planted", want);
        c.max("minus_log2_planted", -want);
    }
    // fresh encryptions
    let m = gen_pt_vec(&mut c.rng, n, t);
    let ct = a.enc(&m);
    let want = log_err(&a.phase(&ct), &a.encode(&m));
    close("compute_noise_encoded of a fresh ciphertext", compute_noise_encoded(&a.sk, &ct, &pl(&m), &a.ctx.codec), want)?;
    // gadget ciphertexts
    let mut g = a.rgsw(1);
    for _ in 0..c.rng.us(3) {
        let z = a.rgsw(0);
        g.update_with_add(&z);
    }
    if c.rng.one_in(3) {
        // noise of half the modulus: not an encryption of 1
        let z = a.rgsw(1 << 62);
        g.update_with_add(&z);
    }
    let mut want = 0.0;
    for l in 1..=lc {
        let mut unit = vec![0; n];
        unit[0] = 1u64 << (64 - bl * l);
        want += log_err(&a.phase(&g.get_nth_row(2 * l - 1)), &unit) / lc as f64;
    }
    close("compute_noise_rgsw1", compute_noise_rgsw1(&a.sk, &g, &a.ctx), want)?;
    c.eval(Some(hash_u64s(&[a.key(), want.to_bits()])));
    c.add("gadget_measurements", 1.0);
    Ok(())
}

// ------------------------------------------------------------------------------------- C26

#[derive(Default)]
struct Stat {
    s1: f64,
    s2: f64,
    n: f64,
}
impl Stat {
    /// errors in units of the torus
    fn add(&mut self, got: &[u64], want: &[u64]) {
        for (g, w) in got.iter().zip(want) {
            let e = g.wrapping_sub(*w) as i64 as f64 * 2f64.powi(-64);
            self.s1 += e;
            self.s2 += e * e;
            self.n += 1.0;
        }
    }
    fn var(&self) -> f64 {
        self.s2 / self.n
    }
}

/// log2 of the allowed ratio of standard deviations for systematic error of the prediction
const SLACK: f64 = 0.5;

fn judge(c: &mut Case, name: &'static str, key: u64, st: &Stat, var: f64, independent: f64, lower: bool) -> Res {
    let r = log_std(st.var()) - log_std(var + 2f64.powi(-126));
    // a sample of k independent errors: its standard deviation deviates by 1/sqrt(2k)
    let tol = SLACK + (1.0 + 7.0 / (2.0 * independent).sqrt()).log2();
    c.max(name, r - tol);
    if r > tol {
        return Err(format!("{name}: the standard deviation of the noise is 2^{:.2}, 2^{:.2} is predicted ({} samples)", 64.0 + log_std(st.var()), 64.0 + log_std(var), st.n));
    }
    if lower && r < -tol {
        return Err(format!("{name}: the standard deviation of the noise is only 2^{:.2}, 2^{:.2} is configured", 64.0 + log_std(st.var()), 64.0 + log_std(var)));
    }
    let mean = st.s1 / st.n;
    c.max("mean_over_std", mean.abs() / st.var().sqrt().max(1e-30) * independent.sqrt());
    c.eval(Some(key));
    c.add("errors_measured", st.n);
    Ok(())
}

fn c26(c: &mut Case) -> Res {
    match c.k % 8 {
        0 | 4 => c26_products(c),
        1 | 5 => c26_expansion(c),
        2 => c26_conversion(c),
        _ => c26_history(c),
    }
}

/// Conversion of scalar ciphertexts multiplies the errors of its key by uniform digits; the arithmetic is exact.
fn c26_conversion(c: &mut Case) -> Res {
    let n = if c.light { 32 } else { *c.rng.pick(&[32, 64, 128]) };
    let (kb, kl) = *c.rng.pick(&[(2, 10), (3, 8), (4, 6), (5, 5), (6, 4), (8, 3), (10, 2), (20, 1), (4, 9), (5, 9), (4, 11)]);
    let (bl, lc) = *c.rng.pick(&[(5, 4), (4, 5), (7, 3), (10, 2)]);
    // the errors are well below the torus and above one unit
    let std = -(c.rng.range(300, 500) as f64) / 10.0;
    let p = tfhe(n, std, (bl, lc), (kb, kl), (5, 10), 4, !c.rng.one_in(4));
    c.note(show(&p));
    let mut a = Alg::new(p);
    let lsk = a.ctx.gen_lwe_sk();
    a.sk = lsk.to_rlwe_sk();
    a.s = key_bits(&a.sk);
    let mut k = LWEtoRLWEKeyswitchKey::allocate(&a.ctx);
    k.fill_with_keyswitching_key(&lsk, &mut a.ctx);
    let s0 = a.m.s0;
    // balanced digits are uniform over a range of one base
    let digits = (n * kl) as f64 * (4f64.powi(kb as i32) + 2.0) / 12.0 * s0;
    let weight = a.s.iter().filter(|x| **x == 1).count() as f64;
    let rounding = weight * 4f64.powi(-((kb * kl) as i32)) / 12.0;
    let (mut constant, mut rest, mut slow) = (Stat::default(), Stat::default(), Stat::default());
    let reps = if c.light { 2 } else { 64 };
    for _ in 0..reps {
        let v: Vec<u64> = (0..=n).map(|_| c.rng.u64()).collect();
        let mut l = LWECiphertext::allocate(a.ctx.lwe_size());
        l.fill_with_tensor(&Tensor::from_container(v.clone()));
        let got = a.phase(&conv_lwe_to_rlwe(&k, &l, &a.ctx));
        let want = (0..n).fold(v[n], |x, i| x.wrapping_sub(v[i].wrapping_mul(a.s[i])));
        constant.add(&got[..1], &[want]);
        rest.add(&got[1..], &vec![0; n - 1]);
    }
    let key = a.key();
    // the errors of the key are the same in all conversions, their factors are not
    let free = ((reps * (n - 1)) as f64).min((n * kl * n) as f64) / 4.0;
    judge(c, "conversion of scalars, vanishing coefficients", hash_u64s(&[key, 1]), &rest, digits, free, true)?;
    judge(c, "conversion of scalars, constant coefficient", hash_u64s(&[key, 2]), &constant, digits + rounding, reps as f64 / 2.0, true)?;
    // the slow expansion takes every level through such a conversion
    let neg = a.sk.neg_gsw(&mut a.ctx);
    for bit in [0u64, 1, 1, 0] {
        // what `expand_slow` takes: bit / B^l in the constant coefficient, anything elsewhere
        let cts: Vec<RLWECiphertext> = (1..=lc)
            .map(|l| {
                let mut m: Vec<u64> = (0..n).map(|_| c.rng.u64()).collect();
                m[0] = bit << (64 - bl * l);
                a.raw_enc(&m)
            })
            .collect();
        let g = expand_slow(&cts, &k, &neg, &a.ctx);
        for l in 1..=lc {
            slow.add(&a.phase(&g.get_nth_row(2 * l - 1))[1..], &vec![0; n - 1]);
        }
    }
    judge(c, "body rows of the slow expansion, vanishing coefficients", hash_u64s(&[key, 3]), &slow, digits, (4 * lc * (n - 1)) as f64 / 4.0, true)?;
    c.add("conversions_measured", reps as f64);
    Ok(())
}

fn c26_products(c: &mut Case) -> Res {
    let max_n = if c.light { 64 } else { *c.rng.pick(&[32, 64, 128, 256, 512, 1024]) };
    let mut a = Alg::gen(c, Need { max_n, ..ALGEBRA });
    let n = a.n;
    let key = a.key();
    let reps = (4096 / n).max(4).min(if c.light { 8 } else { 64 });
    // fresh encryptions of every kind
    let (mut f, mut fr, mut fk) = (Stat::default(), Stat::default(), Stat::default());
    for _ in 0..reps {
        let m: Vec<u64> = (0..n).map(|_| c.rng.u64()).collect();
        let ct = a.raw_enc(&m);
        f.add(&a.phase(&ct), &m);
    }
    let k = (reps * n) as f64;
    let v0 = a.m.s0;
    judge(c, "fresh ring ciphertext", hash_u64s(&[key, 1]), &f, v0, k, true)?;
    let (bl, lc) = (a.p.base_log, a.p.level_count);
    let mut rows = 0;
    for i in 0..(reps / lc).max(1) as u64 {
        let g = a.rgsw(i % 2);
        for l in 1..=lc {
            let mut u = vec![0; n];
            u[0] = (i % 2) << (64 - bl * l);
            fr.add(&a.phase(&g.get_nth_row(2 * l - 1)), &u);
            let ns: Vec<u64> = a.s.iter().map(|x| 0u64.wrapping_sub(x * u[0])).collect();
            fr.add(&a.phase(&g.get_nth_row(2 * l - 2)), &ns);
            rows += 2;
        }
    }
    judge(c, "fresh gadget ciphertext", hash_u64s(&[key, 2]), &fr, v0, (rows * n) as f64, true)?;
    let (kb, kl) = (a.p.key_switch_base_log, a.p.key_switch_level_count);
    let from = a.ctx.gen_rlwe_sk();
    let fs = key_bits(&from);
    let mut ksk = RLWEKeyswitchKey::allocate(DecompositionBaseLog(kb), DecompositionLevelCount(kl), PolynomialSize(n));
    ksk.fill_with_keyswitch_key(&from, &a.sk, a.ctx.std, &mut a.ctx.encryption_generator);
    for (l, r) in ksk.get_keyswitch_key().iter().enumerate() {
        fk.add(&a.phase(r), &scale(&fs, 1 << (64 - kb * (l + 1))));
    }
    judge(c, "fresh key-switching key", hash_u64s(&[key, 3]), &fk, v0, (kl * n) as f64, true)?;
    // products
    let mut buf = FftBuffer::new(PolynomialSize(n));
    let (mut e, mut x, mut ks, mut kf, mut kg, mut ng) = (Stat::default(), Stat::default(), Stat::default(), Stat::default(), Stat::default(), Stat::default());
    let fsk = ksk.clone().into_fourier();
    let gsk = RGSWCiphertext::from_keyswitch_key(&ksk);
    let neg = a.sk.neg_gsw(&mut a.ctx);
    let mut gs = vec![a.rgsw(1), a.rgsw(0), a.rgsw(1)];
    for i in 0..reps {
        let m: Vec<u64> = (0..n).map(|_| c.rng.u64()).collect();
        let ct = a.raw_enc(&m);
        let ct1 = a.raw_enc(&m);
        let bit = [1, 0, 1][i % 3];
        if i % 6 == 5 {
            gs[2] = a.rgsw(1);
        }
        let mut out = rlwe0(n);
        gs[i % 3].external_product_with_buf(&mut out, &ct, &mut buf);
        e.add(&a.phase(&out), &scale(&a.phase(&ct), bit));
        gs[i % 3].cmux_with_buf(&mut out, &ct, &ct1, &mut buf);
        x.add(&a.phase(&out), &a.phase(if bit == 0 { &ct } else { &ct1 }));
        let mut before = rlwe0(n);
        from.encrypt_rlwe(&mut before, &pl(&m), a.ctx.std, &mut a.ctx.encryption_generator);
        let want = own_phase(&fs, &before);
        ksk.keyswitch_ciphertext(&mut out, &before);
        ks.add(&a.phase(&out), &want);
        let mut fc = FourierRLWECiphertext::new(n);
        fsk.keyswitch_ciphertext(&mut fc, &before);
        kf.add(&a.phase(&fc.backward_as_torus()), &want);
        out.clear();
        gsk.keyswitch_ciphertext_with_buf(&mut out, &before, &mut buf);
        kg.add(&a.phase(&out), &want);
        out.clear();
        neg.external_product_with_buf(&mut out, &ct, &mut buf);
        ng.add(&a.phase(&out), &negmul(&a.phase(&ct), &a.s).iter().map(|x| 0u64.wrapping_sub(*x)).collect::<Vec<_>>());
    }
    let (ve, vk, vn) = (a.m.ext(0.0), a.m.keyswitch(0.0), a.m.negs(0.0));
    let vkg = vk + 4f64.powf(-((kb * kl) as f64)) / 12.0 + a.m.digits(a.m.ks, 1.0, 0.0);
    // errors of one product are combinations of the errors of the same rows
    judge(c, "external product", hash_u64s(&[key, 4]), &e, ve, k / 4.0, false)?;
    judge(c, "cmux", hash_u64s(&[key, 5]), &x, ve, k / 4.0, false)?;
    judge(c, "key switch", hash_u64s(&[key, 6]), &ks, vk, k / 4.0, false)?;
    judge(c, "Fourier key switch", hash_u64s(&[key, 7]), &kf, vk, k / 4.0, false)?;
    judge(c, "gadget key switch", hash_u64s(&[key, 8]), &kg, vkg, k / 4.0, false)?;
    judge(c, "product by the negated key", hash_u64s(&[key, 9]), &ng, vn, 2.0 * reps as f64, false)?;
    Ok(())
}

fn c26_expansion(c: &mut Case) -> Res {
    let max_n = if c.light { 32 } else { *c.rng.pick(&[32, 64, 128, 256]) };
    let mut a = Alg::gen(c, Need { expand: true, max_n, ..ALGEBRA });
    let n = a.n;
    let key = a.key();
    let (bl, lc) = (a.p.base_log, a.p.level_count);
    let km = gen_all_subs_ksk(&a.sk, &mut a.ctx);
    let kf = gen_all_subs_ksk_fourier(&a.sk, &mut a.ctx);
    let neg = a.sk.neg_gsw(&mut a.ctx);
    let (mut tr, mut tf, mut bo, mut ma) = (Stat::default(), Stat::default(), Stat::default(), Stat::default());
    let reps = if c.light { 2 } else { 12 };
    for _ in 0..reps {
        let m: Vec<u64> = (0..n).map(|_| c.rng.u64()).collect();
        let ct = a.raw_enc(&m);
        let mut want = vec![0; n];
        want[0] = a.phase(&ct)[0].wrapping_mul(n as u64);
        tr.add(&a.phase(&ct.trace1(&km)), &want);
        let mut out = rlwe0(n);
        ct.trace1_fourier(&mut out, &kf);
        tf.add(&a.phase(&out), &want);
    }
    // the errors of a trace are symmetric under the automorphisms already applied: few are independent
    let k = (reps * n) as f64;
    let vt = a.m.trace(0.0);
    judge(c, "trace", hash_u64s(&[key, 1]), &tr, vt, (k / 8.0).max(reps as f64), false)?;
    judge(c, "Fourier trace", hash_u64s(&[key, 2]), &tf, vt, (k / 8.0).max(reps as f64), false)?;
    let ve = a.m.expanded();
    let mut g1 = None;
    for bit in [0u64, 1, 1] {
        let cts = make_decomposed_rlwe_ct(&a.sk, bit, &mut a.ctx);
        let g = if g1.is_none() { expand(&cts, &km, &neg, &a.ctx) } else { expand_fourier(&cts, &kf, &neg, &a.ctx) };
        for l in 1..=lc {
            let mut u = vec![0; n];
            u[0] = bit << (64 - bl * l);
            let row = a.phase(&g.get_nth_row(2 * l - 1));
            bo.add(&row, &u);
            // the mask row multiplies the body row, with its error, by the key
            let w: Vec<u64> = negmul(&row, &a.s).iter().map(|x| 0u64.wrapping_sub(*x)).collect();
            ma.add(&a.phase(&g.get_nth_row(2 * l - 2)), &w);
        }
        g1 = Some(g);
    }
    // the constant coefficient of an input has the fresh noise multiplied by N
    judge(c, "expanded body row", hash_u64s(&[key, 3]), &bo, ve, (3 * lc) as f64, false)?;
    let vn = a.m.negs(0.0);
    judge(c, "expanded mask row", hash_u64s(&[key, 4]), &ma, vn, (3 * lc) as f64, false)?;
    // selections by an expanded gadget ciphertext
    let g = g1.unwrap();
    let mut st = Stat::default();
    let mut buf = FftBuffer::new(PolynomialSize(n));
    for _ in 0..8 {
        let m: Vec<u64> = (0..n).map(|_| c.rng.u64()).collect();
        let (c0, c1) = (a.raw_enc(&m), a.raw_enc(&m));
        let mut out = rlwe0(n);
        g.cmux_with_buf(&mut out, &c0, &c1, &mut buf);
        st.add(&a.phase(&out), &a.phase(&c1));
    }
    let v = a.m.by_derived(ve, 0.0, 1.0);
    judge(c, "selection by an expanded ciphertext", hash_u64s(&[key, 5]), &st, v, (lc as f64).max(4.0), false)?;
    c.add("expansions", 3.0);
    Ok(())
}

fn c26_history(c: &mut Case) -> Res {
    let k = c.rng.range(1, 4);
    let cols = 1usize << k;
    let mode = c.rng.below(3);
    let accesses = if c.light { 3 } else { c.rng.range(20, if c.thorough { 200 } else { 60 }) };
    let per = if mode == 1 { 3 } else { 1 };
    let need = Need { cols, accesses: accesses * per, max_n: if c.light { 32 } else { *c.rng.pick(&[32, 64, 128]) }, ..ALGEBRA };
    let p = gen_params(&mut c.rng, need);
    let (rows, h) = if mode == 2 { (4, 2) } else { (1, 1) };
    c.note(format!("{} {rows}x{cols} h={h} mode={mode} accesses={accesses}", show(&p)));
    let m = Noise::new(&p);
    let mut s = Sys::new(&p, rows, cols, h);
    let sbits = key_bits(&s.client.sk);
    let m = m.with_key(&sbits);
    let lt = p.plaintext_modulus.trailing_zeros();
    let delta = 1u64 << (64 - lt);
    let phase_of = |ct: &RLWECiphertext| own_phase(&sbits, ct);
    let mut resp = Stat::default();
    let mut stored_after = 0;
    let mut resp_pred = 0.0;
    for step in 0..accesses {
        let v_db = m.s0 + (step * per) as f64 * m.access(cols as f64);
        match mode {
            0 | 1 => {
                let mut ops = vec![];
                for _ in 0..per {
                    let i = c.rng.us(s.n);
                    if ops.iter().any(|(j, _)| *j == i) {
                        continue;
                    }
                    ops.push((i, if c.rng.bool() { Some(s.new_value(&mut c.rng)) } else { None }));
                }
                let mut qs = vec![];
                for (i, v) in &ops {
                    qs.push(match v {
                        Some(v) => s.client.gen_write_query_one(*i, &pl(v), &s.hash),
                        None => s.client.gen_read_query_one(*i, &s.hash),
                    });
                }
                let ys = if mode == 0 { vec![s.server.process_one(qs.pop().unwrap()).0] } else { s.server.process_multi(qs).0 };
                for (y, (i, _)) in ys.iter().zip(&ops) {
                    if s.dec(y) != s.model[*i] {
                        return Err(format!("response {step} no longer decrypts correctly"));
                    }
                    resp.add(&phase_of(y), &scale(&s.model[*i], delta));
                    resp_pred += m.response(cols as f64, v_db);
                }
                for (i, v) in ops {
                    if let Some(v) = v {
                        s.model[i] = v;
                    }
                }
            }
            _ => {
                let i = c.rng.us(s.n);
                let map = s.hash.hash_to_mapping(&[i], cols);
                let w = c.rng.bool();
                let val = s.new_value(&mut c.rng);
                let qs = if w { s.client.gen_write_query_batch(&[i], &pl(&val), &s.hash) } else { s.client.gen_read_query_batch(&[i], &s.hash) };
                let ys = s.server.process_batch(qs, &s.hash).0;
                let row = *map.keys().next().unwrap();
                if s.dec(&ys[row]) != s.model[i] {
                    return Err(format!("response {step} no longer decrypts correctly"));
                }
                resp.add(&phase_of(&ys[row]), &scale(&s.model[i], delta));
                // the consistency step gives every replica the difference of the written one
                resp_pred += m.response(cols as f64, m.s0 + (step * h) as f64 * m.access(cols as f64));
                if w {
                    s.model[i] = val;
                }
            }
        }
        stored_after = step + 1;
    }
    let key = hash_u64s(&[phash(&p), cols as u64, mode, accesses as u64]);
    let dim = s.deg() as f64;
    judge(c, "ORAM response", key, &resp, resp_pred / (resp.n / dim), resp.n / 4.0, false)?;
    if let Some(db) = s.db() {
        let mut st = Stat::default();
        let mut cells = 0.0;
        for i in 0..s.n {
            for hh in 0..h {
                let cell = s.hash.hash(hh, i);
                let ct = &db[cell / cols][cell % cols];
                if s.dec(ct) != s.model[i] {
                    return Err(format!("item {i} no longer decrypts correctly after {stored_after} accesses"));
                }
                st.add(&phase_of(ct), &scale(&s.model[i], delta));
                cells += 1.0;
            }
        }
        let per = if mode == 2 { h } else { per };
        let v = m.s0 + (stored_after * per) as f64 * m.access(cols as f64);
        judge(c, "stored item", hash_u64s(&[key, 1]), &st, v, cells * dim / 4.0, false)?;
    }
    c.add("accesses", accesses as f64);
    c.max("longest_history", accesses as f64);
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C25", quick: 2000, thorough: 8000, workers: 8, secs: 40.0, min_evals: 300, rule: "distinct (parameters, planted noise polynomial) measurements", f: c25 },
        Prop { id: "C26", quick: 400, thorough: 3000, workers: 8, secs: 50.0, min_evals: 100, rule: "distinct (parameters, operation or history) samples whose noise variance was compared with the prediction", f: c26 },
    ]
}
