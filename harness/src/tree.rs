//! C20, C21: decision trees.
use crate::oram::{in_pool, pool};
use crate::util::*;
use crate::{refused, Case, Prop, Res};
use panacea::context::{Context, FftBuffer};
use panacea::decision_tree::{compare_expand, encrypt_feature_vector, simulate, trunc_tree, EncNode, Node as Node_};
use panacea::rlwe::{gen_all_subs_ksk_fourier, RLWECiphertext};
use rayon::prelude::*;
use serde_json::{json, Value};

pub fn parse(s: &str) -> Node_ {
    serde_json::from_str(s).unwrap_or_else(|e| panic!("HARNESS: tree JSON: {e}"))
}

/// The harness's own trees.
#[derive(Clone, Debug, PartialEq)]
pub enum T {
    Leaf(u64),
    Node { th: usize, f: usize, index: usize, gt: bool, l: Option<Box<T>>, r: Option<Box<T>> },
}
use T::*;

impl T {
    fn json(&self) -> Value {
        match self {
            Leaf(x) => json!({ "leaf": x }),
            Node { th, f, index, gt, l, r } => {
                let ch = |c: &Option<Box<T>>| c.as_ref().map(|x| x.json()).unwrap_or(Value::Null);
                json!({"internal": {"threshold": th, "feature": f, "index": index, "op": if *gt { "gt" } else { "leq" }, "left": ch(l), "right": ch(r)}})
            }
        }
    }
    fn node(&self) -> Node_ {
        parse(&self.json().to_string())
    }
    fn eval(&self, v: &[usize]) -> u64 {
        match self {
            Leaf(x) => *x,
            Node { th, f, l, r, .. } => {
                let side = if v[*f] <= *th { l } else { r };
                side.as_ref().map(|x| x.eval(v)).unwrap_or(0)
            }
        }
    }
    fn walk<'a>(&'a self, out: &mut Vec<&'a T>) {
        out.push(self);
        if let Node { l, r, .. } = self {
            for x in [l, r].into_iter().flatten() {
                x.walk(out);
            }
        }
    }
    fn leaves(&self) -> usize {
        let mut v = vec![];
        self.walk(&mut v);
        v.iter().filter(|x| matches!(x, Leaf(_))).count()
    }
    /// gives one node in so many the other comparison
    fn turn(&mut self, r: &mut Rng, one_in: u64) {
        if let Node { gt, l, r: right, .. } = self {
            *gt = r.one_in(one_in);
            for x in [l, right].into_iter().flatten() {
                x.turn(r, one_in);
            }
        }
    }
    fn internals(&self) -> Vec<(usize, usize, usize, bool)> {
        let mut v = vec![];
        self.walk(&mut v);
        v.iter()
            .filter_map(|x| match x {
                Node { th, f, index, gt, .. } => Some((*th, *f, *index, *gt)),
                _ => None,
            })
            .collect()
    }
    fn depth(&self) -> usize {
        match self {
            Leaf(_) => 0,
            Node { l, r, .. } => 1 + [l, r].into_iter().flatten().map(|x| x.depth()).max().unwrap_or(0),
        }
    }
    fn number(&mut self, next: &mut usize) {
        if let Node { index, l, r, .. } = self {
            *index = *next;
            *next += 1;
            for x in [l, r].into_iter().flatten() {
                x.number(next);
            }
        }
    }
    /// arbitrary indices: nothing says that they follow the order of the nodes
    fn misnumber(&mut self, r: &mut Rng, below: usize) {
        if let Node { index, l, r: right, .. } = self {
            *index = r.us(below);
            for x in [l, right].into_iter().flatten() {
                x.misnumber(r, below);
            }
        }
    }
    /// without the subtrees that can only yield 0
    fn trunc(&self) -> Option<T> {
        match self {
            Leaf(0) => None,
            Leaf(x) => Some(Leaf(*x)),
            Node { th, f, index, gt, l, r } => {
                let l = l.as_ref().and_then(|x| x.trunc()).map(Box::new);
                let r = r.as_ref().and_then(|x| x.trunc()).map(Box::new);
                if l.is_none() && r.is_none() {
                    None
                } else {
                    Some(Node { th: *th, f: *f, index: *index, gt: *gt, l, r })
                }
            }
        }
    }
}

struct Gen {
    features: usize,
    n: usize,
    labels: u64,
    missing: bool,
    left: usize,
    /// one in so many nodes becomes a leaf early
    early: u64,
    last: Option<(usize, usize)>,
}
impl Gen {
    fn label(&self, r: &mut Rng) -> u64 {
        match self.labels {
            0 => r.below(2),
            1 => r.below(16),
            2 => 1 << r.below(64),
            3 => r.u64(),
            4 => 0,
            5 => (1u64 << r.range(1, 63)) - 1 + r.below(3),
            6 => u64::MAX - r.below(2),
            _ => r.below(1 << 20),
        }
    }
    /// the threshold and the feature of a node, often close to those of the previous one
    fn test(&mut self, r: &mut Rng) -> (usize, usize) {
        let mut th = r.index(self.n);
        let mut f = r.us(self.features);
        if let (Some((t, g)), true) = (self.last, r.bool()) {
            th = match r.below(6) {
                0 => t,
                1 => (t + 1) % self.n,
                2 => self.n - 1 - t,
                // one bit differs
                _ => t ^ 1 << r.us(self.n.trailing_zeros() as usize),
            };
            f = match r.below(6) {
                0 => f,
                1 if g >= 256 => g - 256,
                1 if g + 256 < self.features => g + 256,
                _ => g,
            };
        }
        self.last = Some((th, f));
        (th, f)
    }
    fn tree(&mut self, r: &mut Rng, depth: usize, root: bool) -> T {
        if !root && (depth == 0 || self.left == 0 || r.one_in(self.early)) {
            return Leaf(if r.one_in(4) { 0 } else { self.label(r) });
        }
        self.left = self.left.saturating_sub(1);
        let (th, f) = self.test(r);
        let shape = r.below(4);
        let mut kid = |s: &mut Gen, r: &mut Rng, deep: bool| -> Option<Box<T>> {
            if s.missing && r.one_in(5) {
                None
            } else {
                Some(Box::new(s.tree(r, if deep { depth.saturating_sub(1) } else { depth.saturating_sub(1).min(1) }, false)))
            }
        };
        let l = kid(self, r, shape != 1);
        let r = kid(self, r, shape != 2);
        Node { th, f, index: 0, gt: false, l, r }
    }
}

fn gen_tree(r: &mut Rng, n: usize, features: usize, depth: usize, size: usize) -> T {
    let mut g = Gen { features, n, labels: r.below(8), missing: r.bool(), left: size, early: if size > 60 && r.bool() { 40 } else { r.range(3, 12) as u64 }, last: None };
    if r.one_in(6) {
        // a line
        let right = r.bool();
        let mut t = Leaf(g.label(r));
        for _ in 0..depth.min(size).max(1) {
            let (th, f) = g.test(r);
            let other = if g.missing && r.bool() { None } else { Some(Box::new(Leaf(g.label(r)))) };
            t = if right { Node { th, f, index: 0, gt: false, l: other, r: Some(Box::new(t)) } } else { Node { th, f, index: 0, gt: false, l: Some(Box::new(t)), r: other } };
        }
        return t;
    }
    g.tree(r, depth, true)
}

/// feature vectors, biased to the thresholds
fn gen_features(r: &mut Rng, t: &T, n: usize, features: usize) -> Vec<usize> {
    let ths = t.internals();
    (0..features)
        .map(|f| {
            let own: Vec<usize> = ths.iter().filter(|x| x.1 == f).map(|x| x.0).collect();
            if own.is_empty() || r.one_in(3) {
                r.index(n)
            } else {
                let x = *r.pick(&own);
                match r.below(3) {
                    0 => x,
                    1 => (x + 1).min(n - 1),
                    _ => x.saturating_sub(1),
                }
            }
        })
        .collect()
}

// ------------------------------------------------------------------------------------- C20

fn recompose(cts: &[RLWECiphertext], dec: impl Fn(&RLWECiphertext) -> Vec<u64>) -> Result<u64, String> {
    if cts.len() > 64 {
        return Err(format!("{} label bits", cts.len()));
    }
    let mut x = 0;
    for (j, ct) in cts.iter().enumerate() {
        match dec(ct)[0] {
            0 => {}
            1 => x |= 1 << j,
            b => return Err(format!("label bit {j} decrypts to {b}")),
        }
    }
    Ok(x)
}

/// A chain of nodes whose tests are equal but for one bit, with features for which they differ.
fn twins(r: &mut Rng, n: usize, features: usize) -> (T, Vec<Vec<usize>>) {
    let bits = n.trailing_zeros() as usize;
    let count = r.range(2, 3);
    let (th, f) = (r.us(n), r.us(features));
    let mut tests = vec![(th, f)];
    for _ in 1..count {
        let (a, b) = *r.pick(&tests);
        let other = if b >= 256 { b - 256 } else { b + 256 };
        // more often a high bit
        let bit = if r.bool() { bits - 1 - r.us(3.min(bits)) } else { r.us(bits) };
        tests.push(if other < features && r.bool() { (a, other) } else { (a ^ 1 << bit, b) });
    }
    let right = r.bool();
    // so that every leaf can be reached
    tests.sort();
    if !right {
        tests.reverse();
    }
    let mut t = Leaf(1 << count);
    for (j, (th, f)) in tests.iter().enumerate().rev() {
        let leaf = Some(Box::new(Leaf((1 << count) + 1 + j as u64)));
        let rest = Some(Box::new(t));
        t = if right { Node { th: *th, f: *f, index: 0, gt: false, l: leaf, r: rest } } else { Node { th: *th, f: *f, index: 0, gt: false, l: rest, r: leaf } };
    }
    // at each threshold, above it and between
    let mut vs = vec![];
    let (low, high) = (tests.iter().map(|x| x.0).min().unwrap(), tests.iter().map(|x| x.0).max().unwrap());
    for (th, f) in &tests {
        for x in [*th, (*th + 1).min(n - 1), r.range(low, high), r.range(low, high)] {
            let mut v: Vec<usize> = (0..features).map(|_| r.us(n)).collect();
            for (_, g) in &tests {
                v[*g] = if r.bool() { x } else if right { n - 1 } else { 0 };
            }
            v[*f] = x;
            vs.push(v);
        }
    }
    r.shuffle(&mut vs);
    vs.truncate(5);
    (t, vs)
}

fn c20(c: &mut Case) -> Res {
    if c.k % 10 == 3 && !c.light {
        return c20_simulate(c);
    }
    let twin = !c.light && c.k % 10 >= 7;
    let depth = if c.light { c.rng.range(1, 2) } else { c.rng.range(1, 6) };
    let need = Need { expand: true, max_n: if c.light { 32 } else if twin && c.k % 100 == 57 { *c.rng.pick(&[2048, 4096]) } else if twin { *c.rng.pick(&[32, 512, 512, 1024]) } else { *c.rng.pick(&[32, 32, 64, 64, 128, 256]) }, max_t: 16, ..ALGEBRA };
    // selections accumulate noise over the depth and the leaves
    let p = loop {
        let p = gen_params(&mut c.rng, need);
        let m = Noise::new(&p);
        let v = m.by_derived(m.expanded(), 0.0, 1.0) * 8.0 * 16.0;
        if -(p.plaintext_modulus as f64).log2() - 1.0 - log_std(v) > 4.0 {
            break p;
        }
    };
    let n = p.polynomial_size;
    let features = if n <= 64 && !c.light && c.rng.one_in(12) { c.rng.range(255, 300) } else { c.rng.range(1, 4) };
    // some trees have many nodes, some requests many vectors
    let (large, many) = (!c.light && n == 32 && c.rng.one_in(6), !c.light && n == 32 && c.rng.one_in(6));
    let depth = if large { c.rng.range(5, 6) } else { depth };
    let size = if c.light { 3 } else if many { 2 } else if n > 64 { 6 } else if large { 64 } else { 12 };
    let mut t = gen_tree(&mut c.rng, n, features, depth, size);
    let features = if twin { if n <= 64 { c.rng.range(257, 300) } else { c.rng.range(1, 2) } } else { features };
    let count = if c.light { 2 } else if many { c.rng.range(10, 40) } else if large { 1 } else { c.rng.range(1, 4) };
    let mut vs: Vec<Vec<usize>> = (0..count).map(|_| gen_features(&mut c.rng, &t, n, features)).collect();
    if twin {
        (t, vs) = twins(&mut c.rng, n, features);
        c.add("trees_of_similar_tests", 1.0);
    }
    match c.rng.below(3) {
        0 => t.number(&mut 0),
        1 => {
            let below = *c.rng.pick(&[3, 16, 1 << 20]);
            t.misnumber(&mut c.rng, below);
            c.add("trees_of_arbitrary_indices", 1.0);
        }
        _ => {}
    }
    c.max("vectors", count as f64);
    c.max("nodes_of_one_tree", t.internals().len() as f64);
    c.note(format!("{} features={features} vectors={vs:?} tree={}", show(&p), t.json()));
    let node = t.node();
    let mut ctx = Context::new(p.clone());
    let sk = ctx.gen_rlwe_sk();
    let neg = sk.neg_gsw(&mut ctx);
    let km = gen_all_subs_ksk_fourier(&sk, &mut ctx);
    let enc: Vec<Vec<Vec<RLWECiphertext>>> = vs.iter().map(|v| encrypt_feature_vector(&sk, v, &mut ctx)).collect();
    let flat = node.flatten();
    let server = |e: &Vec<Vec<RLWECiphertext>>| {
        let root = {
            let mut it = compare_expand(&flat, e, &neg, &km, &ctx);
            EncNode::new(&node, &mut it)
        };
        let mut buf = FftBuffer::new(ctx.poly_size);
        let res = (root.eval(&ctx, &mut buf), root.max_leaf());
        // the same tree with its missing children left out
        let mut bare = root;
        prune(&mut bare, &t);
        (res.0, res.1, bare.eval(&ctx, &mut buf), bare.max_leaf())
    };
    let threads = *c.rng.pick(&[1, 2, 4]);
    let seq: Vec<_> = enc.iter().map(server).collect();
    let par: Vec<_> = pool(threads).install(|| enc.par_iter().map(server).collect());
    let max_label = leaf_max(&t);
    let key = phash(&p);
    for (j, (v, (s, q))) in vs.iter().zip(seq.iter().zip(&par)).enumerate() {
        let want = t.eval(v);
        let d = |ct: &RLWECiphertext| dec(&sk, ct, &ctx);
        let got = recompose(&s.0, d)?;
        if got != want {
            return Err(format!("vector {j} {v:?}: encrypted evaluation gives {got}, plaintext traversal {want}"));
        }
        if node.eval(v) as u64 != want {
            return Err(format!("vector {j} {v:?}: eval gives {}, plaintext traversal {want}", node.eval(v)));
        }
        if s.1 as u64 != max_label || s.3 as u64 != max_label {
            return Err(format!("the largest label is {max_label}, not {} ({} without the missing children)", s.1, s.3));
        }
        let bare = recompose(&s.2, d)?;
        if bare != want {
            return Err(format!("vector {j} {v:?}: encrypted evaluation without the missing children gives {bare}, plaintext traversal {want}"));
        }
        if s.0.len() != q.0.len() || s.0.iter().zip(&q.0).any(|(x, y)| raw(x) != raw(y)) {
            return Err(format!("vector {j}: parallel evaluation returns other ciphertexts than sequential evaluation"));
        }
        c.eval(Some(hash_u64s(&[key, hash_str(&t.json().to_string()), hash_str(&format!("{v:?}"))])));
        c.add("evaluations_on_ciphertexts", 2.0);
        c.add("nonzero_labels", (want != 0) as u64 as f64);
        c.max("label_bits", s.0.len() as f64);
    }
    c.add("nodes", flat.len() as f64);
    c.max("depth", t.depth() as f64);
    Ok(())
}
/// Remove the children of the encrypted tree that the plaintext tree does not have.
fn prune(e: &mut EncNode, t: &T) {
    if let (EncNode::Internal(e), Node { l, r, .. }) = (e, t) {
        for (x, y) in [(&mut e.left, l), (&mut e.right, r)] {
            match (x.as_mut(), y) {
                (Some(x), Some(y)) => prune(x, y),
                _ => *x = None,
            }
        }
    }
}
fn leaf_max(t: &T) -> u64 {
    let mut v = vec![];
    t.walk(&mut v);
    v.iter()
        .filter_map(|x| match x {
            Leaf(l) => Some(*l),
            _ => None,
        })
        .max()
        .unwrap_or(0)
}

/// the library's own end-to-end simulation, with its default parameters
fn c20_simulate(c: &mut Case) -> Res {
    let n = 2048;
    let features = c.rng.range(1, 2);
    let (depth, size) = *c.rng.pick(&[(2, 2), (2, 3), (3, 3)]);
    let mut t = gen_tree(&mut c.rng, n, features, depth, size);
    let count = c.rng.range(1, 4);
    let mut vs: Vec<Vec<usize>> = (0..count).map(|_| gen_features(&mut c.rng, &t, n, features)).collect();
    let mut parallel = c.rng.bool();
    let mut threads = *c.rng.pick(&[0, 1, 3, 8]);
    if c.k % 20 == 3 {
        // many inputs of alternating outcome, to see whether they come back in order
        let th = c.rng.us(n - 1);
        let (a, b) = (c.rng.range(0, 3) as u64, c.rng.range(4, 7) as u64);
        t = Node { th, f: 0, index: 0, gt: false, l: Some(Box::new(Leaf(a))), r: Some(Box::new(Leaf(b))) };
        let flip = c.rng.us(2);
        vs = (0..c.rng.range(5, 9)).map(|j| (0..features).map(|_| if (j + flip) % 2 == 0 { c.rng.range(0, th) } else { c.rng.range(th + 1, n - 1) }).collect()).collect();
        (parallel, threads) = (true, *c.rng.pick(&[3, 8]));
    }
    c.note(format!("simulate parallel={parallel} threads={threads} vectors={vs:?} tree={}", t.json()));
    let node = t.node();
    let r = in_pool(threads, || {
        let r = simulate(&node, &vs, parallel);
        (r.predictions.clone(), r.input_count, r.poly_size.0)
    });
    let want: Vec<u64> = vs.iter().map(|v| t.eval(v)).collect();
    if r.0 != want {
        return Err(format!("simulate predicts {:?}, plaintext traversal gives {want:?}", r.0));
    }
    if r.1 != vs.len() || r.2 != n {
        return Err(format!("simulate reports {} inputs and N={}", r.1, r.2));
    }
    for v in &vs {
        c.eval(Some(hash_u64s(&[1, hash_str(&t.json().to_string()), hash_str(&format!("{v:?}")), parallel as u64])));
    }
    c.add("simulations", 1.0);
    Ok(())
}

// ------------------------------------------------------------------------------------- C21

fn val(n: &Node_) -> Value {
    serde_json::to_value(n).unwrap()
}

fn c21(c: &mut Case) -> Res {
    let n = *c.rng.pick(&[2usize, 16, 2048, 1 << 40]);
    let features = c.rng.range(1, 6);
    let large = c.k % 40 == 13 && !c.light;
    let features = if large { c.rng.range(1, 400) } else { features };
    let depth = if large { c.rng.range(10, 14) } else { c.rng.range(1, 9) };
    let size = if large { c.rng.range(300, 3000) } else { c.rng.range(1, 80) };
    let mut t = gen_tree(&mut c.rng, n, features, depth, size);
    // the other comparison is part of the model format, but is not evaluated (yet)
    let evaluated = !c.rng.one_in(4);
    if !evaluated {
        let one_in = *c.rng.pick(&[1u64, 2, 5]);
        t.turn(&mut c.rng, one_in);
    }
    c.max("internal_nodes", t.internals().len() as f64);
    let text = t.json().to_string();
    c.note(text.chars().take(1500).collect());
    let key = hash_str(&text);
    let mut node = t.node();
    let eq = |what: &str, got: &Value, want: &Value| -> Res {
        if got != want {
            return Err(format!("{what}: {got} instead of {want}"));
        }
        Ok(())
    };
    eq("JSON round trip", &val(&node), &t.json())?;
    eq("clone", &val(&node.clone()), &t.json())?;
    let back: Node_ = serde_json::from_str(&serde_json::to_string(&node).unwrap()).map_err(|e| e.to_string())?;
    eq("text round trip", &val(&back), &t.json())?;
    // counts
    let ints = t.internals();
    let nums = [
        ("leaves", node.count_leaf(), t.leaves()),
        ("internal nodes", node.count_internal(), ints.len()),
        ("depth", node.count_depth(), t.depth()),
        ("largest feature", node.max_feature_index(), ints.iter().map(|x| x.1).max().unwrap_or(0)),
    ];
    for (name, got, want) in nums {
        if got != want {
            return Err(format!("{name}: {got} instead of {want}"));
        }
    }
    // numbering and flattening
    let mut next = 0;
    t.number(&mut next);
    let last = node.fix_index();
    if last + 1 != ints.len() {
        return Err(format!("numbering returns {last} for {} internal nodes", ints.len()));
    }
    eq("numbering", &val(&node), &t.json())?;
    let flat = node.flatten();
    let ints = t.internals();
    if flat.len() != ints.len() {
        return Err(format!("flattening lists {} of {} nodes", flat.len(), ints.len()));
    }
    for (i, (x, (th, f, index, gt))) in flat.iter().zip(&ints).enumerate() {
        if x.index != i || *index != i || x.threshold != *th || x.feature != *f || serde_json::to_value(x.op).unwrap() != json!(if *gt { "gt" } else { "leq" }) {
            return Err(format!("flattened node {i} is (threshold {}, feature {}, index {}) instead of ({th}, {f}, {i})", x.threshold, x.feature, x.index));
        }
    }
    // evaluation and truncation
    let cut = trunc_tree(&Some(node.clone()));
    let own = t.trunc();
    eq("truncation", &cut.as_ref().map(val).unwrap_or(Value::Null), &own.as_ref().map(|x| x.json()).unwrap_or(Value::Null))?;
    eq("the tree after truncating a copy", &val(&node), &t.json())?;
    if !evaluated {
        c.eval(Some(key));
        c.add("trees_with_the_other_comparison", 1.0);
    }
    for _ in 0..if evaluated { 12 } else { 0 } {
        let v = gen_features(&mut c.rng, &t, n, features);
        let want = t.eval(&v);
        let got = node.eval(&v) as u64;
        if got != want {
            return Err(format!("eval of {v:?} gives {got} instead of {want}"));
        }
        let got = cut.as_ref().map(|x| x.eval(&v) as u64).unwrap_or(0);
        if got != want {
            return Err(format!("the truncated tree gives {got} instead of {want} for {v:?}"));
        }
        c.eval(Some(hash_u64s(&[key, hash_str(&format!("{v:?}"))])));
    }
    // again after truncation
    if let Some(mut x) = cut.clone() {
        if x.count_internal() > 0 {
            let mut o = own.clone().unwrap();
            o.number(&mut 0);
            x.fix_index();
            eq("numbering of a truncated tree", &val(&x), &o.json())?;
            let again = trunc_tree(&Some(x.clone()));
            eq("truncating twice", &again.as_ref().map(val).unwrap_or(Value::Null), &val(&x))?;
        }
    }
    if trunc_tree(&None).is_some() {
        return Err("truncation of nothing".into());
    }
    // full trees
    let d = if c.k % 100 == 51 && !c.light { c.rng.range(11, 17) } else { c.rng.us(11) };
    let mut full = Node_::new_with_depth(d);
    if d > 0 {
        let last = full.fix_index();
        let flat = full.flatten();
        if last + 2 != 1 << d || flat.len() != last + 1 || flat.iter().enumerate().any(|(i, x)| x.index != i) {
            return Err(format!("numbering or flattening a full tree of depth {d}"));
        }
    }
    if full.count_leaf() != 1 << d || full.count_internal() != (1 << d) - 1 || full.count_depth() != d {
        return Err(format!("a full tree of depth {d} has {} leaves, {} internal nodes, depth {}", full.count_leaf(), full.count_internal(), full.count_depth()));
    }
    let def = Node_::default();
    if def.count_leaf() != 2 || def.count_depth() != 1 {
        return Err("the default tree is not a tree of depth 1".into());
    }
    c.eval(Some(hash_u64s(&[99, d as u64])));
    // deep lines
    let depth = c.rng.range(50, 400);
    let mut line = Leaf(3);
    for i in 0..depth {
        line = if i % 3 == 0 { Node { th: i, f: 0, index: 0, gt: false, l: Some(Box::new(line)), r: None } } else { Node { th: i, f: 0, index: 0, gt: false, l: None, r: Some(Box::new(line)) } };
    }
    if depth < 60 {
        let mut x = line.node();
        if x.count_depth() != depth || x.fix_index() != depth - 1 || x.flatten().len() != depth {
            return Err(format!("a line of {depth} nodes"));
        }
        c.eval(Some(hash_u64s(&[98, depth as u64])));
    }
    // a leaf is not an internal node
    if refused(|| parse("{\"leaf\":5}").inner_value()).is_err() {
        return Err("a leaf was turned into an internal node".into());
    }
    let leaf = parse("{\"leaf\":5}");
    if leaf.eval(&vec![]) != 5 || leaf.count_leaf() != 1 || leaf.count_depth() != 0 || leaf.count_internal() != 0 || !leaf.flatten().is_empty() {
        return Err("a single leaf".into());
    }
    if let Node_::Internal(_) = &node {
        let inner = node.clone().inner_value();
        if inner.index != 0 || inner.threshold != flat[0].threshold {
            return Err("inner_value is not the root".into());
        }
    }
    c.add("trees", 1.0);
    c.add("nodes", ints.len() as f64);
    c.max("depth", t.depth() as f64);
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C20", quick: 550, thorough: 3000, workers: 8, secs: 50.0, min_evals: 60, rule: "distinct (parameters, tree, feature vector) evaluations on ciphertexts", f: c20 },
        Prop { id: "C21", quick: 40000, thorough: 200000, workers: 8, secs: 25.0, min_evals: 4000, rule: "distinct (tree, feature vector) pairs", f: c21 },
    ]
}
