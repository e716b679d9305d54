//! C15: encoding, conversion to and from string-and-weight pairs, and weight factoring keep the relation.
use fstmon::driver::*;
use fstmon::gen::*;
use fstmon::ops::{FullW, V};
use fstmon::reffst::*;
use fstmon::refw::*;
use fstmon::rng::Rng;
use fstmon::util::*;
use fstmon::{chk, with_w};
use rustfst::algorithms::encode::*;
use rustfst::algorithms::factor_weight::factor_iterators::*;
use rustfst::algorithms::factor_weight::*;
use rustfst::algorithms::weight_converters::*;
use rustfst::algorithms::*;
use rustfst::prelude::*;
use std::collections::BTreeMap;

fn case_encode<W: Wt>(ctx: &mut Ctx) {
    let mut c = GenCfg::new();
    c.nmax = ctx.rng.range(1, 6);
    c.acyclic = !W::CYCLE_OK || ctx.rng.chance(1, 3);
    c.arcs_per_state = ctx.rng.range(1, 4);
    c.p_dup = 30;
    c.p_nostart = 5;
    c.alpha = *ctx.rng.pick(&[1, 2, 3]);
    c.eps_i = *ctx.rng.pick(&[10, 50]);
    c.eps_o = *ctx.rng.pick(&[10, 50]);
    if ctx.rng.chance(1, 5) {
        c.prof = WProfile::Unweighted;
        c.acyclic |= !W::IDEMP;
    }
    // (the many small shares of a probability machine are equal within the precision)
    if W::NAME != "probability" && enlarge(&mut ctx.rng, &mut c, 80, 60) {
        ctx.count("large_machines");
    }
    let s: Spec<W> = gen_spec(&mut ctx.rng, &c);
    let (ty, name, ew, el) = match ctx.rng.below(3) {
        0 => (EncodeType::EncodeLabels, "labels", false, true),
        1 => (EncodeType::EncodeWeights, "weights", true, false),
        _ => (EncodeType::EncodeWeightsAndLabels, "both", true, true),
    };
    ctx.input = format!("encode {} {} {}", name, W::NAME, s.dump());
    let r = s.to_ref();
    if r.narcs() >= 2 {
        ctx.distinct(s.hash() ^ ew as u64 ^ (el as u64) << 1);
    }
    let smp = ctx.input.clone();
    ctx.sample(|| smp);
    let mut rng = ctx.rng.fork();
    let f: V<W> = s.build_var(&mut rng);
    let mut m = f.clone();
    let Some(table) = ctx.guard_ok("encode", || encode(&mut m, ty)) else { return };
    let Some(g) = ext(ctx, "encode", &m) else { return };
    // the code is a bijection on what is encoded, never epsilon, and everything not encoded stays
    let one = <W::R>::one();
    let mut to_tuple: BTreeMap<u32, (u32, u32, String)> = BTreeMap::new();
    let mut to_code: BTreeMap<(u32, u32, String), u32> = BTreeMap::new();
    let mut bij = |code: u32, tuple: (u32, u32, String)| -> bool {
        code != 0 && *to_tuple.entry(code).or_insert(tuple.clone()) == tuple && *to_code.entry(tuple).or_insert(code) == code
    };
    let extra = if ew && r.n() > 0 { 1 } else { 0 };
    chk!(ctx, g.n() == r.n() + extra && g.start == r.start, "encoded-structure", "{}", g.dump());
    if ctx.failed() {
        return;
    }
    for q in 0..r.n() {
        let (want, got) = (&r.st[q], &g.st[q]);
        let nf = if ew && r.is_fin(q) { 1 } else { 0 };
        chk!(ctx, got.arcs.len() == want.arcs.len() + nf, "encoded-structure", "state {}: {}", q, g.dump());
        if ctx.failed() {
            return;
        }
        for (a, b) in want.arcs.iter().zip(got.arcs.iter()) {
            let t = (a.il, if el { a.ol } else { 0 }, if ew { format!("{:?}", a.w) } else { String::new() });
            chk!(ctx, bij(b.il, t), "code-not-bijective", "state {} transition {:?} became {:?}; {}", q, a, b, g.dump());
            chk!(ctx, b.ol == if el { b.il } else { a.ol }, "encoded-output", "{:?} became {:?}", a, b);
            chk!(ctx, b.w.same(if ew { &one } else { &a.w }), "encoded-weight", "{:?} became {:?}", a, b);
            chk!(ctx, b.to == a.to, "encoded-structure", "{:?} became {:?}", a, b);
            ctx.count("transitions_encoded");
        }
        if nf == 1 {
            let b = got.arcs.last().unwrap();
            chk!(ctx, bij(b.il, (0, 0, format!("{:?}", r.fin(q)))) && b.to == r.n() && b.w.same(&one), "encoded-final", "state {}: {}", q, g.dump());
            chk!(ctx, !g.is_fin(q), "encoded-final", "state {} stays final: {}", q, g.dump());
            ctx.count("final_weights_encoded");
        } else if !ew {
            chk!(ctx, r.is_fin(q) == g.is_fin(q) && r.fin(q).same(&g.fin(q)), "encoded-final", "state {}: {}", q, g.dump());
        }
    }
    if ew && r.n() > 0 {
        chk!(ctx, g.fin(r.n()).same(&one), "encoded-final", "{}", g.dump());
    }
    // something done between encoding and decoding
    let step = rng.below(5);
    let mut want = r.clone();
    match step {
        1 => {
            if ctx.guard_ok("connect", || connect(&mut m)).is_none() {
                return;
            }
        }
        2 => tr_sort(&mut m, ILabelCompare {}),
        3 => {
            // an added state reached by an epsilon: epsilon stands for itself
            if let Some(st) = m.start() {
                let k = m.add_state();
                m.add_tr(k, Tr::new(0, 0, W::one(), st)).unwrap();
                m.set_start(k).unwrap();
                ctx.count("epsilon_added_to_encoded");
            }
        }
        4 => {
            // concatenation of the encoded machine with itself: the relation of the plain machine with itself
            if el && ew && !r.is_cyclic() && r.n() <= 4 {
                let m2 = m.clone();
                if ctx.guard_ok("concat", || concat::concat(&mut m, &m2)).is_none() {
                    return;
                }
                let n = r.n();
                for st in r.st.iter() {
                    let mut st = st.clone();
                    for a in st.arcs.iter_mut() {
                        a.to += n;
                    }
                    want.st.push(st);
                }
                if let Some(st) = r.start {
                    for q in 0..n {
                        if let Some(w) = want.st[q].fin.take() {
                            want.st[q].arcs.push(RArc { il: 0, ol: 0, w, to: st + n });
                        }
                    }
                }
                ctx.count("encoded_concatenated");
            }
        }
        _ => {}
    }
    if ctx.guard_ok("decode", || decode(&mut m, table)).is_none() {
        return;
    }
    if let Some(g) = ext(ctx, "decode", &m) {
        if want.trim().converges() {
            cmp_rel(ctx, "decode", &want, &g, 3);
        }
    }
    if let Some(g) = ext(ctx, "operand", &f) {
        if let Err(e) = r.same_structure(&g) {
            ctx.fail("operand-modified", e);
        }
    }
}

/// a weight that stands for a sum of (string, weight) pairs
trait Parts: Semiring {
    type R: RefW;
    fn parts(&self) -> Vec<(Vec<Label>, Self::R)>;
}
macro_rules! parts_str {
    ($t:ty) => {
        impl Parts for $t {
            type R = RBool;
            fn parts(&self) -> Vec<(Vec<Label>, RBool)> {
                if self.is_zero() {
                    vec![]
                } else {
                    vec![(self.value().unwrap_labels().clone(), RBool(true))]
                }
            }
        }
    };
}
parts_str!(StringWeightLeft);
parts_str!(StringWeightRight);
parts_str!(StringWeightRestrict);
macro_rules! parts_pair {
    ($t:ident) => {
        impl<W: Wt> Parts for $t<W> {
            type R = W::R;
            fn parts(&self) -> Vec<(Vec<Label>, W::R)> {
                if self.is_zero() {
                    vec![]
                } else {
                    vec![(self.value1().value().unwrap_labels().clone(), self.value2().to_ref())]
                }
            }
        }
    };
}
parts_pair!(GallicWeightLeft);
parts_pair!(GallicWeightRight);
parts_pair!(GallicWeightRestrict);
parts_pair!(GallicWeightMin);
impl<W: Wt> Parts for GallicWeight<W> {
    type R = W::R;
    fn parts(&self) -> Vec<(Vec<Label>, W::R)> {
        self.iter().flat_map(|g| g.parts()).collect()
    }
}

type SRel<R> = BTreeMap<(Vec<Label>, Vec<Label>), R>;
/// all paths of an acyclic machine, its output strings read off the weights; labels >= 100 are erased
fn srel<G: Parts, F: Fst<G>>(f: &F) -> Result<SRel<G::R>, String> {
    fn go<G: Parts, F: Fst<G>>(f: &F, q: StateId, i: Vec<Label>, acc: Vec<(Vec<Label>, G::R)>, out: &mut SRel<G::R>, n: &mut usize, depth: usize) -> Result<(), String> {
        *n += 1;
        if *n > 50000 || depth > 200 {
            return Err("too many paths".into());
        }
        let cross = |acc: &Vec<(Vec<Label>, G::R)>, w: &G| -> Vec<(Vec<Label>, G::R)> {
            let mut v = vec![];
            for (s, x) in acc {
                for (t, y) in w.parts() {
                    v.push((s.iter().chain(t.iter()).cloned().collect(), x.times(&y)));
                }
            }
            v
        };
        if let Some(w) = f.final_weight(q).map_err(|e| e.to_string())? {
            for (s, x) in cross(&acc, &w) {
                let k = (i.clone(), s);
                let v = match out.get(&k) {
                    Some(y) => y.plus(&x),
                    None => x,
                };
                out.insert(k, v);
            }
        }
        for t in f.get_trs(q).map_err(|e| e.to_string())?.trs() {
            let mut i = i.clone();
            if t.ilabel != 0 && t.ilabel < 100 {
                i.push(t.ilabel);
            }
            go(f, t.nextstate, i, cross(&acc, &t.weight), out, n, depth + 1)?;
        }
        Ok(())
    }
    let mut out = BTreeMap::new();
    if let Some(s) = f.start() {
        go(f, s, vec![], vec![(vec![], <G::R>::one())], &mut out, &mut 0, 0)?;
    }
    Ok(out)
}
fn srel_eq<R: RefW>(a: &SRel<R>, b: &SRel<R>) -> Result<(), String> {
    for (k, v) in a {
        match b.get(k) {
            Some(w) if v.same(w) => {}
            x => return Err(format!("{:?}: expected {:?}, got {:?}", k, v, x)),
        }
    }
    for k in b.keys() {
        if !a.contains_key(k) {
            return Err(format!("unexpected {:?}", k));
        }
    }
    Ok(())
}

fn gen_str(rng: &mut Rng) -> Vec<Label> {
    let k = *rng.pick(&[0, 0, 1, 1, 2, 3, 5]);
    (0..k).map(|_| 1 + rng.below(3) as Label).collect()
}

/// factoring a machine over G
fn factor<G: Parts + WeightQuantize, FI: FactorIterator<G> + 'static>(ctx: &mut Ctx, mut mk: impl FnMut(&mut Rng) -> G, single: fn(&G) -> bool) -> Option<(VectorFst<G>, VectorFst<G>, bool, bool)>
where
    G: 'static,
{
    let n = ctx.rng.range(1, 5);
    let mut f = VectorFst::<G>::new();
    f.add_states(n);
    f.set_start(0).unwrap();
    for q in 0..n {
        if q + 1 < n {
            for _ in 0..ctx.rng.range(0, 3) {
                let to = ctx.rng.range(q + 1, n - 1);
                let l = ctx.rng.below(3) as Label;
                let w = mk(&mut ctx.rng);
                f.add_tr(q as StateId, Tr::new(l, l, w, to as StateId)).unwrap();
            }
        }
        if q + 1 == n || ctx.rng.chance(1, 3) {
            let w = mk(&mut ctx.rng);
            f.set_final(q as StateId, w).unwrap();
        }
    }
    let (fa, ff) = *ctx.rng.pick(&[(true, true), (true, true), (true, false), (false, true)]);
    let mut mode = FactorWeightType::empty();
    if fa {
        mode |= FactorWeightType::FACTOR_ARC_WEIGHTS;
    }
    if ff {
        mode |= FactorWeightType::FACTOR_FINAL_WEIGHTS;
    }
    let mut opts = FactorWeightOptions::new(mode);
    let labelled = ctx.rng.chance(1, 3);
    if labelled {
        opts.final_ilabel = 100;
        opts.final_olabel = 200;
        opts.increment_final_ilabel = ctx.rng.bool();
        opts.increment_final_olabel = ctx.rng.bool();
    }
    let ty = std::any::type_name::<FI>().replace("rustfst::algorithms::factor_weight::factor_iterators::", "").replace("rustfst::semirings::", "");
    ctx.input = format!("factor {} arcs={} finals={} {:?} {:?}", ty, fa, ff, opts, f);
    let want = match srel(&f) {
        Ok(x) => x,
        Err(_) => {
            ctx.count("too_many_paths");
            return None;
        }
    };
    let h = {
        use std::hash::{Hash, Hasher};
        let mut h = std::collections::hash_map::DefaultHasher::new();
        ctx.input.hash(&mut h);
        h.finish()
    };
    if f.num_trs_total() >= 2 {
        ctx.distinct(h);
    }
    let smp = ctx.input.clone();
    ctx.sample(|| smp);
    let m = ctx.guard_ok("factor_weight", || factor_weight::<G, VectorFst<G>, _, VectorFst<G>, FI>(&f, opts.clone()))?;
    match srel(&m) {
        Ok(got) => {
            ctx.count("factored_relations_compared");
            if let Err(e) = srel_eq(&want, &got) {
                ctx.fail("factor-relation", format!("{}; result {:?}", e, m));
                return None;
            }
        }
        Err(e) => {
            ctx.fail("factor-relation", format!("{}; result {:?}", e, m));
            return None;
        }
    }
    for q in 0..m.num_states() as StateId {
        if fa {
            for t in m.get_trs(q).unwrap().trs() {
                chk!(ctx, single(&t.weight), "not-factored", "transition {:?} of state {} still has a composite weight; {:?}", t, q, m);
                ctx.count("factored_transitions");
            }
        }
        if ff {
            if let Some(w) = m.final_weight(q).unwrap() {
                chk!(ctx, single(&w), "not-factored", "final weight {:?} of state {} is still composite; {:?}", w, q, m);
                ctx.count("factored_final_weights");
            }
        }
    }
    if let Some(lz) = ctx.guard_ok("factor_weight-lazy", || FactorWeightFst::<G, VectorFst<G>, VectorFst<G>, FI>::new(f.clone(), opts)) {
        if let Some(Ok(got)) = ctx.guard("factor_weight-lazy", || srel(&lz)) {
            if let Err(e) = srel_eq(&want, &got) {
                ctx.fail("factor-relation-lazy", e);
            }
        }
    }
    if labelled {
        return None;
    }
    Some((f, m, fa, ff))
}

trait NumTrs {
    fn num_trs_total(&self) -> usize;
}
impl<G: Semiring> NumTrs for VectorFst<G> {
    fn num_trs_total(&self) -> usize {
        (0..self.num_states() as StateId).map(|q| self.num_trs(q).unwrap()).sum()
    }
}

fn case_factor_string(ctx: &mut Ctx) {
    match ctx.rng.below(3) {
        0 => {
            factor::<StringWeightLeft, StringFactorLeft>(ctx, |r| gen_str(r).into(), |w| w.value().unwrap_labels().len() <= 1);
        }
        1 => {
            factor::<StringWeightRight, StringFactorRight>(ctx, |r| gen_str(r).into(), |w| w.value().unwrap_labels().len() <= 1);
        }
        _ => {
            factor::<StringWeightRestrict, StringFactorRestrict>(ctx, |r| gen_str(r).into(), |w| w.value().unwrap_labels().len() <= 1);
        }
    }
}

fn case_factor_gallic<W: FullW + Semiring<Type = f32>>(ctx: &mut Ctx) {
    // sometimes residual weights that differ by little, but by more than delta
    let fine = ctx.rng.chance(1, 3);
    let gen_w = move |r: &mut Rng| {
        let w = W::gen(r, WProfile::Normal);
        if fine {
            W::new(*w.value() % 0.5 + r.below(16) as f32 / 64.0)
        } else {
            w
        }
    };
    macro_rules! go {
        ($g:ident, $f:ident, $s:ident) => {{
            if let Some((f, m, true, true)) = factor::<$g<W>, $f<W>>(ctx, |r| (<$s>::from(gen_str(r)), gen_w(r)).into(), |w| w.parts().iter().all(|p| p.0.len() <= 1) && w.parts().len() <= 1) {
                from_gallic(ctx, &f, &m);
            }
        }};
    }
    fn from_gallic<W: FullW, G: Parts<R = W::R>>(ctx: &mut Ctx, f: &VectorFst<G>, m: &VectorFst<G>)
    where
        FromGallicConverter: WeightConverter<G, W>,
    {
        let Some(t) = ctx.guard_ok("from-gallic", || weight_convert::<G, W, _, V<W>, _>(m, &mut FromGallicConverter { superfinal_label: 0 })) else { return };
        let (Some(g), Ok(want)) = (ext(ctx, "from-gallic", &t), srel(f)) else { return };
        match g.relation(40, 40, 100000) {
            Some(rel) => {
                ctx.count("factored_and_converted");
                let got: SRel<W::R> = rel.into_iter().collect();
                let want: SRel<W::R> = want.into_iter().filter(|(_, w)| !w.is_zero()).collect();
                if let Err(e) = srel_eq(&want, &got) {
                    ctx.fail("from-gallic-relation", format!("{}; result {}", e, g.dump()));
                }
            }
            None => ctx.count("too_many_paths"),
        }
    }
    match ctx.rng.below(5) {
        0 => go!(GallicWeightLeft, GallicFactorLeft, StringWeightLeft),
        1 => go!(GallicWeightRight, GallicFactorRight, StringWeightRight),
        2 => go!(GallicWeightRestrict, GallicFactorRestrict, StringWeightRestrict),
        3 => go!(GallicWeightMin, GallicFactorMin, StringWeightRestrict),
        _ => {
            let x = factor::<GallicWeight<W>, GallicFactor<W>>(
                ctx,
                |r| {
                    let mut m: BTreeMap<(usize, Vec<Label>), GallicWeightRestrict<W>> = BTreeMap::new();
                    for _ in 0..r.range(1, 3) {
                        let s = gen_str(r);
                        let w = gen_w(r);
                        m.insert((s.len(), s.clone()), (StringWeightRestrict::from(s), w).into());
                    }
                    if m.len() > 1 {
                        GallicWeight::new(m.into_values().collect())
                    } else {
                        m.into_values().next().unwrap().into()
                    }
                },
                |w| w.parts().len() <= 1 && w.parts().iter().all(|p| p.0.len() <= 1),
            );
            if let Some((f, m, true, true)) = x {
                from_gallic(ctx, &f, &m);
            }
        }
    }
}

/// W -> string-and-weight -> W on the same structure
fn case_gallic<W: Wt>(ctx: &mut Ctx) {
    let mut c = GenCfg::new();
    c.nmax = ctx.rng.range(1, 6);
    c.arcs_per_state = ctx.rng.range(1, 3);
    c.p_nostart = 3;
    let s: Spec<W> = gen_spec(&mut ctx.rng, &c);
    let v = ctx.rng.below(5);
    ctx.input = format!("gallic {} {} {}", v, W::NAME, s.dump());
    let r = s.to_ref();
    if r.narcs() >= 2 {
        ctx.distinct(s.hash() ^ v as u64);
    }
    let mut rng = ctx.rng.fork();
    let f = s.build_var(&mut rng);
    macro_rules! go {
        ($g:ident) => {{
            let Some(a) = ctx.guard_ok("to-gallic", || weight_convert::<W, $g<W>, _, VectorFst<$g<W>>, _>(&f, &mut ToGallicConverter {})) else { return };
            let Some(b) = ctx.guard_ok("from-gallic", || weight_convert::<$g<W>, W, _, V<W>, _>(&a, &mut FromGallicConverter { superfinal_label: if rng.bool() { 0 } else { 77 } })) else { return };
            if r.start.is_none() {
                chk!(ctx, a.start().is_none() && b.start().is_none(), "start-invented", "");
                return;
            }
            chk!(ctx, a.num_states() == r.n() && a.start() == r.start.map(|x| x as StateId), "to-gallic-structure", "{:?}", a);
            if ctx.failed() {
                return;
            }
            for q in 0..r.n() {
                let trs = a.get_trs(q as StateId).unwrap();
                chk!(ctx, trs.len() == r.st[q].arcs.len(), "to-gallic-structure", "{:?}", a);
                for (x, t) in r.st[q].arcs.iter().zip(trs.trs().iter()) {
                    let p = t.weight.parts();
                    let ok = t.ilabel == x.il && t.olabel == x.il && t.nextstate as usize == x.to && p.len() == 1 && p[0].1.same(&x.w) && p[0].0 == if x.ol == 0 { vec![] } else { vec![x.ol] };
                    chk!(ctx, ok, "to-gallic-transition", "{:?} became {:?}", x, t);
                }
                match a.final_weight(q as StateId).unwrap() {
                    None => chk!(ctx, !r.is_fin(q), "to-gallic-final", "{}", q),
                    Some(w) => {
                        let p = w.parts();
                        chk!(ctx, p.len() == 1 && p[0].0.is_empty() && p[0].1.same(&r.fin(q)), "to-gallic-final", "{:?}", w);
                    }
                }
            }
            ctx.count("gallic_structures_compared");
            if let Some(g) = ext(ctx, "from-gallic", &b) {
                if let Err(e) = r.same_structure(&g) {
                    ctx.fail("gallic-round-trip", format!("{}; result: {}", e, g.dump()));
                }
            }
        }};
    }
    match v {
        0 => go!(GallicWeightLeft),
        1 => go!(GallicWeightRight),
        2 => go!(GallicWeightRestrict),
        3 => go!(GallicWeightMin),
        _ => go!(GallicWeight),
    }
}

/// identity factoring and same-value conversion change nothing
fn case_simple(ctx: &mut Ctx) {
    let mut c = GenCfg::new();
    c.nmax = 5;
    let s: Spec<TropicalWeight> = gen_spec(&mut ctx.rng, &c);
    ctx.input = format!("simple {}", s.dump());
    let f = s.build();
    let r = s.to_ref();
    if let Some(m) = ctx.guard_ok("simple-convert", || weight_convert::<TropicalWeight, LogWeight, _, V<LogWeight>, _>(&f, &mut SimpleWeightConverter {})) {
        if let (Some(g), true) = (ext(ctx, "simple-convert", &m), r.start.is_some()) {
            let mut ok = g.n() == r.n() && g.start == r.start && g.narcs() == r.narcs();
            for q in 0..r.n().min(g.n()) {
                ok &= g.is_fin(q) == r.is_fin(q) && (!r.is_fin(q) || g.fin(q).0 == r.fin(q).0);
                ok &= g.st[q].arcs.iter().zip(r.st[q].arcs.iter()).all(|(a, b)| a.il == b.il && a.ol == b.ol && a.w.0 == b.w.0 && a.to == b.to);
            }
            chk!(ctx, ok, "simple-convert", "{}", g.dump());
            ctx.count("simple_conversions");
        }
    }
    let opts = FactorWeightOptions::new(FactorWeightType::FACTOR_ARC_WEIGHTS | FactorWeightType::FACTOR_FINAL_WEIGHTS);
    if let Some(m) = ctx.guard_ok("identity-factor", || factor_weight::<_, V<TropicalWeight>, _, V<TropicalWeight>, IdentityFactor<TropicalWeight>>(&f, opts)) {
        if let Some(g) = ext(ctx, "identity-factor", &m) {
            cmp_rel(ctx, "identity-factor", &r, &g, 3);
        }
    }
}

pub fn case(ctx: &mut Ctx) {
    match ctx.rng.below(12) {
        0 => case_factor_string(ctx),
        1..=3 => with_w!(ctx, case_factor_gallic, [TropicalWeight, LogWeight]),
        4..=5 => with_w!(ctx, case_gallic, [TropicalWeight, LogWeight, ProbabilityWeight, BooleanWeight, IntegerWeight]),
        6 => case_simple(ctx),
        _ => with_w!(ctx, case_encode, [TropicalWeight, TropicalWeight, LogWeight, ProbabilityWeight, BooleanWeight, IntegerWeight]),
    }
}

fn main() {
    run(Prop {
        id: "C15",
        quick: 1_500_000,
        thorough: 15_000_000,
        rule: "random transducers over 5 semirings with repeated labels and weights, encoded with each type, optionally changed, then decoded; acyclic machines over string and string-and-weight semirings with multi-symbol weights, factored in every mode by every factor iterator and converted back. Monitors: the code is a bijection per transition, nothing else changes, the relation (output strings read off the weights) is kept, factored weights carry at most one symbol. Non-trivial: >=2 transitions.",
        case,
        must: &["transitions_encoded", "final_weights_encoded", "relations_compared:decode", "epsilon_added_to_encoded", "encoded_concatenated", "factored_relations_compared", "factored_transitions", "factored_final_weights", "factored_and_converted", "gallic_structures_compared", "simple_conversions", "relations_compared:identity-factor"],
        assumptions: &["factoring is judged on acyclic machines: on a cycle that writes several symbols per turn it has no finite result"],
        ..DEFAULT
    });
}
