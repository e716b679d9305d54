//! C14: operations that act path by path or transition by transition.
use anyhow::Result;
use fstmon::driver::*;
use fstmon::gen::*;
use fstmon::ops::{FullW, V};
use fstmon::reffst::*;
use fstmon::refw::*;
use fstmon::util::*;
use fstmon::{chk, with_w};
use rustfst::algorithms::tr_mappers::*;
use rustfst::algorithms::*;
use rustfst::fst_properties::FstProperties;
use rustfst::prelude::*;
use rustfst::semirings::{StringWeightLeft, StringWeightRight};
use std::collections::BTreeMap;

fn same<R: RefW>(ctx: &mut Ctx, op: &str, want: &RFst<R>, got: &RFst<R>) {
    ctx.count(&format!("structures_compared:{}", op));
    if let Err(e) = want.same_structure(got) {
        ctx.fail(&format!("structure:{}", op), format!("{}; result: {}", e, got.dump()));
    }
}

fn arcs<R: RefW>(r: &RFst<R>, f: impl Fn(&mut RArc<R>)) -> RFst<R> {
    let mut g = r.clone();
    for q in g.st.iter_mut() {
        for a in q.arcs.iter_mut() {
            f(a);
        }
    }
    g
}
fn weights<R: RefW>(r: &RFst<R>, f: impl Fn(&R) -> R) -> RFst<R> {
    let mut g = arcs(r, |a| a.w = f(&a.w));
    for q in g.st.iter_mut() {
        q.fin = q.fin.as_ref().map(&f);
    }
    g
}

/// a user's mapper: relabels, and turns final weights into transitions to a super-final state
#[derive(Clone)]
struct Superfinal {
    label: Label,
    require: bool,
    shift: Label,
}
impl<W: Semiring> TrMapper<W> for Superfinal {
    fn tr_map(&self, tr: &mut Tr<W>) -> Result<()> {
        tr.ilabel += self.shift;
        tr.olabel += self.shift;
        Ok(())
    }
    fn final_tr_map(&self, t: &mut FinalTr<W>) -> Result<()> {
        t.ilabel = self.label;
        t.olabel = self.label;
        Ok(())
    }
    fn final_action(&self) -> MapFinalAction {
        if self.require {
            MapFinalAction::MapRequireSuperfinal
        } else {
            MapFinalAction::MapAllowSuperfinal
        }
    }
    fn properties(&self, _p: FstProperties) -> FstProperties {
        FstProperties::empty()
    }
}
impl<W: Semiring> WeightConverter<W, W> for Superfinal {
    fn tr_map(&mut self, tr: &Tr<W>) -> Result<Tr<W>> {
        let mut t = tr.clone();
        TrMapper::<W>::tr_map(self, &mut t)?;
        Ok(t)
    }
    fn final_tr_map(&mut self, t: &FinalTr<W>) -> Result<FinalTr<W>> {
        let mut t = t.clone();
        TrMapper::<W>::final_tr_map(self, &mut t)?;
        Ok(t)
    }
    fn final_action(&self) -> MapFinalAction {
        TrMapper::<W>::final_action(self)
    }
    fn properties(&self, _p: FstProperties) -> FstProperties {
        FstProperties::empty()
    }
}

fn groups<R: RefW>(q: &RSt<R>) -> BTreeMap<(u32, u32, usize), Vec<R>> {
    let mut m: BTreeMap<(u32, u32, usize), Vec<R>> = BTreeMap::new();
    for a in &q.arcs {
        m.entry((a.il, a.ol, a.to)).or_default().push(a.w.clone());
    }
    m
}

fn case_w<W: Wt>(ctx: &mut Ctx)
where
    W: Semiring<ReverseWeight = W>,
{
    let mut c = GenCfg::new();
    c.nmax = ctx.rng.range(2, 6);
    c.acyclic = !W::CYCLE_OK || ctx.rng.chance(1, 3);
    c.acceptor = ctx.rng.chance(1, 4);
    c.arcs_per_state = ctx.rng.range(1, 4);
    c.p_dup = *ctx.rng.pick(&[20, 60]);
    c.p_nostart = 4;
    c.alpha = *ctx.rng.pick(&[1, 2, 3]);
    c.eps_i = *ctx.rng.pick(&[20, 50]);
    c.eps_o = *ctx.rng.pick(&[20, 50]);
    if ctx.rng.chance(1, 5) {
        c.prof = WProfile::Unweighted;
        c.acyclic |= !W::IDEMP;
    }
    if enlarge(&mut ctx.rng, &mut c, 60, 36) {
        ctx.count("large_machines");
    }
    let s: Spec<W> = gen_spec(&mut ctx.rng, &c);
    ctx.input = format!("{} {}", W::NAME, s.dump());
    let r = s.to_ref();
    if r.narcs() >= 2 {
        ctx.distinct(s.hash());
    }
    let smp = ctx.input.clone();
    ctx.sample(|| smp);
    let mut rng = ctx.rng.fork();
    let f = s.build_var(&mut rng);
    let conv = r.trim().converges();

    // reversal
    if let Some(m) = ctx.guard_ok("reverse", || reverse::<W, _, V<W>>(&f)) {
        if let Some(g) = ext(ctx, "reverse", &m) {
            if conv {
                if let Some(rel) = r.relation(3, 3, 20000) {
                    let want: Rel<W::R> = rel.into_iter().map(|((x, y), w)| ((x.into_iter().rev().collect(), y.into_iter().rev().collect()), w)).collect();
                    cmp_given(ctx, "reverse", &want, &g, 3);
                }
            }
            if let Some(m2) = ctx.guard_ok("reverse-twice", || reverse::<W, _, V<W>>(&m)) {
                if let (true, Some(g2)) = (conv, ext(ctx, "reverse-twice", &m2)) {
                    cmp_rel(ctx, "reverse-twice", &r, &g2, 3);
                }
            }
        }
    }
    // inversion, projection
    {
        let mut m = f.clone();
        if ctx.guard("invert", || invert(&mut m)).is_some() {
            if let Some(g) = ext(ctx, "invert", &m) {
                same(ctx, "invert", &arcs(&r, |a| std::mem::swap(&mut a.il, &mut a.ol)), &g);
            }
        }
        for out in [false, true] {
            let mut m = f.clone();
            let op = if out { "project-output" } else { "project-input" };
            if ctx.guard(op, || project(&mut m, if out { ProjectType::ProjectOutput } else { ProjectType::ProjectInput })).is_some() {
                if let Some(g) = ext(ctx, op, &m) {
                    same(ctx, op, &arcs(&r, |a| if out { a.il = a.ol } else { a.ol = a.il }), &g);
                }
            }
        }
    }
    // relabelling
    {
        let mk = |rng: &mut fstmon::rng::Rng| -> BTreeMap<u32, u32> {
            let mut m = BTreeMap::new();
            for _ in 0..rng.below(4) {
                m.insert(rng.below(4) as u32, rng.below(5) as u32);
            }
            m
        };
        let (mi, mo) = (mk(&mut rng), mk(&mut rng));
        let mut m = f.clone();
        if ctx.guard_ok("relabel", || relabel_pairs(&mut m, mi.iter().map(|(a, b)| (*a, *b)).collect::<Vec<_>>(), mo.iter().map(|(a, b)| (*a, *b)).collect::<Vec<_>>())).is_some() {
            if let Some(g) = ext(ctx, "relabel", &m) {
                let want = arcs(&r, |a| {
                    a.il = *mi.get(&a.il).unwrap_or(&a.il);
                    a.ol = *mo.get(&a.ol).unwrap_or(&a.ol);
                });
                same(ctx, "relabel", &want, &g);
            }
        }
        if rng.chance(1, 20) {
            let mut m = f.clone();
            if let Some(x) = ctx.guard("relabel-twice", || relabel_pairs(&mut m, vec![(1, 2), (1, 3)], vec![])) {
                chk!(ctx, x.is_err(), "ambiguous-relabelling-accepted", "label 1 mapped to 2 and to 3");
                ctx.count("ambiguous_relabelling");
            }
        }
    }
    // mappers
    macro_rules! mapper {
        ($op:expr, $m:expr, $want:expr) => {{
            let want: RFst<W::R> = $want;
            let mut m = f.clone();
            let mut mp = $m;
            if ctx.guard_ok($op, || tr_map(&mut m, &mp)).is_some() {
                if let Some(g) = ext(ctx, $op, &m) {
                    same(ctx, $op, &want, &g);
                }
            }
            if let Some(m) = ctx.guard_ok($op, || weight_convert::<W, W, _, V<W>, _>(&f, &mut mp)) {
                // conversion drops nothing of a machine that has a start state
                if r.start.is_some() {
                    if let Some(g) = ext(ctx, $op, &m) {
                        same(ctx, concat!($op, "-convert"), &want, &g);
                    }
                }
            }
        }};
    }
    let k = W::gen(&mut rng, WProfile::Normal);
    let kr = k.to_ref();
    match rng.below(6) {
        0 => mapper!("map-identity", IdentityTrMapper {}, r.clone()),
        1 => mapper!("map-input-epsilon", InputEpsilonMapper {}, arcs(&r, |a| a.il = 0)),
        2 => mapper!("map-output-epsilon", OutputEpsilonMapper {}, arcs(&r, |a| a.ol = 0)),
        3 => mapper!("map-plus", PlusMapper::from_weight(k.clone()), weights(&r, |w| w.plus(&kr))),
        4 => mapper!("map-times", TimesMapper::from_weight(k.clone()), weights(&r, |w| w.times(&kr))),
        _ => mapper!("map-rmweight", RmWeightMapper {}, weights(&r, |w| if w.is_zero() { w.clone() } else { <W::R>::one() })),
    }
    {
        let mut mp = Superfinal { label: if rng.bool() { 0 } else { 9 }, require: rng.bool(), shift: rng.below(2) as Label * 10 };
        let op = if mp.require { "map-require-superfinal" } else { "map-allow-superfinal" };
        let mut want = arcs(&r, |a| {
            a.il += mp.shift;
            a.ol += mp.shift;
        });
        if mp.require || mp.label != 0 {
            let k = want.n();
            want.st.push(RSt { fin: Some(<W::R>::one()), arcs: vec![] });
            for q in 0..k {
                if let Some(w) = want.st[q].fin.take() {
                    want.st[q].arcs.push(RArc { il: mp.label, ol: mp.label, w, to: k });
                }
            }
        }
        let cv = want.trim().converges();
        let mut m = f.clone();
        if ctx.guard_ok(op, || tr_map(&mut m, &mp)).is_some() && cv {
            if let Some(g) = ext(ctx, op, &m) {
                cmp_rel(ctx, op, &want, &g, 3);
            }
        }
        if let Some(m) = ctx.guard_ok(op, || weight_convert::<W, W, _, V<W>, _>(&f, &mut mp)) {
            if let (true, Some(g)) = (cv, ext(ctx, op, &m)) {
                cmp_rel(ctx, &format!("{}-convert", op), &want, &g, 3);
            }
        }
    }
    // parallel transitions
    {
        let mut m = f.clone();
        if ctx.guard("tr_sum", || tr_sum(&mut m)).is_some() {
            if let Some(g) = ext(ctx, "tr_sum", &m) {
                let mut want = r.clone();
                for q in 0..r.n() {
                    let gr = groups(&r.st[q]);
                    if gr.values().any(|v| v.len() > 1) {
                        ctx.count("parallel_transitions");
                    }
                    want.st[q].arcs = gr.into_iter().map(|((il, ol, to), ws)| RArc { il, ol, to, w: ws.iter().skip(1).fold(ws[0].clone(), |a, b| a.plus(b)) }).collect();
                }
                ctx.count("structures_compared:tr_sum");
                if let Err(e) = want.same_up_to_order(&g) {
                    ctx.fail("structure:tr_sum", format!("{}; result {}", e, g.dump()));
                }
            }
        }
        let mut m = f.clone();
        if ctx.guard("tr_unique", || tr_unique(&mut m)).is_some() {
            if let Some(g) = ext(ctx, "tr_unique", &m) {
                let mut want = r.clone();
                for q in 0..r.n() {
                    want.st[q].arcs.clear();
                    for ((il, ol, to), ws) in groups(&r.st[q]) {
                        let mut kept: Vec<W::R> = vec![];
                        for w in ws {
                            if !kept.iter().any(|x| x.exactly(&w)) {
                                kept.push(w.clone());
                                want.st[q].arcs.push(RArc { il, ol, to, w });
                            }
                        }
                    }
                }
                ctx.count("structures_compared:tr_unique");
                if let Err(e) = want.same_up_to_order(&g) {
                    ctx.fail("structure:tr_unique", format!("{}; result {}", e, g.dump()));
                }
            }
        }
    }
    // super-final state, final epsilons
    {
        let mut m = f.clone();
        if let Some(sf) = ctx.guard("super_final", || add_super_final_state(&mut m)) {
            if let Some(g) = ext(ctx, "super_final", &m) {
                let fin: Vec<usize> = (0..g.n()).filter(|q| g.is_fin(*q)).collect();
                chk!(ctx, fin == vec![sf as usize], "several-finals", "final states {:?}, returned {}; {}", fin, sf, g.dump());
                chk!(ctx, g.n() > sf as usize && g.fin(sf as usize).same(&<W::R>::one()), "super-final-weight", "{}", g.dump());
                if conv {
                    cmp_rel(ctx, "super_final", &r, &g, 3);
                }
            }
        }
        let mut m = f.clone();
        if ctx.guard_ok("rm_final_epsilon", || rm_final_epsilon(&mut m)).is_some() {
            if let (true, Some(g)) = (conv, ext(ctx, "rm_final_epsilon", &m)) {
                cmp_rel(ctx, "rm_final_epsilon", &r, &g, 3);
            }
        }
    }
    if let Some(g) = ext(ctx, "operand", &f) {
        if let Err(e) = r.same_structure(&g) {
            ctx.fail("operand-modified", e);
        }
    }
}

/// weights whose product depends on the order: the weight of each path must be multiplied in order
fn case_string(ctx: &mut Ctx) {
    let n = ctx.rng.range(1, 6);
    let mut f = VectorFst::<StringWeightRight>::new();
    f.add_states(n + 1);
    f.set_start(0).unwrap();
    let mut total: Vec<Label> = vec![];
    let mut inp: Vec<Label> = vec![];
    let mut out: Vec<Label> = vec![];
    let mut next = 1;
    let mut w = |rng: &mut fstmon::rng::Rng, total: &mut Vec<Label>| {
        let k = rng.below(3);
        let v: Vec<Label> = (0..k)
            .map(|_| {
                next += 1;
                next
            })
            .collect();
        total.extend(v.iter());
        StringWeightRight::from(v)
    };
    for q in 0..n {
        let wt = w(&mut ctx.rng, &mut total);
        let (i, o) = if ctx.rng.chance(1, 3) { (0, 0) } else { (ctx.rng.below(3) as Label, ctx.rng.below(3) as Label) };
        if i != 0 {
            inp.push(i);
        }
        if o != 0 {
            out.push(o);
        }
        f.add_tr(q as StateId, Tr::new(i, o, wt, (q + 1) as StateId)).unwrap();
    }
    let fw = w(&mut ctx.rng, &mut total);
    f.set_final(n as StateId, fw).unwrap();
    ctx.input = format!("string weights {:?}", f);
    fn walk<W: Semiring, F: ExpandedFst<W>>(f: &F) -> Option<(Vec<Label>, Vec<Label>, W)> {
        let mut q = f.start()?;
        let mut w = W::one();
        let (mut i, mut o) = (vec![], vec![]);
        for _ in 0..100 {
            let trs = f.get_trs(q).ok()?;
            if trs.trs().is_empty() {
                w.times_assign(f.final_weight(q).ok()??).ok()?;
                return Some((i, o, w));
            }
            let t = &trs.trs()[0];
            if t.ilabel != 0 {
                i.push(t.ilabel);
            }
            if t.olabel != 0 {
                o.push(t.olabel);
            }
            w.times_assign(&t.weight).ok()?;
            q = t.nextstate;
        }
        None
    }
    let want = (inp, out, StringWeightRight::from(total.clone()));
    let mut ops: Vec<(&str, VectorFst<StringWeightRight>)> = vec![("identity", f.clone())];
    let mut m = f.clone();
    if ctx.guard_ok("rm_final_epsilon-order", || rm_final_epsilon(&mut m)).is_some() {
        ops.push(("rm_final_epsilon-order", m));
    }
    let mut m = f.clone();
    if ctx.guard_ok("rm_epsilon-order", || rm_epsilon::rm_epsilon(&mut m)).is_some() {
        ops.push(("rm_epsilon-order", m));
    }
    let mut m = f.clone();
    if ctx.guard("super_final-order", || add_super_final_state(&mut m)).is_some() {
        ops.push(("super_final-order", m));
    }
    let mut m = f.clone();
    if ctx.guard_ok("push_weights-order", || push_weights(&mut m, ReweightType::ReweightToFinal)).is_some() {
        ops.push(("push_weights-order", m));
    }
    if let Some(m) = ctx.guard_ok("reverse-order", || {
        let a: VectorFst<StringWeightLeft> = reverse(&f)?;
        let b: VectorFst<StringWeightRight> = reverse(&a)?;
        Ok(b)
    }) {
        ops.push(("reverse-order", m));
    }
    if let Some(a) = ctx.guard_ok("reverse-once", || reverse::<_, _, VectorFst<StringWeightLeft>>(&f)) {
        let mut t2 = total.clone();
        t2.reverse();
        let g = walk(&a);
        let w = (want.0.iter().rev().cloned().collect::<Vec<_>>(), want.1.iter().rev().cloned().collect::<Vec<_>>(), StringWeightLeft::from(t2));
        chk!(ctx, g == Some(w.clone()), "order:reverse", "{:?} instead of {:?}", g, w);
    }
    for (op, m) in ops {
        let g = walk(&m);
        chk!(ctx, g.as_ref() == Some(&want), &format!("order:{}", op), "{:?} instead of {:?}; {:?}", g, want, m);
        ctx.count(&format!("ordered_products:{}", op));
    }
}

/// mappers that need division or quantisation
fn case_full<W: FullW>(ctx: &mut Ctx)
where
    W::R: Num,
{
    let mut c = GenCfg::new();
    c.nmax = 5;
    let s: Spec<W> = gen_spec(&mut ctx.rng, &c);
    ctx.input = format!("{} {}", W::NAME, s.dump());
    let r = s.to_ref();
    let mut rng = ctx.rng.fork();
    let f = s.build_var(&mut rng);
    let mut m = f.clone();
    if ctx.guard_ok("map-invert", || tr_map(&mut m, &InvertWeightMapper {})).is_some() {
        if let Some(g) = ext(ctx, "map-invert", &m) {
            same(ctx, "map-invert", &weights(&r, |w| w.map(|x| -x)), &g);
        }
    }
    let delta = *rng.pick(&[1.0f32 / 1024.0, 0.5, 0.3]);
    let mut m = f.clone();
    if ctx.guard_ok("map-quantize", || tr_map(&mut m, &QuantizeMapper::new(delta))).is_some() {
        if let Some(g) = ext(ctx, "map-quantize", &m) {
            chk!(ctx, g.n() == r.n() && g.narcs() == r.narcs() && g.start == r.start, "structure:map-quantize", "{}", g.dump());
            if !ctx.failed() {
                let d = delta as f64;
                for q in 0..r.n() {
                    let mut pairs: Vec<(W::R, W::R)> = r.st[q].arcs.iter().zip(g.st[q].arcs.iter()).map(|(a, b)| (a.w.clone(), b.w.clone())).collect();
                    chk!(ctx, r.is_fin(q) == g.is_fin(q), "structure:map-quantize", "{}", g.dump());
                    if r.is_fin(q) && g.is_fin(q) {
                        pairs.push((r.fin(q), g.fin(q)));
                    }
                    for (a, b) in pairs {
                        let (x, y) = (a.get(), b.get());
                        let grid = (y / d - (y / d).round()).abs() < 1e-3;
                        chk!(ctx, (x - y).abs() <= d / 2.0 + 1e-4 && grid, "quantize", "{} became {} with delta {}", x, y, d);
                        ctx.count("weights_quantized");
                    }
                }
            }
        }
    }
}
trait Num: RefW {
    fn get(&self) -> f64;
    fn map(&self, f: impl Fn(f64) -> f64) -> Self;
}
impl Num for RTrop {
    fn get(&self) -> f64 {
        self.0
    }
    fn map(&self, f: impl Fn(f64) -> f64) -> Self {
        RTrop(f(self.0))
    }
}
impl Num for RLog {
    fn get(&self) -> f64 {
        self.0
    }
    fn map(&self, f: impl Fn(f64) -> f64) -> Self {
        RLog(f(self.0))
    }
}

pub fn case(ctx: &mut Ctx) {
    match ctx.rng.below(12) {
        0 => case_string(ctx),
        1 => with_w!(ctx, case_full, [TropicalWeight, LogWeight]),
        _ => with_w!(ctx, case_w, [TropicalWeight, TropicalWeight, LogWeight, ProbabilityWeight, BooleanWeight, IntegerWeight]),
    }
}

fn main() {
    run(Prop {
        id: "C14",
        quick: 800_000,
        thorough: 15_000_000,
        rule: "random transducers over 5 semirings with parallel transitions and epsilons; every transformed machine is compared transition by transition (or, for reversal, super-final states and final epsilons, by its relation on all string pairs of length <=3) with an independent computation; ordered products are checked with string weights. Non-trivial: >=2 transitions.",
        case,
        must: &["relations_compared:reverse", "structures_compared:invert", "structures_compared:relabel", "structures_compared:map-times", "structures_compared:map-times-convert", "parallel_transitions", "structures_compared:tr_unique", "relations_compared:super_final", "relations_compared:rm_final_epsilon", "ordered_products:rm_final_epsilon-order", "relations_compared:map-require-superfinal", "weights_quantized", "ambiguous_relabelling"],
        assumptions: &["inputs whose path sums diverge are compared structurally only"],
        ..DEFAULT
    });
}
