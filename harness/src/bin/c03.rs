//! C03: reported structural knowledge is true.
use fstmon::driver::*;
use fstmon::gen::*;
use fstmon::hist::*;
use fstmon::ops::*;
use fstmon::reffst::*;
use fstmon::refw::*;
use fstmon::with_w;
use rustfst::algorithms::closure::{ClosureFst, ClosureType};
use rustfst::algorithms::compose::ComposeFst;
use rustfst::algorithms::concat::ConcatFst;
use rustfst::algorithms::factor_weight::factor_iterators::*;
use rustfst::algorithms::factor_weight::*;
use rustfst::algorithms::weight_convert;
use rustfst::algorithms::weight_converters::*;
use rustfst::algorithms::replace::ReplaceFst;
use rustfst::algorithms::rm_epsilon::RmEpsilonFst;
use rustfst::algorithms::union::UnionFst;
use rustfst::fst_properties::{compute_fst_properties, FstProperties};
use rustfst::prelude::*;

fn check<W: Wt, F: ExpandedFst<W>>(ctx: &mut Ctx, op: &str, f: &F) -> bool {
    let r = match extract::<W, F>(f) {
        Ok(r) => r,
        Err(e) => {
            ctx.fail(&format!("malformed:{}", op), e);
            return false;
        }
    };
    match check_props(&r, f.properties()) {
        Ok(k) => {
            ctx.count("machines_judged");
            ctx.add("known_bits_judged", k as u64);
            true
        }
        Err(e) => {
            let bit: String = e.clone();
            ctx.fail(&format!("false-property:{}", op), format!("{} on {}", bit, r.dump()));
            false
        }
    }
}

fn compute_all<W: Wt, F: ExpandedFst<W>>(ctx: &mut Ctx, op: &str, f: &F, mask: FstProperties, stored: bool) {
    let r = match extract::<W, F>(f) {
        Ok(r) => r,
        Err(_) => return,
    };
    let mut known = FstProperties::empty();
    if let Some(p) = ctx.guard_ok("compute_fst_properties", || compute_fst_properties(f, mask, &mut known, stored)) {
        ctx.count("computations_judged");
        // every requested pair is known
        for (a, b) in PAIRS {
            if mask.intersects(*a | *b) && !(p.intersects(*a | *b) && known.intersects(*a | *b)) {
                ctx.fail(&format!("unknown-after-compute:{}", op), format!("{:?} asked for, answer {:?} known {:?} on {}", *a | *b, p, known, r.dump()));
                return;
            }
        }
        if let Err(e) = check_props(&r, p) {
            ctx.fail(&format!("false-computed:{}", op), format!("{} on {}", e, r.dump()));
        }
    }
}

fn hist_case<W: Wt>(ctx: &mut Ctx) {
    let c = HistCfg {
        lowlevel: false,
        ops: ctx.rng.range(4, 25),
        alpha: 2,
        nmax: ctx.rng.range(2, 5),
        wild: ctx.rng.bool(),
    };
    let g = GenCfg { nmax: 5, p_nostart: 10, prof: if c.wild { WProfile::Wild } else { WProfile::Normal }, ..GenCfg::new() };
    let m: Spec<W> = if ctx.rng.bool() { gen_spec(&mut ctx.rng, &g) } else { Spec { start: None, fin: vec![], arcs: vec![] } };
    let mut s = Slot { f: m.build(), m };
    let mut log = format!("{} from {}: ", W::NAME, s.m.dump());
    if ctx.rng.bool() {
        s.f.compute_and_update_properties_all().unwrap();
        log += "compute all; ";
    }
    for _ in 0..c.ops {
        let mut rng = ctx.rng.fork();
        match step(&mut rng, &c, &mut s) {
            Ok(d) => log += &format!("{}; ", d),
            Err((k, e)) => {
                ctx.input = log;
                ctx.fail(&k, e);
                return;
            }
        }
        ctx.input = log.clone();
        ctx.count("edits_judged");
        if !check::<W, _>(ctx, "edit", &s.f) {
            return;
        }
    }
    if !s.m.is_trivial() {
        ctx.distinct(s.m.hash());
    }
    let mask = random_mask(&mut ctx.rng);
    let st = ctx.rng.bool();
    compute_all::<W, _>(ctx, "vector", &s.f, mask, st);
    let f2 = s.f.clone();
    compute_all::<W, _>(ctx, "vector-all", &f2, FstProperties::all(), false);
    let cf: ConstFst<W> = f2.into();
    check::<W, _>(ctx, "const", &cf);
    compute_all::<W, _>(ctx, "const", &cf, mask, st);
    ctx.sample(|| log);
}

fn lazy_check<W: Wt, F: Fst<W>>(ctx: &mut Ctx, op: &str, f: &F) {
    // an on-demand machine consists of its reachable states
    if let Some(r) = fstmon::util::ext_lazy::<W, _>(ctx, op, f, 400) {
        if let Err(e) = check_props(&r, f.properties() & !(FstProperties::TOP_SORTED | FstProperties::NOT_TOP_SORTED | FstProperties::STRING | FstProperties::NOT_STRING)) {
            ctx.fail(&format!("false-property:{}", op), format!("{} on {}", e, r.dump()));
        } else {
            ctx.count("lazy_machines_judged");
        }
    }
}

fn input<W: FullW>(ctx: &mut Ctx, acyclic: bool, acceptor: bool, det: bool) -> Spec<W> {
    let mut g = GenCfg::new();
    g.nmax = ctx.rng.range(1, 5);
    g.p_nostart = 6;
    g.acyclic = acyclic;
    g.acceptor = acceptor;
    g.idet = det;
    if ctx.rng.chance(1, 3) {
        g.eps_i = 0;
        g.eps_o = 0;
    }
    if det {
        g.eps_i = 0;
    }
    g.prof = match ctx.rng.below(3) {
        0 => WProfile::Unweighted,
        1 if acyclic => WProfile::Wild,
        _ => WProfile::Normal,
    };
    if !W::IDEMP && !acyclic && g.prof == WProfile::Unweighted {
        g.prof = WProfile::Normal;
    }
    g.trim = ctx.rng.bool();
    let mut s: Spec<W> = gen_spec(&mut ctx.rng, &g);
    // weights equal to zero (no final, no transition in the algebra) are left to the edit histories
    for w in s.fin.iter_mut().flatten().chain(s.arcs.iter_mut().flatten().map(|a| &mut a.w)) {
        if w.is_zero() {
            *w = W::one();
        }
    }
    s
}

/// a machine whose stored knowledge is a random true subset
fn vary<W: FullW>(ctx: &mut Ctx, s: &Spec<W>) -> V<W> {
    let mut rng = ctx.rng.fork();
    let mut f = s.build_var(&mut rng);
    if rng.bool() {
        let m = random_mask(&mut rng);
        f.compute_and_update_properties(m).unwrap();
    }
    f
}

fn algo_case<W: FullW>(ctx: &mut Ctx) {
    let ops = unary::<W>();
    let op = &ops[ctx.rng.below(ops.len())];
    let mut rng = ctx.rng.fork();
    let need = op.need;
    if (need == Need::Path || need == Need::PathAcyclic) && !W::PATH {
        return;
    }
    let acyclic = matches!(need, Need::Acyclic | Need::AcyclicAcceptor | Need::PathAcyclic) || rng.chance(1, 3);
    let acceptor = matches!(need, Need::AcyclicAcceptor | Need::DetAcceptor) || rng.chance(1, 3);
    let s: Spec<W> = input(ctx, acyclic, acceptor, need == Need::DetAcceptor);
    ctx.input = format!("{} {} {}", op.name, W::NAME, s.dump());
    if !s.is_trivial() {
        ctx.distinct(s.hash());
    }
    let f = vary(ctx, &s);
    ctx.input += &format!(" known={:?}", f.properties());
    if !check::<W, _>(ctx, "input", &f) {
        return;
    }
    if std::env::var("FSTMON_TRACE").is_ok() {
        eprintln!("{}", ctx.input);
    }
    if need == Need::Conv && !s.to_ref().converges() {
        ctx.count("input_without_sums");
        return;
    }
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (op.f)(&mut rng, &f)));
    match r {
        Ok(Ok(o)) => {
            ctx.count(&format!("op:{}", op.name));
            check::<W, _>(ctx, op.name, &o);
            // knowledge must stay true through a further step
            let op2 = &ops[ctx.rng.below(ops.len())];
            let fits = op2.need == Need::Any || (op2.need == Need::Conv && extract::<W, _>(&o).map(|r| r.converges()).unwrap_or(false));
            if fits {
                if let Ok(Ok(o2)) = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (op2.f)(&mut rng, &o))) {
                    ctx.input += &format!(" then {}", op2.name);
                    check::<W, _>(ctx, op2.name, &o2);
                }
            }
        }
        _ => ctx.count(&format!("op_refused:{}", op.name)),
    }
    // on-demand
    match ctx.rng.below(4) {
        0 => {
            if let Ok(l) = ClosureFst::new(f.clone(), ClosureType::ClosureStar) {
                lazy_check::<W, _>(ctx, "closure-lazy-star", &l);
            }
        }
        1 => {
            if let Ok(l) = ClosureFst::new(f.clone(), ClosureType::ClosurePlus) {
                lazy_check::<W, _>(ctx, "closure-lazy-plus", &l);
            }
        }
        _ if s.to_ref().converges() => {
            if let Ok(l) = RmEpsilonFst::<W, V<W>, _>::new(f.clone()) {
                lazy_check::<W, _>(ctx, "rm_epsilon-lazy-view", &l);
            }
        }
        _ => {}
    }
}

fn algo2_case<W: FullW>(ctx: &mut Ctx) {
    let ops = binary::<W>();
    let op = &ops[ctx.rng.below(ops.len())];
    let mut rng = ctx.rng.fork();
    let acyclic = rng.chance(1, 3);
    let acc = rng.chance(1, 3);
    let (a, b): (Spec<W>, Spec<W>) = (input(ctx, acyclic, acc, false), input(ctx, acyclic, acc, false));
    ctx.input = format!("{} {} A={} B={}", op.name, W::NAME, a.dump(), b.dump());
    let (fa, fb) = (vary(ctx, &a), vary(ctx, &b));
    ctx.input += &format!(" knownA={:?} knownB={:?}", fa.properties(), fb.properties());
    if !check::<W, _>(ctx, "input", &fa) || !check::<W, _>(ctx, "input", &fb) {
        return;
    }
    if !a.is_trivial() && !b.is_trivial() {
        ctx.distinct(a.hash() ^ b.hash().rotate_left(9));
    }
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (op.f)(&mut rng, &fa, &fb))) {
        Ok(Ok(o)) => {
            ctx.count(&format!("op:{}", op.name));
            check::<W, _>(ctx, op.name, &o);
        }
        _ => ctx.count(&format!("op_refused:{}", op.name)),
    }
    match ctx.rng.below(4) {
        0 => {
            if let Ok(l) = UnionFst::new(fa.clone(), fb.clone()) {
                lazy_check::<W, _>(ctx, "union-lazy-view", &l);
            }
        }
        1 => {
            if let Ok(l) = ConcatFst::new(fa.clone(), fb.clone()) {
                lazy_check::<W, _>(ctx, "concat-lazy-view", &l);
            }
        }
        2 => {
            let (x, y) = sorted_pair(&mut rng, &fa, &fb);
            if let Ok(l) = ComposeFst::<W, V<W>, V<W>, _, _, _, _, _>::new_auto(x, y) {
                lazy_check::<W, _>(ctx, "compose-lazy-view", &l);
            }
        }
        _ => {
            let mut callee = fb.clone();
            relabel_pairs(&mut callee, vec![(2, 1)], vec![(2, 1)]).unwrap();
            if let Ok(l) = ReplaceFst::<W, V<W>, _>::new(vec![(100, fa.clone()), (2, callee)], 100, rng.bool()) {
                lazy_check::<W, _>(ctx, "replace-lazy-view", &l);
            }
        }
    }
}

/// The graph of a machine over any weights: a transition's weight is kept as zero, one or other.
fn skeleton<G: Semiring, F: ExpandedFst<G>>(f: &F) -> RFst<RTrop> {
    let w = |w: &G| RTrop(if w.is_one() { 0.0 } else if w.is_zero() { f64::INFINITY } else { 1.0 });
    let n = f.num_states() as StateId;
    RFst {
        start: f.start().map(|s| s as usize),
        st: (0..n)
            .map(|q| RSt {
                fin: f.final_weight(q).unwrap().map(|x| w(&x)),
                arcs: f.get_trs(q).unwrap().trs().iter().map(|t| RArc { il: t.ilabel, ol: t.olabel, w: w(&t.weight), to: t.nextstate as usize }).collect(),
            })
            .collect(),
    }
}

fn judge<G: Semiring, F: ExpandedFst<G>>(ctx: &mut Ctx, op: &str, f: &F) {
    let r = skeleton(f);
    match check_props(&r, f.properties()) {
        Ok(k) => {
            ctx.count("machines_judged");
            ctx.add("known_bits_judged", k as u64);
            ctx.count(&format!("op:{}", op));
        }
        Err(e) => ctx.fail(&format!("false-property:{}", op), format!("{} on {}", e, r.dump())),
    }
}

/// Machines over string-and-weight pairs: conversion there, factoring, conversion back.
fn gallic_case<W: FullW>(ctx: &mut Ctx) {
    let (acyclic, acceptor, det) = (ctx.rng.bool(), ctx.rng.chance(1, 4), ctx.rng.chance(1, 4));
    let s = input::<W>(ctx, acyclic, acceptor, det);
    let f = vary(ctx, &s);
    ctx.input = format!("gallic of {} {}", W::NAME, s.dump());
    if !s.is_trivial() {
        ctx.distinct(s.hash());
    }
    macro_rules! go {
        ($g:ident, $f:ident) => {{
            let Some(mut g) = ctx.guard_ok("weight_convert", || weight_convert::<W, $g<W>, _, VectorFst<$g<W>>, _>(&f, &mut ToGallicConverter {})) else { return };
            judge(ctx, "weight_convert-gallic", &g);
            // longer strings on some weights
            let all: Vec<$g<W>> = (0..g.num_states() as StateId).flat_map(|q| g.get_trs(q).unwrap().trs().iter().map(|t| t.weight.clone()).collect::<Vec<_>>()).collect();
            for q in 0..g.num_states() as StateId {
                if all.is_empty() || ctx.rng.bool() {
                    continue;
                }
                if let Some(w) = g.final_weight(q).unwrap() {
                    let mut x = w.clone();
                    let mut ok = true;
                    for _ in 0..ctx.rng.range(1, 3) {
                        ok = ok && x.times_assign(&all[ctx.rng.below(all.len())]).is_ok();
                    }
                    if ok && !x.is_zero() {
                        g.set_final(q, x).unwrap();
                        ctx.count("gallic_finals_lengthened");
                    }
                }
            }
            judge(ctx, "set_final-gallic", &g);
            if ctx.rng.bool() {
                let m = random_mask(&mut ctx.rng);
                g.compute_and_update_properties(m).unwrap();
            }
            let mut mode = FactorWeightType::empty();
            let k = ctx.rng.range(1, 3);
            if k & 1 != 0 {
                mode |= FactorWeightType::FACTOR_ARC_WEIGHTS;
            }
            if k & 2 != 0 {
                mode |= FactorWeightType::FACTOR_FINAL_WEIGHTS;
            }
            let mut o = FactorWeightOptions::new(mode);
            if ctx.rng.chance(1, 3) {
                o.final_ilabel = ctx.rng.below(3) as Label;
                o.final_olabel = ctx.rng.below(3) as Label;
                o.increment_final_ilabel = ctx.rng.bool();
                o.increment_final_olabel = ctx.rng.bool();
            }
            ctx.input = format!("{} factored with {:?} known {:?}", ctx.input, o, g.properties());
            let Some(m) = ctx.guard_ok("factor_weight", || factor_weight::<$g<W>, VectorFst<$g<W>>, _, VectorFst<$g<W>>, $f<W>>(&g, o.clone())) else { return };
            judge(ctx, "factor_weight-gallic", &m);
            let Some(lz) = ctx.guard_ok("factor_weight-lazy", || FactorWeightFst::<$g<W>, VectorFst<$g<W>>, VectorFst<$g<W>>, $f<W>>::new(g.clone(), o)) else { return };
            let lp = lz.properties() & !(FstProperties::TOP_SORTED | FstProperties::NOT_TOP_SORTED | FstProperties::STRING | FstProperties::NOT_STRING);
            let st: VectorFst<$g<W>> = match ctx.guard_ok("factor_weight-compute", || lz.compute()) {
                Some(x) => x,
                None => return,
            };
            let r = skeleton(&st);
            match check_props(&r, lp) {
                Ok(_) => ctx.count("lazy_machines_judged"),
                Err(e) => ctx.fail("false-property:factor_weight-gallic-lazy", format!("{} on {}", e, r.dump())),
            }
            if k == 3 {
                if let Some(t) = ctx.guard("weight_convert", || weight_convert::<$g<W>, W, _, V<W>, _>(&m, &mut FromGallicConverter { superfinal_label: 0 })) {
                    if let Ok(t) = t {
                        judge(ctx, "weight_convert-from-gallic", &t);
                    }
                }
            }
        }};
    }
    match ctx.rng.below(3) {
        0 => go!(GallicWeightLeft, GallicFactorLeft),
        1 => go!(GallicWeightRight, GallicFactorRight),
        _ => go!(GallicWeightRestrict, GallicFactorRestrict),
    }
}

pub fn case(ctx: &mut Ctx) {
    if ctx.rng.chance(1, 12) {
        return with_w!(ctx, gallic_case, [TropicalWeight, LogWeight]);
    }
    match ctx.rng.below(4) {
        0 => with_w!(ctx, hist_case, [TropicalWeight, LogWeight, ProbabilityWeight, BooleanWeight, IntegerWeight]),
        1 | 2 => with_w!(ctx, algo_case, [TropicalWeight, LogWeight]),
        _ => with_w!(ctx, algo2_case, [TropicalWeight, LogWeight]),
    }
}

fn main() {
    run(Prop {
        id: "C03",
        quick: 1_500_000,
        thorough: 60_000_000,
        rule: "every property bit reported after each edit of random histories, and on the result of every static and on-demand algorithm applied to inputs with random true stored knowledge, is compared with the truth computed independently from the raw machine. Non-trivial: input has >=2 useful states and >=2 useful transitions.",
        case,
        must: &["edits_judged", "computations_judged", "op:connect", "op:determinize", "op:minimize", "op:compose", "op:replace", "op:union", "op:factor_weight-gallic", "op:weight_convert-gallic", "op:weight_convert-from-gallic", "lazy_machines_judged"],
        assumptions: &["weights within the library's equality tolerance of one, final weights equal to zero, and STRING on machines without a start state are not judged", "on-demand machines are judged on their reachable states"],
        ..DEFAULT
    });
}
