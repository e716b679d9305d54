//! C04: union, concatenation, closure.
use fstmon::driver::*;
use fstmon::gen::*;
use fstmon::reffst::*;
use fstmon::refw::*;
use fstmon::util::*;
use fstmon::with_w;
use rustfst::algorithms::closure::{closure, ClosureFst, ClosureType};
use rustfst::algorithms::concat::{concat, ConcatFst};
use rustfst::algorithms::union::{union, UnionFst};
use rustfst::prelude::*;

fn case_w<W: Wt>(ctx: &mut Ctx) {
    let mut c = GenCfg::new();
    c.nmax = ctx.rng.range(2, 6);
    c.acyclic = !W::CYCLE_OK || ctx.rng.chance(1, 3);
    c.acceptor = ctx.rng.chance(1, 4);
    c.p_nostart = 10;
    if ctx.rng.chance(1, 3) {
        c.eps_i = 0;
        c.eps_o = 0;
    }
    c.prof = if c.acyclic && ctx.rng.bool() { WProfile::Wild } else { WProfile::Normal };
    if enlarge(&mut ctx.rng, &mut c, 60, 36) {
        ctx.count("large_machines");
    }
    let a: Spec<W> = gen_spec(&mut ctx.rng, &c);
    let b: Spec<W> = gen_spec(&mut ctx.rng, &c);
    ctx.input = format!("{} A={} B={}", W::NAME, a.dump(), b.dump());
    if !a.is_trivial() && !b.is_trivial() {
        ctx.distinct(a.hash() ^ b.hash().rotate_left(7));
    }
    let l = 3;
    let (ra, rb) = match (a.to_ref().relation(l, l, 3000), b.to_ref().relation(l, l, 3000)) {
        (Some(x), Some(y)) => (x, y),
        _ => {
            ctx.count("reference_diverges");
            return;
        }
    };
    let s = ctx.input.clone();
    ctx.sample(|| s);
    let mut rng = ctx.rng.fork();
    // union
    let exp = rel_plus(&ra, &rb);
    let fa = a.build_var(&mut rng);
    let fb = b.build_var(&mut rng);
    let mut u = fa.clone();
    if ctx.guard_ok("union", || union(&mut u, &fb)).is_some() {
        if let Some(r) = ext(ctx, "union", &u) {
            cmp_given(ctx, "union", &exp, &r, l);
        }
    }
    // the operands are untouched
    if let Some(r) = ext(ctx, "union-operand", &fb) {
        if let Err(e) = b.to_ref().same_structure(&r) {
            ctx.fail("operand-modified:union", e);
        }
    }
    // constant right operand
    let cb: ConstFst<W> = fb.clone().into();
    let mut u2 = fa.clone();
    if ctx.guard_ok("union-const", || union(&mut u2, &cb)).is_some() {
        if let Some(r) = ext(ctx, "union-const", &u2) {
            cmp_given(ctx, "union-const", &exp, &r, l);
        }
    }
    if let Some(uf) = ctx.guard_ok("union-lazy", || UnionFst::new(fa.clone(), fb.clone())) {
        if let Some(r) = ext_lazy::<W, _>(ctx, "union-lazy", &uf, 500) {
            cmp_given(ctx, "union-lazy", &exp, &r, l);
        }
        if let Some(v) = ctx.guard_ok("union-lazy-compute", || uf.compute::<VectorFst<W>>()) {
            if let Some(r) = ext(ctx, "union-lazy-compute", &v) {
                cmp_given(ctx, "union-lazy-compute", &exp, &r, l);
            }
        }
    }
    // concat
    let exp = rel_concat(&ra, &rb, l, l);
    let mut u = fa.clone();
    if ctx.guard_ok("concat", || concat(&mut u, &fb)).is_some() {
        if let Some(r) = ext(ctx, "concat", &u) {
            cmp_given(ctx, "concat", &exp, &r, l);
        }
    }
    let mut u2 = fa.clone();
    if ctx.guard_ok("concat-const", || concat(&mut u2, &cb)).is_some() {
        if let Some(r) = ext(ctx, "concat-const", &u2) {
            cmp_given(ctx, "concat-const", &exp, &r, l);
        }
    }
    if let Some(uf) = ctx.guard_ok("concat-lazy", || ConcatFst::new(fa.clone(), fb.clone())) {
        if let Some(r) = ext_lazy::<W, _>(ctx, "concat-lazy", &uf, 500) {
            cmp_given(ctx, "concat-lazy", &exp, &r, l);
        }
        if let Some(v) = ctx.guard_ok("concat-lazy-compute", || uf.compute::<VectorFst<W>>()) {
            if let Some(r) = ext(ctx, "concat-lazy-compute", &v) {
                cmp_given(ctx, "concat-lazy-compute", &exp, &r, l);
            }
        }
    }
    // closure
    for plus in [false, true] {
        let exp = match rel_star(&ra, l, l, plus) {
            Some(e) => e,
            None => {
                ctx.count("closure_diverges");
                continue;
            }
        };
        let ty = || if plus { ClosureType::ClosurePlus } else { ClosureType::ClosureStar };
        let nm = if plus { "closure-plus" } else { "closure-star" };
        let mut u = fa.clone();
        if ctx.guard(nm, || closure(&mut u, ty())).is_some() {
            if let Some(r) = ext(ctx, nm, &u) {
                cmp_given(ctx, nm, &exp, &r, l);
            }
        }
        let nl = format!("{}-lazy", nm);
        if let Some(uf) = ctx.guard_ok(&nl, || ClosureFst::new(fa.clone(), ty())) {
            if let Some(r) = ext_lazy::<W, _>(ctx, &nl, &uf, 500) {
                cmp_given(ctx, &nl, &exp, &r, l);
            }
            if let Some(v) = ctx.guard_ok(&nl, || uf.compute::<VectorFst<W>>()) {
                if let Some(r) = ext(ctx, &nl, &v) {
                    cmp_given(ctx, &nl, &exp, &r, l);
                }
            }
        }
    }
}

pub fn case(ctx: &mut Ctx) {
    with_w!(ctx, case_w, [TropicalWeight, LogWeight, ProbabilityWeight, BooleanWeight, IntegerWeight]);
}

fn main() {
    run(Prop {
        id: "C04",
        quick: 450_000,
        thorough: 4_000_000,
        rule: "random pairs of transducers over 5 semirings; relations of the operands on all string pairs of length <=3 are combined by an independent sum/Cauchy product/star and compared with the relation of every variant's result. Non-trivial: both operands have >=2 useful states and >=2 useful transitions.",
        case,
        must: &["relations_compared:union", "relations_compared:union-lazy", "relations_compared:concat", "relations_compared:concat-lazy", "relations_compared:closure-star", "relations_compared:closure-plus-lazy"],
        assumptions: &["relations are compared on string pairs of length <= 3 over alphabets of 2 labels"],
        ..DEFAULT
    });
}
