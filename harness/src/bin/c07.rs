//! C07: epsilon removal.
use fstmon::driver::*;
use fstmon::gen::*;
use fstmon::ops::V;
use fstmon::reffst::*;
use fstmon::refw::*;
use fstmon::util::*;
use fstmon::{chk, with_w};
use rustfst::algorithms::rm_epsilon::*;
use rustfst::prelude::*;

fn no_eps<R: RefW>(ctx: &mut Ctx, op: &str, g: &RFst<R>) {
    let bad = g.st.iter().flat_map(|s| s.arcs.iter()).filter(|a| a.il == 0 && a.ol == 0).count();
    chk!(ctx, bad == 0, &format!("epsilon-left:{}", op), "{} epsilon transitions left; {}", bad, g.dump());
}

fn case_w<W: Wt>(ctx: &mut Ctx) {
    let mut c = GenCfg::new();
    c.nmax = ctx.rng.range(2, 8);
    c.acyclic = !W::CYCLE_OK || ctx.rng.chance(1, 3);
    c.acceptor = ctx.rng.bool();
    c.eps_i = [20, 50, 80][ctx.rng.below(3)];
    c.eps_o = [20, 50, 80][ctx.rng.below(3)];
    c.arcs_per_state = ctx.rng.range(1, 3);
    if ctx.rng.chance(1, 4) {
        c.prof = WProfile::Unweighted;
        c.acyclic |= !W::IDEMP;
    }
    if enlarge(&mut ctx.rng, &mut c, 60, 36) {
        ctx.count("large_machines");
    }
    let s: Spec<W> = gen_spec(&mut ctx.rng, &c);
    ctx.input = format!("{} {}", W::NAME, s.dump());
    let r = s.to_ref();
    // every epsilon closure must exist, also of states that are of no use
    let mut e = r.clone();
    for q in e.st.iter_mut() {
        q.arcs.retain(|a| a.il == 0 && a.ol == 0);
    }
    if !e.converges() {
        ctx.count("closure_diverges");
        return;
    }
    let t = r.trim();
    if t.st.iter().any(|x| x.arcs.iter().any(|a| a.il == 0 && a.ol == 0)) && t.narcs() >= 2 {
        ctx.distinct(s.hash());
    }
    if t.is_cyclic() && {
        let mut e = t.clone();
        for q in e.st.iter_mut() {
            q.arcs.retain(|a| a.il == 0 && a.ol == 0);
        }
        e.is_cyclic()
    } {
        ctx.count("epsilon_cycles");
    }
    let smp = ctx.input.clone();
    ctx.sample(|| smp);
    let mut rng = ctx.rng.fork();
    let f = s.build_var(&mut rng);
    let mut m = f.clone();
    if ctx.guard_ok("rm_epsilon", || rm_epsilon(&mut m)).is_some() {
        if let Some(g) = ext(ctx, "rm_epsilon", &m) {
            // a machine without a start state is left alone
            if r.start.is_some() {
                no_eps(ctx, "rm_epsilon", &g);
                let u = g.trim().n();
                // (what is below the precision of the distances may stay as a transition of weight zero)
                let zero = g.st.iter().flat_map(|s| s.arcs.iter()).any(|a| a.w.is_zero());
                chk!(ctx, u == g.n() || zero, "untrimmed", "{} states, {} useful; {}", g.n(), u, g.dump());
            }
            cmp_rel(ctx, "rm_epsilon", &r, &g, 3);
        }
        // doing it again changes nothing
        if rng.chance(1, 3) {
            let before = extract::<W, _>(&m);
            let mut m2 = m.clone();
            if ctx.guard_ok("again", || rm_epsilon(&mut m2)).is_some() {
                if let (Ok(x), Some(y)) = (before, ext(ctx, "again", &m2)) {
                    cmp_rel(ctx, "again", &x, &y, 3);
                }
            }
        }
    }
    if let Some(z) = ctx.guard_ok("lazy", || RmEpsilonFst::<W, V<W>, _>::new(f.clone())) {
        if let Some(g) = ext_lazy::<W, _>(ctx, "lazy", &z, 2000) {
            no_eps(ctx, "lazy", &g);
            cmp_rel(ctx, "lazy", &r, &g, 3);
        }
        if let Some(v) = ctx.guard_ok("lazy-compute", || z.compute::<V<W>>()) {
            if let Some(g) = ext(ctx, "lazy-compute", &v) {
                no_eps(ctx, "lazy-compute", &g);
                cmp_rel(ctx, "lazy-compute", &r, &g, 3);
            }
        }
    }
    // on demand by shared pointer
    if rng.chance(1, 3) {
        if let Some(z) = ctx.guard_ok("lazy-arc", || RmEpsilonFst::<W, V<W>, _>::new(std::sync::Arc::new(f.clone()))) {
            if let Some(g) = ext_lazy::<W, _>(ctx, "lazy-arc", &z, 2000) {
                no_eps(ctx, "lazy-arc", &g);
                cmp_rel(ctx, "lazy-arc", &r, &g, 3);
            }
        }
    }
    if let Some(g) = ext(ctx, "operand", &f) {
        if let Err(e) = r.same_structure(&g) {
            ctx.fail("operand-modified", e);
        }
    }
}

pub fn case(ctx: &mut Ctx) {
    type PL = ProductWeight<TropicalWeight, LogWeight>;
    with_w!(ctx, case_w, [TropicalWeight, TropicalWeight, LogWeight, ProbabilityWeight, BooleanWeight, IntegerWeight, PL]);
}

fn main() {
    run(Prop {
        id: "C07",
        quick: 800_000,
        thorough: 15_000_000,
        rule: "random transducers over 6 semirings, dense in epsilons (chains, diamonds, cycles); each result must have no epsilon:epsilon transition and the relation of the input on all string pairs of length <=3 plus sampled longer ones. Non-trivial: a useful epsilon transition and >=2 useful transitions.",
        case,
        must: &["relations_compared:rm_epsilon", "relations_compared:lazy", "relations_compared:lazy-arc", "epsilon_cycles"],
        assumptions: &["inputs whose epsilon closures do not converge in the semiring are excluded"],
        ..DEFAULT
    });
}
