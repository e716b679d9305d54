//! C24: optimization keeps the relation and removes what it can.
use fstmon::driver::*;
use fstmon::gen::*;
use fstmon::ops::FullW;
use fstmon::reffst::*;
use fstmon::refw::*;
use fstmon::util::*;
use fstmon::{chk, with_w};
use rustfst::algorithms::optimize;
use rustfst::fst_properties::FstProperties;
use rustfst::prelude::*;
use std::collections::BTreeSet;
use std::sync::Arc;

fn is_det<R: RefW>(r: &RFst<R>) -> bool {
    r.st.iter().all(|s| {
        let mut b = BTreeSet::new();
        s.arcs.iter().all(|a| b.insert(a.il))
    })
}

fn case_w<W: FullW>(ctx: &mut Ctx) {
    let mut rng = ctx.rng.fork();
    let mut c = GenCfg::new();
    c.nmin = 0;
    c.nmax = rng.range(1, 5);
    c.acceptor = rng.bool();
    c.acyclic = rng.chance(1, 2);
    c.alpha = rng.range(1, 3) as u32;
    c.eps_i = *rng.pick(&[0, 0, 20, 50]);
    c.eps_o = c.eps_i;
    c.idet = rng.chance(1, 4);
    c.p_nostart = 3;
    c.p_dup = *rng.pick(&[0, 20, 40]);
    c.arcs_per_state = rng.range(1, 3);
    if rng.chance(1, 4) {
        c.prof = WProfile::Unweighted;
    }
    let mut s: Spec<W> = gen_spec(&mut rng, &c);
    let mut uw_cycles = false;
    if !c.acyclic && W::PATH && rng.chance(1, 4) {
        // weights outside cycles only
        let scc = s.to_ref().scc();
        for q in 0..s.n() {
            for a in s.arcs[q].iter_mut() {
                if scc[q] == scc[a.to] {
                    a.w = W::one();
                }
            }
        }
        uw_cycles = true;
    }
    let r = s.to_ref();
    if !r.converges() {
        ctx.count("divergent_skipped");
        return;
    }
    let mut f = s.build_var(&mut rng);
    let how = rng.below(4);
    let known = match how {
        0 => FstProperties::empty(),
        1 => FstProperties::ACCEPTOR | FstProperties::NOT_ACCEPTOR,
        2 => FstProperties::ACCEPTOR | FstProperties::NOT_ACCEPTOR | FstProperties::ACYCLIC | FstProperties::CYCLIC | FstProperties::I_DETERMINISTIC | FstProperties::NO_EPSILONS,
        _ => FstProperties::all(),
    };
    if how > 0 {
        if ctx.guard_ok("properties", || f.compute_and_update_properties(known)).is_none() {
            return;
        }
    }
    let props = f.properties();
    let (ti, to) = (Arc::new(symt!["a", "b"]), Arc::new(symt!["x"]));
    let tabs = rng.below(4);
    if tabs & 1 == 1 {
        f.set_input_symbols(ti.clone());
    }
    if tabs & 2 == 2 {
        f.set_output_symbols(to.clone());
    }
    ctx.input = format!("{} known={} acceptor={} acyclic={} {}", W::NAME, how, props.contains(FstProperties::ACCEPTOR), props.contains(FstProperties::ACYCLIC), s.dump());
    if s.narcs() >= 3 {
        ctx.distinct(s.hash() ^ how as u64);
    }
    let smp = ctx.input.clone();
    ctx.sample(|| smp);
    if ctx.guard_ok("optimize", || optimize(&mut f)).is_none() {
        return;
    }
    let Some(g) = ext(ctx, "optimize", &f) else { return };
    cmp_rel(ctx, "optimize", &r, &g, 4);
    ctx.count(if props.contains(FstProperties::ACCEPTOR) { "as_acceptor" } else { "as_transducer" });
    // tables
    chk!(ctx, f.input_symbols().is_some() == (tabs & 1 == 1) && f.output_symbols().is_some() == (tabs & 2 == 2), "tables", "tables {:?} / {:?}, had {}", f.input_symbols().is_some(), f.output_symbols().is_some(), tabs);
    if let Some(t) = f.input_symbols() {
        chk!(ctx, **t == *ti, "tables", "input table changed");
    }
    if let Some(t) = f.output_symbols() {
        chk!(ctx, **t == *to, "tables", "output table changed");
    }
    if s.start.is_none() {
        return;
    }
    // nothing left to remove: no eps:eps transitions, no parallel transitions
    // (the total weight may sit on an initial eps:eps transition)
    let s0 = g.start.unwrap_or(0);
    let lead = g.start.is_some() && g.st[s0].arcs.len() == 1 && g.st[s0].fin.is_none() && g.st.iter().flat_map(|s| &s.arcs).all(|a| a.to != s0);
    let eps = g.st.iter().enumerate().any(|(q, s)| s.arcs.iter().any(|a| a.il == 0 && a.ol == 0) && !(lead && q == s0));
    // (minimizing a deterministic transducer moves output labels, which can leave eps:eps behind)
    let acc = r.st.iter().flat_map(|s| &s.arcs).all(|a| a.il == a.ol);
    chk!(ctx, !eps || !acc, "epsilons-left", "{}", g.dump());
    let dup = g.st.iter().any(|s| {
        let mut b = BTreeSet::new();
        !s.arcs.iter().all(|a| b.insert((a.il, a.ol, a.to)))
    });
    chk!(ctx, !dup, "parallel-left", "{}", g.dump());
    ctx.count("postconditions");
    // determinizable acceptors come out deterministic and trim
    let acyclic = !r.is_cyclic();
    if props.contains(FstProperties::ACCEPTOR) && acyclic && props.contains(FstProperties::ACYCLIC | FstProperties::NO_EPSILONS) {
        chk!(ctx, is_det(&g), "nondeterministic", "{}", g.dump());
        let (a, b) = (g.accessible(), g.coaccessible());
        chk!(ctx, a.iter().zip(&b).all(|(x, y)| *x && *y), "not-trim", "{}", g.dump());
        ctx.count("acyclic_acceptors");
    }
    if uw_cycles && props.contains(FstProperties::UNWEIGHTED_CYCLES) {
        ctx.count("unweighted_cycles_known");
    }
    // once more: still the same relation
    if rng.chance(1, 3) {
        let n1 = f.num_states();
        if ctx.guard_ok("optimize-again", || optimize(&mut f)).is_some() {
            if let Some(g2) = ext(ctx, "optimize-again", &f) {
                cmp_rel(ctx, "optimize-again", &r, &g2, 4);
                if props.contains(FstProperties::ACCEPTOR) && acyclic && props.contains(FstProperties::ACYCLIC | FstProperties::NO_EPSILONS) {
                    chk!(ctx, f.num_states() <= n1 + 1, "grows-again", "{} states, then {}", n1, f.num_states());
                }
            }
        }
    }
    // a machine that is already deterministic does not grow
    let t = r.trim_struct();
    if props.contains(FstProperties::I_DETERMINISTIC) && props.contains(FstProperties::NO_EPSILONS) && props.contains(FstProperties::ACCEPTOR) {
        chk!(ctx, g.n() <= t.n() + 1, "grows", "{} states, the trimmed input has {}", g.n(), t.n());
        ctx.count("deterministic_inputs");
    }
}

pub fn case(ctx: &mut Ctx) {
    with_w!(ctx, case_w, [TropicalWeight, LogWeight])
}

fn main() {
    run(Prop {
        id: "C24",
        quick: 1_200_000,
        thorough: 5_000_000,
        rule: "random acceptors and transducers over the tropical and log semirings (acyclic and cyclic, weighted, unweighted and with weights outside cycles only, with epsilons, parallel and duplicate transitions, dead states), with none, some or all properties known, optimized once and twice; the relation is compared on all label pairs up to length 4 (exactly where finite) with an independent evaluation, and the result is searched for leftover eps:eps and parallel transitions; acyclic acceptors known as such must come out deterministic and trim; attached tables must survive. Non-trivial: distinct machines with at least three transitions.",
        case,
        must: &["relations_compared:optimize", "nonempty_relations", "as_acceptor", "as_transducer", "postconditions", "acyclic_acceptors", "unweighted_cycles_known", "deterministic_inputs", "relations_compared:optimize-again"],
        assumptions: &["machines whose path sums diverge in the log semiring are left out", "a machine without start state may be left as it is"],
        ..DEFAULT
    });
}
