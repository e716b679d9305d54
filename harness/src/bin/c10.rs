//! C10: shortest distances.
use fstmon::driver::*;
use fstmon::gen::*;
use fstmon::reffst::*;
use fstmon::refw::*;
use fstmon::util::*;
use fstmon::{chk, with_w};
use rustfst::prelude::*;
use rustfst::semirings::StarSemiring;

/// the reference value as a plain number where the algebra is numeric
trait Near: RefW {
    /// within the approximation the requested delta allows
    fn near(&self, o: &Self, tol: f64) -> bool;
}
macro_rules! near_f {
    ($t:ty) => {
        impl Near for $t {
            fn near(&self, o: &Self, tol: f64) -> bool {
                self.same(o) || (self.0 - o.0).abs() <= tol
            }
        }
    };
}
near_f!(RTrop);
near_f!(RLog);
impl Near for RProb {
    fn near(&self, o: &Self, tol: f64) -> bool {
        self.same(o) || (self.0 - o.0).abs() <= tol * (1.0 + self.0.abs())
    }
}
impl Near for RBool {
    fn near(&self, o: &Self, _tol: f64) -> bool {
        self.same(o)
    }
}
impl Near for RInt {
    fn near(&self, o: &Self, _tol: f64) -> bool {
        self.same(o)
    }
}
impl<A: Near, B: Near> Near for RPair<A, B> {
    fn near(&self, o: &Self, tol: f64) -> bool {
        self.0.near(&o.0, tol) && self.1.near(&o.1, tol)
    }
}

fn gen_input<W: Wt>(ctx: &mut Ctx) -> Spec<W> {
    let mut c = GenCfg::new();
    c.nmax = ctx.rng.range(2, 9);
    c.acyclic = !W::CYCLE_OK || ctx.rng.chance(1, 3);
    c.acceptor = ctx.rng.chance(1, 3);
    c.arcs_per_state = ctx.rng.range(1, 3);
    c.trim = ctx.rng.chance(1, 3);
    c.p_final = *ctx.rng.pick(&[10, 40]);
    c.p_nostart = 4;
    match ctx.rng.below(6) {
        0 => {
            c.prof = WProfile::Unweighted;
            c.acyclic |= !W::IDEMP;
        }
        1 => {
            c.prof = WProfile::Wild;
            c.acyclic = true;
        }
        _ => {}
    }
    // (sums over the many paths of a long machine don't fit the integer weights, and a long cyclic
    // machine adds up what is below the precision of the distances)
    if W::NAME != "integer" && W::NAME != "probability" && enlarge(&mut ctx.rng, &mut c, 60, 90) {
        c.acyclic |= !W::IDEMP;
        ctx.count("large_machines");
    }
    gen_spec(&mut ctx.rng, &c)
}

fn case_w<W: Wt>(ctx: &mut Ctx)
where
    W::R: Near,
{
    let s: Spec<W> = gen_input(ctx);
    ctx.input = format!("{} {}", W::NAME, s.dump());
    let r = s.to_ref();
    let Some(m) = r.distance_matrix() else {
        ctx.count("divergent_input");
        return;
    };
    if r.st.iter().any(|q| q.arcs.iter().any(|a| !a.w.moderate())) || m.iter().flatten().any(|x| !x.moderate()) {
        ctx.count("immoderate_input");
        return;
    }
    let cyc = r.is_cyclic();
    if r.narcs() >= 2 {
        ctx.distinct(s.hash());
    }
    if cyc {
        ctx.count("cyclic_inputs");
    }
    let smp = ctx.input.clone();
    ctx.sample(|| smp);
    let mut rng = ctx.rng.fork();
    let f = s.build_var(&mut rng);
    for reverse in [false, true] {
        let delta: f32 = *rng.pick(&[1e-6, 1e-6, 1.0 / 1024.0]);
        let op = if reverse { "reverse" } else { "forward" };
        let cfgd = delta > 1e-5 || rng.bool();
        let got = ctx.guard_ok(op, || if cfgd { shortest_distance_with_config(&f, reverse, ShortestDistanceConfig::new(delta)) } else { shortest_distance(&f, reverse) });
        let Some(got) = got else { continue };
        chk!(ctx, got.len() <= r.n(), "too-long", "{} distances for {} states", got.len(), r.n());
        let tol = if W::IDEMP { 1e-4 + delta as f64 } else if cyc { 5e-3 + delta as f64 * 60.0 } else { 1e-4 + delta as f64 * 20.0 };
        for q in 0..r.n() {
            let want = if reverse {
                let mut w = <W::R>::zero();
                for p in 0..r.n() {
                    if r.is_fin(p) {
                        w = w.plus(&m[q][p].times(&r.fin(p)));
                    }
                }
                w
            } else {
                r.start.map_or_else(<W::R>::zero, |st| m[st][q].clone())
            };
            let g = got.get(q).map_or_else(<W::R>::zero, |w| w.to_ref());
            chk!(ctx, g.near(&want, tol), &format!("distance:{}", op), "state {}: {:?} instead of {:?} (tolerance {})", q, g, want, tol);
            ctx.count(&format!("distances_compared:{}", op));
            if !want.is_zero() {
                ctx.count("nonzero_distances");
            }
        }
    }
    if let Some(g) = ext(ctx, "operand", &f) {
        if let Err(e) = r.same_structure(&g) {
            ctx.fail("operand-modified", e);
        }
    }
}

fn case_ap<W: Wt + StarSemiring>(ctx: &mut Ctx)
where
    W::R: Near,
{
    let s: Spec<W> = gen_input(ctx);
    ctx.input = format!("all-pairs {} {}", W::NAME, s.dump());
    let r = s.to_ref();
    let Some(m) = r.distance_matrix() else {
        ctx.count("divergent_input");
        return;
    };
    if r.st.iter().any(|q| q.arcs.iter().any(|a| !a.w.moderate())) || m.iter().flatten().any(|x| !x.moderate()) {
        ctx.count("immoderate_input");
        return;
    }
    if r.narcs() >= 2 {
        ctx.distinct(s.hash());
    }
    let f = s.build();
    let Some(got) = ctx.guard_ok("all-pairs", || all_pairs_shortest_distance(&f)) else { return };
    chk!(ctx, got.len() == r.n(), "all-pairs-size", "{} rows for {} states", got.len(), r.n());
    for (p, row) in got.iter().enumerate() {
        chk!(ctx, row.len() == r.n(), "all-pairs-size", "{} columns for {} states", row.len(), r.n());
        for (q, w) in row.iter().enumerate() {
            let g = w.to_ref();
            chk!(ctx, g.near(&m[p][q], 2e-3), "distance:all-pairs", "{} to {}: {:?} instead of {:?}", p, q, g, m[p][q]);
            ctx.count("distances_compared:all-pairs");
        }
    }
}

pub fn case(ctx: &mut Ctx) {
    type PL = ProductWeight<TropicalWeight, LogWeight>;
    if ctx.rng.chance(1, 4) {
        with_w!(ctx, case_ap, [TropicalWeight, LogWeight, ProbabilityWeight, BooleanWeight, IntegerWeight]);
    } else {
        with_w!(ctx, case_w, [TropicalWeight, TropicalWeight, LogWeight, ProbabilityWeight, BooleanWeight, IntegerWeight, PL]);
    }
}

fn main() {
    run(Prop {
        id: "C10",
        quick: 2_000_000,
        thorough: 40_000_000,
        rule: "random machines over 6 semirings (acyclic, cyclic, unweighted, negative weights, useless states, with and without computed properties, which select the queue discipline); distances from the start, to the final states and between all pairs are compared with a matrix-closure reference in double precision. Non-trivial: >=2 transitions.",
        case,
        must: &["distances_compared:forward", "distances_compared:reverse", "distances_compared:all-pairs", "nonzero_distances", "cyclic_inputs"],
        assumptions: &["inputs whose path sums diverge are excluded", "sums over cycles are approximations within the requested delta"],
        ..DEFAULT
    });
}
