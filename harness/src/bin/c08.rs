//! C08: minimization.
use fstmon::driver::*;
use fstmon::gen::*;
use fstmon::ops::{FullW, V};
use fstmon::reffst::*;
use fstmon::refw::*;
use fstmon::util::*;
use fstmon::{chk, with_w};
use rustfst::algorithms::{acceptor_minimize, minimize, minimize_with_config, MinimizeConfig};
use rustfst::prelude::*;
use std::collections::{BTreeMap, BTreeSet};

/// Nerode classes of a trim deterministic acceptor over (min,+): futures compared up to a factor.
/// Returns (number of classes, weight of the whole machine).
fn classes(r: &RFst<RTrop>) -> Option<(usize, f64)> {
    let n = r.n();
    if n == 0 {
        return Some((0, f64::INFINITY));
    }
    let m = r.distance_matrix()?;
    let d: Vec<f64> = (0..n).map(|i| (0..n).map(|j| m[i][j].0 + r.st[j].fin.as_ref().map(|w| w.0).unwrap_or(f64::INFINITY)).fold(f64::INFINITY, f64::min)).collect();
    let q = |x: f64| -> i64 {
        if x.is_infinite() {
            i64::MAX
        } else {
            (x * 64.0).round() as i64
        }
    };
    let mut cls = vec![0usize; n];
    let mut k = 1;
    loop {
        let mut ids: BTreeMap<(usize, i64, Vec<(u32, i64, usize)>), usize> = BTreeMap::new();
        let mut nc = vec![0; n];
        for i in 0..n {
            let f = q(r.st[i].fin.as_ref().map(|w| w.0 - d[i]).unwrap_or(f64::INFINITY));
            let mut v: Vec<(u32, i64, usize)> = r.st[i].arcs.iter().map(|a| (a.il, q(a.w.0 + d[a.to] - d[i]), cls[a.to])).collect();
            v.sort();
            let l = ids.len();
            nc[i] = *ids.entry((cls[i], f, v)).or_insert(l);
        }
        let l = ids.len();
        cls = nc;
        if l == k {
            break;
        }
        k = l;
    }
    Some((k, d[r.start.unwrap()]))
}

fn is_det<R: RefW>(r: &RFst<R>) -> bool {
    r.st.iter().all(|s| {
        let mut b = BTreeSet::new();
        s.arcs.iter().all(|a| b.insert(a.il))
    })
}

/// rewires copies of a machine so that many states are equivalent without being identical
fn inflate<W: Wt>(rng: &mut fstmon::rng::Rng, s: &Spec<W>) -> Spec<W> {
    let n = s.n();
    let k = rng.range(2, 3);
    let mut t = Spec { start: s.start, fin: vec![], arcs: vec![] };
    for _ in 0..k {
        for i in 0..n {
            t.fin.push(s.fin[i].clone());
            let mut v: Vec<SArc<W>> = s.arcs[i]
                .iter()
                .map(|a| SArc { to: a.to + n * rng.below(k), ..a.clone() })
                .collect();
            rng.shuffle(&mut v);
            t.arcs.push(v);
        }
    }
    t
}

fn det_cfg(ctx: &mut Ctx) -> GenCfg {
    let mut c = GenCfg::new();
    c.nmin = 1;
    c.nmax = ctx.rng.range(2, 7);
    c.acceptor = true;
    c.idet = true;
    c.acyclic = ctx.rng.bool();
    c.alpha = ctx.rng.range(1, 3) as u32;
    c.eps_i = [0, 0, 20][ctx.rng.below(3)];
    c.arcs_per_state = ctx.rng.range(1, 3);
    if enlarge(&mut ctx.rng, &mut c, 50, 40) {
        ctx.count("large_machines");
    }
    c
}

fn acceptor_case(ctx: &mut Ctx) {
    type W = TropicalWeight;
    let mut c = det_cfg(ctx);
    let unweighted = ctx.rng.bool();
    if unweighted {
        c.prof = WProfile::Unweighted;
    }
    let mut s: Spec<W> = gen_spec(&mut ctx.rng, &c);
    let mut rng = ctx.rng.fork();
    if rng.bool() {
        s = inflate(&mut rng, &s);
        if rng.bool() {
            let p = rng.perm(s.n());
            s = s.permuted(&p);
        }
    }
    if !unweighted && rng.chance(1, 2) {
        // few distinct weights, so that weighted merging happens
        for a in s.arcs.iter_mut().flatten() {
            a.w = W::new((*a.w.value()).clamp(0.0, 1.0).round());
        }
        for f in s.fin.iter_mut().flatten() {
            *f = W::new((*f.value()).clamp(0.0, 1.0).round());
        }
    }
    ctx.input = format!("acceptor {}", s.dump());
    let r = s.to_ref();
    let t = r.trim();
    let (k, total) = match classes(&t) {
        Some(x) => x,
        None => return,
    };
    if k >= 2 {
        ctx.distinct(s.hash());
    }
    if k < t.n() {
        ctx.count("mergeable_inputs");
    }
    let smp = ctx.input.clone();
    ctx.sample(|| smp);
    let f = s.build_var(&mut rng);
    let nd = rng.bool();
    let mut m = f.clone();
    if ctx.guard_ok("minimize", || if nd { minimize(&mut m) } else { minimize_with_config(&mut m, MinimizeConfig::default().with_allow_nondet(true)) }).is_some() {
        if let Some(g) = ext(ctx, "minimize", &m) {
            cmp_rel(ctx, "minimize", &r, &g, 4);
            chk!(ctx, is_det(&g), "nondeterministic", "{}", g.dump());
            // the total weight may need an initial state of its own
            let w = s.arcs.iter().flatten().any(|a| *a.w.value() != 0.0) || s.fin.iter().flatten().any(|w| *w.value() != 0.0);
            let max = if w && total != 0.0 { k + 1 } else { k };
            chk!(ctx, g.n() <= max && g.n() >= k, "not-minimal", "{} states, the minimal machine has {} (weighted: {}); {}", g.n(), k, w, g.dump());
            ctx.count(if w { "minimality_checked_weighted" } else { "minimality_checked_unweighted" });
        }
    }
    // the raw unweighted minimizer, both algorithms
    if t.st.iter().all(|s| s.arcs.iter().all(|a| a.w.0 == 0.0) && s.fin.as_ref().map(|w| w.0 == 0.0).unwrap_or(true)) {
        let unw = r.st.iter().all(|s| s.arcs.iter().all(|a| a.w.0 == 0.0) && s.fin.as_ref().map(|w| w.0 == 0.0).unwrap_or(true));
        if unw {
            for ac in [true, false] {
                let mut m = f.clone();
                if ctx.guard_ok("acceptor_minimize", || acceptor_minimize(&mut m, ac)).is_some() {
                    if let Some(g) = ext(ctx, "acceptor_minimize", &m) {
                        cmp_rel(ctx, "acceptor_minimize", &r, &g, 4);
                        chk!(ctx, g.n() == k, "not-minimal:acceptor_minimize", "acyclic={}: {} states, the minimal machine has {}; {}", ac, g.n(), k, g.dump());
                    }
                }
            }
        }
    }
}

/// relation only: other semirings, transducers, non-deterministic inputs
fn relation_case<W: FullW>(ctx: &mut Ctx) {
    let mut c = det_cfg(ctx);
    c.nmax = c.nmax.min(5);
    c.nmin = 1;
    c.acceptor = ctx.rng.chance(1, 3);
    c.idet = !W::IDEMP || ctx.rng.bool();
    if !c.acceptor {
        c.eps_o = [0, 30][ctx.rng.below(2)];
        c.eps_i = [0, 0, 20][ctx.rng.below(3)];
    }
    if c.acceptor && !c.idet && ctx.rng.chance(2, 3) {
        // plain non-deterministic automata, where merging needs care
        c.nmax = 8;
        c.acyclic = false;
        c.prof = WProfile::Unweighted;
        c.alpha = ctx.rng.range(1, 2) as u32;
        c.p_final = 15;
        c.eps_i = 0;
    } else if ctx.rng.chance(1, 4) {
        c.prof = WProfile::Unweighted;
        if !W::IDEMP {
            c.acyclic = true;
        }
    }
    let mut s: Spec<W> = gen_spec(&mut ctx.rng, &c);
    let mut rng = ctx.rng.fork();
    if rng.chance(1, 3) {
        s = inflate(&mut rng, &s);
    }
    ctx.input = format!("relation {} det={} {}", W::NAME, c.idet, s.dump());
    let r = s.to_ref();
    if !r.converges() || !r.trim().converges() {
        return;
    }
    if !s.is_trivial() {
        ctx.distinct(s.hash());
    }
    let acc = r.st.iter().all(|x| x.arcs.iter().all(|a| a.il == a.ol));
    let det = is_det(&r);
    let f = s.build_var(&mut rng);
    let mut m = f.clone();
    let name = match (acc, det) {
        (true, true) => "acceptor-det",
        (true, false) => "acceptor-nondet",
        (false, true) => "transducer-det",
        (false, false) => "transducer-nondet",
    };
    match ctx.guard(name, || minimize_with_config(&mut m, MinimizeConfig::default().with_allow_nondet(true))) {
        None => return,
        Some(Err(e)) => {
            if det || W::IDEMP {
                ctx.fail(&format!("error:{}", name), format!("{:#}", e));
            } else {
                ctx.count("refused_nondeterministic");
            }
        }
        Some(Ok(())) => {
            if let Some(g) = ext(ctx, name, &m) {
                cmp_rel(ctx, name, &r, &g, 4);
                if acc {
                    let tn = r.trim().n();
                    chk!(ctx, g.n() <= tn + 1, &format!("grown:{}", name), "{} states from {} useful ones; {}", g.n(), tn, g.dump());
                }
            }
        }
    }
    // without the option a non-deterministic machine is refused and left usable
    let mut m = f.clone();
    match ctx.guard("minimize-default", || minimize(&mut m)) {
        None => {}
        Some(Err(e)) => {
            if det {
                ctx.fail("error:minimize-default", format!("{:#}", e));
            } else {
                ctx.count("refused_nondeterministic");
                if let Some(g) = ext(ctx, "refused", &m) {
                    cmp_rel(ctx, "refused", &r, &g, 4);
                }
            }
        }
        Some(Ok(())) => {
            if !det {
                ctx.fail("not-refused", "a non-deterministic machine was accepted without the option");
            }
        }
    }
}

pub fn case(ctx: &mut Ctx) {
    if ctx.rng.bool() {
        acceptor_case(ctx)
    } else {
        with_w!(ctx, relation_case, [TropicalWeight, TropicalWeight, LogWeight])
    }
}

fn main() {
    run(Prop {
        id: "C08",
        quick: 800_000,
        thorough: 40_000_000,
        rule: "random deterministic acceptors (also inflated into many equivalent states), transducers and non-deterministic machines; result relation against the input's, and number of states against an independent partition refinement of weighted futures. Non-trivial: >=2 classes of futures (acceptors) or >=2 useful states and transitions.",
        case,
        must: &["relations_compared:minimize", "mergeable_inputs", "minimality_checked_weighted", "minimality_checked_unweighted", "relations_compared:transducer-det", "relations_compared:transducer-nondet", "relations_compared:acceptor-nondet", "refused_nondeterministic", "relations_compared:acceptor_minimize"],
        assumptions: &["minimality of weighted acceptors is judged over the tropical semiring with weights exactly representable in f32; one extra initial state carrying the total weight is allowed"],
        ..DEFAULT
    });
}
