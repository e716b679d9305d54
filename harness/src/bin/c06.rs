//! C06: determinization.
use fstmon::driver::*;
use fstmon::gen::*;
use fstmon::ops::V;
use fstmon::reffst::*;
use fstmon::refw::*;
use fstmon::util::*;
use fstmon::{chk, with_w};
use rustfst::algorithms::determinize::*;
use rustfst::prelude::*;
use std::collections::{BTreeMap, BTreeSet};

/// at most one transition per input label and state; residual outputs (epsilon inputs) only
/// where the input machine had none
fn check_det<R: RefW>(ctx: &mut Ctx, op: &str, r: &RFst<R>, acceptor: bool, multi_final: bool) {
    for (i, s) in r.st.iter().enumerate() {
        let mut seen = BTreeSet::new();
        for a in &s.arcs {
            if acceptor && a.il != a.ol {
                ctx.fail(&format!("not-acceptor:{}", op), format!("state {} has {}:{}; {}", i, a.il, a.ol, r.dump()));
                return;
            }
            if !seen.insert(a.il) && !(a.il == 0 && multi_final) {
                ctx.fail(&format!("nondeterministic:{}", op), format!("state {} has two transitions with input {}; {}", i, a.il, r.dump()));
                return;
            }
            if !acceptor && a.il == 0 {
                // a residual output: nothing but residual outputs may follow
                if r.st[a.to].arcs.iter().any(|b| b.il != 0) {
                    ctx.fail(&format!("residual:{}", op), format!("input consumed after residual output at state {}; {}", a.to, r.dump()));
                    return;
                }
            }
        }
    }
    ctx.count("determinism_checked");
}

/// number of reachable subsets of an acceptor (weights ignored: only for machines without weights)
fn subsets<R: RefW>(r: &RFst<R>) -> usize {
    let s = match r.start {
        None => return 0,
        Some(s) => s,
    };
    let mut seen: BTreeSet<BTreeSet<usize>> = BTreeSet::new();
    let st: BTreeSet<usize> = [s].into_iter().collect();
    let mut todo = vec![st.clone()];
    seen.insert(st);
    while let Some(x) = todo.pop() {
        let mut m: BTreeMap<u32, BTreeSet<usize>> = BTreeMap::new();
        for q in &x {
            for a in &r.st[*q].arcs {
                m.entry(a.il).or_default().insert(a.to);
            }
        }
        for (_, y) in m {
            if seen.insert(y.clone()) {
                todo.push(y);
            }
        }
    }
    seen.len()
}

fn acceptor_case<W>(ctx: &mut Ctx)
where
    W: Wt + WeaklyDivisibleSemiring + WeightQuantize,
{
    let mut c = GenCfg::new();
    c.nmin = 1;
    c.nmax = ctx.rng.range(3, 7);
    c.acceptor = true;
    c.arcs_per_state = ctx.rng.range(2, 4);
    c.alpha = ctx.rng.range(1, 3) as u32;
    c.eps_i = [0, 0, 25][ctx.rng.below(3)];
    let kind = ctx.rng.below(4);
    // 0,1: acyclic any weights; 2: cyclic without weights; 3: cyclic, weight is a function of the label
    c.acyclic = kind < 2 || !W::IDEMP;
    if kind == 2 && W::IDEMP {
        c.prof = WProfile::Unweighted;
    }
    let mut s: Spec<W> = gen_spec(&mut ctx.rng, &c);
    let mut rng = ctx.rng.fork();
    if kind == 3 && W::IDEMP {
        let lw: Vec<W> = (0..5).map(|_| W::gen(&mut rng, WProfile::Normal)).collect();
        for a in s.arcs.iter_mut().flatten() {
            a.w = lw[a.il as usize % 5].clone();
        }
    }
    ctx.input = format!("acceptor {} kind={} {}", W::NAME, kind, s.dump());
    let r = s.to_ref();
    let t = r.trim();
    if t.n() >= 2 && t.st.iter().any(|x| x.arcs.iter().enumerate().any(|(i, a)| x.arcs[..i].iter().any(|b| b.il == a.il))) {
        ctx.distinct(s.hash());
    }
    let f = s.build_var(&mut rng);
    let ty = [DeterminizeType::DeterminizeFunctional, DeterminizeType::DeterminizeNonFunctional, DeterminizeType::DeterminizeDisambiguate][rng.below(3)];
    // an acceptor not known to be one takes the transducer route
    let known = f.properties().contains(rustfst::fst_properties::FstProperties::ACCEPTOR);
    if !known && ty == DeterminizeType::DeterminizeDisambiguate && !W::properties().contains(SemiringProperties::PATH) {
        return;
    }
    let op = if known { "acceptor" } else { "acceptor-as-transducer" };
    if let Some(d) = ctx.guard_ok(op, || determinize_with_config::<W, V<W>, V<W>>(&f, DeterminizeConfig::default().with_det_type(ty))) {
        if let Some(g) = ext(ctx, op, &d) {
            if known {
                check_det(ctx, op, &g, true, false);
                let unweighted = kind == 2 && W::IDEMP;
                if unweighted {
                    let b = subsets(&r) + 1;
                    chk!(ctx, g.n() <= b, "too-many-states", "{} states, but only {} reachable subsets (+1); {}", g.n(), b - 1, g.dump());
                    ctx.count("subset_bound_checked");
                }
            }
            cmp_rel(ctx, op, &r, &g, 4);
        }
    }
    // operand untouched
    if let Some(g) = ext(ctx, "operand", &f) {
        if let Err(e) = r.same_structure(&g) {
            ctx.fail("operand-modified", e);
        }
    }
    // constant representation
    if rng.chance(1, 3) {
        let cf: ConstFst<W> = f.clone().into();
        if known {
            if let Some(d) = ctx.guard_ok("acceptor-const", || determinize::<W, ConstFst<W>, V<W>>(&cf)) {
                if let Some(g) = ext(ctx, "acceptor-const", &d) {
                    check_det(ctx, "acceptor-const", &g, true, false);
                    cmp_rel(ctx, "acceptor-const", &r, &g, 4);
                }
            }
        }
    }
}

/// determinization carrying distances: the distance of a result state is that of its subset
fn dist_case(ctx: &mut Ctx) {
    type W = TropicalWeight;
    let mut c = GenCfg::new();
    c.nmin = 1;
    c.acceptor = true;
    c.acyclic = true;
    c.eps_i = 0;
    c.arcs_per_state = 3;
    let s: Spec<W> = gen_spec(&mut ctx.rng, &c);
    ctx.input = format!("distance {}", s.dump());
    let r = s.to_ref();
    if !s.is_trivial() {
        ctx.distinct(s.hash());
    }
    let back = |r: &RFst<RTrop>| -> Option<Vec<f64>> {
        let m = r.distance_matrix()?;
        Some((0..r.n()).map(|i| (0..r.n()).map(|j| m[i][j].times(r.st[j].fin.as_ref().unwrap_or(&RTrop::zero())).0).fold(f64::INFINITY, f64::min)).collect())
    };
    let d = back(&r).unwrap();
    let ind: Vec<W> = d.iter().map(|x| W::new(*x as f32)).collect();
    let f = s.build();
    if let Some((g, od)) = ctx.guard_ok("with-distance", || determinize_with_distance::<W, V<W>, V<W>>(&f, &ind, 1.0 / 1024.0)) {
        if let Some(g) = ext(ctx, "with-distance", &g) {
            check_det(ctx, "with-distance", &g, true, false);
            cmp_rel(ctx, "with-distance", &r, &g, 4);
            let e = back(&g).unwrap();
            chk!(ctx, od.len() == e.len(), "with-distance", "{} distances for {} states", od.len(), e.len());
            for (i, (x, y)) in od.iter().zip(e.iter()).enumerate() {
                if !RTrop(*x.value() as f64).same(&RTrop(*y)) {
                    ctx.fail("with-distance", format!("state {}: distance {} but {} by definition; {}", i, x, y, g.dump()));
                    break;
                }
                ctx.count("out_distances_checked");
            }
        }
    }
}

fn transducer_case<W>(ctx: &mut Ctx)
where
    W: Wt + WeaklyDivisibleSemiring + WeightQuantize,
{
    let mut c = GenCfg::new();
    c.nmin = 1;
    c.nmax = ctx.rng.range(2, 6);
    c.acyclic = true;
    c.eps_i = 0;
    c.eps_o = [0, 25, 60][ctx.rng.below(3)];
    c.alpha = ctx.rng.range(1, 3) as u32;
    c.arcs_per_state = ctx.rng.range(1, 3);
    if ctx.rng.chance(1, 3) {
        c.p_dup = 60;
    }
    let s: Spec<W> = gen_spec(&mut ctx.rng, &c);
    ctx.input = format!("transducer {} {}", W::NAME, s.dump());
    let r = s.to_ref();
    let rel = match r.relation(8, 8, 4000) {
        Some(x) => x,
        None => return,
    };
    let mut by_in: BTreeMap<&Str, Vec<(&Str, &W::R)>> = BTreeMap::new();
    for ((x, y), w) in &rel {
        by_in.entry(x).or_default().push((y, w));
    }
    let functional = by_in.values().all(|v| v.len() == 1);
    let mut rng = ctx.rng.fork();
    let f = s.build_var(&mut rng);
    let acc = r.st.iter().all(|x| x.arcs.iter().all(|a| a.il == a.ol));
    if acc {
        return;
    }
    if !by_in.is_empty() {
        ctx.distinct(s.hash());
    }
    let smp = ctx.input.clone();
    ctx.sample(|| smp);
    let cfg = |t| DeterminizeConfig::default().with_det_type(t);
    // functional mode
    match ctx.guard("functional", || determinize_with_config::<W, V<W>, V<W>>(&f, cfg(DeterminizeType::DeterminizeFunctional))) {
        None => {}
        Some(Err(e)) => {
            if functional && r.trim().n() == r.n() {
                ctx.fail("error:functional", format!("{:#}", e));
            } else {
                ctx.count("nonfunctional_refused");
            }
        }
        Some(Ok(d)) => {
            if let Some(g) = ext(ctx, "functional", &d) {
                check_det(ctx, "functional", &g, false, false);
                cmp_rel(ctx, if functional { "functional" } else { "functional-on-nonfunctional" }, &r, &g, 8);
            }
        }
    }
    // non-functional mode: any acyclic transducer
    if let Some(d) = ctx.guard_ok("nonfunctional", || determinize_with_config::<W, V<W>, V<W>>(&f, cfg(DeterminizeType::DeterminizeNonFunctional))) {
        if let Some(g) = ext(ctx, "nonfunctional", &d) {
            check_det(ctx, "nonfunctional", &g, false, true);
            cmp_rel(ctx, "nonfunctional", &r, &g, 8);
        }
    }
    // disambiguation
    match ctx.guard("disambiguate", || determinize_with_config::<W, V<W>, V<W>>(&f, cfg(DeterminizeType::DeterminizeDisambiguate))) {
        None => {}
        Some(Err(e)) => {
            if W::properties().contains(SemiringProperties::PATH) {
                ctx.fail("error:disambiguate", format!("{:#}", e));
            } else {
                ctx.count("disambiguate_refused");
            }
        }
        Some(Ok(d)) => {
            if !W::properties().contains(SemiringProperties::PATH) {
                ctx.fail("not-refused:disambiguate", "a semiring without the path property was accepted");
                return;
            }
            if let Some(g) = ext(ctx, "disambiguate", &d) {
                check_det(ctx, "disambiguate", &g, false, false);
                let got = match g.relation(8, 8, 8000) {
                    Some(x) => x,
                    None => return,
                };
                let mut n = 0;
                for (x, v) in &by_in {
                    let best = v.iter().fold(W::R::zero(), |a, b| a.plus(b.1));
                    let mine: Vec<_> = got.iter().filter(|((p, _), _)| p == *x).collect();
                    if mine.len() != 1 {
                        ctx.fail("relation:disambiguate", format!("{:?} has outputs {:?}; result {}", x, mine, g.dump()));
                        return;
                    }
                    let ((_, y), w) = mine[0];
                    let orig = v.iter().find(|o| o.0 == y);
                    if !w.same(&best) || orig.is_none() || !orig.unwrap().1.same(w) {
                        ctx.fail("relation:disambiguate", format!("{:?}: kept {:?}/{:?}, possible {:?}; result {}", x, y, w, v, g.dump()));
                        return;
                    }
                    n += 1;
                }
                if got.len() != n {
                    ctx.fail("relation:disambiguate", format!("{} strings for {}; result {}", got.len(), n, g.dump()));
                }
                ctx.count("relations_compared:disambiguate");
            }
        }
    }
}

pub fn case(ctx: &mut Ctx) {
    type PL = ProductWeight<TropicalWeight, LogWeight>;
    match ctx.rng.below(10) {
        0..=4 => with_w!(ctx, acceptor_case, [TropicalWeight, TropicalWeight, LogWeight, PL]),
        5 => dist_case(ctx),
        _ => with_w!(ctx, transducer_case, [TropicalWeight, TropicalWeight, LogWeight]),
    }
}

fn main() {
    run(Prop {
        id: "C06",
        quick: 500_000,
        thorough: 20_000_000,
        rule: "random acyclic acceptors (any weights), cyclic acceptors satisfying the twins property by construction, and acyclic transducers (functional and not); each result's determinism, relation and, for unweighted inputs, size bound are judged against an independent oracle. Non-trivial: a useful state with two transitions on the same label, or a transducer with a non-empty relation.",
        case,
        must: &["relations_compared:acceptor", "relations_compared:functional", "relations_compared:nonfunctional", "relations_compared:disambiguate", "subset_bound_checked", "nonfunctional_refused", "out_distances_checked"],
        assumptions: &["termination is only demanded of machines that are acyclic or have the twins property"],
        ..DEFAULT
    });
}
