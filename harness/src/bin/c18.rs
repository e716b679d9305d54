//! C18: on-demand machines are the same for every access order, cache and thread schedule.
use fstmon::driver::*;
use fstmon::gen::*;
use fstmon::lazyx::*;
use fstmon::ops::V;
use fstmon::refw::*;
use fstmon::rng::{mix, Rng};
use fstmon::util::*;
use fstmon::{chk, with_w};
use rustfst::algorithms::closure::*;
use rustfst::algorithms::compose::compose_filters::*;
use rustfst::algorithms::compose::matchers::*;
use rustfst::algorithms::compose::*;
use rustfst::algorithms::concat::*;
use rustfst::algorithms::factor_weight::factor_iterators::*;
use rustfst::algorithms::factor_weight::*;
use rustfst::algorithms::lazy::*;
use rustfst::algorithms::replace::*;
use rustfst::algorithms::rm_epsilon::*;
use rustfst::algorithms::union::*;
use rustfst::algorithms::weight_converters::*;
use rustfst::algorithms::*;
use rustfst::fst_properties::FstProperties;
use rustfst::fst_traits::{FstIterator, StateIterator};
use rustfst::prelude::*;
use std::collections::BTreeMap;
use std::sync::atomic::Ordering::SeqCst;
use std::sync::{Arc, Barrier};

const CAP: usize = 60;

/// One-thread part: `mk` builds the same machine afresh.
fn single<W: Semiring, F: CoreFst<W> + for<'a> StateIterator<'a> + for<'a> FstIterator<'a, W>>(ctx: &mut Ctx, name: &str, mk: &dyn Fn() -> anyhow::Result<F>, compute: Option<&dyn Fn(&F) -> anyhow::Result<V<W>>>) -> Option<(Canon<W>, bool)>
where
    W: 'static,
{
    DELAY.store(0, SeqCst);
    let mut rng = ctx.rng.fork();
    let f = ctx.guard_ok(name, mk)?;
    let (c0, _, whole) = match ctx.guard(name, || canon::<W, F>(&f, CAP))? {
        Ok(x) => x,
        Err(e) => {
            ctx.fail(&format!("error:{}", name), e);
            return None;
        }
    };
    let g = ctx.guard_ok(name, mk)?;
    let budget = rng.range(3, 60);
    let log = match ctx.guard(&format!("explore:{}", name), || explore::<W, F>(&g, &mut rng, budget))? {
        Ok(l) => vec![l],
        Err(e) => {
            ctx.fail(&format!("error:{}", name), e);
            return None;
        }
    };
    match ctx.guard(name, || judge::<W, F>(&g, &log))? {
        Ok(n) => ctx.add("observations_rechecked", n as u64),
        Err(e) => ctx.fail(&format!("changed:{}", name), e),
    }
    let (c1, order, _) = match ctx.guard(name, || canon::<W, F>(&g, CAP))? {
        Ok(x) => x,
        Err(e) => {
            ctx.fail(&format!("error:{}", name), e);
            return None;
        }
    };
    chk!(ctx, c0 == c1, &format!("order-dependent:{}", name), "breadth first from scratch: {:?}, after another order: {:?}", c0, c1);
    ctx.count("orders_compared");
    if whole {
        // iterators over the states
        let h = if rng.bool() { ctx.guard_ok(name, mk)? } else { g };
        let r = ctx.guard(&format!("iter:{}", name), || -> Result<usize, String> {
            let st: Vec<StateId> = h.states_iter().take(20 * CAP + 1000).collect();
            let mut d = st.clone();
            d.sort();
            d.dedup();
            if d.len() != st.len() {
                return Err(format!("states_iter repeats: {:?}", st));
            }
            let (c2, ord, _) = canon::<W, F>(&h, CAP)?;
            if c2 != c0 {
                return Err(format!("after states_iter {:?} instead of {:?}", c2, c0));
            }
            for s in &ord {
                if !d.contains(s) {
                    return Err(format!("states_iter misses state {}", s));
                }
            }
            let mut n = 0;
            for data in h.fst_iter().take(20 * CAP + 1000) {
                let want = trs_of(&h, data.state_id)?;
                let got: Vec<_> = data.trs.trs().iter().map(|t| (t.ilabel, t.olabel, t.weight.clone(), t.nextstate)).collect();
                if want != got || data.num_trs != want.len() || data.final_weight != h.final_weight(data.state_id).unwrap() {
                    return Err(format!("fst_iter shows state {} as {:?}", data.state_id, got));
                }
                n += 1;
            }
            if n != st.len() {
                return Err(format!("fst_iter shows {} states, states_iter {}", n, st.len()));
            }
            Ok(n)
        })?;
        match r {
            Ok(n) => ctx.add("iterated_states", n as u64),
            Err(e) => ctx.fail(&format!("iter:{}", name), e),
        }
        if let Some(cp) = compute {
            if let Some(v) = ctx.guard_ok(&format!("compute:{}", name), || cp(&h)) {
                match canon::<W, V<W>>(&v, CAP) {
                    Ok((c3, _, _)) => chk!(ctx, c3 == c0, &format!("compute:{}", name), "compute gives {:?} instead of {:?}", c3, c0),
                    Err(e) => ctx.fail(&format!("compute:{}", name), e),
                }
                ctx.count("computed");
            }
        }
    }
    let _ = order;
    Some((c0, whole))
}

/// Several threads explore one machine.
fn threads<W: Semiring + Send + Sync, F: CoreFst<W> + Sync>(ctx: &mut Ctx, name: &str, f: &F, c0: &Canon<W>) {
    let mut rng = ctx.rng.fork();
    let nt = rng.range(2, 4);
    let budget = rng.range(10, 60);
    let delay = *rng.pick(&[0u64, 1, 1, 3, 10]);
    DELAY.store(delay, SeqCst);
    let same = rng.chance(1, 3);
    let seed = rng.next();
    let bar = Barrier::new(nt);
    let logs: Vec<Result<Vec<Obs<W>>, String>> = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..nt)
            .map(|t| {
                let bar = &bar;
                sc.spawn(move || {
                    let mut r = Rng::new(mix(seed ^ if same { 0 } else { t as u64 }));
                    TR.with(|c| c.set(mix(seed ^ (77 + t as u64))));
                    bar.wait();
                    explore::<W, F>(f, &mut r, budget)
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("a thread panicked".into()))).collect()
    });
    DELAY.store(0, SeqCst);
    let mut ok = vec![];
    for l in logs {
        match l {
            Ok(l) => ok.push(l),
            Err(e) => {
                ctx.fail(&format!("thread-error:{}", name), e);
                return;
            }
        }
    }
    // how the threads really interleaved
    let mut ev: BTreeMap<u64, usize> = BTreeMap::new();
    for (t, l) in ok.iter().enumerate() {
        for o in l {
            ev.insert(o.seq, t);
        }
    }
    let order: Vec<usize> = ev.values().copied().collect();
    let switches = order.windows(2).filter(|w| w[0] != w[1]).count();
    ctx.add("thread_switches_observed", switches as u64);
    if switches > nt {
        ctx.count("interleaved_runs");
        use std::hash::{Hash, Hasher};
        let mut h = std::collections::hash_map::DefaultHasher::new();
        order.hash(&mut h);
        ctx.distinct(h.finish());
    }
    ctx.count("threaded_runs");
    match ctx.guard(name, || judge::<W, F>(f, &ok)) {
        None => return,
        Some(Ok(n)) => ctx.add("concurrent_observations_rechecked", n as u64),
        Some(Err(e)) => ctx.fail(&format!("thread-changed:{}", name), e),
    }
    match ctx.guard(name, || canon::<W, F>(f, CAP)) {
        None => return,
        Some(Ok((c, _, _))) => chk!(ctx, c == *c0, &format!("thread-order:{}", name), "explored by {} threads: {:?}, by one: {:?}", nt, c, c0),
        Some(Err(e)) => ctx.fail(&format!("thread-error:{}", name), e),
    }
}

fn eager_same<W: Wt, F: CoreFst<W>>(ctx: &mut Ctx, name: &str, f: &F, eager: &V<W>) {
    if let (Some(e), Some(l)) = (ext(ctx, name, eager), ext_lazy::<W, _>(ctx, name, f, 2000)) {
        cmp_rel(ctx, name, &e, &l, 3);
    }
}

fn spec<W: Wt>(ctx: &mut Ctx, acyclic: bool) -> Spec<W> {
    let mut c = GenCfg::new();
    c.nmin = 1;
    c.nmax = if ctx.rng.chance(1, 12) { ctx.rng.range(6, 14) } else { ctx.rng.range(2, 5) };
    c.acyclic = acyclic;
    c.eps_i = *ctx.rng.pick(&[0, 20, 50]);
    c.eps_o = *ctx.rng.pick(&[0, 20, 50]);
    c.alpha = ctx.rng.range(1, 3) as u32;
    gen_spec(&mut ctx.rng, &c)
}

fn case_w<W: Wt + Send + Sync>(ctx: &mut Ctx) {
    let acyclic = !W::CYCLE_OK || ctx.rng.chance(1, 3);
    let mut a: Spec<W> = spec(ctx, acyclic);
    let mut b: Spec<W> = spec(ctx, acyclic);
    a.sort(true);
    b.sort(false);
    let which = ctx.rng.below(10);
    ctx.input = format!("op {} {} A={} B={}", which, W::NAME, a.dump(), b.dump());
    let smp = ctx.input.clone();
    ctx.sample(|| smp);
    if a.narcs() + b.narcs() >= 3 {
        ctx.distinct(a.hash() ^ b.hash().rotate_left(9) ^ which as u64);
    }
    let mut rng = ctx.rng.fork();
    let mut fa = a.build_var(&mut rng);
    let mut fb = b.build_var(&mut rng);
    for f in [&mut fa, &mut fb] {
        f.compute_and_update_properties(FstProperties::I_LABEL_SORTED | FstProperties::O_LABEL_SORTED).unwrap();
    }
    macro_rules! go {
        ($n:expr, $mk:expr, $eager:expr, $threads:expr) => {{
            let mk = $mk;
            let r = single::<W, _>(ctx, $n, &mk, Some(&|z| z.compute::<V<W>>()));
            if let Some((c0, whole)) = r {
                if whole {
                    if let (Some(e), Some(z)) = (ctx.guard_ok($n, $eager), ctx.guard_ok($n, &mk)) {
                        eager_same(ctx, $n, &z, &e);
                    }
                }
                if $threads {
                    if let Some(z) = ctx.guard_ok($n, &mk) {
                        threads(ctx, $n, &z, &c0);
                    }
                }
            }
        }};
    }
    macro_rules! comp {
        ($n:expr, $b:ident, $cache:ty) => {{
            type Mk<W, C> = ComposeFst<W, Slow<W>, Slow<W>, Arc<Slow<W>>, Arc<Slow<W>>, SortedMatcher<W, Slow<W>, Arc<Slow<W>>>, SortedMatcher<W, Slow<W>, Arc<Slow<W>>>, $b<W, Slow<W>, Slow<W>, Arc<Slow<W>>, Arc<Slow<W>>, SortedMatcher<W, Slow<W>, Arc<Slow<W>>>, SortedMatcher<W, Slow<W>, Arc<Slow<W>>>>, C>;
            let (sa, sb) = (Arc::new(Slow(fa.clone())), Arc::new(Slow(fb.clone())));
            let mk = || Mk::<W, $cache>::new(sa.clone(), sb.clone());
            let r = single::<W, _>(ctx, $n, &mk, Some(&|z| z.compute::<V<W>>()));
            if let Some((c0, whole)) = r {
                if whole {
                    if let (Some(e), Some(z)) = (ctx.guard_ok($n, || compose::<W, V<W>, V<W>, V<W>, _, _>(&fa, &fb)), ctx.guard_ok($n, &mk)) {
                        eager_same(ctx, $n, &z, &e);
                    }
                }
                let mon = Arc::new(Mon::default());
                let cache = MonCache { inner: <$cache>::default(), mon: mon.clone() };
                if let Some(z) = ctx.guard_ok($n, || Mk::<W, MonCache<$cache>>::new_with_options_and_cache(sa.clone(), sb.clone(), Default::default(), cache)) {
                    threads(ctx, $n, &z, &c0);
                    let bad = mon.bad.lock().unwrap().clone();
                    chk!(ctx, bad.is_empty(), &format!("recomputed-differently:{}", $n), "{:?}", bad.first());
                    ctx.add("states_computed_again_by_another_thread", mon.again.load(SeqCst));
                }
                ctx.count(concat!("cache:", stringify!($cache)));
            }
        }};
    }
    match which {
        0 => comp!("compose-sequence", SequenceComposeFilterBuilder, SimpleVecCache<W>),
        1 => comp!("compose-match", MatchComposeFilterBuilder, SimpleHashMapCache<W>),
        2 => comp!("compose-altsequence", AltSequenceComposeFilterBuilder, FirstCache<W, SimpleVecCache<W>>),
        3 => comp!("compose-sequence-first", SequenceComposeFilterBuilder, FirstCache<W, SimpleHashMapCache<W>>),
        4 => {
            // clones taken half way go on independently
            let mk = || ComposeFst::<W, V<W>, V<W>, _, _, _, _, _>::new_auto(Arc::new(fa.clone()), Arc::new(fb.clone()));
            if let Some((c0, _)) = single::<W, _>(ctx, "compose-auto", &mk, Some(&|z| z.compute::<V<W>>())) {
                if let Some(z) = ctx.guard_ok("compose-auto", &mk) {
                    let _ = ctx.guard("explore", || explore::<W, _>(&z, &mut rng, 12));
                    let y = z.clone();
                    let _ = ctx.guard("explore", || explore::<W, _>(&z, &mut rng, 12));
                    let _ = ctx.guard("explore", || explore::<W, _>(&y, &mut rng, 12));
                    for (k, q) in [("original", &z), ("clone", &y)] {
                        match ctx.guard("clone", || canon::<W, _>(q, CAP)) {
                            Some(Ok((c, _, _))) => chk!(ctx, c == c0, "clone", "{} became {:?} instead of {:?}", k, c, c0),
                            Some(Err(e)) => ctx.fail("clone", e),
                            None => {}
                        }
                    }
                    ctx.count("clones");
                }
            }
        }
        5 => go!("union", || UnionFst::new(fa.clone(), fb.clone()), || -> anyhow::Result<V<W>> {
            let mut x = fa.clone();
            union(&mut x, &fb)?;
            Ok(x)
        }, true),
        6 => go!("concat", || ConcatFst::new(fa.clone(), fb.clone()), || -> anyhow::Result<V<W>> {
            let mut x = fa.clone();
            concat(&mut x, &fb)?;
            Ok(x)
        }, true),
        7 => {
            let plus = rng.bool();
            let ty = || if plus { ClosureType::ClosurePlus } else { ClosureType::ClosureStar };
            // the closure of a machine with epsilon-weight loops may diverge: relation compared only where it does not
            let mk = || ClosureFst::new(fa.clone(), ty());
            if let Some((c0, whole)) = single::<W, _>(ctx, "closure", &mk, Some(&|z| z.compute::<V<W>>())) {
                if whole && W::IDEMP {
                    let mut x = fa.clone();
                    closure(&mut x, ty());
                    if let Some(z) = ctx.guard_ok("closure", &mk) {
                        eager_same(ctx, "closure", &z, &x);
                    }
                }
                if let Some(z) = ctx.guard_ok("closure", &mk) {
                    threads(ctx, "closure", &z, &c0);
                }
            }
        }
        8 => {
            // A calls B (label 2 of A's output), B may call itself
            let rec = rng.chance(1, 3);
            let (nta, ntb) = (10, 2);
            let bb = Spec { start: b.start, fin: b.fin.clone(), arcs: b.arcs.iter().map(|v| v.iter().map(|x| { let mut x = x.clone(); if x.ol == 2 { x.ol = if rec { 2 } else { 1 } } x }).collect()).collect() };
            let mut fb2 = bb.build();
            fb2.compute_and_update_properties_all().unwrap();
            let eps = rng.bool();
            let (sa, sb) = (Arc::new(Slow(fa.clone())), Arc::new(Slow(fb2.clone())));
            let mk = || ReplaceFst::<W, Slow<W>, Arc<Slow<W>>>::new(vec![(nta, sa.clone()), (ntb, sb.clone())], nta, eps);
            if let Some((c0, whole)) = single::<W, _>(ctx, "replace", &mk, if rec { None } else { Some(&|z: &ReplaceFst<W, Slow<W>, Arc<Slow<W>>>| z.compute::<V<W>>()) }) {
                if whole && !rec {
                    if let (Some(e), Some(z)) = (ctx.guard_ok("replace", || replace::<W, V<W>, V<W>, _>(vec![(nta, fa.clone()), (ntb, fb2.clone())], nta, eps)), ctx.guard_ok("replace", &mk)) {
                        eager_same(ctx, "replace", &z, &e);
                    }
                }
                if let Some(z) = ctx.guard_ok("replace", &mk) {
                    threads(ctx, "replace", &z, &c0);
                }
                ctx.count(if rec { "recursive_replace" } else { "plain_replace" });
            }
        }
        _ => {
            if W::IDEMP || a.to_ref().converges() {
                let mk = || RmEpsilonFst::<W, V<W>, _>::new(fa.clone());
                if let Some((_, whole)) = single::<W, _>(ctx, "rm_epsilon", &mk, Some(&|z| z.compute::<V<W>>())) {
                    if whole {
                        let mut x = fa.clone();
                        if ctx.guard_ok("rm_epsilon", || rm_epsilon(&mut x)).is_some() {
                            if let Some(z) = ctx.guard_ok("rm_epsilon", &mk) {
                                eager_same(ctx, "rm_epsilon", &z, &x);
                            }
                        }
                    }
                }
            }
        }
    }
}

fn case_factor(ctx: &mut Ctx) {
    type G = GallicWeightLeft<TropicalWeight>;
    let s: Spec<TropicalWeight> = spec(ctx, true);
    ctx.input = format!("factor A={}", s.dump());
    if s.narcs() >= 3 {
        ctx.distinct(s.hash());
    }
    let f = s.build();
    let mut conv = ToGallicConverter {};
    let mut g: VectorFst<G> = match ctx.guard_ok("to-gallic", || weight_convert(&f, &mut conv)) {
        Some(g) => g,
        None => return,
    };
    // longer strings, so that factoring has work to do
    let mut rng = ctx.rng.fork();
    for q in 0..g.num_states() as StateId {
        let mut trs: Vec<_> = g.get_trs(q).unwrap().trs().to_vec();
        for t in trs.iter_mut() {
            for _ in 0..rng.below(3) {
                t.weight = t.weight.times(G::from((StringWeightLeft::from(vec![rng.range(1, 3) as Label]), TropicalWeight::one()))).unwrap();
            }
        }
        g.delete_trs(q).unwrap();
        for t in trs {
            g.add_tr(q, t).unwrap();
        }
    }
    let mode = rng.below(3);
    let mk = || {
        let opts = FactorWeightOptions::new(match mode {
            0 => FactorWeightType::FACTOR_ARC_WEIGHTS,
            1 => FactorWeightType::FACTOR_FINAL_WEIGHTS,
            _ => FactorWeightType::FACTOR_ARC_WEIGHTS | FactorWeightType::FACTOR_FINAL_WEIGHTS,
        });
        FactorWeightFst::<G, VectorFst<G>, VectorFst<G>, GallicFactorLeft<TropicalWeight>>::new(g.clone(), opts)
    };
    if let Some((c0, _)) = single::<G, _>(ctx, "factor", &mk, None) {
        if let Some(z) = ctx.guard_ok("factor", &mk) {
            threads(ctx, "factor", &z, &c0);
            ctx.count("factor_runs");
        }
    }
}

pub fn case(ctx: &mut Ctx) {
    if ctx.rng.chance(1, 12) {
        return state_tables(ctx);
    }
    if ctx.rng.chance(1, 10) {
        return case_factor(ctx);
    }
    with_w!(ctx, case_w, [TropicalWeight, LogWeight, ProbabilityWeight, BooleanWeight, IntegerWeight])
}

fn main() {
    run(Prop {
        id: "C18",
        quick: 200_000,
        thorough: 4_000_000,
        rule: "on-demand composition (4 filters x 4 caches), union, concatenation, closure, replacement (plain and recursive), epsilon removal and weight factoring of random machines over 5 semirings, explored breadth first, in random accessor orders, through the state and machine iterators, by clones taken half way, and by 2-4 threads at once (except epsilon removal, which the compiler keeps on one thread) with delays injected in the operands and around the cache. Every observation of every thread is logged and rechecked against the final content; the numbering-independent form of the machine is compared between all orders and with compute(); relations are compared with the eager algorithms. State tables are also numbered by several threads at once: one number per tuple, without holes. Non-trivial: distinct machines, and distinct observed thread interleavings with more switches than threads.",
        case,
        must: &["state_tables_saved_meanwhile", "orders_compared", "computed", "iterated_states", "clones", "interleaved_runs", "concurrent_observations_rechecked", "states_computed_again_by_another_thread", "recursive_replace", "factor_runs", "relations_compared:compose-match", "relations_compared:compose-sequence-first", "relations_compared:union", "relations_compared:concat", "relations_compared:closure", "relations_compared:replace", "relations_compared:rm_epsilon"],
        assumptions: &["the final content read by one thread after all threads ended is the reference for what they saw", "recursive replacements are compared on their first 60 states"],
        ..DEFAULT
    });
}
