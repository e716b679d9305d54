//! C19: a saved on-demand cache resumes the same machine; a cache in front of another is transparent.
use fstmon::driver::*;
use fstmon::gen::*;
use fstmon::lazyx::*;
use fstmon::ops::V;
use fstmon::refw::*;
use fstmon::rng::{mix, Rng};
use fstmon::{chk, with_w};
use rustfst::algorithms::compose::compose_filters::*;
use rustfst::algorithms::compose::filter_states::*;
use rustfst::algorithms::compose::lookahead_filters::lookahead_selector::*;
use rustfst::algorithms::compose::lookahead_filters::*;
use rustfst::algorithms::compose::lookahead_matchers::*;
use rustfst::algorithms::compose::matchers::*;
use rustfst::algorithms::compose::*;
use rustfst::algorithms::lazy::*;
use rustfst::fst_properties::FstProperties;
use rustfst::fst_traits::StateIterator;
use rustfst::prelude::*;
use std::collections::{BTreeMap, HashMap};
use std::path::{Path, PathBuf};
use std::sync::atomic::Ordering::SeqCst;
use std::sync::Arc;

const CAP: usize = 60;

struct Dir(PathBuf);
impl Dir {
    fn new(ctx: &Ctx) -> Self {
        let d = std::env::temp_dir().join(format!("fstmon-c19-{}-{}", std::process::id(), ctx.case));
        std::fs::create_dir_all(&d).unwrap();
        Dir(d)
    }
}
impl Drop for Dir {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

struct FlagF {}
impl std::fmt::Debug for FlagF {
    fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        Ok(())
    }
}
impl Clone for FlagF {
    fn clone(&self) -> Self {
        FlagF {}
    }
}
impl PartialEq for FlagF {
    fn eq(&self, _: &Self) -> bool {
        true
    }
}
impl MatcherFlagsTrait for FlagF {
    fn flags() -> MatcherFlags {
        MatcherFlags::OLABEL_LOOKAHEAD_FLAGS
    }
}
type S<W> = Slow<W>;
type SM<W, F> = SortedMatcher<W, F, Arc<F>>;
type M1<W, F> = LabelLookAheadMatcher<W, F, Arc<F>, SortedMatcher<W, F, Arc<F>>, FlagF>;
type LaFst<W, F> = MatcherFst<W, F, Arc<F>, M1<W, F>, LabelReachableData>;
type Seq<W, A, B> = AltSequenceComposeFilterBuilder<W, A, B, Arc<A>, Arc<B>, M1<W, A>, SM<W, B>>;
type Look<W, A, B> = LookAheadComposeFilterBuilder<W, A, B, Arc<A>, Arc<B>, M1<W, A>, SM<W, B>, Seq<W, A, B>, SMatchOutput>;

/// One composition, with how to build it from saved parts.
fn run_one<W, F, Cc, OS>(ctx: &mut Ctx, name: &str, mk: &dyn Fn(Option<OS>, Cc) -> anyhow::Result<F>)
where
    W: Wt + Send + Sync + SerializableSemiring,
    F: CoreFst<W> + Sync + SerializableLazyFst + for<'a> StateIterator<'a>,
    Cc: FstCache<W> + SerializableCache + Default + PartialEq,
    OS: SerializableOpState,
{
    let dir = Dir::new(ctx);
    let mut rng = ctx.rng.fork();
    DELAY.store(0, SeqCst);
    // uninterrupted
    let Some(u) = ctx.guard_ok(name, || mk(None, Cc::default())) else { return };
    let c0 = match ctx.guard(name, || canon::<W, F>(&u, CAP)) {
        Some(Ok((c, _, _))) => c,
        Some(Err(e)) => return ctx.fail(&format!("error:{}", name), e),
        None => return,
    };
    if c0.len() >= 3 {
        ctx.count("machines_with_3_states");
    }
    let Some(mut f) = ctx.guard_ok(name, || mk(None, Cc::default())) else { return };
    let mut logs: Vec<Vec<Obs<W>>> = vec![];
    let rounds = rng.range(1, 3);
    for round in 0..rounds {
        let budget = *rng.pick(&[0, 1, 2, 4, 8, 15, 30]);
        match ctx.guard(name, || explore::<W, F>(&f, &mut rng, budget)) {
            Some(Ok(l)) => logs.push(l),
            Some(Err(e)) => return ctx.fail(&format!("error:{}", name), e),
            None => return,
        }
        let (pc, po) = (dir.0.join(format!("c{}", round)), dir.0.join(format!("o{}", round)));
        let concurrent = rng.chance(1, 4);
        let r = if concurrent {
            // others go on exploring while the parts are saved
            let seed = rng.next();
            let delay = *rng.pick(&[1u64, 3, 10]);
            let (f, pc, po) = (&f, &pc, &po);
            let mut more = vec![];
            let r = ctx.guard(name, || {
                DELAY.store(delay, SeqCst);
                let r = std::thread::scope(|sc| {
                    let hs: Vec<_> = (0..2)
                        .map(|t| {
                            sc.spawn(move || {
                                TR.with(|c| c.set(mix(seed ^ t)));
                                explore::<W, F>(f, &mut Rng::new(mix(seed ^ (t + 5))), 40)
                            })
                        })
                        .collect();
                    for _ in 0..(seed % 400) {
                        std::hint::spin_loop();
                    }
                    let r = f.write(pc.as_path(), po.as_path());
                    for h in hs {
                        if let Ok(Ok(l)) = h.join() {
                            more.push(l);
                        }
                    }
                    r
                });
                DELAY.store(0, SeqCst);
                r
            });
            DELAY.store(0, SeqCst);
            ctx.count("saves_during_exploration");
            logs.extend(more);
            r
        } else {
            ctx.guard(name, || f.write(pc.as_path(), po.as_path()))
        };
        match r {
            None => return,
            Some(Err(e)) => return ctx.fail(&format!("save:{}", name), format!("{:?}", e)),
            Some(Ok(())) => {}
        }
        ctx.count("saves");
        if c0.is_empty() {
            ctx.count("empty_machines");
        }
        // saving changed nothing
        if let Some(Err(e)) = ctx.guard(name, || judge::<W, F>(&f, &logs)) {
            ctx.fail(&format!("save-changed:{}", name), e);
        }
        let load = |p: &Path| Cc::read(p);
        let Some(cache) = ctx.guard_ok(&format!("load-cache:{}", name), || load(&pc)) else { return };
        let Some(os) = ctx.guard_ok(&format!("load-state:{}", name), || OS::read(&po)) else { return };
        // the cache itself survives another round
        if rng.chance(1, 4) {
            let p2 = dir.0.join("again");
            if ctx.guard_ok("save-cache", || cache.write(&p2)).is_some() {
                if let Some(c2) = ctx.guard_ok("load-cache", || load(&p2)) {
                    let same = cache == c2 && cache.num_known_states() == c2.num_known_states() && cache.len_trs() == c2.len_trs() && cache.len_final_weights() == c2.len_final_weights() && cache.compute_num_known_trs() == c2.compute_num_known_trs();
                    chk!(ctx, same, &format!("cache-round-trip:{}", name), "{:?} became {:?}", cache, c2);
                    ctx.count("cache_round_trips");
                }
            }
        }
        if !concurrent {
            // what had been computed is in the loaded cache, as it was
            let mut bad = None;
            for o in logs.last().unwrap() {
                match &o.val {
                    Val::Trs(t) => match cache.get_trs(o.state) {
                        CacheStatus::Computed(c) => {
                            let c: Vec<_> = c.trs().iter().map(|t| (t.ilabel, t.olabel, t.weight.clone(), t.nextstate)).collect();
                            if c != *t || cache.num_trs(o.state) != Some(t.len()) || cache.num_input_epsilons(o.state) != Some(t.iter().filter(|x| x.0 == 0).count()) || cache.num_output_epsilons(o.state) != Some(t.iter().filter(|x| x.1 == 0).count()) {
                                bad = Some(format!("transitions of {}: {:?} saved, {:?} loaded", o.state, t, c));
                            }
                            ctx.count("cached_states_compared");
                        }
                        CacheStatus::NotComputed => ctx.count("cached_states_dropped"),
                    },
                    Val::Fin(w) => {
                        if let CacheStatus::Computed(c) = cache.get_final_weight(o.state) {
                            if c != *w {
                                bad = Some(format!("final weight of {}: {:?} saved, {:?} loaded", o.state, w, c));
                            }
                        }
                    }
                    Val::Start(s) => {
                        if let CacheStatus::Computed(c) = cache.get_start() {
                            if c != *s {
                                bad = Some(format!("start {:?} saved, {:?} loaded", s, c));
                            }
                        }
                    }
                    _ => {}
                }
            }
            if let Some(e) = bad {
                ctx.fail(&format!("cache-content:{}", name), e);
            }
        }
        let Some(g) = ctx.guard_ok(&format!("resume:{}", name), || mk(Some(os), cache)) else { return };
        // the resumed machine: same ids, same content (with its own exploration first)
        let b2 = *rng.pick(&[0, 3, 12]);
        match ctx.guard(name, || explore::<W, F>(&g, &mut rng, b2)) {
            Some(Ok(l)) => {
                if let Some(Err(e)) = ctx.guard(name, || judge::<W, F>(&g, &[l])) {
                    ctx.fail(&format!("resumed-changed:{}", name), e);
                }
            }
            Some(Err(e)) => return ctx.fail(&format!("resumed-error:{}", name), e),
            None => return,
        }
        // before the save: the states have the ids they had
        if !concurrent {
            match ctx.guard(name, || judge::<W, F>(&g, &logs)) {
                Some(Ok(n)) => ctx.add("observations_rechecked_after_resume", n as u64),
                Some(Err(e)) => ctx.fail(&format!("resumed-differs:{}", name), e),
                None => return,
            }
        }
        if rng.chance(1, 3) {
            // iteration first, to see whether the number of known states was kept
            let r = ctx.guard(name, || {
                let st: Vec<StateId> = g.states_iter().take(3000).collect();
                let c = canon::<W, F>(&g, CAP);
                (st, c)
            });
            if let Some((st, Ok((_, ord, whole)))) = r {
                if whole {
                    let miss: Vec<_> = ord.iter().filter(|s| !st.contains(s)).collect();
                    chk!(ctx, miss.is_empty(), &format!("resumed-iter:{}", name), "states_iter of the resumed machine misses {:?}", miss);
                    ctx.count("resumed_iterations");
                }
            }
        }
        if rng.bool() || round + 1 == rounds {
            match ctx.guard(name, || canon::<W, F>(&g, CAP)) {
                Some(Ok((c, _, _))) => chk!(ctx, c == c0, &format!("resumed-machine:{}", name), "resumed: {:?}, uninterrupted: {:?}", c, c0),
                Some(Err(e)) => return ctx.fail(&format!("resumed-error:{}", name), e),
                None => return,
            }
            ctx.count("resumed_machines_compared");
        }
        f = g;
        if concurrent {
            // ids given after the save started may be given anew
            logs.clear();
        }
    }
    // damaged and missing files
    if rng.chance(1, 10) {
        let (pc, po) = (dir.0.join("c0"), dir.0.join("o0"));
        let bc = std::fs::read(&pc).unwrap();
        let bo = std::fs::read(&po).unwrap();
        let t = dir.0.join("t");
        for (b, cache) in [(&bc, true), (&bo, false)] {
            let k = rng.below(b.len().max(1));
            std::fs::write(&t, &b[..k.min(b.len())]).unwrap();
            let r = if cache { ctx.guard("truncated", || Cc::read(&t).map(|_| ())) } else { ctx.guard("truncated", || OS::read(&t).map(|_| ())) };
            if let Some(r) = r {
                chk!(ctx, r.is_err(), "truncated-accepted", "{} of {} bytes of a saved {} load", k, b.len(), if cache { "cache" } else { "state table" });
                ctx.count("truncated_files");
            }
        }
        let none = dir.0.join("none");
        if let Some(r) = ctx.guard("missing", || Cc::read(&none).map(|_| ())) {
            chk!(ctx, r.is_err(), "missing-accepted", "a missing cache file loads");
        }
    }
    if rng.chance(1, 20) && Path::new("/dev/full").exists() {
        let ok = dir.0.join("x");
        for (a, b) in [(Path::new("/dev/full"), ok.as_path()), (ok.as_path(), Path::new("/dev/full"))] {
            if let Some(r) = ctx.guard("full", || f.write(a, b)) {
                chk!(ctx, r.is_err(), "write-error-lost", "saving to a full device ({:?}, {:?}) succeeded", a, b);
                ctx.count("full_device_saves");
            }
        }
    }
}

fn case_w<W: Wt + Send + Sync + SerializableSemiring>(ctx: &mut Ctx) {
    let mut c = GenCfg::new();
    c.nmin = 1;
    c.nmax = if ctx.rng.chance(1, 10) { 10 } else { ctx.rng.range(2, 5) };
    c.p_nostart = 3;
    c.eps_i = *ctx.rng.pick(&[0, 20, 50]);
    c.eps_o = *ctx.rng.pick(&[0, 20, 50]);
    c.alpha = ctx.rng.range(1, 3) as u32;
    c.arcs_per_state = ctx.rng.range(2, 3);
    let mut a: Spec<W> = gen_spec(&mut ctx.rng, &c);
    let mut b: Spec<W> = gen_spec(&mut ctx.rng, &c);
    a.sort(true);
    b.sort(false);
    let which = ctx.rng.below(8);
    ctx.input = format!("filter {} {} A={} B={}", which, W::NAME, a.dump(), b.dump());
    if a.narcs() + b.narcs() >= 4 {
        ctx.distinct(a.hash() ^ b.hash().rotate_left(9) ^ which as u64);
    }
    let smp = ctx.input.clone();
    ctx.sample(|| smp);
    let mut rng = ctx.rng.fork();
    let mut fa = a.build_var(&mut rng);
    let mut fb = b.build_var(&mut rng);
    for f in [&mut fa, &mut fb] {
        f.compute_and_update_properties(FstProperties::I_LABEL_SORTED | FstProperties::O_LABEL_SORTED).unwrap();
    }
    let (sa, sb) = (Arc::new(Slow(fa.clone())), Arc::new(Slow(fb.clone())));
    macro_rules! comp {
        ($n:expr, $b:ident, $fs:ty, $cache:ty) => {{
            type Cf<W, C> = ComposeFst<W, S<W>, S<W>, Arc<S<W>>, Arc<S<W>>, SM<W, S<W>>, SM<W, S<W>>, $b<W, S<W>, S<W>, Arc<S<W>>, Arc<S<W>>, SM<W, S<W>>, SM<W, S<W>>>, C>;
            type Os = ComposeFstOpState<ComposeStateTuple<$fs>>;
            run_one::<W, Cf<W, $cache>, $cache, Os>(ctx, $n, &|os, cache| Cf::<W, $cache>::new_with_options_and_cache(sa.clone(), sb.clone(), ComposeFstOpOptions::new(None, None, None, os), cache));
        }};
    }
    match which {
        0 => comp!("sequence-vec", SequenceComposeFilterBuilder, IntegerFilterState, SimpleVecCache<W>),
        1 => comp!("sequence-map", SequenceComposeFilterBuilder, IntegerFilterState, SimpleHashMapCache<W>),
        2 => comp!("altsequence-map", AltSequenceComposeFilterBuilder, IntegerFilterState, SimpleHashMapCache<W>),
        3 => comp!("match-vec", MatchComposeFilterBuilder, IntegerFilterState, SimpleVecCache<W>),
        4 => comp!("trivial-map", TrivialComposeFilterBuilder, TrivialFilterState, SimpleHashMapCache<W>),
        5 => comp!("null-vec", NullComposeFilterBuilder, TrivialFilterState, SimpleVecCache<W>),
        6 => comp!("nomatch-vec", NoMatchComposeFilterBuilder, TrivialFilterState, SimpleVecCache<W>),
        _ => {
            let r = ctx.guard("lookahead", || {
                let mut fst2 = fb.clone();
                let g1 = Arc::new(LaFst::<W, V<W>>::new_with_relabeling(fa.clone(), &mut fst2, true)?);
                tr_sort(&mut fst2, ILabelCompare {});
                anyhow::Ok((g1, Arc::new(fst2)))
            });
            let (g1, fst2) = match r {
                Some(Ok(x)) => x,
                _ => {
                    ctx.count("lookahead_refused");
                    return;
                }
            };
            type Cf<W, C> = ComposeFst<W, LaFst<W, V<W>>, V<W>, Arc<LaFst<W, V<W>>>, Arc<V<W>>, M1<W, LaFst<W, V<W>>>, SM<W, V<W>>, Look<W, LaFst<W, V<W>>, V<W>>, C>;
            type Os = ComposeFstOpState<ComposeStateTuple<IntegerFilterState>>;
            type Ca<W> = SimpleVecCache<W>;
            run_one::<W, Cf<W, Ca<W>>, Ca<W>, Os>(ctx, "lookahead-vec", &|os, cache| {
                let m1 = M1::<W, _>::new_with_data(g1.clone(), MatchType::MatchOutput, g1.data(MatchType::MatchOutput).cloned())?;
                let m2 = SM::new(fst2.clone(), MatchType::MatchInput)?;
                let cf = Look::<W, _, _>::new(g1.clone(), fst2.clone(), Some(m1), Some(m2))?;
                Cf::<W, Ca<W>>::new_with_options_and_cache(g1.clone(), fst2.clone(), ComposeFstOpOptions::new(None, None, cf, os), cache)
            });
            ctx.count("lookahead_runs");
        }
    }
}

/// Any cache is a map that remembers what was put in; a front cache or a shared pointer changes nothing.
fn case_cache<W: Wt + SerializableSemiring>(ctx: &mut Ctx) {
    let mut rng = ctx.rng.fork();
    let v = SimpleVecCache::<W>::default();
    let m = SimpleHashMapCache::<W>::default();
    let fv = FirstCache::<W, SimpleVecCache<W>>::default();
    let fm = FirstCache::<W, SimpleHashMapCache<W>>::default();
    let av = Arc::new(SimpleVecCache::<W>::default());
    let afm = Arc::new(FirstCache::<W, FirstCache<W, SimpleVecCache<W>>>::default());
    let mut mt: BTreeMap<StateId, Vec<Tr<W>>> = BTreeMap::new();
    let mut mf: HashMap<StateId, Option<W>> = HashMap::new();
    let mut ms: Option<Option<StateId>> = None;
    let mut known = 0usize;
    let mut h = 0u64;
    let mut log = String::new();
    let w = |r: &mut Rng| W::gen(r, WProfile::Normal);
    for _ in 0..rng.range(3, 25) {
        let id = rng.below(9) as StateId;
        let op = rng.below(3);
        h = mix(h ^ op as u64 ^ (id as u64) << 4);
        macro_rules! each { ($c:ident, $e:expr) => {{ { let $c = &v; $e; } { let $c = &m; $e; } { let $c = &fv; $e; } { let $c = &fm; $e; } { let $c = &av; $e; } { let $c = &afm; $e; } }} }
        match op {
            0 => {
                if mt.contains_key(&id) {
                    continue;
                }
                let t: Vec<Tr<W>> = (0..rng.below(4)).map(|_| Tr::new(rng.below(3) as Label, rng.below(3) as Label, w(&mut rng), rng.below(12) as StateId)).collect();
                log += &format!(" trs {} {:?}", id, t);
                let tv = TrsVec(Arc::new(t.clone()));
                each!(c, c.insert_trs(id, tv.clone()));
                known = t.iter().map(|x| x.nextstate as usize + 1).max().unwrap_or(0).max(known);
                mt.insert(id, t);
            }
            1 => {
                let f = if rng.chance(1, 3) { None } else { Some(w(&mut rng)) };
                if mf.contains_key(&id) {
                    continue;
                }
                log += &format!(" final {} {:?}", id, f);
                each!(c, c.insert_final_weight(id, f.clone()));
                known = known.max(id as usize + 1);
                mf.insert(id, f);
            }
            _ => {
                if ms.is_some() || rng.chance(1, 2) {
                    continue;
                }
                let s = if rng.chance(1, 5) { None } else { Some(id) };
                log += &format!(" start {:?}", s);
                each!(c, c.insert_start(s));
                if let Some(s) = s {
                    known = known.max(s as usize + 1);
                }
                ms = Some(s);
            }
        }
        ctx.input = format!("cache {}:{}", W::NAME, log);
        let q = rng.below(10) as StateId;
        macro_rules! look {
            ($n:expr, $c:expr) => {{
                let c = $c;
                let t = mt.get(&q);
                let ok_t = match (c.get_trs(q), t) {
                    (CacheStatus::Computed(x), Some(t)) => x.trs() == &t[..],
                    (CacheStatus::NotComputed, None) => true,
                    _ => false,
                };
                chk!(ctx, ok_t, concat!("cache-trs:", $n), "state {}: {:?} instead of {:?}", q, c.get_trs(q), t);
                let ok_f = match (c.get_final_weight(q), mf.get(&q)) {
                    (CacheStatus::Computed(x), Some(f)) => x == *f,
                    (CacheStatus::NotComputed, None) => true,
                    _ => false,
                };
                chk!(ctx, ok_f, concat!("cache-final:", $n), "state {}: {:?} instead of {:?}", q, c.get_final_weight(q), mf.get(&q));
                let ok_s = match (c.get_start(), ms) {
                    (CacheStatus::Computed(x), Some(s)) => x == s,
                    (CacheStatus::NotComputed, None) => true,
                    _ => false,
                };
                chk!(ctx, ok_s, concat!("cache-start:", $n), "{:?} instead of {:?}", c.get_start(), ms);
                let n = (c.num_trs(q), c.num_input_epsilons(q), c.num_output_epsilons(q));
                let e = (t.map(|t| t.len()), t.map(|t| t.iter().filter(|x| x.ilabel == 0).count()), t.map(|t| t.iter().filter(|x| x.olabel == 0).count()));
                chk!(ctx, n == e, concat!("cache-counts:", $n), "state {}: {:?} instead of {:?}", q, n, e);
                let kn = (c.num_known_states(), c.compute_num_known_trs());
                let ke = (known, mt.values().map(|t| t.len()).sum::<usize>());
                chk!(ctx, kn == ke, concat!("cache-known:", $n), "known states and transitions {:?} instead of {:?}", kn, ke);
            }};
        }
        look!("vec", &v);
        look!("map", &m);
        look!("first-vec", &fv);
        look!("first-map", &fm);
        look!("arc", &av);
        look!("first-first", &afm);
        if rng.chance(1, 6) {
            look!("vec-clone", &v.clone());
            look!("map-clone", &m.clone());
            let mut b = vec![];
            rustfst::algorithms::lazy::cache::simple_vec_cache::write_simple_vec_cache(&mut b, &v).unwrap();
            match rustfst::algorithms::lazy::cache::simple_vec_cache::parse_simple_vec_cache::<W>(&b) {
                Ok((rest, x)) => {
                    chk!(ctx, rest.is_empty() && x == v, "vec-bytes", "{:?} became {:?}", v, x);
                    look!("vec-loaded", &x);
                }
                Err(e) => ctx.fail("vec-bytes", format!("{:?}", e)),
            }
            let mut b = vec![];
            rustfst::algorithms::lazy::cache::simple_hash_map_cache::write_simple_hashmap_cache(&mut b, &m).unwrap();
            match rustfst::algorithms::lazy::cache::simple_hash_map_cache::parse_simple_hashmap_cache::<W>(&b) {
                Ok((rest, x)) => {
                    chk!(ctx, rest.is_empty() && x == m, "map-bytes", "{:?} became {:?}", m, x);
                    look!("map-loaded", &x);
                }
                Err(e) => ctx.fail("map-bytes", format!("{:?}", e)),
            }
            ctx.count("caches_saved_and_loaded");
        }
        ctx.count("cache_states_compared_with_model");
    }
    ctx.distinct(h);
    // clearing forgets everything
    v.clear();
    m.clear();
    let z = (v.num_known_states(), v.len_trs(), v.len_final_weights(), m.num_known_states(), m.len_trs(), m.len_final_weights());
    chk!(ctx, z == (0, 0, 0, 0, 0, 0), "cache-clear", "{:?} left", z);
}

pub fn case(ctx: &mut Ctx) {
    match ctx.rng.below(12) {
        10 | 11 => state_tables(ctx),
        0 | 1 => with_w!(ctx, case_cache, [TropicalWeight, LogWeight, IntegerWeight]),
        _ => with_w!(ctx, case_w, [TropicalWeight, LogWeight]),
    }
}

fn main() {
    run(Prop {
        id: "C19",
        quick: 90_000,
        thorough: 2_000_000,
        rule: "on-demand composition (7 filters over both saveable caches, and the look-ahead composition) of random machines, explored by a random history, saved (one save in four while two threads go on exploring, with injected delays), loaded and resumed, up to three times in a row; the resumed machine is compared with the uninterrupted one in numbering-independent form, every observation made before the save is rechecked on the resumed machine (same ids, same content), and what was computed before is in the loaded cache unchanged. Truncated and missing files and full devices must give errors. State tables are saved through a slow writer while threads go on numbering: what is loaded is a prefix of the numbering, both ways, and numbering goes on where it was. Separately, six cache stacks (plain, front, shared) are driven by random insertions and compared with a model map, also after a byte round trip. Non-trivial: distinct operand pairs with at least 4 transitions, and distinct cache histories.",
        case,
        must: &["saves", "state_tables_saved_meanwhile", "saves_during_exploration", "cached_states_compared", "observations_rechecked_after_resume", "resumed_machines_compared", "resumed_iterations", "cache_round_trips", "truncated_files", "full_device_saves", "lookahead_runs", "machines_with_3_states", "caches_saved_and_loaded", "cache_states_compared_with_model"],
        assumptions: &["only compositions can be resumed from saved parts through the public interface", "a save made during exploration must be usable, but may or may not contain what was computed after the save started"],
        ..DEFAULT
    });
}
