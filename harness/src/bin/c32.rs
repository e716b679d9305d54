//! C32: matchers find exactly the transitions asked for, and the reachability indexes behind
//! look-ahead answer exactly what can be reached.
//!
//! Every answer of the public matcher / index interfaces on random machines is compared with a
//! scan over the specification the machine was built from.
use fstmon::chk;
use fstmon::driver::*;
use fstmon::gen::*;
use fstmon::refw::{RefW, WProfile, Wt};
use fstmon::rng::{hash_str, Rng};
use fstmon::with_w;
use rustfst::algorithms::compose::matchers::*;
use rustfst::algorithms::compose::{IntInterval, IntervalSet, LabelReachable, LabelReachableData, StateReachable};
use rustfst::fst_properties::FstProperties;
use rustfst::prelude::*;
use rustfst::{EPS_LABEL, NO_LABEL};
use std::collections::{BTreeSet, HashMap, HashSet};
use std::sync::Arc;

// ---------------------------------------------------------------- interval sets
fn intervals(ctx: &mut Ctx) {
    let mut set = IntervalSet::default();
    let mut model: BTreeSet<usize> = BTreeSet::new();
    let mut log = String::from("intervals:");
    let top = *ctx.rng.pick(&[6usize, 15, 40]);
    for _ in 0..ctx.rng.range(1, 4) {
        let mut other = IntervalSet::default();
        let via_union = ctx.rng.bool();
        for _ in 0..ctx.rng.below(5) {
            let b = ctx.rng.below(top);
            let e = match ctx.rng.below(8) {
                0 => b,
                1..=3 => b + 1,
                _ => b + ctx.rng.below(top - b + 1),
            };
            log.push_str(&format!(" [{},{})", b, e));
            if b == e {
                ctx.count("empty_intervals");
            }
            if via_union {
                other.push(IntInterval::new(b, e));
            } else {
                set.push(IntInterval::new(b, e));
            }
            model.extend(b..e);
        }
        if via_union {
            log.push_str(" union");
            set.union(other);
        }
        log.push_str(" normalize;");
        ctx.input = log.clone();
        if ctx.guard("normalize", || set.normalize()).is_none() {
            return;
        }
        ctx.count("normalized");
        for v in 0..top + 3 {
            let g = set.member(v);
            chk!(ctx, g == model.contains(&v), "member", "member({}) gave {}", v, g);
        }
        chk!(ctx, set.count() == Some(model.len()), "count", "count {:?}, {} points", set.count(), model.len());
        // maximal runs
        let mut runs: Vec<(usize, usize)> = vec![];
        for v in &model {
            match runs.last_mut() {
                Some(r) if r.1 == *v => r.1 += 1,
                _ => runs.push((*v, *v + 1)),
            }
        }
        let got: Vec<(usize, usize)> = set.iter().map(|i| (i.begin, i.end)).collect();
        chk!(ctx, got == runs, "normal-form", "intervals {:?}, expected {:?}", got, runs);
        chk!(ctx, set.len() == runs.len() && set.is_empty() == runs.is_empty(), "len", "len {}", set.len());
        chk!(ctx, set.singleton() == (model.len() == 1), "singleton", "singleton {} with {} points", set.singleton(), model.len());
        if ctx.failed() {
            return;
        }
        if ctx.rng.chance(1, 6) {
            set.clear();
            model.clear();
            log.push_str(" clear");
        }
    }
    ctx.distinct(hash_str(&log));
}

// ---------------------------------------------------------------- matchers
#[derive(Clone, Debug, PartialEq)]
enum It {
    Loop,
    Tr(u32, u32, i64, usize),
}

fn key<W: Wt>(w: &W) -> i64 {
    w.to_ref().key()
}

fn collect<W: Wt>(it: impl Iterator<Item = IterItemMatcher<W>>) -> Vec<It> {
    it.take(10_000)
        .map(|x| match x {
            IterItemMatcher::EpsLoop => It::Loop,
            IterItemMatcher::Tr(t) => It::Tr(t.ilabel, t.olabel, key(&t.weight), t.nextstate as usize),
        })
        .collect()
}

fn side<W: Wt>(a: &SArc<W>, input: bool) -> u32 {
    if input {
        a.il
    } else {
        a.ol
    }
}

fn item<W: Wt>(a: &SArc<W>) -> It {
    It::Tr(a.il, a.ol, key(&a.w), a.to)
}

fn plain<W: Wt>(s: &Spec<W>, p: usize, label: u32, input: bool) -> Vec<It> {
    let mut v = vec![];
    if label == EPS_LABEL {
        v.push(It::Loop);
    }
    let l = if label == NO_LABEL { EPS_LABEL } else { label };
    v.extend(s.arcs[p].iter().filter(|a| side(a, input) == l).map(item));
    v
}

fn same(mut a: Vec<It>, mut b: Vec<It>) -> bool {
    let k = |x: &It| match x {
        It::Loop => (0, 0, 0, 0, 0),
        It::Tr(i, o, w, n) => (1, *i, *o, *w, *n),
    };
    a.sort_by_key(k);
    b.sort_by_key(k);
    a == b
}

fn matchers<W: Wt>(ctx: &mut Ctx) {
    let mut c = GenCfg::new();
    c.nmin = 1;
    c.nmax = 5;
    c.p_nostart = 0;
    c.alpha = *ctx.rng.pick(&[2u32, 4, 9]);
    c.arcs_per_state = *ctx.rng.pick(&[1usize, 3, 8]);
    c.acceptor = ctx.rng.chance(1, 4);
    let mut s = gen_spec::<W>(&mut ctx.rng, &c);
    if ctx.rng.chance(1, 3) {
        // sparse labels
        let m = *ctx.rng.pick(&[7u32, 1000, 400_000_000]);
        for a in s.arcs.iter_mut().flatten() {
            a.il *= m;
            a.ol *= m;
        }
    }
    let input = ctx.rng.bool();
    s.sort(!input);
    let mt = if input { MatchType::MatchInput } else { MatchType::MatchOutput };
    let mut f = s.build_var(&mut ctx.rng);
    if ctx.rng.bool() {
        let _ = f.compute_and_update_properties_all();
    }
    let knows = f.properties().intersects(if input {
        FstProperties::I_LABEL_SORTED | FstProperties::NOT_I_LABEL_SORTED
    } else {
        FstProperties::O_LABEL_SORTED | FstProperties::NOT_O_LABEL_SORTED
    });
    let f = Arc::new(f);
    ctx.distinct(s.hash());
    let base = format!("{} {:?} {}", W::NAME, mt, s.dump());
    ctx.input = base.clone();
    let mut labels: BTreeSet<u32> = s.arcs.iter().flatten().flat_map(|a| [a.il, a.ol]).collect();
    let mx = *labels.iter().last().unwrap_or(&0);
    labels.extend([0, 1, 2, mx + 1, NO_LABEL]);
    for l in labels.clone() {
        if l > 1 && l != NO_LABEL {
            labels.insert(l - 1);
        }
    }
    let labels: Vec<u32> = labels.into_iter().collect();

    // sorted matcher, over a shared and over a borrowed machine
    type SM<W> = SortedMatcher<W, VectorFst<W>, Arc<VectorFst<W>>>;
    let m: SM<W> = match ctx.guard_ok("SortedMatcher::new", || SortedMatcher::new(Arc::clone(&f), mt)) {
        Some(m) => m,
        None => return,
    };
    let mb: SortedMatcher<W, VectorFst<W>, &VectorFst<W>> = match ctx.guard_ok("SortedMatcher::new", || SortedMatcher::new(&*f, mt)) {
        Some(m) => m,
        None => return,
    };
    if let Some(t) = ctx.guard("match_type", || m.match_type(true)) {
        match t {
            Ok(t) => chk!(ctx, t == mt, "match-type", "match_type(true) of a sorted machine gave {:?}", t),
            Err(_) => chk!(ctx, !knows, "match-type", "match_type(true) refused though the sortedness is known"),
        }
    }
    if let Some(t) = ctx.guard_ok("match_type", || m.match_type(false)) {
        chk!(ctx, t == mt || t == MatchType::MatchUnknown, "match-type", "match_type(false) of a sorted machine gave {:?}", t);
    }
    for p in 0..s.n() {
        let fw = ctx.guard_ok("final_weight", || m.final_weight(p as StateId));
        if let Some(w) = fw {
            let e = s.fin[p].as_ref().map(key);
            chk!(ctx, w.as_ref().map(key) == e, "final-weight", "final weight of {} gave {:?}", p, w);
        }
        if let Some(q) = ctx.guard_ok("priority", || m.priority(p as StateId)) {
            chk!(ctx, q == s.arcs[p].len(), "priority", "priority of {} gave {}", p, q);
        }
        for l in &labels {
            let e = plain(&s, p, *l, input);
            let it = ctx.guard_ok("iter", || m.iter(p as StateId, *l));
            if let Some(it) = it {
                let mut it2 = it.clone();
                let g = collect(it);
                chk!(ctx, same(g.clone(), e.clone()), "sorted-matcher", "state {} label {}: {:?}, expected {:?}", p, l, g, e);
                // a clone goes on by itself
                if it2.next().is_some() {
                    let rest = collect(it2);
                    chk!(ctx, rest[..] == g[1..], "sorted-matcher-clone", "state {} label {}: clone gave {:?} after the first of {:?}", p, l, rest, g);
                }
                ctx.count("sorted_matches");
                if g.len() > 1 {
                    ctx.count("sorted_multi_matches");
                }
            }
            if let Some(it) = ctx.guard_ok("iter", || mb.iter(p as StateId, *l)) {
                let g = collect(it);
                chk!(ctx, same(g.clone(), e.clone()), "sorted-matcher-borrowed", "state {} label {}: {:?}, expected {:?}", p, l, g, e);
            }
        }
    }
    // an unsorted machine is recognised when asked to test
    {
        let mut u = s.clone();
        let mut r = Rng::new(ctx.rng.next());
        for v in u.arcs.iter_mut() {
            r.shuffle(v);
        }
        let sorted = u.arcs.iter().all(|v| v.windows(2).all(|w| side(&w[0], input) <= side(&w[1], input)));
        let mut fu = u.build();
        let _ = fu.compute_and_update_properties_all();
        let mu: SortedMatcher<W, VectorFst<W>, &VectorFst<W>> = SortedMatcher::new(&fu, mt).unwrap();
        if let Some(t) = ctx.guard_ok("match_type", || mu.match_type(true)) {
            chk!(ctx, t == if sorted { mt } else { MatchType::MatchNone }, "match-type", "match_type(true) gave {:?}, sorted: {}; {}", t, sorted, u.dump());
            if !sorted {
                ctx.count("unsorted_recognised");
            }
        }
    }
    if ctx.failed() {
        return;
    }

    // sigma matcher
    let arc_m = Arc::new(m);
    let sigma = match ctx.rng.below(6) {
        0 => NO_LABEL,
        1 => mx + 1,
        _ => *ctx.rng.pick(&labels.iter().cloned().filter(|l| *l != 0 && *l != NO_LABEL).collect::<Vec<_>>()),
    };
    let allowed: Option<HashSet<u32>> = if ctx.rng.bool() { None } else { Some(labels.iter().cloned().filter(|_| ctx.rng.bool()).collect()) };
    let mode = ctx.rng.below(3);
    let modes = [MatcherRewriteMode::MatcherRewriteAuto, MatcherRewriteMode::MatcherRewriteAlways, MatcherRewriteMode::MatcherRewriteNever];
    let both = match mode {
        0 => f.properties().contains(FstProperties::ACCEPTOR),
        1 => true,
        _ => false,
    };
    ctx.input = format!("sigma={} mode={:?} allowed={:?} {}", sigma, modes[mode], allowed.as_ref().map(|x| x.iter().cloned().collect::<BTreeSet<_>>()), base);
    let sm = ctx.guard_ok("SigmaMatcher::new", || SigmaMatcher::new(mt, sigma, modes[mode], Arc::clone(&arc_m), allowed.clone()));
    if let Some(sm) = sm {
        for p in 0..s.n() {
            let has = sigma != NO_LABEL && s.arcs[p].iter().any(|a| side(a, input) == sigma);
            if let Some(q) = ctx.guard_ok("priority", || sm.priority(p as StateId)) {
                chk!(ctx, q == if has { REQUIRE_PRIORITY } else { s.arcs[p].len() }, "sigma-priority", "priority of {} gave {}", p, q);
            }
            for l in &labels {
                let it = ctx.guard("sigma iter", || sm.iter(p as StateId, *l));
                let it = match it {
                    None => return,
                    Some(it) => it,
                };
                if *l == sigma && sigma != NO_LABEL {
                    chk!(ctx, it.is_err(), "sigma-label", "asking for the sigma label was accepted");
                    ctx.count("sigma_label_refused");
                    continue;
                }
                let mut e = plain(&s, p, *l, input);
                if has && *l != EPS_LABEL && *l != NO_LABEL && allowed.as_ref().map_or(true, |a| a.contains(l)) {
                    for a in s.arcs[p].iter().filter(|a| side(a, input) == sigma) {
                        let mut a = a.clone();
                        let (i, o) = (a.il == sigma, a.ol == sigma);
                        if i && (both || input) {
                            a.il = *l;
                        }
                        if o && (both || !input) {
                            a.ol = *l;
                        }
                        e.push(item(&a));
                        ctx.count("sigma_matches");
                    }
                }
                match it {
                    Err(x) => ctx.fail("sigma-refused", format!("state {} label {}: {}", p, l, x)),
                    Ok(it) => {
                        let g = collect(it);
                        chk!(ctx, same(g.clone(), e.clone()), "sigma-matcher", "state {} label {}: {:?}, expected {:?}", p, l, g, e);
                    }
                }
            }
        }
    }
    if ctx.failed() {
        return;
    }

    // multi-epsilon matcher, with the label set going through a history
    let flags = match ctx.rng.below(4) {
        0 => MultiEpsMatcherFlags::MULTI_EPS_LOOP,
        1 => MultiEpsMatcherFlags::MULTI_EPS_LIST,
        _ => MultiEpsMatcherFlags::MULTI_EPS_LOOP | MultiEpsMatcherFlags::MULTI_EPS_LIST,
    };
    let mm = ctx.guard_ok("MultiEpsMatcher::new", || MultiEpsMatcher::<W, VectorFst<W>, Arc<VectorFst<W>>, SM<W>>::new_with_opts(Arc::clone(&f), mt, flags, Arc::clone(&arc_m)));
    let mut mm = match mm {
        Some(m) => m,
        None => return,
    };
    let mut set: BTreeSet<u32> = BTreeSet::new();
    let mut log = String::new();
    let cand: Vec<u32> = labels.iter().cloned().filter(|l| *l != 0 && *l != NO_LABEL).collect();
    for _ in 0..ctx.rng.range(1, 8) {
        let l = *ctx.rng.pick(&cand);
        match ctx.rng.below(8) {
            0 => {
                mm.clear_multi_eps_labels();
                set.clear();
                log.push_str(" clear");
            }
            1 | 2 => {
                log.push_str(&format!(" -{}", l));
                ctx.input = format!("multi-eps {:?}{} {}", flags, log, base);
                if ctx.guard_ok("remove_multi_eps_label", || mm.remove_multi_eps_label(l)).is_none() {
                    return;
                }
                set.remove(&l);
                ctx.count("multi_eps_removed");
            }
            _ => {
                log.push_str(&format!(" +{}", l));
                ctx.input = format!("multi-eps {:?}{} {}", flags, log, base);
                if ctx.guard_ok("add_multi_eps_label", || mm.add_multi_eps_label(l)).is_none() {
                    return;
                }
                set.insert(l);
            }
        }
    }
    ctx.input = format!("multi-eps {:?}{} {}", flags, log, base);
    for p in 0..s.n() {
        for l in &labels {
            let e: Vec<It> = if *l == NO_LABEL && flags.contains(MultiEpsMatcherFlags::MULTI_EPS_LIST) {
                ctx.count("multi_eps_lists");
                let mut v: Vec<It> = s.arcs[p].iter().filter(|a| set.contains(&side(a, input))).map(item).collect();
                v.extend(plain(&s, p, NO_LABEL, input));
                v
            } else if flags.contains(MultiEpsMatcherFlags::MULTI_EPS_LOOP) && set.contains(l) {
                ctx.count("multi_eps_loops");
                vec![It::Loop]
            } else {
                plain(&s, p, *l, input)
            };
            if let Some(it) = ctx.guard_ok("multi-eps iter", || mm.iter(p as StateId, *l)) {
                if let Some(g) = ctx.guard("multi-eps next", || collect(it)) {
                    chk!(ctx, same(g.clone(), e.clone()), "multi-eps-matcher", "state {} label {}: {:?}, expected {:?}", p, l, g, e);
                }
            }
        }
    }
}

// ---------------------------------------------------------------- reachability
fn closure<W: Wt>(s: &Spec<W>, keep: impl Fn(&SArc<W>) -> bool) -> Vec<Vec<bool>> {
    let n = s.n();
    let mut r = vec![vec![false; n]; n];
    for p in 0..n {
        r[p][p] = true;
        for a in s.arcs[p].iter().filter(|a| keep(a)) {
            r[p][a.to] = true;
        }
    }
    for k in 0..n {
        for i in 0..n {
            if r[i][k] {
                for j in 0..n {
                    if r[k][j] {
                        r[i][j] = true;
                    }
                }
            }
        }
    }
    r
}

fn is_final<W: Wt>(s: &Spec<W>, p: usize) -> bool {
    s.fin[p].as_ref().map_or(false, |w| !w.to_ref().is_zero())
}

fn states<W: Wt>(ctx: &mut Ctx) {
    let mut c = GenCfg::new();
    c.nmin = 1;
    c.nmax = *ctx.rng.pick(&[4usize, 9, 16]);
    c.p_nostart = 0;
    c.acyclic = ctx.rng.bool();
    c.p_final = *ctx.rng.pick(&[15usize, 40, 70]);
    let mut s = gen_spec::<W>(&mut ctx.rng, &c);
    let r0 = closure(&s, |_| true);
    let on_cycle = |s: &Spec<W>, p: usize| (0..s.n()).any(|q| q != p && r0[p][q] && r0[q][p]);
    if !c.acyclic && ctx.rng.chance(4, 5) {
        for p in 0..s.n() {
            if on_cycle(&s, p) {
                s.fin[p] = None;
            }
        }
    }
    let mut f = s.build_var(&mut ctx.rng);
    // the index wants to know whether the machine is acyclic
    let _ = f.compute_and_update_properties_all();
    ctx.input = format!("state reachability {}", s.dump());
    ctx.distinct(s.hash());
    let bad = (0..s.n()).any(|p| is_final(&s, p) && on_cycle(&s, p));
    let sr = match ctx.guard("StateReachable::new", || StateReachable::new(&f)) {
        None => return,
        Some(r) => r,
    };
    match sr {
        Err(e) => {
            chk!(ctx, bad, "refused", "refused although no final state lies on a cycle: {}", e);
            ctx.count("final_on_cycle_refused");
        }
        Ok(sr) => {
            chk!(ctx, !bad, "accepted", "a final state on a cycle of several states was not refused");
            if ctx.failed() {
                return;
            }
            for p in 0..s.n() {
                for q in 0..s.n() {
                    if is_final(&s, q) {
                        if let Some(b) = ctx.guard_ok("reach", || sr.reach(p as StateId, q as StateId)) {
                            chk!(ctx, b == r0[p][q], "state-reach", "reach({}, {}) gave {}", p, q, b);
                            ctx.count(if c.acyclic { "state_queries_acyclic" } else { "state_queries_cyclic" });
                        }
                    }
                }
            }
        }
    }
}

fn labels<W: Wt>(ctx: &mut Ctx) {
    let mut c = GenCfg::new();
    c.nmin = 1;
    c.nmax = *ctx.rng.pick(&[3usize, 6, 10]);
    c.alpha = *ctx.rng.pick(&[2u32, 5, 12]);
    c.p_nostart = 10;
    c.eps_i = *ctx.rng.pick(&[10usize, 40, 70]);
    c.eps_o = c.eps_i;
    c.acyclic = ctx.rng.chance(1, 3);
    c.arcs_per_state = *ctx.rng.pick(&[1usize, 2, 4]);
    c.p_final = *ctx.rng.pick(&[0usize, 30, 60]);
    let mut s = gen_spec::<W>(&mut ctx.rng, &c);
    if ctx.rng.chance(1, 3) {
        for a in s.arcs.iter_mut().flatten() {
            a.il *= 5;
            a.ol *= 5;
        }
    }
    let input = ctx.rng.bool();
    let f = s.build_var(&mut ctx.rng);
    ctx.input = format!("label reachability input={} {}", input, s.dump());
    ctx.distinct(s.hash());
    let mut data: LabelReachableData = match ctx.guard_ok("compute_data", || LabelReachable::compute_data(&f, input)) {
        Some(d) => d,
        None => return,
    };
    chk!(ctx, data.reach_input() == input, "side", "index built for the wrong side");
    let eps = closure(&s, |a| side(a, input) == 0);
    let n = s.n();
    let reach = |p: usize, l: u32| l != 0 && (0..n).any(|q| eps[p][q] && s.arcs[q].iter().any(|a| side(a, input) == l));
    let known: BTreeSet<u32> = s.arcs.iter().flatten().map(|a| side(a, input)).filter(|l| *l != 0).collect();

    // relabelling pairs: a machine relabelled with them is answered exactly
    let lr0 = LabelReachable::new_from_data(Arc::new(data.clone()));
    let pairs: HashMap<u32, u32> = data.relabel_pairs(true).into_iter().collect();
    let plain_pairs: HashMap<u32, u32> = data.relabel_pairs(false).into_iter().collect();
    for l in &known {
        chk!(ctx, pairs.contains_key(l) && pairs.get(l) == plain_pairs.get(l), "pairs", "label {} has no pair, or not the same one", l);
    }
    chk!(ctx, plain_pairs.keys().cloned().collect::<BTreeSet<_>>() == known, "pairs", "pairs {:?}, labels {:?}", plain_pairs, known);
    for p in 0..n {
        for l in 0..70u32 {
            let x = *pairs.get(&l).unwrap_or(&l);
            if let Some(b) = ctx.guard_ok("reach_label", || lr0.reach_label(p as StateId, x)) {
                chk!(ctx, b == reach(p, l), "label-reach", "label {} (renamed {}) from {}: {}", l, x, p, b);
                ctx.count("label_queries");
            }
        }
        if let Some(b) = ctx.guard_ok("reach_final", || lr0.reach_final(p as StateId)) {
            let e = (0..n).any(|q| eps[p][q] && is_final(&s, q));
            chk!(ctx, b == e, "final-reach", "final from {}: {}", p, b);
            ctx.count("final_queries");
        }
    }
    if ctx.failed() {
        return;
    }

    // a second machine relabelled by the index, and ranges of its transitions
    let side2 = ctx.rng.bool();
    let mut c2 = GenCfg::new();
    c2.nmin = 1;
    c2.nmax = 3;
    c2.p_nostart = 0;
    c2.alpha = c.alpha + 2;
    c2.arcs_per_state = *ctx.rng.pick(&[1usize, 3, 9]);
    let s2 = gen_spec::<W>(&mut ctx.rng, &c2);
    let mut f2 = s2.build();
    if ctx.guard_ok("relabel_fst", || data.relabel_fst(&mut f2, side2)).is_none() {
        return;
    }
    let back: HashMap<u32, u32> = data.label2index().iter().map(|(a, b)| (*b, *a)).collect();
    chk!(ctx, back.len() == data.label2index().len(), "injective", "two labels share an index: {:?}", data.label2index());
    let mut lr = LabelReachable::new_from_data(Arc::new(data.clone()));
    if ctx.guard_ok("reach_init", || lr.reach_init(&f2, side2)).is_none() {
        return;
    }
    ctx.input = format!("{} ranges of side {} of {}", ctx.input, side2, s2.dump());
    for q in 0..s2.n() {
        let trs = f2.get_trs(q as StateId).unwrap();
        // same transitions as before, renamed
        let orig: Vec<u32> = trs
            .trs()
            .iter()
            .map(|t| {
                let l = if side2 { t.ilabel } else { t.olabel };
                if l == 0 {
                    0
                } else {
                    back.get(&l).cloned().unwrap_or(NO_LABEL)
                }
            })
            .collect();
        let mut a = orig.clone();
        let mut b: Vec<u32> = s2.arcs[q].iter().map(|a| side(a, side2)).collect();
        a.sort();
        b.sort();
        chk!(ctx, a == b, "relabelled", "state {}: labels {:?} became {:?}", q, b, a);
        let len = trs.trs().len();
        for _ in 0..6 {
            let (x, y) = (ctx.rng.below(len + 1), ctx.rng.below(len + 1));
            let (x, y) = (x.min(y), x.max(y));
            let p = ctx.rng.below(n);
            let hit: Vec<usize> = (x..y).filter(|i| reach(p, orig[*i])).collect();
            let cw = ctx.rng.bool();
            let g = ctx.guard_ok("reach", || lr.reach(p as StateId, trs.shallow_clone(), x, y, cw));
            match g {
                None => return,
                Some(None) => {
                    chk!(ctx, hit.is_empty(), "range", "from {} transitions {}..{} of {}: none, expected {:?}", p, x, y, q, hit);
                    ctx.count("ranges_none");
                }
                Some(Some((lo, hi, w))) => {
                    ctx.count("ranges_some");
                    let e = hit.first().map(|a| (*a, *hit.last().unwrap() + 1));
                    chk!(ctx, e == Some((lo, hi)), "range", "from {} transitions {}..{} of {}: {}..{}, expected {:?}", p, x, y, q, lo, hi, hit);
                    let mut sum = <W::R as RefW>::zero();
                    if cw {
                        for i in &hit {
                            sum = sum.plus(&trs.trs()[*i].weight.to_ref());
                        }
                    }
                    chk!(ctx, sum.same(&w.to_ref()), "range-weight", "from {} transitions {}..{} of {}: weight {:?}, expected {:?}", p, x, y, q, w, sum);
                }
            }
        }
    }
    // an unsorted machine is refused
    if s2.arcs.iter().any(|v| v.windows(2).any(|w| side(&w[0], side2) > side(&w[1], side2))) {
        let u = s2.build();
        let mut lr = LabelReachable::new_from_data(Arc::new(data));
        if let Some(r) = ctx.guard("reach_init", || lr.reach_init(&u, side2)) {
            chk!(ctx, r.is_err(), "unsorted", "reach_init accepted an unsorted machine {}", s2.dump());
            ctx.count("unsorted_refused");
        }
    }
}

pub fn case(ctx: &mut Ctx) {
    let _ = WProfile::Normal;
    match ctx.rng.below(10) {
        0..=2 => intervals(ctx),
        3..=5 => with_w!(ctx, matchers, [TropicalWeight, LogWeight, BooleanWeight, IntegerWeight]),
        6..=7 => with_w!(ctx, states, [TropicalWeight, LogWeight, BooleanWeight]),
        _ => with_w!(ctx, labels, [TropicalWeight, IntegerWeight, BooleanWeight]),
    }
}

fn main() {
    run(Prop {
        id: "C32",
        quick: 1_500_000,
        thorough: 40_000_000,
        rule: "interval sets under random unions and normalisations; sorted, sigma and multi-epsilon matchers asked for every label (present, absent, epsilon, no-label) at every state of random machines on both sides, with label-set histories; state reachability of final states on cyclic and acyclic machines; label reachability with renaming pairs, renamed second machines and transition ranges. Every answer is compared with a scan of the specification. Non-trivial: distinct machines and interval histories.",
        case,
        fixed: &[],
        must: &["empty_intervals", "normalized", "sorted_matches", "sorted_multi_matches", "unsorted_recognised", "sigma_matches", "sigma_label_refused", "multi_eps_lists", "multi_eps_loops", "multi_eps_removed", "state_queries_acyclic", "state_queries_cyclic", "final_on_cycle_refused", "label_queries", "final_queries", "ranges_none", "ranges_some", "unsorted_refused"],
        assumptions: &["state reachability is asked for final states only, on machines with a start state", "the order in which a matcher lists its matches is not judged", "without MatcherRewriteAlways/Auto a sigma on the unmatched side stays as it is"],
        ..DEFAULT
    });
}
