//! C05: composition.
use fstmon::driver::*;
use fstmon::gen::*;
use fstmon::ops::{FullW, V};
use fstmon::reffst::*;
use fstmon::refw::*;
use fstmon::util::*;
use fstmon::{chk, with_w};
use rustfst::algorithms::compose::compose_filters::*;
use rustfst::algorithms::compose::lookahead_filters::lookahead_selector::*;
use rustfst::algorithms::compose::lookahead_filters::*;
use rustfst::algorithms::compose::lookahead_matchers::*;
use rustfst::algorithms::compose::matchers::*;
use rustfst::algorithms::compose::*;
use rustfst::algorithms::lazy::SimpleHashMapCache;
use rustfst::fst_properties::FstProperties;
use rustfst::prelude::*;
use std::collections::BTreeSet;
use std::sync::Arc;

fn cfg(f: ComposeFilterEnum, connect: bool) -> ComposeConfig {
    ComposeConfig { compose_filter: f, connect, ..Default::default() }
}

fn check<W: Wt>(ctx: &mut Ctx, name: &str, exp: &RFst<W::R>, v: &V<W>, connect: bool) {
    if let Some(r) = ext(ctx, name, v) {
        cmp_rel(ctx, name, exp, &r, 3);
        if connect {
            let n = r.trim().n();
            chk!(ctx, n == r.n(), &format!("untrimmed:{}", name), "{} states of which {} useful", r.n(), n);
        }
    }
}

fn spec<W: Wt>(ctx: &mut Ctx, acyclic: bool) -> Spec<W> {
    spec_big(ctx, acyclic, None)
}

/// `big`: sometimes large, and with labels spread over the whole range or not
fn spec_big<W: Wt>(ctx: &mut Ctx, acyclic: bool, big: Option<bool>) -> Spec<W> {
    let mut c = GenCfg::new();
    c.nmin = 1;
    c.nmax = ctx.rng.range(2, 5);
    c.acyclic = acyclic;
    c.acceptor = ctx.rng.chance(1, 6);
    c.eps_i = [0, 20, 50][ctx.rng.below(3)];
    c.eps_o = [0, 20, 50][ctx.rng.below(3)];
    c.alpha = ctx.rng.range(1, 3) as u32;
    if let Some(b) = big {
        if enlarge(&mut ctx.rng, &mut c, 80, 18) {
            ctx.count("large_machines");
        }
        c.big_labels = b;
    }
    gen_spec(&mut ctx.rng, &c)
}

fn case_w<W: Wt>(ctx: &mut Ctx) {
    let acyclic = !W::CYCLE_OK || ctx.rng.chance(1, 3);
    let big = ctx.rng.chance(1, 12);
    let mut a: Spec<W> = spec_big(ctx, acyclic, Some(big));
    let mut b: Spec<W> = spec_big(ctx, acyclic, Some(big));
    ctx.input = format!("{} A={} B={}", W::NAME, a.dump(), b.dump());
    let exp = compose_ref(&a.to_ref(), &b.to_ref());
    if exp.trim().narcs() >= 2 {
        ctx.distinct(a.hash() ^ b.hash().rotate_left(7));
    }
    let s = ctx.input.clone();
    ctx.sample(|| s);
    let mut rng = ctx.rng.fork();
    // eager, one side sorted is enough for the automatic choice
    let mode = rng.below(4);
    if mode == 0 || mode == 2 {
        a.sort(true);
    }
    if mode == 1 || mode == 2 {
        b.sort(false);
    }
    // composition asks for the sortedness to be known
    let known = |f: &mut V<W>| {
        f.compute_and_update_properties(FstProperties::I_LABEL_SORTED | FstProperties::O_LABEL_SORTED).unwrap();
    };
    let mut fa = a.build_var(&mut rng);
    let mut fb = b.build_var(&mut rng);
    known(&mut fa);
    known(&mut fb);
    let r = ctx.guard("compose", || compose::<W, V<W>, V<W>, V<W>, _, _>(&fa, &fb));
    match r {
        None => return,
        Some(Ok(v)) => check(ctx, "compose", &exp, &v, true),
        Some(Err(e)) => {
            if mode != 3 {
                ctx.fail("error:compose", format!("{:?}", e));
            } else {
                ctx.count("unsorted_refused");
            }
        }
    }
    if let Some(r) = ctx.guard("compose-lazy-new", || ComposeFst::<W, V<W>, V<W>, _, _, _, _, _>::new_auto(fa.clone(), fb.clone())) {
        match r {
            Err(e) => {
                if mode != 3 {
                    ctx.fail("error:compose-lazy", format!("{:?}", e));
                }
            }
            Ok(z) => {
                if let Some(r) = ext_lazy::<W, _>(ctx, "compose-lazy", &z, 3000) {
                    cmp_rel(ctx, "compose-lazy", &exp, &r, 3);
                }
                if let Some(v) = ctx.guard_ok("compose-lazy-compute", || z.compute::<V<W>>()) {
                    check(ctx, "compose-lazy-compute", &exp, &v, false);
                }
            }
        }
    }
    // explicit filters
    a.sort(true);
    b.sort(false);
    let mut fa = a.build_var(&mut rng);
    let mut fb = b.build_var(&mut rng);
    known(&mut fa);
    known(&mut fb);
    let ea = exp_eps(&a, true);
    let eb = exp_eps(&b, false);
    use ComposeFilterEnum::*;
    let mut list: Vec<(&str, ComposeFilterEnum)> = vec![
        ("filter-auto", AutoFilter),
        ("filter-sequence", SequenceFilter),
        ("filter-altsequence", AltSequenceFilter),
        ("filter-match", MatchFilter),
    ];
    if !(ea && eb) {
        // these do not choose between equivalent interleavings of epsilons
        list.push(("filter-trivial", TrivialFilter));
        list.push(("filter-nomatch", NoMatchFilter));
    } else if W::IDEMP {
        list.push(("filter-trivial", TrivialFilter));
    }
    if !ea && !eb {
        list.push(("filter-null", NullFilter));
    }
    for (name, f) in list {
        let connect = rng.bool();
        if let Some(v) = ctx.guard_ok(name, || compose_with_config::<W, V<W>, V<W>, _, _, V<W>>(&fa, &fb, cfg(f, connect))) {
            check(ctx, name, &exp, &v, connect);
        }
    }
    // constant operands
    if rng.chance(1, 2) {
        let ca: ConstFst<W> = fa.clone().into();
        let cb: ConstFst<W> = fb.clone().into();
        if let Some(v) = ctx.guard_ok("compose-const", || compose::<W, ConstFst<W>, V<W>, V<W>, _, _>(Arc::new(ca.clone()), Arc::new(fb.clone()))) {
            check(ctx, "compose-const", &exp, &v, true);
        }
        if let Some(v) = ctx.guard_ok("compose-const", || compose::<W, V<W>, ConstFst<W>, V<W>, _, _>(&fa, &cb)) {
            check(ctx, "compose-const", &exp, &v, true);
        }
    }
    // lazy with explicit builders
    macro_rules! lazy {
        ($n:expr, $b:ident) => {{
            let z = ctx.guard_ok($n, || {
                ComposeFst::<W, V<W>, V<W>, _, _, SortedMatcher<_, _, _>, SortedMatcher<_, _, _>, $b<_, _, _, _, _, _, _>>::new(fa.clone(), fb.clone())
            });
            if let Some(z) = z {
                if let Some(r) = ext_lazy::<W, _>(ctx, $n, &z, 3000) {
                    cmp_rel(ctx, $n, &exp, &r, 3);
                }
            }
        }};
    }
    match rng.below(3) {
        0 => lazy!("lazy-sequence", SequenceComposeFilterBuilder),
        1 => lazy!("lazy-altsequence", AltSequenceComposeFilterBuilder),
        _ => lazy!("lazy-match", MatchComposeFilterBuilder),
    }
    // operands must not have changed
    for (nm, f, s) in [("A", &fa, &a), ("B", &fb, &b)] {
        if let Some(r) = ext(ctx, "operand", f) {
            if let Err(e) = s.to_ref().same_structure(&r) {
                ctx.fail("operand-modified:compose", format!("{}: {}", nm, e));
            }
        }
    }
    // mapping inputs into outputs through identities changes nothing: A o id == A
    if rng.chance(1, 4) {
        let mut idf = V::<W>::new();
        let s = idf.add_state();
        idf.set_start(s).unwrap();
        idf.set_final(s, W::one()).unwrap();
        let mut ls: Vec<Label> = a.arcs.iter().chain(b.arcs.iter()).flatten().flat_map(|x| [x.il, x.ol]).filter(|l| *l != 0).collect();
        ls.sort_unstable();
        ls.dedup();
        for l in ls {
            idf.add_tr(s, Tr::new(l, l, W::one(), s)).unwrap();
        }
        if let Some(v) = ctx.guard_ok("compose-identity", || compose::<W, V<W>, V<W>, V<W>, _, _>(&fa, &idf)) {
            check(ctx, "compose-identity", &a.to_ref(), &v, true);
        }
        if let Some(v) = ctx.guard_ok("compose-identity", || compose::<W, V<W>, V<W>, V<W>, _, _>(&idf, &fb)) {
            check(ctx, "compose-identity", &b.to_ref(), &v, true);
        }
    }
}

fn exp_eps<W: Wt>(s: &Spec<W>, out: bool) -> bool {
    s.arcs.iter().flatten().any(|a| (if out { a.ol } else { a.il }) == 0)
}

const SIGMA: u32 = 9;
/// sigma transitions: expands them over the labels the other side uses
fn case_sigma<W: Wt>(ctx: &mut Ctx) {
    let acyclic = !W::CYCLE_OK || ctx.rng.chance(1, 3);
    let mut a: Spec<W> = spec(ctx, acyclic);
    let mut b: Spec<W> = spec(ctx, acyclic);
    let left = ctx.rng.chance(1, 3);
    let mut rng = ctx.rng.fork();
    let acc = rng.chance(1, 3);
    {
        let t = if left { &mut a } else { &mut b };
        for x in t.arcs.iter_mut().flatten() {
            if acc {
                if left {
                    x.il = x.ol
                } else {
                    x.ol = x.il
                }
            }
            if rng.chance(1, 3) {
                let m = if left { &mut x.ol } else { &mut x.il };
                *m = SIGMA;
                if acc || rng.chance(1, 2) {
                    x.il = SIGMA;
                    x.ol = SIGMA;
                }
            }
        }
    }
    let mode = rng.below(3);
    let allowed: Option<Vec<u32>> = if rng.chance(1, 2) { Some((1..=3).filter(|_| rng.bool()).collect()) } else { None };
    ctx.input = format!("sigma {} left={} mode={} allowed={:?} A={} B={}", W::NAME, left, mode, allowed, a.dump(), b.dump());
    let (ra, rb) = (a.to_ref(), b.to_ref());
    let (mut t, o) = if left { (ra.clone(), &rb) } else { (rb.clone(), &ra) };
    let is_acc = t.st.iter().all(|s| s.arcs.iter().all(|x| x.il == x.ol));
    let rewrite_both = match mode {
        0 => is_acc,
        1 => true,
        _ => false,
    };
    let labels: BTreeSet<u32> = o.st.iter().flat_map(|s| s.arcs.iter()).map(|x| if left { x.il } else { x.ol }).filter(|l| *l != 0).collect();
    for s in t.st.iter_mut() {
        let mut n = vec![];
        for x in s.arcs.drain(..) {
            let on = if left { x.ol } else { x.il };
            if on != SIGMA {
                n.push(x);
                continue;
            }
            for l in &labels {
                if let Some(al) = &allowed {
                    if !al.contains(l) {
                        continue;
                    }
                }
                let mut y = x.clone();
                if left {
                    y.ol = *l
                } else {
                    y.il = *l
                }
                if rewrite_both {
                    if y.il == SIGMA {
                        y.il = *l
                    }
                    if y.ol == SIGMA {
                        y.ol = *l
                    }
                }
                n.push(y);
            }
        }
        s.arcs = n;
    }
    let exp = if left { compose_ref(&t, o) } else { compose_ref(o, &t) };
    if exp.trim().narcs() >= 2 {
        ctx.distinct(a.hash() ^ b.hash().rotate_left(9));
    }
    a.sort(true);
    b.sort(false);
    let mut fa = a.build_var(&mut rng);
    let mut fb = b.build_var(&mut rng);
    fa.compute_and_update_properties_all().unwrap();
    fb.compute_and_update_properties_all().unwrap();
    let sc = MatcherConfig {
        sigma_matcher_config: Some(SigmaMatcherConfig {
            sigma_label: SIGMA,
            rewrite_mode: match mode {
                0 => MatcherRewriteMode::MatcherRewriteAuto,
                1 => MatcherRewriteMode::MatcherRewriteAlways,
                _ => MatcherRewriteMode::MatcherRewriteNever,
            },
            sigma_allowed_matches: allowed.clone(),
        }),
    };
    use ComposeFilterEnum::*;
    for (name, f) in [("sigma-sequence", SequenceFilter), ("sigma-altsequence", AltSequenceFilter), ("sigma-match", MatchFilter)] {
        let mut c = cfg(f, rng.bool());
        let connect = c.connect;
        if left {
            c.matcher1_config = sc.clone();
        } else {
            c.matcher2_config = sc.clone();
        }
        if let Some(v) = ctx.guard_ok(name, || compose_with_config::<W, V<W>, V<W>, _, _, V<W>>(&fa, &fb, c)) {
            check(ctx, name, &exp, &v, connect);
        }
    }
}

macro_rules! flags {
    ($n:ident, $e:expr) => {
        #[derive(Debug, Clone, PartialOrd, PartialEq)]
        struct $n {}
        impl MatcherFlagsTrait for $n {
            fn flags() -> MatcherFlags {
                $e
            }
        }
    };
}
flags!(F0, MatcherFlags::OUTPUT_LOOKAHEAD_MATCHER
    | MatcherFlags::LOOKAHEAD_WEIGHT
    | MatcherFlags::LOOKAHEAD_PREFIX
    | MatcherFlags::LOOKAHEAD_EPSILONS
    | MatcherFlags::LOOKAHEAD_NON_EPSILON_PREFIX);
flags!(F1, MatcherFlags::OLABEL_LOOKAHEAD_FLAGS);
flags!(F2, MatcherFlags::OUTPUT_LOOKAHEAD_MATCHER | MatcherFlags::LOOKAHEAD_EPSILONS | MatcherFlags::LOOKAHEAD_NON_EPSILONS);
flags!(F3, MatcherFlags::OUTPUT_LOOKAHEAD_MATCHER | MatcherFlags::LOOKAHEAD_WEIGHT | MatcherFlags::LOOKAHEAD_NON_EPSILONS);

type M1<S, F, G> = LabelLookAheadMatcher<S, F, Arc<F>, SortedMatcher<S, F, Arc<F>>, G>;
type M2<S, F> = SortedMatcher<S, F, Arc<F>>;
type LaFst<S, F, G> = MatcherFst<S, F, Arc<F>, M1<S, F, G>, LabelReachableData>;
type Seq<S, A, B, G> = AltSequenceComposeFilterBuilder<S, A, B, Arc<A>, Arc<B>, M1<S, A, G>, M2<S, B>>;
type Look<S, A, B, G> = LookAheadComposeFilterBuilder<S, A, B, Arc<A>, Arc<B>, M1<S, A, G>, M2<S, B>, Seq<S, A, B, G>, SMatchOutput>;
type PushW<S, A, B, G> = PushWeightsComposeFilterBuilder<S, A, B, Arc<A>, Arc<B>, M1<S, A, G>, M2<S, B>, Look<S, A, B, G>, SMatchOutput>;
type PushL<S, A, B, G> = PushLabelsComposeFilterBuilder<S, A, B, Arc<A>, Arc<B>, M1<S, A, G>, M2<S, B>, PushW<S, A, B, G>, SMatchOutput>;

macro_rules! la {
    ($name:ident, $filter:ident) => {
        fn $name<W: FullW, G: MatcherFlagsTrait + PartialEq>(a: &V<W>, b: &V<W>, relabel: bool) -> anyhow::Result<V<W>> {
            let mut fst2 = b.clone();
            let graph1look = Arc::new(LaFst::<W, V<W>, G>::new_with_relabeling(a.clone(), &mut fst2, relabel)?);
            tr_sort(&mut fst2, ILabelCompare {});
            let fst2 = Arc::new(fst2);
            let matcher1 = M1::<W, _, G>::new_with_data(Arc::clone(&graph1look), MatchType::MatchOutput, graph1look.data(MatchType::MatchOutput).cloned())?;
            let matcher2 = M2::new(Arc::clone(&fst2), MatchType::MatchInput)?;
            let cf = $filter::<W, _, _, G>::new(Arc::clone(&graph1look), Arc::clone(&fst2), Some(matcher1), Some(matcher2))?;
            let opts = ComposeFstOpOptions::<_, _, $filter<_, _, _, G>, _>::new(None, None, cf, None);
            ComposeFst::<_, _, _, _, _, _, _, _, SimpleHashMapCache<_>>::new_with_options(graph1look, fst2, opts)?.compute()
        }
    };
}
la!(la_look, Look);
la!(la_pushw, PushW);
la!(la_pushl, PushL);

fn case_la<W: FullW>(ctx: &mut Ctx) {
    let acyclic = ctx.rng.chance(1, 2);
    let (a, b): (Spec<W>, Spec<W>) = if ctx.rng.chance(1, 6) {
        // label sets that overlap in many ways: many intervals per state
        ctx.count("lookahead_wide");
        let alpha = *ctx.rng.pick(&[8u32, 16, 40]);
        let mut c = GenCfg::new();
        c.nmin = 2;
        c.nmax = 6;
        c.acyclic = acyclic;
        c.alpha = alpha;
        c.eps_o = 10;
        c.arcs_per_state = ctx.rng.range(3, 14);
        let mut d = GenCfg::new();
        d.nmin = 2;
        d.nmax = 4;
        d.acyclic = acyclic;
        d.alpha = alpha;
        d.arcs_per_state = ctx.rng.range(1, 4);
        d.eps_i = [0, 20][ctx.rng.below(2)];
        (gen_spec(&mut ctx.rng, &c), gen_spec(&mut ctx.rng, &d))
    } else {
        (spec(ctx, acyclic), spec(ctx, acyclic))
    };
    ctx.input = format!("lookahead {} A={} B={}", W::NAME, a.dump(), b.dump());
    let exp = compose_ref(&a.to_ref(), &b.to_ref());
    if exp.trim().narcs() >= 2 {
        ctx.distinct(a.hash() ^ b.hash().rotate_left(11));
    }
    let mut rng = ctx.rng.fork();
    let fa = a.build_var(&mut rng);
    let fb = b.build_var(&mut rng);
    // label reachability cannot be computed when a final state lies on a cycle of label-free moves
    macro_rules! go {
        ($n:expr, $f:ident, $g:ident) => {
            match ctx.guard($n, || $f::<W, $g>(&fa, &fb, true)) {
                None => {}
                Some(Ok(v)) => check(ctx, $n, &exp, &v, false),
                Some(Err(e)) => {
                    let m = format!("{:?}", e);
                    ctx.count("lookahead_refused");
                    if !a.to_ref().is_cyclic() {
                        ctx.fail(concat!("error:", $n), m);
                    }
                }
            }
        };
    }
    go!("la-look-0", la_look, F0);
    go!("la-look-1", la_look, F1);
    go!("la-pushw-0", la_pushw, F0);
    go!("la-pushw-1", la_pushw, F1);
    // looking ahead after a match does not see through epsilons of B, by design
    if !exp_eps(&b, false) {
        go!("la-look-2", la_look, F2);
        go!("la-look-3", la_look, F3);
        go!("la-pushw-3", la_pushw, F3);
    }
    go!("la-pushl-0", la_pushl, F0);
    go!("la-pushl-1", la_pushl, F1);
}

pub fn case(ctx: &mut Ctx) {
    match ctx.rng.below(10) {
        0..=5 => with_w!(ctx, case_w, [TropicalWeight, LogWeight, ProbabilityWeight, BooleanWeight, IntegerWeight]),
        6 | 7 => with_w!(ctx, case_sigma, [TropicalWeight, LogWeight, IntegerWeight]),
        _ => with_w!(ctx, case_la, [TropicalWeight, LogWeight]),
    }
}

fn main() {
    run(Prop {
        id: "C05",
        quick: 600_000,
        thorough: 20_000_000,
        rule: "random pairs of transducers over 5 semirings composed by every variant; each result's relation is compared (all string pairs of length <=3, plus sampled longer ones) with an independent path-pairing construction. Non-trivial: the reference composition has >=2 useful transitions.",
        case,
        must: &["relations_compared:compose", "relations_compared:compose-lazy", "relations_compared:filter-match", "relations_compared:sigma-sequence", "relations_compared:la-pushl-0", "relations_compared:filter-null"],
        assumptions: &["filters that do not order epsilons (trivial, no-match, null) are judged only on inputs for which they are defined to be exact"],
        ..DEFAULT
    });
}
