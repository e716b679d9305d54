//! C29: symbol tables stay attached to the right side.
use fstmon::driver::*;
use fstmon::gen::*;
use fstmon::hist::{step, HistCfg, Slot};
use fstmon::ops::*;
use fstmon::refw::*;
use fstmon::with_w;
use rustfst::algorithms::closure::{ClosureFst, ClosureType};
use rustfst::algorithms::compose::*;
use rustfst::algorithms::concat::ConcatFst;
use rustfst::algorithms::factor_weight::factor_iterators::IdentityFactor;
use rustfst::algorithms::factor_weight::*;
use rustfst::algorithms::replace::*;
use rustfst::algorithms::rm_epsilon::*;
use rustfst::algorithms::union::UnionFst;
use rustfst::prelude::*;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Arc;

/// name of a table: which of the tables made for this case it is
type Tab = Option<u8>;

struct Tabs {
    t: Vec<Arc<SymbolTable>>,
}

impl Tabs {
    fn new() -> Self {
        Tabs { t: vec![Arc::new(symt!["in1", "x"]), Arc::new(symt!["out1", "x", "y"]), Arc::new(symt!["in2", "x"]), Arc::new(symt!["out2"]), Arc::new(symt![])] }
    }
    fn name(&self, t: Option<&Arc<SymbolTable>>) -> Tab {
        t.map(|x| self.t.iter().position(|y| **y == **x).map(|p| p as u8).unwrap_or(99))
    }
    fn of<W: Semiring, F: Fst<W>>(&self, f: &F) -> (Tab, Tab) {
        (self.name(f.input_symbols()), self.name(f.output_symbols()))
    }
    fn set<W: Semiring, F: Fst<W>>(&self, f: &mut F, t: (Tab, Tab)) {
        if let Some(i) = t.0 {
            f.set_input_symbols(Arc::clone(&self.t[i as usize]));
        }
        if let Some(o) = t.1 {
            f.set_output_symbols(Arc::clone(&self.t[o as usize]));
        }
    }
}

fn shows(t: (Tab, Tab)) -> String {
    let n = |t: Tab| match t {
        None => "none".to_string(),
        Some(99) => "a foreign table".into(),
        Some(i) => ["in1", "out1", "in2", "out2", "empty"][i as usize].into(),
    };
    format!("(input {}, output {})", n(t.0), n(t.1))
}

fn judge(ctx: &mut Ctx, op: &str, got: (Tab, Tab), exp: (Tab, Tab)) -> bool {
    ctx.count("tables_judged");
    ctx.count(&format!("judged:{}", op));
    if exp.0.is_some() || exp.1.is_some() {
        ctx.count("with_tables");
    }
    if got != exp {
        ctx.fail(&format!("tables:{}", op), format!("after {}: {}, expected {}", op, shows(got), shows(exp)));
        return false;
    }
    true
}

fn pick(ctx: &mut Ctx, i: u8, o: u8) -> (Tab, Tab) {
    let mut one = |x: u8| match ctx.rng.below(5) {
        0 => None,
        1 => Some(4),
        _ => Some(x),
    };
    (one(i), one(o))
}

fn input<W: FullW>(ctx: &mut Ctx, acyclic: bool, acceptor: bool, det: bool) -> Spec<W> {
    let mut g = GenCfg::new();
    g.nmin = 0;
    g.nmax = ctx.rng.range(1, 5);
    g.p_nostart = 12;
    g.acyclic = acyclic;
    g.acceptor = acceptor;
    g.idet = det;
    if ctx.rng.chance(1, 3) || det {
        g.eps_i = 0;
        g.eps_o = 0;
    }
    if ctx.rng.chance(1, 3) && (W::IDEMP || acyclic) {
        g.prof = WProfile::Unweighted;
    }
    g.trim = ctx.rng.bool();
    gen_spec(&mut ctx.rng, &g)
}

fn vary<W: FullW>(ctx: &mut Ctx, s: &Spec<W>) -> V<W> {
    let mut rng = ctx.rng.fork();
    let mut f = s.build_var(&mut rng);
    if rng.bool() {
        let m = fstmon::hist::random_mask(&mut rng);
        f.compute_and_update_properties(m).unwrap();
    }
    f
}

fn expect(s: Sides, t: (Tab, Tab)) -> Option<(Tab, Tab)> {
    match s {
        Sides::Same => Some(t),
        Sides::Swapped => Some((t.1, t.0)),
        Sides::Input => Some((t.0, t.0)),
        Sides::Output => Some((t.1, t.1)),
        Sides::Free => None,
    }
}

fn unary_case<W: FullW>(ctx: &mut Ctx) {
    let tabs = Tabs::new();
    let ops = unary::<W>();
    let op = &ops[ctx.rng.below(ops.len())];
    let mut rng = ctx.rng.fork();
    let need = op.need;
    if (need == Need::Path || need == Need::PathAcyclic) && !W::PATH {
        return;
    }
    let acyclic = matches!(need, Need::Acyclic | Need::AcyclicAcceptor | Need::PathAcyclic) || rng.chance(1, 3);
    let acceptor = matches!(need, Need::AcyclicAcceptor | Need::DetAcceptor) || rng.chance(1, 3);
    let s: Spec<W> = input(ctx, acyclic, acceptor, need == Need::DetAcceptor);
    if need == Need::Conv && !s.to_ref().converges() {
        ctx.count("input_without_sums");
        return;
    }
    let t = pick(ctx, 0, 1);
    let mut f = vary(ctx, &s);
    tabs.set(&mut f, t);
    ctx.input = format!("{} {} tables {} on {}", op.name, W::NAME, shows(t), s.dump());
    ctx.distinct(s.hash() ^ fstmon::rng::mix(t.0.map_or(9, |x| x as u64) * 10 + t.1.map_or(9, |x| x as u64)));
    let smp = ctx.input.clone();
    ctx.sample(|| smp);
    let r = catch_unwind(AssertUnwindSafe(|| (op.f)(&mut rng, &f)));
    match r {
        Ok(Ok(o)) => {
            if let Some(e) = expect(op.sides, t) {
                if !judge(ctx, op.name, tabs.of(&o), e) {
                    return;
                }
                if o.start().is_none() {
                    ctx.count("empty_results_judged");
                }
                // and through a second operation
                let op2 = &ops[ctx.rng.below(ops.len())];
                if op2.need == Need::Any {
                    if let (Some(e2), Ok(Ok(o2))) = (expect(op2.sides, e), catch_unwind(AssertUnwindSafe(|| (op2.f)(&mut rng, &o)))) {
                        ctx.input += &format!(" then {}", op2.name);
                        judge(ctx, op2.name, tabs.of(&o2), e2);
                    }
                }
            }
            // the operand keeps its own
            judge(ctx, "operand", tabs.of(&f), t);
        }
        _ => ctx.count(&format!("op_refused:{}", op.name)),
    }
}

fn binary_case<W: FullW>(ctx: &mut Ctx) {
    let tabs = Tabs::new();
    let ops = binary::<W>();
    let op = &ops[ctx.rng.below(ops.len())];
    let mut rng = ctx.rng.fork();
    let acyclic = rng.chance(1, 2);
    let acc = rng.chance(1, 3);
    let (a, b): (Spec<W>, Spec<W>) = (input(ctx, acyclic, acc, false), input(ctx, acyclic, acc, false));
    let (ta, tb) = (pick(ctx, 0, 1), pick(ctx, 2, 3));
    let (mut fa, mut fb) = (vary(ctx, &a), vary(ctx, &b));
    tabs.set(&mut fa, ta);
    tabs.set(&mut fb, tb);
    ctx.input = format!("{} {} tables {} / {} on A={} B={}", op.name, W::NAME, shows(ta), shows(tb), a.dump(), b.dump());
    ctx.distinct(a.hash() ^ b.hash().rotate_left(7));
    let exp = if op.compose { (ta.0, tb.1) } else { ta };
    match catch_unwind(AssertUnwindSafe(|| (op.f)(&mut rng, &fa, &fb))) {
        Ok(Ok(o)) => {
            judge(ctx, op.name, tabs.of(&o), exp);
            if o.start().is_none() {
                ctx.count("empty_results_judged");
            }
            judge(ctx, "operand", tabs.of(&fa), ta);
            judge(ctx, "operand", tabs.of(&fb), tb);
        }
        _ => ctx.count(&format!("op_refused:{}", op.name)),
    }
    // on-demand views
    let mut x = fa.clone();
    tr_sort(&mut x, OLabelCompare {});
    if let Ok(Ok(mut v)) = catch_unwind(AssertUnwindSafe(|| ComposeFst::new_auto(x, fb.clone()))) {
        let _: &ComposeFst<W, V<W>, V<W>, _, _, _, _, _, _> = &v;
        judge(ctx, "compose-view", tabs.of(&v), (ta.0, tb.1));
        poke_view(ctx, &tabs, &mut v);
    }
    if let Ok(mut v) = UnionFst::new(fa.clone(), fb.clone()) {
        judge(ctx, "union-view", tabs.of(&v), ta);
        poke_view(ctx, &tabs, &mut v);
    }
    if let Ok(mut v) = ConcatFst::new(fa.clone(), fb.clone()) {
        judge(ctx, "concat-view", tabs.of(&v), ta);
        poke_view(ctx, &tabs, &mut v);
    }
    if let Ok(mut v) = ClosureFst::new(fa.clone(), ClosureType::ClosureStar) {
        judge(ctx, "closure-view", tabs.of(&v), ta);
        poke_view(ctx, &tabs, &mut v);
    }
    if let Ok(mut v) = RmEpsilonFst::<W, V<W>, _>::new(fa.clone()) {
        judge(ctx, "rm_epsilon-view", tabs.of(&v), ta);
        poke_view(ctx, &tabs, &mut v);
    }
    if let Ok(mut v) = ReplaceFst::<W, V<W>, _>::new(vec![(100, fa.clone()), (101, fb.clone())], 100, true) {
        judge(ctx, "replace-view", tabs.of(&v), ta);
        poke_view(ctx, &tabs, &mut v);
    }
    if let Ok(mut v) = FactorWeightFst::<W, V<W>, _, IdentityFactor<W>>::new(fa.clone(), FactorWeightOptions::new(FactorWeightType::FACTOR_FINAL_WEIGHTS)) {
        judge(ctx, "factor_weight-view", tabs.of(&v), ta);
        poke_view(ctx, &tabs, &mut v);
    }
    // other representations, and taking tables off again
    let mut c: ConstFst<W> = fa.clone().into();
    judge(ctx, "const", tabs.of(&c), ta);
    let back: V<W> = fst_convert_from_ref(&c);
    judge(ctx, "const-back", tabs.of(&back), ta);
    let mut cur = ta;
    for _ in 0..4 {
        let (is_const, side, set) = (ctx.rng.bool(), ctx.rng.bool(), ctx.rng.bool());
        if is_const {
            cur = tabs.of(&c);
            poke(ctx, &tabs, &mut c, &mut cur, side, set);
            judge(ctx, "const-set-take", tabs.of(&c), cur);
        } else {
            cur = tabs.of(&fa);
            poke(ctx, &tabs, &mut fa, &mut cur, side, set);
            judge(ctx, "vector-set-take", tabs.of(&fa), cur);
        }
    }
}

/// tables put on and taken off an on-demand machine
fn poke_view<W: Semiring, F: Fst<W>>(ctx: &mut Ctx, tabs: &Tabs, f: &mut F) {
    for _ in 0..3 {
        let mut cur = tabs.of(f);
        let (side, set) = (ctx.rng.bool(), ctx.rng.bool());
        poke(ctx, tabs, f, &mut cur, side, set);
        judge(ctx, "view-set-take", tabs.of(f), cur);
    }
}

fn poke<W: Semiring, F: Fst<W>>(ctx: &mut Ctx, tabs: &Tabs, f: &mut F, cur: &mut (Tab, Tab), side: bool, set: bool) {
    if set {
        let k = ctx.rng.below(5) as u8;
        let t = Arc::clone(&tabs.t[k as usize]);
        if side {
            f.set_input_symbols(t);
            cur.0 = Some(k);
        } else {
            f.set_output_symbols(t);
            cur.1 = Some(k);
        }
    } else {
        let (got, exp) = if side { (f.take_input_symbols(), cur.0.take()) } else { (f.take_output_symbols(), cur.1.take()) };
        if tabs.name(got.as_ref()) != exp {
            ctx.fail("tables:take", "the table taken off is not the one attached");
        }
    }
}

/// an arbitrary history of edits leaves the tables alone
fn edit_case<W: FullW>(ctx: &mut Ctx) {
    let tabs = Tabs::new();
    let s: Spec<W> = input(ctx, false, false, false);
    let t = pick(ctx, 0, 1);
    let mut f = s.build();
    tabs.set(&mut f, t);
    let mut slot = Slot { f, m: s };
    let c = HistCfg { lowlevel: ctx.rng.bool(), ops: 15, alpha: 2, nmax: 6, wild: false };
    let mut log = format!("tables {} on {}: ", shows(t), slot.m.dump());
    let mut rng = ctx.rng.fork();
    for _ in 0..15 {
        match step(&mut rng, &c, &mut slot) {
            Ok(d) => log += &format!("{}; ", d),
            Err(_) => {
                // a wrong answer of an edit is C02's business
                ctx.count("edits_wrong");
                return;
            }
        }
        ctx.count("edits");
        if tabs.of(&slot.f) != t {
            ctx.input = log.clone();
            judge(ctx, "edit", tabs.of(&slot.f), t);
            return;
        }
        if rng.chance(1, 8) {
            let g = slot.f.clone();
            ctx.input = log.clone();
            judge(ctx, "clone", tabs.of(&g), t);
        }
    }
    judge(ctx, "edit", tabs.of(&slot.f), t);
    ctx.sample(|| log);
}

fn case_w<W: FullW>(ctx: &mut Ctx) {
    match ctx.rng.below(8) {
        0..=3 => unary_case::<W>(ctx),
        4..=6 => binary_case::<W>(ctx),
        _ => edit_case::<W>(ctx),
    }
}

pub fn case(ctx: &mut Ctx) {
    with_w!(ctx, case_w, [TropicalWeight, LogWeight])
}

fn main() {
    run(Prop {
        id: "C29",
        quick: 700_000,
        thorough: 5_000_000,
        rule: "every algorithm of the shared catalogue (50 unary and 14 binary ones, eager and on-demand, over the tropical and log semirings) on random machines, including empty ones and ones whose result is empty, with none, one or two attached tables of distinguishable content; the tables found on the result, on the operands afterwards, on on-demand views and on converted representations are compared with the ones that belong there, also through a second operation; plus edit histories and set/take sequences. Non-trivial: distinct (machine, attachment) pairs.",
        case,
        must: &["with_tables", "empty_results_judged", "edits", "judged:edit", "judged:clone", "judged:operand", "judged:invert", "judged:project-i", "judged:project-o", "judged:compose", "judged:compose-view", "judged:union", "judged:union-lazy", "judged:concat", "judged:replace", "judged:optimize", "judged:minimize", "judged:determinize", "judged:shortest_path-1", "judged:shortest_path-n", "judged:push-labels", "judged:push-weights", "judged:reverse", "judged:rm_epsilon", "judged:rm_epsilon-lazy", "judged:randgen", "judged:factor_weight", "judged:fst_convert", "judged:const-set-take", "judged:view-set-take", "judged:encode-decode"],
        assumptions: &["union, concatenation and replacement keep the tables of the first operand", "the tables after encoding, condensation and relabeling are not judged"],
        ..DEFAULT
    });
}
