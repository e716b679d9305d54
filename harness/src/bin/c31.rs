//! C31: a state queue releases exactly the states put into it, in the order of its discipline.
//!
//! A trace monitor: every call on the queue is mirrored on a plain list of held states, and each
//! answer (head, dequeue, is_empty) is judged against what the discipline allows at that point.
use fstmon::chk;
use fstmon::driver::*;
use fstmon::gen::*;
use fstmon::refw::{WProfile, Wt};
use fstmon::rng::{hash_str, Rng};
use rustfst::algorithms::queues::*;
use rustfst::algorithms::tr_filters::*;
use rustfst::algorithms::{Queue, QueueType};
use rustfst::fst_properties::FstProperties;
use rustfst::prelude::*;
use std::cmp::Ordering;

#[derive(Clone, Debug)]
enum Disc {
    Single,
    Fifo,
    Lifo,
    /// lowest rank first; a state is held once
    Rank(Vec<i64>),
    /// lowest key first, ties in any order, a state may be held several times
    Key(Vec<f64>),
    /// lowest component first, then the component's own discipline
    Comp(Vec<usize>, Vec<Disc>),
    /// any held state, but never one that another held state precedes in this order (if any)
    Any(Option<Vec<Vec<bool>>>),
}

impl Disc {
    /// the states that may come out now, given what is held, oldest first
    fn next(&self, held: &[StateId]) -> Vec<StateId> {
        if held.is_empty() {
            return vec![];
        }
        match self {
            Disc::Single | Disc::Lifo => vec![*held.last().unwrap()],
            Disc::Fifo => vec![held[0]],
            Disc::Rank(r) => {
                let m = held.iter().map(|s| r[*s as usize]).min().unwrap();
                held.iter().cloned().filter(|s| r[*s as usize] == m).collect()
            }
            Disc::Key(k) => {
                let m = held.iter().map(|s| k[*s as usize]).fold(f64::INFINITY, f64::min);
                held.iter().cloned().filter(|s| k[*s as usize] == m).collect()
            }
            Disc::Comp(c, d) => {
                let m = held.iter().map(|s| c[*s as usize]).min().unwrap();
                let sub: Vec<_> = held.iter().cloned().filter(|s| c[*s as usize] == m).collect();
                d[m].next(&sub)
            }
            Disc::Any(None) => held.to_vec(),
            Disc::Any(Some(before)) => held
                .iter()
                .cloned()
                .filter(|s| !held.iter().any(|t| t != s && before[*t as usize][*s as usize]))
                .collect(),
        }
    }
    fn enqueue(&self, held: &mut Vec<StateId>, s: StateId) {
        match self {
            Disc::Single => {
                held.clear();
                held.push(s)
            }
            Disc::Rank(_) => {
                if !held.contains(&s) {
                    held.push(s)
                }
            }
            Disc::Comp(c, d) => match &d[c[s as usize]] {
                Disc::Single => {
                    held.retain(|t| c[*t as usize] != c[s as usize]);
                    held.push(s)
                }
                Disc::Rank(_) if held.contains(&s) => {}
                _ => held.push(s),
            },
            _ => held.push(s),
        }
    }
    /// removes one released occurrence
    fn remove(&self, held: &mut Vec<StateId>, s: StateId) {
        let last = match self {
            Disc::Lifo => true,
            Disc::Comp(c, d) => matches!(d[c[s as usize]], Disc::Lifo),
            _ => false,
        };
        let i = if last { held.iter().rposition(|t| *t == s) } else { held.iter().position(|t| *t == s) };
        if let Some(i) = i {
            held.remove(i);
        }
    }
}

/// Drives the queue through a random history. `once`: never enqueues a state that is held (the way
/// the shortest-distance loop uses queues).
fn drive(ctx: &mut Ctx, name: &str, q: &mut dyn Queue, d: &Disc, states: &[StateId], once: bool) {
    let mut held: Vec<StateId> = vec![];
    let n = ctx.rng.range(4, 40);
    let mut log = format!("{} states={:?} {:?}:", name, states, d);
    if log.len() > 600 {
        log.truncate(600);
    }
    // phases of growth and of draining, so that the queue runs empty and refills
    let mut grow = true;
    for _ in 0..n {
        if ctx.rng.chance(1, 5) {
            grow = !grow;
        }
        let w = ctx.rng.below(20);
        let op = if w < 8 {
            if grow { 0 } else { 1 }
        } else if w < 14 {
            ctx.rng.below(2)
        } else if w < 16 {
            2
        } else if w < 18 {
            3
        } else if w < 19 {
            4
        } else {
            5 * ctx.rng.below(2)
        };
        match op {
            0 => {
                let s = *ctx.rng.pick(states);
                if once && held.contains(&s) {
                    continue;
                }
                log.push_str(&format!(" +{}", s));
                ctx.input = log.clone();
                if ctx.guard(&format!("{}.enqueue", name), || q.enqueue(s)).is_none() {
                    return;
                }
                d.enqueue(&mut held, s);
                ctx.count("enqueued");
            }
            1 => {
                log.push_str(" -");
                ctx.input = log.clone();
                let Some(r) = ctx.guard(&format!("{}.dequeue", name), || q.dequeue()) else { return };
                let may = d.next(&held);
                match r {
                    None => {
                        chk!(ctx, may.is_empty(), "lost", "{}: dequeue gave nothing while {:?} is held", name, held);
                        ctx.count("dequeues_of_an_empty_queue");
                    }
                    Some(s) => {
                        if !held.contains(&s) {
                            ctx.fail("invented", format!("{}: dequeue gave {}, which is not held ({:?})", name, s, held));
                        } else {
                            chk!(ctx, may.contains(&s), "order", "{}: dequeue gave {}, but {:?} comes first among {:?}", name, s, may, held);
                        }
                        d.remove(&mut held, s);
                        ctx.count("dequeued");
                        log.push_str(&s.to_string());
                    }
                }
            }
            2 => {
                ctx.input = log.clone();
                let Some(r) = ctx.guard(&format!("{}.head", name), || q.head()) else { return };
                let may = d.next(&held);
                match r {
                    None => chk!(ctx, may.is_empty(), "head", "{}: no head while {:?} is held", name, held),
                    Some(s) => chk!(ctx, may.contains(&s), "head", "{}: head gave {}, expected one of {:?}", name, s, may),
                }
                ctx.count(if held.is_empty() { "heads_of_an_empty_queue" } else { "heads" });
            }
            3 => {
                ctx.input = log.clone();
                let Some(r) = ctx.guard(&format!("{}.is_empty", name), || q.is_empty()) else { return };
                chk!(ctx, r == held.is_empty(), "empty", "{}: is_empty gave {} while {:?} is held", name, r, held);
                ctx.count("emptiness_asked");
            }
            4 => {
                if let Some(s) = held.first().copied() {
                    log.push_str(&format!(" u{}", s));
                    ctx.input = log.clone();
                    if ctx.guard(&format!("{}.update", name), || q.update(s)).is_none() {
                        return;
                    }
                    ctx.count("updates");
                }
            }
            _ => {
                if ctx.rng.chance(1, 3) {
                    log.push_str(" clear");
                    ctx.input = log.clone();
                    if ctx.guard(&format!("{}.clear", name), || q.clear()).is_none() {
                        return;
                    }
                    held.clear();
                    ctx.count("cleared");
                }
            }
        }
        if ctx.failed() {
            return;
        }
    }
    // drain: everything held comes out, then the queue is empty
    let mut left = held.len() + 3;
    while left > 0 {
        left -= 1;
        ctx.input = log.clone();
        let Some(e) = ctx.guard(&format!("{}.is_empty", name), || q.is_empty()) else { return };
        chk!(ctx, e == held.is_empty(), "empty", "{}: is_empty gave {} while {:?} is held (draining)", name, e, held);
        if e || ctx.failed() {
            break;
        }
        log.push_str(" -");
        let Some(r) = ctx.guard(&format!("{}.dequeue", name), || q.dequeue()) else { return };
        let may = d.next(&held);
        match r {
            Some(s) if may.contains(&s) => {
                d.remove(&mut held, s);
                log.push_str(&s.to_string());
                ctx.count("dequeued");
            }
            r => {
                ctx.fail("order", format!("{}: dequeue gave {:?}, expected one of {:?}; held {:?}", name, r, may, held));
                return;
            }
        }
    }
    chk!(ctx, held.is_empty(), "lost", "{}: {:?} never came out", name, held);
    ctx.count(&format!("histories_{}", name));
    ctx.distinct(hash_str(&log));
    ctx.sample(|| log.clone());
}

fn keys(rng: &mut Rng, n: usize) -> Vec<f32> {
    (0..n).map(|_| if rng.chance(1, 10) { f32::INFINITY } else { rng.below(12) as f32 * 0.5 }).collect()
}

fn plain(ctx: &mut Ctx) {
    let n = ctx.rng.range(1, 9);
    let states: Vec<StateId> = (0..n as StateId).collect();
    let once = ctx.rng.bool();
    match ctx.rng.below(7) {
        0 => drive(ctx, "trivial", &mut TrivialQueue::default(), &Disc::Single, &states, once),
        1 => drive(ctx, "fifo", &mut FifoQueue::default(), &Disc::Fifo, &states, once),
        2 => drive(ctx, "lifo", &mut LifoQueue::default(), &Disc::Lifo, &states, once),
        3 => {
            let spread: Vec<StateId> = states.iter().map(|s| s * ctx.rng.range(1, 5) as StateId).collect();
            let r = (0..60).collect();
            drive(ctx, "state_order", &mut StateOrderQueue::default(), &Disc::Rank(r), &spread, once)
        }
        4 => {
            let p = ctx.rng.perm(n);
            let order: Vec<StateId> = p.iter().map(|x| *x as StateId).collect();
            let r = p.iter().map(|x| *x as i64).collect();
            drive(ctx, "top_order", &mut TopOrderQueue::from_precomputed_order(order), &Disc::Rank(r), &states, once)
        }
        5 => {
            let k = keys(&mut ctx.rng, n);
            let d = Disc::Key(k.iter().map(|x| *x as f64).collect());
            let w: Vec<TropicalWeight> = k.iter().map(|x| TropicalWeight::new(*x)).collect();
            drive(ctx, "shortest_first", &mut NaturalShortestFirstQueue::new(w), &d, &states, once)
        }
        _ => {
            // components with their own disciplines
            let nc = ctx.rng.range(1, 4);
            let comp: Vec<usize> = (0..n).map(|_| ctx.rng.below(nc)).collect();
            let mut qs: Vec<Box<dyn Queue>> = vec![];
            let mut ds = vec![];
            for _ in 0..nc {
                match ctx.rng.below(4) {
                    0 => {
                        qs.push(Box::<FifoQueue>::default());
                        ds.push(Disc::Fifo)
                    }
                    1 => {
                        qs.push(Box::<LifoQueue>::default());
                        ds.push(Disc::Lifo)
                    }
                    2 => {
                        qs.push(Box::<StateOrderQueue>::default());
                        ds.push(Disc::Rank((0..n as i64).collect()))
                    }
                    _ => {
                        qs.push(Box::<TrivialQueue>::default());
                        ds.push(Disc::Single)
                    }
                }
            }
            let c = comp.iter().map(|x| *x as StateId).collect();
            drive(ctx, "scc", &mut SccQueue::new(qs, c), &Disc::Comp(comp, ds), &states, once)
        }
    }
}

fn from_fst<W: Wt>(ctx: &mut Ctx) {
    let mut c = GenCfg::new();
    c.nmin = 1;
    c.nmax = 8;
    c.p_nostart = 0;
    c.acyclic = ctx.rng.bool();
    c.eps_i = 40;
    c.eps_o = 40;
    c.prof = if ctx.rng.chance(1, 4) { WProfile::Unweighted } else { WProfile::Normal };
    let s = gen_spec::<W>(&mut ctx.rng, &c);
    let mut f = s.build_var(&mut ctx.rng);
    ctx.input = s.dump();
    if ctx.rng.bool() {
        let _ = f.compute_and_update_properties_all();
    }
    let n = s.n();
    let states: Vec<StateId> = (0..n as StateId).collect();
    match ctx.rng.below(4) {
        0 => auto(ctx, &s, &f, &states, &AnyTrFilter {}, |_| true),
        1 => auto(ctx, &s, &f, &states, &EpsilonTrFilter {}, |a| a.il == 0 && a.ol == 0),
        2 => auto(ctx, &s, &f, &states, &InputEpsilonTrFilter {}, |a| a.il == 0),
        _ => auto(ctx, &s, &f, &states, &OutputEpsilonTrFilter {}, |a| a.ol == 0),
    }
}

fn auto<W: Wt, T: TrFilter<W>>(ctx: &mut Ctx, s: &Spec<W>, f: &VectorFst<W>, states: &[StateId], t: &T, keep: fn(&SArc<W>) -> bool) {
    let n = s.n();
    // what the filter keeps
    for a in s.arcs.iter().flatten() {
        let tr = Tr::new(a.il, a.ol, a.w.clone(), a.to as StateId);
        chk!(ctx, t.keep(&tr) == keep(a), "filter", "{:?} keep({}:{}) gave {}", t, a.il, a.ol, t.keep(&tr));
        ctx.count("filter_decisions");
    }
    // reachability through kept transitions
    let mut r = vec![vec![false; n]; n];
    for (p, v) in s.arcs.iter().enumerate() {
        for a in v.iter().filter(|a| keep(a)) {
            r[p][a.to] = true;
        }
    }
    for k in 0..n {
        for i in 0..n {
            if r[i][k] {
                for j in 0..n {
                    if r[k][j] {
                        r[i][j] = true;
                    }
                }
            }
        }
    }
    let cyclic = (0..n).any(|i| r[i][i]);
    let known_acyclic = f.properties().contains(FstProperties::ACYCLIC);
    let desc = s.dump();
    ctx.input = desc.clone();
    // only states reached from the start have a place in the order of a visited machine
    let d = Disc::Any(if known_acyclic { Some(r) } else { None });
    if known_acyclic && !cyclic && ctx.rng.chance(1, 3) {
        if let Some(mut q) = ctx.guard("TopOrderQueue::new", || TopOrderQueue::new(f, t)) {
            drive(ctx, "top_order_of_machine", &mut q, &d, states, true);
        }
        return;
    }
    if let Some(mut q) = ctx.guard_ok("AutoQueue::new", || AutoQueue::new(f, None, t)) {
        drive(ctx, "auto", &mut q, &d, states, true);
        let qt = q.queue_type();
        chk!(ctx, qt == QueueType::AutoQueue, "type", "wrong queue type");
    }
}

fn less(ctx: &mut Ctx) {
    // the order used by shortest-first queues is the natural order of the weights
    let n = ctx.rng.range(2, 6);
    let k = keys(&mut ctx.rng, n);
    let w: Vec<TropicalWeight> = k.iter().map(|x| TropicalWeight::new(*x)).collect();
    ctx.input = format!("{:?}", k);
    let cmp = StateWeightCompare::new(w.clone(), natural_less);
    for i in 0..n {
        for j in 0..n {
            if let Some(b) = ctx.guard_ok("compare", || cmp.compare(i as StateId, j as StateId)) {
                chk!(ctx, b == (k[i].partial_cmp(&k[j]) == Some(Ordering::Less)), "natural-order", "compare({}, {}) gave {}", k[i], k[j], b);
                ctx.count("comparisons");
            }
        }
    }
}

pub fn case(ctx: &mut Ctx) {
    match ctx.rng.below(20) {
        0 => less(ctx),
        1..=12 => plain(ctx),
        13..=15 => from_fst::<TropicalWeight>(ctx),
        16..=17 => from_fst::<LogWeight>(ctx),
        18 => from_fst::<BooleanWeight>(ctx),
        _ => from_fst::<IntegerWeight>(ctx),
    }
}

fn main() {
    run(Prop {
        id: "C31",
        quick: 400_000,
        thorough: 20_000_000,
        rule: "random histories of enqueue, dequeue, head, is_empty, update and clear, with phases of growth and draining, on every queue discipline: single-state, first-in-first-out, last-in-first-out, state order, given and computed topological order, natural shortest-first, component meta-queue with mixed inner disciplines, and the automatic queue built from random machines under the four transition filters; each answer is judged against a list of the held states. Non-trivial: distinct histories.",
        case,
        fixed: &[],
        must: &["histories_trivial", "histories_fifo", "histories_lifo", "histories_state_order", "histories_top_order", "histories_shortest_first", "histories_scc", "histories_auto", "histories_top_order_of_machine", "heads_of_an_empty_queue", "dequeues_of_an_empty_queue", "updates", "cleared", "filter_decisions", "comparisons"],
        assumptions: &["ties of a shortest-first queue may come out in any order", "the automatic queue and computed topological order are used as the shortest-distance loop uses them: no state is enqueued while it is held; the automatic queue's order is judged only when the machine is known to be acyclic", "a trivial queue holds the last state given, as its unit test states"],
        ..DEFAULT
    });
}
