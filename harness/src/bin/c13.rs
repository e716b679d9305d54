//! C13: trimming, topological sorting, state renumbering, condensation, transition sorting.
use fstmon::driver::*;
use fstmon::gen::*;
use fstmon::reffst::*;
use fstmon::refw::*;
use fstmon::util::*;
use fstmon::{chk, with_w};
use rustfst::prelude::*;

fn renumber<R: RefW>(r: &RFst<R>, order: &[usize]) -> RFst<R> {
    let mut g = RFst { start: r.start.map(|s| order[s]), st: vec![RSt { fin: None, arcs: vec![] }; r.n()] };
    for q in 0..r.n() {
        let mut s = r.st[q].clone();
        for a in s.arcs.iter_mut() {
            a.to = order[a.to];
        }
        g.st[order[q]] = s;
    }
    g
}

fn same<R: RefW>(ctx: &mut Ctx, op: &str, want: &RFst<R>, got: &RFst<R>) {
    ctx.count(&format!("structures_compared:{}", op));
    if let Err(e) = want.same_structure(got) {
        ctx.fail(&format!("structure:{}", op), format!("{}; result: {}", e, got.dump()));
    }
}

fn case_w<W: Wt>(ctx: &mut Ctx) {
    let mut c = GenCfg::new();
    c.nmax = *ctx.rng.pick(&[3, 6, 6, 10, 16]);
    c.acyclic = ctx.rng.bool();
    c.acceptor = ctx.rng.chance(1, 4);
    c.arcs_per_state = ctx.rng.range(1, 3);
    c.p_final = *ctx.rng.pick(&[0, 10, 40]);
    c.p_nostart = 6;
    c.alpha = 3;
    if enlarge(&mut ctx.rng, &mut c, 60, 150) {
        ctx.count("large_machines");
    }
    let mut s: Spec<W> = gen_spec(&mut ctx.rng, &c);
    // renumber at random, so that acyclic machines are not already sorted
    let p = ctx.rng.perm(s.n());
    if ctx.rng.bool() {
        s = s.permuted(&p);
    }
    ctx.input = format!("{} {}", W::NAME, s.dump());
    let r = s.to_ref();
    if r.narcs() >= 2 {
        ctx.distinct(s.hash());
    }
    let smp = ctx.input.clone();
    ctx.sample(|| smp);
    let mut rng = ctx.rng.fork();
    let f = s.build_var(&mut rng);
    // trimming
    {
        let mut m = f.clone();
        if ctx.guard_ok("connect", || connect(&mut m)).is_some() {
            if let Some(g) = ext(ctx, "connect", &m) {
                let want = r.trim_struct();
                if want.n() < r.n() {
                    ctx.count("states_trimmed");
                }
                same(ctx, "connect", &want, &g);
            }
        }
    }
    // topological sort
    {
        let mut m = f.clone();
        if ctx.guard_ok("top_sort", || top_sort(&mut m)).is_some() {
            if let Some(g) = ext(ctx, "top_sort", &m) {
                if r.is_cyclic() {
                    same(ctx, "top_sort-cyclic", &r, &g);
                } else {
                    let fwd = g.st.iter().enumerate().all(|(q, st)| st.arcs.iter().all(|a| a.to > q));
                    chk!(ctx, fwd, "not-forward", "a transition goes backward: {}", g.dump());
                    chk!(ctx, g.n() == r.n() && g.narcs() == r.narcs(), "size:top_sort", "{}", g.dump());
                    // the same machine under some renumbering: the start's part must match exactly
                    ctx.count("sorted_acyclic");
                    if !iso_any(&r, &g) {
                        ctx.fail("structure:top_sort", format!("not a renumbering of the input: {}", g.dump()));
                    }
                    let mut m2 = m.clone();
                    if ctx.guard_ok("top_sort-again", || top_sort(&mut m2)).is_some() {
                        if let Some(g2) = ext(ctx, "top_sort-again", &m2) {
                            let fwd = g2.st.iter().enumerate().all(|(q, st)| st.arcs.iter().all(|a| a.to > q));
                            chk!(ctx, fwd, "not-forward", "a transition goes backward: {}", g2.dump());
                        }
                    }
                }
            }
        }
    }
    // state sort
    {
        let order = rng.perm(r.n());
        let o: Vec<StateId> = order.iter().map(|x| *x as StateId).collect();
        let mut m = f.clone();
        if ctx.guard_ok("state_sort", || state_sort(&mut m, &o)).is_some() {
            if let Some(g) = ext(ctx, "state_sort", &m) {
                same(ctx, "state_sort", &renumber(&r, &order), &g);
            }
        }
        if rng.chance(1, 10) {
            let mut o2 = o.clone();
            o2.push(0);
            let mut m = f.clone();
            if let Some(x) = ctx.guard("state_sort-length", || state_sort(&mut m, &o2)) {
                chk!(ctx, x.is_err(), "bad-order-accepted", "order of length {} for {} states", o2.len(), r.n());
            }
        }
    }
    // condensation
    if let Some((map, m)) = ctx.guard_ok("condense", || condense::<W, _, VectorFst<W>>(&f)) {
        if let Some(g) = ext(ctx, "condense", &m) {
            let sc = r.scc();
            chk!(ctx, map.len() == r.n(), "condense-map", "{} entries for {} states", map.len(), r.n());
            let ok = map.iter().all(|x| (*x as usize) < g.n());
            chk!(ctx, ok, "condense-map", "{:?} outside {} states", map, g.n());
            if map.len() == r.n() && ok {
                for a in 0..r.n() {
                    for b in 0..r.n() {
                        chk!(ctx, (sc[a] == sc[b]) == (map[a] == map[b]), "condense-map", "states {} and {}: {:?}, components {:?}", a, b, map, sc);
                    }
                }
                chk!(ctx, !g.is_cyclic(), "condense-cyclic", "{}", g.dump());
                let mut want: RFst<W::R> = RFst { start: r.start.map(|q| map[q] as usize), st: vec![RSt { fin: None, arcs: vec![] }; g.n()] };
                for q in 0..r.n() {
                    let cq = map[q] as usize;
                    if let Some(w) = &r.st[q].fin {
                        want.st[cq].fin = Some(match &want.st[cq].fin {
                            None => w.clone(),
                            Some(x) => x.plus(w),
                        });
                    }
                    for a in &r.st[q].arcs {
                        if map[a.to] as usize != cq {
                            let mut b = a.clone();
                            b.to = map[a.to] as usize;
                            want.st[cq].arcs.push(b);
                        }
                    }
                }
                ctx.count("structures_compared:condense");
                let covered = (0..g.n()).all(|k| map.iter().any(|x| *x as usize == k));
                chk!(ctx, covered, "condense-map", "a state of the result is no component; {:?} {}", map, g.dump());
                if let Err(e) = want.same_up_to_order(&g) {
                    ctx.fail("structure:condense", format!("{}; result {}", e, g.dump()));
                }
            }
        }
    }
    // transition sort
    for out in [false, true] {
        let op = if out { "tr_sort-output" } else { "tr_sort-input" };
        let mut m = f.clone();
        if ctx
            .guard(op, || if out { tr_sort(&mut m, OLabelCompare {}) } else { tr_sort(&mut m, ILabelCompare {}) })
            .is_some()
        {
            if let Some(g) = ext(ctx, op, &m) {
                ctx.count(&format!("structures_compared:{}", op));
                if let Err(e) = r.same_up_to_order(&g) {
                    ctx.fail(&format!("structure:{}", op), e);
                }
                let ok = g.st.iter().all(|q| q.arcs.windows(2).all(|w| if out { w[0].ol <= w[1].ol } else { w[0].il <= w[1].il }));
                chk!(ctx, ok, &format!("unsorted:{}", op), "{}", g.dump());
            }
        }
    }
}

/// Is g the machine r under some renumbering of states (each state's transitions in the same order)?
/// Exact search with backtracking on the small machines generated here.
fn iso_any<R: RefW>(r: &RFst<R>, g: &RFst<R>) -> bool {
    if r.n() != g.n() || r.start.is_some() != g.start.is_some() {
        return false;
    }
    // colour refinement, then compare the multisets of colours (transitions in order)
    fn colours<R: RefW>(f: &RFst<R>) -> Vec<u64> {
        let mut c: Vec<u64> = (0..f.n()).map(|q| hash(&[f.st[q].fin.as_ref().map_or(1, |w| w.key() as u64 ^ 77), (f.start == Some(q)) as u64])).collect();
        let mut rev: Vec<Vec<(usize, usize)>> = vec![vec![]; f.n()];
        for q in 0..f.n() {
            for (i, a) in f.st[q].arcs.iter().enumerate() {
                rev[a.to].push((q, i));
            }
        }
        for _ in 0..f.n() + 1 {
            c = (0..f.n())
                .map(|q| {
                    let mut v = vec![c[q]];
                    for a in &f.st[q].arcs {
                        v.extend([a.il as u64, a.ol as u64, a.w.key() as u64, c[a.to]]);
                    }
                    let mut x: Vec<u64> = rev[q].iter().map(|(p, i)| hash(&[c[*p], *i as u64])).collect();
                    x.sort();
                    v.push(0xfeed);
                    v.extend(x);
                    hash(&v)
                })
                .collect();
        }
        c.sort();
        c
    }
    fn hash(v: &[u64]) -> u64 {
        let mut h = 0xcbf29ce484222325u64;
        for x in v {
            h ^= x.wrapping_mul(0x9E3779B97F4A7C15);
            h = h.rotate_left(23).wrapping_mul(0x100000001b3) ^ (h >> 29);
        }
        h
    }
    colours(r) == colours(g)
}

/// long chains and wide fans: the traversals must not depend on the call stack
fn big<W: Wt>(ctx: &mut Ctx) {
    let n = 30_000 + ctx.rng.below(5000);
    let back = ctx.rng.bool();
    ctx.input = format!("chain of {} states, closing arc: {}", n, back);
    let mut f = VectorFst::<W>::new();
    f.add_states(n);
    f.set_start(0).unwrap();
    for q in 0..n - 1 {
        f.add_tr(q as StateId, Tr::new(1, 1, W::one(), (q + 1) as StateId)).unwrap();
    }
    if back {
        f.add_tr((n - 1) as StateId, Tr::new(1, 1, W::one(), 0)).unwrap();
    }
    f.set_final((n / 2) as StateId, W::one()).unwrap();
    let keep = if back { n } else { n / 2 + 1 };
    let mut m = f.clone();
    if ctx.guard_ok("connect-big", || connect(&mut m)).is_some() {
        chk!(ctx, m.num_states() == keep, "structure:connect-big", "{} states instead of {}", m.num_states(), keep);
    }
    let mut m = f.clone();
    ctx.guard_ok("top_sort-big", || top_sort(&mut m));
    if let Some((map, m)) = ctx.guard_ok("condense-big", || condense::<W, _, VectorFst<W>>(&f)) {
        chk!(ctx, m.num_states() == if back { 1 } else { n } && map.len() == n, "structure:condense-big", "{} components", m.num_states());
    }
    ctx.count("long_chains");
}

pub fn case(ctx: &mut Ctx) {
    if ctx.rng.chance(1, 10000) {
        return big::<TropicalWeight>(ctx);
    }
    with_w!(ctx, case_w, [TropicalWeight, LogWeight, IntegerWeight, BooleanWeight]);
}

fn main() {
    run(Prop {
        id: "C13",
        quick: 1_500_000,
        thorough: 30_000_000,
        rule: "random machines (useless, unreachable and self-looping states, missing starts, random numbering; up to 16 states, plus chains of 30000); results are compared structurally with an independent computation of useful states, components and renumberings. Non-trivial: >=2 transitions.",
        case,
        must: &["structures_compared:connect", "states_trimmed", "sorted_acyclic", "structures_compared:top_sort-cyclic", "structures_compared:state_sort", "structures_compared:condense", "structures_compared:tr_sort-output", "long_chains"],
        assumptions: &["state_sort orders are permutations"],
        ..DEFAULT
    });
}
