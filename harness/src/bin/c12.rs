//! C12: replacement of calls by the called machines.
use fstmon::driver::*;
use fstmon::gen::*;
use fstmon::ops::V;
use fstmon::reffst::*;
use fstmon::refw::*;
use fstmon::util::*;
use fstmon::{chk, with_w};
use rustfst::algorithms::replace::*;
use rustfst::prelude::*;
use std::collections::HashMap;
use std::sync::Arc;

struct Grammar<R> {
    rules: Vec<(u32, RFst<R>)>,
    keep_input: bool,
}

/// expands rule k; a call deeper than depth is dropped
fn expand<R: RefW>(g: &Grammar<R>, out: &mut RFst<R>, k: usize, depth: usize, calls: &mut u64) -> usize {
    let m = &g.rules[k].1;
    let base = out.n();
    for q in 0..m.n() {
        out.st.push(RSt { fin: m.st[q].fin.clone(), arcs: vec![] });
    }
    for q in 0..m.n() {
        for a in &m.st[q].arcs {
            let callee = if a.ol == 0 { None } else { g.rules.iter().rposition(|(l, _)| *l == a.ol) };
            match callee {
                None => {
                    let mut b = a.clone();
                    b.to += base;
                    out.st[base + q].arcs.push(b);
                }
                Some(c) => {
                    let Some(cs) = g.rules[c].1.start else { continue };
                    if depth == 0 {
                        continue;
                    }
                    *calls += 1;
                    if out.n() > 600 {
                        return base;
                    }
                    let cb = expand(g, out, c, depth - 1, calls);
                    let n = g.rules[c].1.n();
                    out.st[base + q].arcs.push(RArc { il: if g.keep_input { a.il } else { 0 }, ol: 0, w: a.w.clone(), to: cb + cs });
                    for x in 0..n {
                        if let Some(f) = out.st[cb + x].fin.take() {
                            if !f.is_zero() {
                                out.st[cb + x].arcs.push(RArc { il: 0, ol: 0, w: f, to: base + a.to });
                            }
                        }
                    }
                }
            }
        }
    }
    base
}

/// reads a lazy machine as far as `max` input labels reach
fn explore<W: Wt, F: Fst<W>>(f: &F, max: usize, cap: usize) -> anyhow::Result<Option<RFst<W::R>>> {
    let mut g = RFst::empty();
    let Some(s) = f.start() else { return Ok(Some(g)) };
    let mut id: HashMap<StateId, usize> = HashMap::new();
    let mut dist: Vec<usize> = vec![0];
    id.insert(s, 0);
    g.start = Some(0);
    g.st.push(RSt { fin: None, arcs: vec![] });
    let mut queue = std::collections::VecDeque::from(vec![s]);
    let mut done = std::collections::HashSet::new();
    while let Some(x) = queue.pop_front() {
        if !done.insert(x) {
            continue;
        }
        let i = id[&x];
        g.st[i].fin = f.final_weight(x)?.map(|w| w.to_ref());
        if dist[i] > max {
            continue;
        }
        for tr in f.get_trs(x)?.trs() {
            let d = dist[i] + usize::from(tr.ilabel != 0);
            let j = match id.get(&tr.nextstate) {
                Some(j) => *j,
                None => {
                    if g.n() >= cap {
                        return Ok(None);
                    }
                    id.insert(tr.nextstate, g.n());
                    g.st.push(RSt { fin: None, arcs: vec![] });
                    dist.push(usize::MAX);
                    g.n() - 1
                }
            };
            if d < dist[j] {
                dist[j] = d;
                done.remove(&tr.nextstate);
            }
            g.st[i].arcs.push(RArc { il: tr.ilabel, ol: tr.olabel, w: tr.weight.to_ref(), to: j });
            if !done.contains(&tr.nextstate) {
                // a shorter way in: its transitions are read again
                g.st[j].arcs.clear();
                if tr.ilabel == 0 {
                    queue.push_front(tr.nextstate);
                } else {
                    queue.push_back(tr.nextstate);
                }
            }
        }
    }
    Ok(Some(g))
}

fn case_w<W: Wt>(ctx: &mut Ctx) {
    let nrules = ctx.rng.range(1, 4);
    let recursive = ctx.rng.chance(1, 4);
    let eps_on_replace = !recursive && ctx.rng.bool();
    // non-terminal labels: dense, sparse, overlapping the terminals
    let pool: &[u32] = match ctx.rng.below(3) {
        0 => &[100, 101, 102, 103],
        1 => &[7, 20, 5, 90],
        _ => &[2, 9, 4, 3],
    };
    let labels: Vec<u32> = pool[..nrules].to_vec();
    // labels inside the range of the non-terminals that name nothing
    let plain: Vec<u32> = vec![pool[0] + 4, pool.iter().min().unwrap() + 1].into_iter().filter(|l| !pool.contains(l)).collect();
    let mut rules: Vec<(u32, Spec<W>)> = vec![];
    let mut ncalls = 0;
    for k in 0..nrules {
        let mut c = GenCfg::new();
        c.nmax = ctx.rng.range(1, 4);
        c.arcs_per_state = 2;
        c.acyclic = !W::CYCLE_OK || ctx.rng.bool();
        c.p_nostart = 4;
        c.alpha = if pool[0] == 2 { 1 } else { 2 };
        c.p_final = 50;
        c.trim = ctx.rng.bool();
        let alpha = c.alpha;
        if enlarge(&mut ctx.rng, &mut c, 100, 14) {
            ctx.count("large_machines");
        }
        // the labels keep clear of the non-terminals
        c.alpha = alpha;
        c.big_labels = false;
        let mut s: Spec<W> = gen_spec(&mut ctx.rng, &c);
        for q in s.arcs.iter_mut() {
            for a in q.iter_mut() {
                if ctx.rng.chance(1, 3) {
                    let tgt = if recursive { ctx.rng.below(nrules) } else if k + 1 < nrules { ctx.rng.range(k + 1, nrules - 1) } else { continue };
                    a.ol = labels[tgt];
                    if recursive {
                        a.il = a.il.max(1);
                    }
                    ncalls += 1;
                } else if !plain.is_empty() && ctx.rng.chance(1, 12) {
                    a.ol = *ctx.rng.pick(&plain);
                    ctx.count("unbound_label");
                }
            }
        }
        rules.push((labels[k], s));
    }
    // order of the list is free
    let root = labels[0];
    if ctx.rng.bool() {
        rules.reverse();
    }
    ctx.input = format!("{} root={} eps_on_replace={} recursive={} rules: {}", W::NAME, root, eps_on_replace, recursive, rules.iter().map(|(l, s)| format!("[{} => {}]", l, s.dump())).collect::<Vec<_>>().join(" "));
    let g = Grammar { rules: rules.iter().map(|(l, s)| (*l, s.to_ref())).collect(), keep_input: !eps_on_replace };
    let k0 = rules.iter().position(|x| x.0 == root).unwrap();
    let mut want: RFst<W::R> = RFst::empty();
    let mut calls = 0;
    let base = expand(&g, &mut want, k0, 4, &mut calls);
    if want.n() > 600 {
        ctx.count("grammar_too_large");
        return;
    }
    want.start = g.rules[k0].1.start.map(|s| s + base);
    if !want.trim().converges() {
        ctx.count("divergent_input");
        return;
    }
    if ncalls > 0 && calls > 0 {
        ctx.distinct(rules.iter().fold(7u64, |h, (l, s)| h.wrapping_mul(31).wrapping_add(s.hash() ^ *l as u64)));
    }
    if recursive && calls > 1 {
        ctx.count("recursive_grammars");
    }
    let smp = ctx.input.clone();
    ctx.sample(|| smp);
    let mut rng = ctx.rng.fork();
    let list: Vec<(Label, V<W>)> = rules.iter().map(|(l, s)| (*l, s.build_var(&mut rng))).collect();
    if recursive {
        let z = ctx.guard_ok("lazy-recursive", || ReplaceFst::<W, V<W>, Arc<V<W>>>::new(list.iter().map(|(l, f)| (*l, Arc::new(f.clone()))).collect(), root, eps_on_replace));
        if let Some(z) = z {
            let lim = 2;
            if let Some(Some(got)) = ctx.guard_ok("lazy-recursive", || explore::<W, _>(&z, lim, 3000)) {
                match (want.relation(lim, 3, 20000), got.relation(lim, 3, 20000)) {
                    (Some(a), Some(b)) => {
                        ctx.count("relations_compared:recursive");
                        if let Some(d) = rel_diff(&a, &b) {
                            ctx.fail("relation:lazy-recursive", d);
                        }
                    }
                    _ => ctx.count("comparison_skipped"),
                }
            } else {
                ctx.count("lazy_exploration_capped");
            }
        }
        return;
    }
    if let Some(m) = ctx.guard_ok("static", || replace::<W, V<W>, V<W>, _>(list.clone(), root, eps_on_replace)) {
        if let Some(x) = ext(ctx, "static", &m) {
            cmp_rel(ctx, "static", &want, &x, 3);
        }
    }
    if let Some(m) = ctx.guard_ok("static-ref", || replace::<W, V<W>, V<W>, &V<W>>(list.iter().map(|(l, f)| (*l, f)).collect(), root, eps_on_replace)) {
        if let Some(x) = ext(ctx, "static-ref", &m) {
            cmp_rel(ctx, "static-ref", &want, &x, 2);
        }
    }
    if let Some(z) = ctx.guard_ok("lazy", || ReplaceFst::<W, V<W>, V<W>>::new(list.clone(), root, eps_on_replace)) {
        if let Some(x) = ext_lazy::<W, _>(ctx, "lazy", &z, 3000) {
            cmp_rel(ctx, "lazy", &want, &x, 3);
        }
    }
    // a root that is not in the list is refused
    if rng.chance(1, 20) {
        let r = ctx.guard("no-root", || replace::<W, V<W>, V<W>, _>(list.clone(), 77777, eps_on_replace).map(|_| ()));
        if let Some(r) = r {
            chk!(ctx, r.is_err(), "missing-root-accepted", "no error");
            ctx.count("missing_root");
        }
    }
    for ((_, f), (_, s)) in list.iter().zip(rules.iter()) {
        if let Some(x) = ext(ctx, "operand", f) {
            if let Err(e) = s.to_ref().same_structure(&x) {
                ctx.fail("operand-modified", e);
            }
        }
    }
}

pub fn case(ctx: &mut Ctx) {
    with_w!(ctx, case_w, [TropicalWeight, TropicalWeight, LogWeight, BooleanWeight, IntegerWeight]);
}

fn main() {
    run(Prop {
        id: "C12",
        quick: 700_000,
        thorough: 10_000_000,
        rule: "random grammars of 1-4 rules (acyclic call graphs, and recursive ones whose calls consume input), calls shared between several sites, labels inside the non-terminal range that name nothing, rules without start; static and on-demand replacement against a direct substitution. Non-trivial: at least one call expanded.",
        case,
        must: &["relations_compared:static", "relations_compared:lazy", "relations_compared:recursive", "recursive_grammars", "unbound_label", "missing_root"],
        assumptions: &["grammars whose expansion exceeds 600 states or diverges are excluded", "recursive grammars are compared on inputs of length <=2"],
        ..DEFAULT
    });
}
