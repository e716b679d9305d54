//! C11: the shortest path and the n shortest paths.
use fstmon::chk;
use fstmon::driver::*;
use fstmon::gen::*;
use fstmon::ops::V;
use fstmon::reffst::*;
use fstmon::refw::*;
use fstmon::util::*;
use rustfst::prelude::*;
use std::collections::BTreeMap;

type R = RTrop;
type W = TropicalWeight;

#[derive(Clone, Debug, PartialEq)]
struct Path {
    labels: Vec<(u32, u32)>,
    w: f64,
}

/// paths of a trim machine in order of weight: every path of weight <= the k-th best (+eps), or None
/// when there are more than cap of them
fn best_paths(t: &RFst<R>, k: usize, cap: usize) -> Option<Vec<Path>> {
    let Some(start) = t.start else { return Some(vec![]) };
    // exact remaining cost
    let n = t.n();
    let mut h: Vec<f64> = (0..n).map(|q| if t.is_fin(q) { t.fin(q).0 } else { f64::INFINITY }).collect();
    for _ in 0..=n {
        for q in 0..n {
            for a in &t.st[q].arcs {
                if a.w.0 + h[a.to] < h[q] {
                    h[q] = a.w.0 + h[a.to];
                }
            }
        }
    }
    // best-first with the exact heuristic
    struct Node {
        f: f64,
        g: f64,
        q: Option<usize>,
        labels: Vec<(u32, u32)>,
    }
    let mut open: Vec<Node> = vec![Node { f: h[start], g: 0.0, q: Some(start), labels: vec![] }];
    let mut out: Vec<Path> = vec![];
    let mut steps = 0;
    while !open.is_empty() {
        steps += 1;
        if steps > cap || open.len() > 2 * cap {
            return None;
        }
        let mut b = 0;
        for i in 1..open.len() {
            if open[i].f < open[b].f - 1e-9 {
                b = i;
            }
        }
        let x = open.swap_remove(b);
        if out.len() >= k && x.f > out[k - 1].w + 1e-6 {
            break;
        }
        match x.q {
            None => out.push(Path { labels: x.labels, w: x.g }),
            Some(q) => {
                if t.is_fin(q) {
                    let g = x.g + t.fin(q).0;
                    open.push(Node { f: g, g, q: None, labels: x.labels.clone() });
                }
                for a in &t.st[q].arcs {
                    let g = x.g + a.w.0;
                    let mut l = x.labels.clone();
                    l.push((a.il, a.ol));
                    open.push(Node { f: g + h[a.to], g, q: Some(a.to), labels: l });
                }
            }
        }
    }
    Some(out)
}

/// weights of the k best paths (ties and zero-weight cycles included)
fn best_weights(t: &RFst<R>, k: usize) -> Vec<f64> {
    // k smallest completion costs per state by relaxation to a fixpoint over path length
    let n = t.n();
    let mut best: Vec<Vec<f64>> = vec![vec![]; n];
    let Some(start) = t.start else { return vec![] };
    // forward: k best costs of reaching each state, by number of transitions
    let mut layer: Vec<Vec<f64>> = vec![vec![]; n];
    layer[start].push(0.0);
    let mut fin: Vec<f64> = vec![];
    for _ in 0..(n * (k + 1) + 1) {
        for q in 0..n {
            if t.is_fin(q) {
                for c in &layer[q] {
                    fin.push(c + t.fin(q).0);
                }
            }
        }
        fin.sort_by(|a, b| a.partial_cmp(b).unwrap());
        fin.truncate(k);
        let mut next: Vec<Vec<f64>> = vec![vec![]; n];
        for q in 0..n {
            for a in &t.st[q].arcs {
                for c in &layer[q] {
                    next[a.to].push(c + a.w.0);
                }
            }
        }
        for (q, v) in next.iter_mut().enumerate() {
            v.sort_by(|a, b| a.partial_cmp(b).unwrap());
            v.truncate(k);
            let _ = &best[q];
        }
        layer = next;
        if layer.iter().all(|v| v.is_empty()) {
            break;
        }
    }
    best.clear();
    fin
}

/// all paths of an acyclic machine
fn all_paths(g: &RFst<R>, cap: usize) -> Option<Vec<Path>> {
    let Some(start) = g.start else { return Some(vec![]) };
    let mut out = vec![];
    let mut st = vec![(start, 0.0f64, Vec::new())];
    while let Some((q, w, l)) = st.pop() {
        if g.is_fin(q) {
            out.push(Path { labels: l.clone(), w: w + g.fin(q).0 });
        }
        if out.len() + st.len() > cap {
            return None;
        }
        for a in &g.st[q].arcs {
            let mut m: Vec<(u32, u32)> = l.clone();
            m.push((a.il, a.ol));
            st.push((a.to, w + a.w.0, m));
        }
    }
    Some(out)
}

fn strip(l: &[(u32, u32)]) -> Vec<(u32, u32)> {
    l.iter().filter(|x| **x != (0, 0)).cloned().collect()
}
/// number of paths per label sequence (transitions that read and write nothing left out) and weight
fn bag(v: &[Path], wk: impl Fn(f64) -> bool) -> BTreeMap<(Vec<(u32, u32)>, i64), i64> {
    let mut m = BTreeMap::new();
    for p in v {
        if wk(p.w) {
            *m.entry((strip(&p.labels), (p.w * 1000.0).round() as i64)).or_insert(0) += 1;
        }
    }
    m
}

fn judge(ctx: &mut Ctx, op: &str, t: &RFst<R>, g: &RFst<R>, k: usize) {
    chk!(ctx, !g.is_cyclic(), &format!("cyclic:{}", op), "{}", g.dump());
    if g.is_cyclic() {
        return;
    }
    let u = g.trim_struct();
    chk!(ctx, u.n() == g.n(), &format!("untrimmed:{}", op), "{}", g.dump());
    let Some(mut got) = all_paths(g, 2000) else {
        ctx.fail(&format!("too-many-paths:{}", op), g.dump());
        return;
    };
    // a path through a transition of weight zero is no path
    got.retain(|p| p.w.is_finite());
    got.sort_by(|a, b| a.w.partial_cmp(&b.w).unwrap());
    let want = best_weights(t, k);
    chk!(ctx, got.len() == want.len(), &format!("number:{}", op), "{} paths instead of {}; {}", got.len(), want.len(), g.dump());
    for (a, b) in got.iter().zip(want.iter()) {
        chk!(ctx, (a.w - b).abs() < 1e-3, &format!("weight:{}", op), "weights {:?} instead of {:?}; {}", got.iter().map(|x| x.w).collect::<Vec<_>>(), want, g.dump());
        ctx.count("path_weights_compared");
    }
    if ctx.failed() {
        return;
    }
    if let Some(all) = best_paths(t, k, 1500) {
        let last = want.last().cloned().unwrap_or(0.0);
        let must = bag(&all, |w| w < last - 1e-3);
        let may = bag(&all, |_| true);
        let have = bag(&got, |_| true);
        for (p, c) in &must {
            chk!(ctx, have.get(p).cloned().unwrap_or(0) == *c, &format!("missing:{}", op), "path {:?} returned {} times, exists {} times; {}", p, have.get(p).cloned().unwrap_or(0), c, g.dump());
        }
        for (p, c) in &have {
            chk!(ctx, may.get(p).cloned().unwrap_or(0) >= *c, &format!("invented:{}", op), "path {:?} returned {} times, exists {} times; {}", p, c, may.get(p).cloned().unwrap_or(0), g.dump());
            ctx.count("paths_compared");
        }
    } else {
        ctx.count("too_many_equal_paths");
        for p in &got {
            let x: Vec<u32> = p.labels.iter().map(|l| l.0).filter(|l| *l != 0).collect();
            let y: Vec<u32> = p.labels.iter().map(|l| l.1).filter(|l| *l != 0).collect();
            if let Some(w) = t.eval(&x, &y) {
                chk!(ctx, w.0 <= p.w + 1e-3, &format!("invented:{}", op), "path {:?} does not exist; {}", p, g.dump());
            }
        }
    }
}

pub fn case(ctx: &mut Ctx) {
    let mut c = GenCfg::new();
    c.nmax = ctx.rng.range(2, 8);
    c.acyclic = ctx.rng.chance(1, 3);
    c.acceptor = ctx.rng.chance(1, 3);
    c.arcs_per_state = ctx.rng.range(1, 3);
    c.trim = ctx.rng.chance(1, 2);
    c.p_final = *ctx.rng.pick(&[20, 40]);
    match ctx.rng.below(8) {
        0 => c.prof = WProfile::Unweighted,
        1 => {
            c.prof = WProfile::Wild;
            c.acyclic = true;
        }
        _ => {}
    }
    let uniq = ctx.rng.chance(1, 4);
    if uniq {
        c.acceptor = true;
        c.acyclic = true;
        c.eps_i = 0;
    }
    if !uniq && enlarge(&mut ctx.rng, &mut c, 100, 30) {
        ctx.count("large_machines");
    }
    let s: Spec<W> = gen_spec(&mut ctx.rng, &c);
    ctx.input = format!("unique={} {}", uniq, s.dump());
    let r = s.to_ref();
    // a transition or final weight of weight zero is no path at all
    let t = r.trim();
    if t.narcs() >= 2 {
        ctx.distinct(s.hash());
    }
    if t.is_cyclic() {
        ctx.count("cyclic_inputs");
    }
    let smp = ctx.input.clone();
    ctx.sample(|| smp);
    let mut rng = ctx.rng.fork();
    let f = s.build_var(&mut rng);
    if let Some(m) = ctx.guard_ok("single", || shortest_path::<W, _, V<W>>(&f)) {
        if let Some(g) = ext(ctx, "single", &m) {
            judge(ctx, "single", &t, &g, 1);
            chk!(ctx, g.st.iter().all(|q| q.arcs.len() <= 1), "not-linear", "{}", g.dump());
        }
    }
    let k = rng.range(2, 6);
    let delta = *rng.pick(&[1e-6f32, 1.0 / 1024.0]);
    if !uniq {
        if let Some(m) = ctx.guard_ok("n-best", || shortest_path_with_config::<W, _, V<W>>(&f, ShortestPathConfig::new(delta, k, false))) {
            if let Some(g) = ext(ctx, "n-best", &m) {
                judge(ctx, "n-best", &t, &g, k);
            }
        }
    } else {
        // distinct strings, each with its best weight
        if let Some(m) = ctx.guard_ok("n-best-unique", || shortest_path_with_config::<W, _, V<W>>(&f, ShortestPathConfig::new(delta, k, true))) {
            if let Some(g) = ext(ctx, "n-best-unique", &m) {
                chk!(ctx, !g.is_cyclic(), "cyclic:n-best-unique", "{}", g.dump());
                if let (false, Some(paths), Some(rel)) = (g.is_cyclic(), all_paths(&g, 2000), t.relation(t.n(), t.n(), 20000)) {
                    let mut got: BTreeMap<Vec<(u32, u32)>, f64> = BTreeMap::new();
                    for p in paths {
                        if !p.w.is_finite() {
                            continue;
                        }
                        let l = strip(&p.labels);
                        chk!(ctx, !got.contains_key(&l), "repeated:n-best-unique", "{:?} twice; {}", l, g.dump());
                        got.insert(l, p.w);
                    }
                    let mut want: Vec<f64> = rel.values().filter(|w| !w.is_zero()).map(|w| w.0).collect();
                    want.sort_by(|a, b| a.partial_cmp(b).unwrap());
                    want.truncate(k);
                    let mut gw: Vec<f64> = got.values().cloned().collect();
                    gw.sort_by(|a, b| a.partial_cmp(b).unwrap());
                    chk!(ctx, gw.len() == want.len() && gw.iter().zip(want.iter()).all(|(a, b)| (a - b).abs() < 1e-2), "weight:n-best-unique", "{:?} instead of {:?}; {}", gw, want, g.dump());
                    for (l, w) in &got {
                        let x: Vec<u32> = l.iter().map(|p| p.0).collect();
                        let y: Vec<u32> = l.iter().map(|p| p.1).collect();
                        let e = rel.get(&(x.clone(), y)).cloned().unwrap_or_else(R::zero);
                        chk!(ctx, (e.0 - w).abs() < 1e-2, "invented:n-best-unique", "{:?} has weight {} instead of {:?}; {}", l, w, e, g.dump());
                        ctx.count("unique_paths_compared");
                    }
                }
            }
        }
    }
    if rng.chance(1, 10) {
        if let Some(m) = ctx.guard_ok("none", || shortest_path_with_config::<W, _, V<W>>(&f, ShortestPathConfig::default().with_nshortest(0))) {
            chk!(ctx, m.start().is_none() || m.num_states() == 0, "zero-paths", "{:?}", m);
        }
    }
    if let Some(g) = ext(ctx, "operand", &f) {
        if let Err(e) = r.same_structure(&g) {
            ctx.fail("operand-modified", e);
        }
    }
}

fn main() {
    run(Prop {
        id: "C11",
        quick: 150_000,
        thorough: 20_000_000,
        rule: "random tropical machines (acyclic, cyclic, negative weights, zero-weight cycles); the returned paths are enumerated and compared, with multiplicity, with the best paths of the input found by an independent search; unique mode on acyclic acceptors against the full relation. Non-trivial: >=2 useful transitions.",
        case,
        must: &["path_weights_compared", "paths_compared", "unique_paths_compared", "cyclic_inputs"],
        assumptions: &["no negative cycles", "unique mode judged on acyclic epsilon-free acceptors (elsewhere determinization need not end)"],
        ..DEFAULT
    });
}
