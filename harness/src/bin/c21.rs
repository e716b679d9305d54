//! C21: paths enumerated, tested, built, decoded and sampled are exactly the machine's paths.
use fstmon::driver::*;
use fstmon::gen::*;
use fstmon::refw::*;
use fstmon::rng::{mix, Rng};
use fstmon::{chk, with_w};
use rustfst::algorithms::randgen::*;
use rustfst::fst;
use rustfst::fst_path;
use rustfst::prelude::*;
use rustfst::utils::*;
use rustfst::{check_path_in_fst, FstPath};
use std::collections::BTreeSet;
use std::sync::Arc;

type P<W> = (Vec<Label>, Vec<Label>, W);

/// Every successful path, one entry per sequence of transitions; None when there are too many.
fn paths<W: Wt>(s: &Spec<W>, cap: usize) -> Option<Vec<P<W>>> {
    let mut out = vec![];
    let Some(st) = s.start else { return Some(out) };
    let mut stack = vec![(st, vec![], vec![], W::one())];
    let mut steps = 0;
    while let Some((q, i, o, w)) = stack.pop() {
        steps += 1;
        if steps > cap {
            return None;
        }
        if let Some(f) = &s.fin[q] {
            out.push((i.clone(), o.clone(), w.times(f).unwrap()));
        }
        for a in &s.arcs[q] {
            let (mut i, mut o) = (i.clone(), o.clone());
            if a.il != 0 {
                i.push(a.il);
            }
            if a.ol != 0 {
                o.push(a.ol);
            }
            stack.push((a.to, i, o, w.times(&a.w).unwrap()));
        }
    }
    Some(out)
}

/// Is there a path with these labels and this weight? (no eps:eps cycle)
fn member<W: Wt>(s: &Spec<W>, p: &FstPath<W>) -> Option<bool> {
    let Some(st) = s.start else { return Some(false) };
    let mut stack = vec![(st, 0, 0, W::one())];
    let mut steps = 0;
    while let Some((q, i, o, w)) = stack.pop() {
        steps += 1;
        if steps > 4000 {
            return None;
        }
        if i == p.ilabels.len() && o == p.olabels.len() {
            if let Some(f) = &s.fin[q] {
                if w.times(f).unwrap() == p.weight {
                    return Some(true);
                }
            }
        }
        for a in &s.arcs[q] {
            let i2 = if a.il == 0 { i } else if i < p.ilabels.len() && p.ilabels[i] == a.il { i + 1 } else { continue };
            let o2 = if a.ol == 0 { o } else if o < p.olabels.len() && p.olabels[o] == a.ol { o + 1 } else { continue };
            stack.push((a.to, i2, o2, w.times(&a.w).unwrap()));
        }
    }
    Some(false)
}

fn same_paths<W: Wt>(mut a: Vec<P<W>>, mut b: Vec<P<W>>) -> Result<(), String> {
    let key = |p: &P<W>| (p.0.clone(), p.1.clone(), p.2.to_ref().key());
    a.sort_by_key(key);
    b.sort_by_key(key);
    if a.len() != b.len() {
        return Err(format!("{} paths instead of {}: {:?} instead of {:?}", b.len(), a.len(), b, a));
    }
    let mut used = vec![false; b.len()];
    for x in &a {
        match (0..b.len()).find(|&j| !used[j] && b[j].0 == x.0 && b[j].1 == x.1 && b[j].2.to_ref().same(&x.2.to_ref())) {
            Some(j) => used[j] = true,
            None => return Err(format!("path {:?} is missing from {:?}", x, b)),
        }
    }
    Ok(())
}

fn cfg(r: &mut Rng, acyclic: bool) -> GenCfg {
    let mut c = GenCfg::new();
    c.nmin = 1;
    c.nmax = r.range(1, 6);
    c.acyclic = acyclic;
    c.no_eps_cycle = true;
    c.eps_i = *r.pick(&[0, 20, 50]);
    c.eps_o = *r.pick(&[0, 20, 50]);
    c.alpha = r.range(1, 4) as u32;
    c.acceptor = r.chance(1, 6);
    c
}

fn table(n: u32, tag: &str) -> SymbolTable {
    let mut t = SymbolTable::new();
    for i in 1..=n {
        t.add_symbol(format!("{}{}", tag, i * 7));
    }
    t
}

fn enumerate<W: Wt>(ctx: &mut Ctx) {
    let mut rng = ctx.rng.fork();
    let s: Spec<W> = gen_spec(&mut rng, &cfg(&mut ctx.rng, true));
    ctx.input = format!("{} {}", W::NAME, s.dump());
    let Some(want) = paths(&s, 3000) else { return ctx.count("too_many_paths") };
    if want.len() >= 2 {
        ctx.distinct(s.hash());
    }
    let smp = ctx.input.clone();
    ctx.sample(|| smp);
    let mut f = s.build_var(&mut rng);
    let conv = |v: Vec<FstPath<W>>| v.into_iter().map(|p| (p.ilabels, p.olabels, p.weight)).collect::<Vec<_>>();
    if let Some(got) = ctx.guard("paths_iter", || f.paths_iter().collect::<Vec<_>>()) {
        ctx.add("paths_enumerated", got.len() as u64);
        if let Err(e) = same_paths(want.clone(), conv(got)) {
            ctx.fail("paths", e);
        }
    }
    if rng.chance(1, 4) {
        let c: ConstFst<W> = f.clone().into();
        if let Some(got) = ctx.guard("paths_iter-const", || c.paths_iter().collect::<Vec<_>>()) {
            if let Err(e) = same_paths(want.clone(), conv(got)) {
                ctx.fail("paths-const", e);
            }
            ctx.count("const_enumerations");
        }
    }
    if rng.chance(1, 4) {
        let c = Arc::new(f.clone());
        if let Some(got) = ctx.guard("paths_iter-arc", || c.paths_iter().collect::<Vec<_>>()) {
            if let Err(e) = same_paths(want.clone(), conv(got)) {
                ctx.fail("paths-arc", e);
            }
        }
    }
    if rng.chance(1, 3) {
        // decoding
        match ctx.guard("decode", || decode_linear_fst(&f)) {
            Some(Ok(p)) if want.len() == 1 => {
                let got = vec![(p.ilabels, p.olabels, p.weight)];
                if let Err(e) = same_paths(want.clone(), got) {
                    ctx.fail("decode", e);
                }
                ctx.count("decoded");
            }
            Some(Ok(p)) if want.len() > 1 => ctx.fail("decode-not-linear", format!("{} paths decode to {:?}", want.len(), p)),
            Some(Err(e)) if want.len() <= 1 => ctx.fail("decode-refused", format!("{} path(s): {:?}", want.len(), e)),
            Some(Err(_)) => ctx.count("decode_refused_non_linear"),
            _ => {}
        }
    }
    if rng.chance(1, 2) {
        // strings
        let (full_i, full_o) = (rng.range(1, 5) as u32, rng.range(1, 5) as u32);
        let (ti, to) = (Arc::new(table(full_i, "i")), Arc::new(table(full_o, "o")));
        let which = rng.below(8);
        if which != 0 {
            f.set_input_symbols(ti.clone());
        }
        if which != 1 {
            f.set_output_symbols(to.clone());
        }
        let r = ctx.guard("string_paths", || f.string_paths_iter().map(|i| i.collect::<Vec<_>>()));
        match r {
            Some(Ok(_)) if which < 2 => ctx.fail("strings-without-table", "no error although a table is missing".to_string()),
            Some(Err(e)) if which >= 2 => ctx.fail("strings-refused", format!("{:?}", e)),
            Some(Ok(v)) => {
                let str_of = |l: &[Label], t: &SymbolTable, tag: &str| -> Option<String> {
                    let v: Option<Vec<String>> = l.iter().map(|x| if (*x as usize) < t.len() { Some(format!("{}{}", tag, x * 7)) } else { None }).collect();
                    v.map(|v| v.join(" "))
                };
                for p in &v {
                    let (wi, wo) = (str_of(p.ilabels(), &ti, "i"), str_of(p.olabels(), &to, "o"));
                    chk!(ctx, p.istring().ok() == wi && p.ostring().ok() == wo, "strings", "labels {:?}/{:?} shown as {:?}/{:?} instead of {:?}/{:?}", p.ilabels(), p.olabels(), p.istring().ok(), p.ostring().ok(), wi, wo);
                    ctx.count(if wi.is_some() && wo.is_some() { "strings_compared" } else { "strings_with_unknown_label" });
                }
                let got = v.iter().map(|p| (p.ilabels().to_vec(), p.olabels().to_vec(), p.weight().clone())).collect();
                if let Err(e) = same_paths(want.clone(), got) {
                    ctx.fail("string-paths", e);
                }
            }
            _ => {}
        }
    }
    // pieces of a path put together
    if rng.chance(1, 4) {
        let mut p = FstPath::<W>::default();
        chk!(ctx, p.is_empty(), "path-empty", "a new path is not empty");
        let (mut i, mut o, mut w) = (vec![], vec![], W::one());
        for _ in 0..rng.below(4) {
            let (a, b, x) = (rng.below(3) as Label, rng.below(3) as Label, W::gen(&mut rng, WProfile::Normal));
            p.add_to_path(a, b, &x).unwrap();
            if a != 0 {
                i.push(a)
            }
            if b != 0 {
                o.push(b)
            }
            w = w.times(&x).unwrap();
        }
        let q = FstPath::new(vec![9, 8], vec![7], W::gen(&mut rng, WProfile::Normal));
        let mut pq = p.clone();
        pq.concat(q.clone()).unwrap();
        chk!(ctx, p.ilabels == i && p.olabels == o && p.weight.to_ref().same(&w.to_ref()), "path-add", "{:?} instead of {:?}/{:?}/{:?}", p, i, o, w);
        i.extend([9, 8]);
        o.extend([7]);
        w = w.times(&q.weight).unwrap();
        chk!(ctx, pq.ilabels == i && pq.olabels == o && pq.weight.to_ref().same(&w.to_ref()), "path-concat", "{:?} instead of {:?}/{:?}/{:?}", pq, i, o, w);
        chk!(ctx, !pq.is_empty(), "path-empty", "{:?} is called empty", pq);
    }
}

fn membership<W: Wt>(ctx: &mut Ctx) {
    let mut rng = ctx.rng.fork();
    let acyclic = rng.bool();
    let mut c = cfg(&mut ctx.rng, acyclic);
    c.p_nostart = 0;
    let s: Spec<W> = gen_spec(&mut rng, &c);
    ctx.input = format!("membership {} {}", W::NAME, s.dump());
    if s.start.is_none() {
        return;
    }
    let f = s.build_var(&mut rng);
    for _ in 0..6 {
        // a walk, then perhaps a change
        let mut q = s.start.unwrap();
        let mut p = FstPath::<W>::default();
        for _ in 0..8 {
            if (s.fin[q].is_some() && rng.chance(1, 3)) || s.arcs[q].is_empty() {
                break;
            }
            let a = rng.pick(&s.arcs[q]);
            p.add_to_path(a.il, a.ol, &a.w).unwrap();
            q = a.to;
        }
        if let Some(x) = &s.fin[q] {
            p.add_weight(x).unwrap();
        }
        match rng.below(8) {
            0 if !p.ilabels.is_empty() => {
                let k = rng.below(p.ilabels.len());
                p.ilabels[k] = rng.range(1, 4) as Label;
            }
            1 if !p.olabels.is_empty() => {
                let k = rng.below(p.olabels.len());
                p.olabels[k] = rng.range(1, 4) as Label;
            }
            2 => {
                p.ilabels.pop();
            }
            3 => p.olabels.push(rng.range(1, 3) as Label),
            4 => p.weight = W::gen(&mut rng, WProfile::Normal),
            5 if p.olabels.len() > 1 => p.olabels.rotate_left(1),
            _ => {}
        }
        let Some(want) = member(&s, &p) else { continue };
        if let Some(got) = ctx.guard("check_path", || check_path_in_fst(&f, &p)) {
            chk!(ctx, got == want, "membership", "{:?}: answered {} instead of {}", p, got, want);
            ctx.count(if want { "members" } else { "non_members" });
            if p.ilabels.len() != p.olabels.len() {
                ctx.count("uneven_paths");
            }
            ctx.distinct(s.hash() ^ mix(p.ilabels.len() as u64 * 77 + p.olabels.len() as u64));
        }
    }
}

fn build<W: Wt>(ctx: &mut Ctx) {
    let mut rng = ctx.rng.fork();
    let seq = |r: &mut Rng| -> Vec<Label> { (0..r.below(6)).map(|_| if r.chance(1, 8) { 0 } else { *r.pick(&[1, 2, 3, 1 << 20, u32::MAX - 1]) as Label }).collect() };
    let (a, b) = (seq(&mut rng), seq(&mut rng));
    let w = W::gen(&mut rng, WProfile::Normal);
    ctx.input = format!("{} acceptor {:?}, transducer {:?}/{:?} weight {:?}", W::NAME, a, b, a, w);
    let ne = |v: &[Label]| v.iter().copied().filter(|x| *x != 0).collect::<Vec<_>>();
    let chk = |ctx: &mut Ctx, k: &str, f: VectorFst<W>, i: &[Label], o: &[Label], w: &W| {
        let n = i.len().max(o.len());
        let r = ctx.guard(k, || {
            let v: Vec<P<W>> = f.paths_iter().take(5).map(|p| (p.ilabels, p.olabels, p.weight)).collect();
            (v, decode_linear_fst(&f), check_path_in_fst(&f, &FstPath::new(ne(i), ne(o), w.clone())))
        });
        let Some((v, d, m)) = r else { return };
        let want = vec![(ne(i), ne(o), w.clone())];
        if let Err(e) = same_paths(want.clone(), v) {
            ctx.fail(&format!("built:{}", k), e);
        }
        match d {
            Ok(p) => {
                if let Err(e) = same_paths(want, vec![(p.ilabels, p.olabels, p.weight)]) {
                    ctx.fail(&format!("built-decode:{}", k), e);
                }
            }
            Err(e) => ctx.fail(&format!("built-decode:{}", k), format!("{:?}", e)),
        }
        chk!(ctx, m, &format!("built-member:{}", k), "the sequence is not found in the machine built from it");
        chk!(ctx, f.num_states() == n + 1, &format!("built-states:{}", k), "{} states for {} labels", f.num_states(), n);
        ctx.count("built");
    };
    chk(ctx, "acceptor", acceptor(&a, w.clone()), &a, &a, &w);
    chk(ctx, "transducer", transducer(&b, &a, w.clone()), &b, &a, &w);
    if rng.chance(1, 10) {
        let one = W::one();
        chk(ctx, "macro", fst![1, 2, 3], &[1, 2, 3], &[1, 2, 3], &one);
        chk(ctx, "macro2", fst![1, 2 => 3], &[1, 2], &[3], &one);
        if let Some(f) = ctx.guard_ok("epsilon_machine", || epsilon_machine::<W, VectorFst<W>>()) {
            chk(ctx, "epsilon_machine", f, &[], &[], &one);
        }
        let p: FstPath<W> = fst_path![1, 2 => 3];
        chk!(ctx, p.ilabels == [1, 2] && p.olabels == [3] && p.weight == one, "path-macro", "{:?}", p);
        let p: FstPath<W> = fst_path![1, 2];
        chk!(ctx, p.ilabels == [1, 2] && p.olabels == [1, 2] && p.weight == one, "path-macro", "{:?}", p);
    }
    ctx.distinct(mix(a.iter().chain(&b).fold(a.len() as u64 * 7 + b.len() as u64, |h, x| mix(h ^ *x as u64))));
}

/// Follows the transitions of the sampled machine in the sampled-from machine.
fn sampled_ok<W: Wt>(s: &Spec<W>, f: &VectorFst<W>, max: usize, out: &mut Vec<(usize, Vec<(Label, Label)>, W)>) -> Result<(), String> {
    let Some(st) = f.start() else { return Ok(()) };
    let Some(q0) = s.start else { return Err("paths from a machine without start".into()) };
    let mut stack = vec![(st, BTreeSet::from([q0]), vec![], W::one())];
    let mut steps = 0;
    while let Some((q, set, path, w)) = stack.pop() {
        steps += 1;
        if steps > 100_000 {
            return Err("the sample does not end".into());
        }
        let len = path.len();
        if let Some(fw) = f.final_weight(q).unwrap() {
            if !set.iter().any(|x| s.fin[*x].is_some()) {
                return Err(format!("sampled path {:?} does not end in a final state", path));
            }
            if len > max {
                return Err(format!("sampled path {:?} is longer than {}", path, max));
            }
            out.push((len, path.clone(), w.times(&fw).unwrap()));
        }
        for t in f.get_trs(q).unwrap().trs() {
            let n: BTreeSet<usize> = set.iter().flat_map(|x| s.arcs[*x].iter().filter(|a| a.il == t.ilabel && a.ol == t.olabel).map(|a| a.to)).collect();
            if n.is_empty() {
                return Err(format!("after {:?} there is no transition {}:{}", path, t.ilabel, t.olabel));
            }
            let mut p = path.clone();
            p.push((t.ilabel, t.olabel));
            stack.push((t.nextstate, n, p, w.times(&t.weight).unwrap()));
        }
    }
    Ok(())
}

fn sample<W: Wt + Semiring<Type = f32>>(ctx: &mut Ctx, val: fn(&W) -> f32) {
    let mut rng = ctx.rng.fork();
    let acyclic = rng.bool();
    let mut c = cfg(&mut ctx.rng, acyclic);
    c.no_eps_cycle = false;
    c.trim = rng.bool();
    let s: Spec<W> = gen_spec(&mut rng, &c);
    let f = s.build_var(&mut rng);
    let npath = *rng.pick(&[1, 2, 5, 20, 60]);
    let max = if acyclic && rng.bool() { usize::MAX } else { rng.range(0, 8) };
    let weighted = rng.bool();
    let rm = rng.bool();
    let seed = rng.next();
    ctx.input = format!("sample {} {} npath={} max={} weighted={} remove_total={} seed={}", W::NAME, s.dump(), npath, max, weighted, rm, seed);
    let mk = || RandGenConfig::new(UniformTrSelector::from_seed(seed)).with_npath(npath).with_max_length(max).with_weighted(weighted).with_remove_total_weight(rm);
    let Some(g) = ctx.guard_ok("randgen", || randgen_with_config::<W, _, VectorFst<W>, _>(&f, mk())) else { return };
    let mut out = vec![];
    if let Err(e) = sampled_ok(&s, &g, max, &mut out) {
        return ctx.fail("sampled", e);
    }
    ctx.add("sampled_paths", out.len() as u64);
    if out.len() > 1 {
        ctx.distinct(s.hash() ^ seed);
    }
    let co = s.to_ref().coaccessible();
    let acc = s.to_ref().accessible();
    let complete = s.start.is_some() && max == usize::MAX && (0..s.n()).all(|q| !acc[q] || co[q]);
    if weighted {
        // weights are the shares of the samples: whole numbers of samples, adding up
        let mut tot = 0.0;
        for (_, p, w) in &out {
            let n = (-(val(w) as f64)).exp() * if rm { npath as f64 } else { 1.0 };
            if (n - n.round()).abs() > 0.02 || n < 0.5 {
                return ctx.fail("sample-count", format!("path {:?} has weight {:?}, that is {} samples", p, w, n));
            }
            tot += n.round();
        }
        chk!(ctx, tot <= npath as f64, "sample-total", "{} samples instead of {}", tot, npath);
        chk!(ctx, !complete || tot == npath as f64, "sample-total", "{} samples instead of {}", tot, npath);
        ctx.count("weighted_samples");
    } else {
        for (_, p, w) in &out {
            chk!(ctx, *w == W::one(), "sample-weight", "path {:?} has weight {:?}", p, w);
        }
        let nonempty = out.iter().filter(|x| x.0 > 0).count();
        let empty = out.len() - nonempty;
        chk!(ctx, out.len() <= npath, "sample-total", "{} samples instead of {}", out.len(), npath);
        if complete {
            chk!(ctx, if empty == 0 { nonempty == npath } else { nonempty < npath }, "sample-total", "{} nonempty and {} empty samples instead of {}", nonempty, empty, npath);
            ctx.count("complete_samples");
        }
    }
    if rng.chance(1, 4) {
        if let Some(g2) = ctx.guard_ok("randgen", || randgen_with_config::<W, _, VectorFst<W>, _>(&f, mk())) {
            chk!(ctx, g == g2, "sample-seed", "the same seed gave two different samples");
            ctx.count("seeds_repeated");
        }
    }
    if rng.chance(1, 6) && acyclic {
        if let Some(g2) = ctx.guard_ok("randgen", || randgen::<W, _, VectorFst<W>>(&f)) {
            let mut o = vec![];
            if let Err(e) = sampled_ok(&s, &g2, usize::MAX, &mut o) {
                ctx.fail("sampled-default", e);
            }
            chk!(ctx, o.len() <= 1 && (!complete || o.len() == 1), "sample-total", "{} paths from randgen", o.len());
        }
    }
    // every path that is not too unlikely is drawn
    if rng.chance(1, 8) && acyclic {
        let mut probable: BTreeSet<Vec<(Label, Label)>> = BTreeSet::new();
        if let Some(st) = s.start {
            let mut stack = vec![(st, vec![], 1.0f64)];
            while let Some((q, p, pr)) = stack.pop() {
                if pr < 0.02 {
                    continue;
                }
                let n = s.arcs[q].len() + s.fin[q].is_some() as usize;
                if s.fin[q].is_some() && pr / n as f64 >= 0.02 {
                    probable.insert(p.clone());
                }
                for a in &s.arcs[q] {
                    let mut p2 = p.clone();
                    p2.push((a.il, a.ol));
                    stack.push((a.to, p2, pr / n as f64));
                }
            }
        }
        let cf = RandGenConfig::new(UniformTrSelector::from_seed(seed)).with_npath(2500).with_weighted(true);
        if let Some(g) = ctx.guard_ok("randgen", || randgen_with_config::<W, _, VectorFst<W>, _>(&f, cf)) {
            let mut o = vec![];
            if let Err(e) = sampled_ok(&s, &g, usize::MAX, &mut o) {
                ctx.fail("sampled-many", e);
            }
            let seen: BTreeSet<_> = o.into_iter().map(|x| x.1).collect();
            for p in &probable {
                chk!(ctx, seen.contains(p), "never-drawn", "path {:?} is not among 2500 samples", p);
            }
            ctx.add("probable_paths_drawn", probable.len() as u64);
        }
    }
}

pub fn case(ctx: &mut Ctx) {
    match ctx.rng.below(10) {
        0..=3 => with_w!(ctx, enumerate, [TropicalWeight, LogWeight, ProbabilityWeight, BooleanWeight, IntegerWeight]),
        4..=6 => with_w!(ctx, membership, [TropicalWeight, LogWeight, ProbabilityWeight, BooleanWeight, IntegerWeight]),
        7 => with_w!(ctx, build, [TropicalWeight, LogWeight, ProbabilityWeight, BooleanWeight, IntegerWeight]),
        _ => {
            if ctx.rng.bool() {
                sample::<TropicalWeight>(ctx, |w| *w.value())
            } else {
                sample::<LogWeight>(ctx, |w| *w.value())
            }
        }
    }
}

fn main() {
    run(Prop {
        id: "C21",
        quick: 3_000_000,
        thorough: 8_000_000,
        rule: "random acyclic machines over 5 semirings: all enumerated paths (mutable, constant and shared representation), their strings and the decoding of linear machines are compared, as multisets, with an independent enumeration; membership is asked for real, altered and uneven paths of acyclic and cyclic machines and compared with an independent search; machines built from label sequences are enumerated and decoded; samples (weighted and not, length-bounded, with given seeds) are replayed transition by transition in the sampled machine, their numbers must add up, and every path with probability above 0.02 must be among 2500 samples. Non-trivial: distinct machines with at least two paths, or distinct queries.",
        case,
        must: &["paths_enumerated", "const_enumerations", "decoded", "decode_refused_non_linear", "strings_compared", "strings_with_unknown_label", "members", "non_members", "uneven_paths", "built", "sampled_paths", "weighted_samples", "complete_samples", "seeds_repeated", "probable_paths_drawn"],
        assumptions: &["membership in a machine without start state and decoding of a machine without successful path are not judged (the library's convention is the empty path)", "machines with eps:eps cycles are not asked for membership"],
        ..DEFAULT
    });
}
