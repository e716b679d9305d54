//! C23: every stored representation and every view of a machine shows the same machine.
use fstmon::driver::*;
use fstmon::gen::*;
use fstmon::refw::*;
use fstmon::rng::Rng;
use fstmon::{chk, with_w};
use rustfst::algorithms::{fst_convert, fst_convert_from_ref};
use rustfst::fst_properties::FstProperties;
use rustfst::fst_traits::SerializableFst;
use rustfst::prelude::*;
use rustfst::DrawingConfig;
use std::sync::Arc;

type Tabs = (Option<Arc<SymbolTable>>, Option<Arc<SymbolTable>>);

fn trs_same<W: Wt>(want: &[SArc<W>], got: &[Tr<W>]) -> bool {
    want.len() == got.len() && want.iter().zip(got).all(|(a, b)| a.il == b.ilabel && a.ol == b.olabel && a.to == b.nextstate as usize && a.w.to_ref().exactly(&b.weight.to_ref()))
}
fn fin_same<W: Wt>(a: &Option<W>, b: &Option<W>) -> bool {
    match (a, b) {
        (Some(a), Some(b)) => a.to_ref().exactly(&b.to_ref()),
        (None, None) => true,
        _ => false,
    }
}

macro_rules! bail {
    ($k:expr, $($a:tt)*) => { return Err(($k, format!($($a)*))) };
}
type V0 = Result<(), (&'static str, String)>;

/// All accessors of an expanded representation.
fn views<W: Wt, F: ExpandedFst<W>>(f: &F, s: &Spec<W>, t: &Tabs) -> V0 {
    let n = s.n();
    if f.num_states() != n {
        bail!("num_states", "{} instead of {}", f.num_states(), n);
    }
    if f.start().map(|x| x as usize) != s.start {
        bail!("start", "{:?} instead of {:?}", f.start(), s.start);
    }
    let all: Vec<StateId> = (0..n as StateId).collect();
    if f.states_iter().collect::<Vec<_>>() != all || f.states_range().collect::<Vec<_>>() != all {
        bail!("states_iter", "{:?} / {:?}", f.states_iter().collect::<Vec<_>>(), f.states_range());
    }
    let zero_less = |x: &Option<W>| matches!(x, Some(w) if !w.to_ref().is_zero());
    let fin: Vec<StateId> = all.iter().copied().filter(|q| zero_less(&s.fin[*q as usize])).collect();
    let got: Vec<StateId> = f.final_states_iter().collect();
    if got != fin {
        bail!("final_states_iter", "{:?} instead of {:?}", got, fin);
    }
    for q in 0..n {
        let i = q as StateId;
        let (w, a) = (&s.fin[q], &s.arcs[q]);
        let ie = a.iter().filter(|x| x.il == 0).count();
        let oe = a.iter().filter(|x| x.ol == 0).count();
        match f.final_weight(i) {
            Ok(x) if fin_same(w, &x) => {}
            x => bail!("final_weight", "state {}: {:?} instead of {:?}", q, x, w),
        }
        let x = unsafe { f.final_weight_unchecked(i) };
        if !fin_same(w, &x) {
            bail!("final_weight_unchecked", "state {}: {:?} instead of {:?}", q, x, w);
        }
        if f.is_final(i).ok() != Some(zero_less(w)) || unsafe { f.is_final_unchecked(i) } != zero_less(w) {
            bail!("is_final", "state {} with final weight {:?}: is_final {:?}, unchecked {:?}", q, w, f.is_final(i), unsafe { f.is_final_unchecked(i) });
        }
        if f.is_start(i) != (s.start == Some(q)) {
            bail!("is_start", "state {}: {}", q, f.is_start(i));
        }
        let cnt = (f.num_trs(i).ok(), unsafe { f.num_trs_unchecked(i) }, f.num_input_epsilons(i).ok(), f.num_output_epsilons(i).ok());
        if cnt != (Some(a.len()), a.len(), Some(ie), Some(oe)) {
            bail!("counts", "state {}: {:?} instead of {:?}", q, cnt, (a.len(), ie, oe));
        }
        let Ok(g) = f.get_trs(i) else { bail!("get_trs", "state {}: error", q) };
        let u = unsafe { f.get_trs_unchecked(i) };
        let v = g.to_trs_vec();
        let sc = g.shallow_clone();
        for (k, x) in [("get_trs", g.trs()), ("get_trs_unchecked", u.trs()), ("trs-deref", &*g), ("to_trs_vec", v.trs()), ("shallow_clone", sc.trs()), ("to_trs_vec-of-clone", sc.to_trs_vec().trs())] {
            if !trs_same(a, x) {
                bail!(k, "state {}: {:?} instead of {:?}", q, x, a.iter().map(|x| (x.il, x.ol, &x.w, x.to)).collect::<Vec<_>>());
            }
        }
        // a view handed out does not change when another one is modified
        let mut m = g.to_trs_vec();
        m.push(Tr::new(77, 77, W::one(), 0));
        if !a.is_empty() {
            m.remove(0);
        }
        if m.len() != if a.is_empty() { 1 } else { a.len() } || m.trs().last().unwrap().ilabel != 77 {
            bail!("trs-edit", "state {}: {:?}", q, m);
        }
        if !trs_same(a, g.trs()) || !trs_same(a, f.get_trs(i).unwrap().trs()) || !trs_same(a, v.trs()) {
            bail!("trs-alias", "state {}: changing a copy of the transitions changed the machine", q);
        }
        m.clear();
        if !m.is_empty() || !trs_same(a, g.trs()) {
            bail!("trs-alias", "state {}: clearing a copy of the transitions", q);
        }
    }
    let d: Vec<_> = f.fst_iter().map(|d| (d.state_id, d.final_weight, d.trs.trs().to_vec(), d.num_trs)).collect();
    data_same("fst_iter", d, s)?;
    let p = |a: Option<&Arc<SymbolTable>>, b: &Option<Arc<SymbolTable>>| match (a, b) {
        (Some(a), Some(b)) => a == b,
        (None, None) => true,
        _ => false,
    };
    if !p(f.input_symbols(), &t.0) || !p(f.output_symbols(), &t.1) {
        bail!("symbols", "tables {:?}/{:?} instead of {:?}/{:?}", f.input_symbols(), f.output_symbols(), t.0, t.1);
    }
    for bad in [n as StateId, n as StateId + 1, u32::MAX, u32::MAX - 1] {
        let r = [f.final_weight(bad).is_err(), f.is_final(bad).is_err(), f.num_trs(bad).is_err(), f.get_trs(bad).is_err(), f.num_input_epsilons(bad).is_err(), f.num_output_epsilons(bad).is_err(), !f.is_start(bad)];
        if r.contains(&false) {
            bail!("missing-state", "state {} of {}: final_weight, is_final, num_trs, get_trs, num_input_epsilons, num_output_epsilons err, not start: {:?}", bad, n, r);
        }
    }
    Ok(())
}

fn data_same<W: Wt>(k: &'static str, d: Vec<(StateId, Option<W>, Vec<Tr<W>>, usize)>, s: &Spec<W>) -> V0 {
    if d.len() != s.n() {
        bail!(k, "{} states instead of {}", d.len(), s.n());
    }
    for (q, x) in d.iter().enumerate() {
        if x.0 as usize != q || !fin_same(&s.fin[q], &x.1) || !trs_same(&s.arcs[q], &x.2) || x.3 != x.2.len() {
            bail!(k, "state {}: {:?}", q, x);
        }
    }
    Ok(())
}
fn into<W: Wt, F: ExpandedFst<W>>(f: F, s: &Spec<W>) -> V0 {
    let d: Vec<_> = f.fst_into_iter().map(|d| (d.state_id, d.final_weight, d.trs.collect::<Vec<_>>(), d.num_trs)).collect();
    data_same("fst_into_iter", d, s)
}

fn tri(p: FstProperties) -> FstProperties {
    p
}

fn table(r: &mut Rng, tag: &str) -> Option<Arc<SymbolTable>> {
    if r.chance(1, 3) {
        return None;
    }
    let mut t = SymbolTable::new();
    for i in 1..8 {
        t.add_symbol(format!("{}{}", tag, i));
    }
    Some(Arc::new(t))
}

/// What a drawing shows: states with finality and start mark, transitions with labels and weight.
fn dot<W: Wt + SerializableSemiring, F: SerializableFst<W> + ExpandedFst<W>>(ctx: &mut Ctx, f: &F, s: &Spec<W>, t: &Tabs, rng: &mut Rng) {
    let p = std::env::temp_dir().join(format!("fstmon-c23-{}-{}", std::process::id(), ctx.case));
    let mut c = DrawingConfig::default();
    c.vertical = rng.bool();
    c.portrait = rng.bool();
    c.acceptor = rng.chance(1, 3);
    c.show_weight_one = rng.bool();
    c.print_weight = rng.chance(3, 4);
    c.size = if rng.bool() { Some((8.5, 11.0)) } else { None };
    c.ranksep = if rng.bool() { Some(0.4) } else { None };
    c.nodesep = if rng.bool() { Some(0.25) } else { None };
    c.title = "t i".into();
    let r = ctx.guard_ok("draw", || f.draw(&p, &c));
    let txt = std::fs::read_to_string(&p).unwrap_or_default();
    let _ = std::fs::remove_file(&p);
    if r.is_none() {
        return;
    }
    if s.start.is_none() {
        return;
    }
    let sym = |l: u32, t: &Option<Arc<SymbolTable>>, tag: &str| if t.is_some() { if l == 0 { "<eps>".to_string() } else { format!("{}{}", tag, l) } } else { l.to_string() };
    let wt = |w: &W| if c.print_weight && (c.show_weight_one || !w.is_one()) { format!("/{}", w) } else { String::new() };
    let quoted = |l: &str| l.split('"').nth(1).unwrap_or("").to_string();
    let mut states = vec![];
    let mut edges = vec![];
    for l in txt.lines() {
        let l = l.trim();
        if !l.chars().next().map_or(false, |c| c.is_ascii_digit()) {
            continue;
        }
        let head = l.split('[').next().unwrap().trim();
        if let Some((a, b)) = head.split_once("->") {
            edges.push((a.trim().to_string(), b.trim().to_string(), quoted(l)));
        } else {
            states.push((head.to_string(), quoted(l), l.contains("doublecircle"), l.contains("bold")));
        }
    }
    let mut wstates = vec![];
    let mut wedges = vec![];
    for q in 0..s.n() {
        wstates.push((q.to_string(), format!("{}{}", q, s.fin[q].as_ref().map_or(String::new(), |w| wt(w))), s.fin[q].is_some(), s.start == Some(q)));
        for a in &s.arcs[q] {
            let o = if c.acceptor { String::new() } else { format!(":{}", sym(a.ol, &t.1, "o")) };
            wedges.push((q.to_string(), a.to.to_string(), format!("{}{}{}", sym(a.il, &t.0, "i"), o, wt(&a.w))));
        }
    }
    states.sort();
    edges.sort();
    wstates.sort();
    wedges.sort();
    chk!(ctx, states == wstates, "draw-states", "{:?} instead of {:?}", states, wstates);
    chk!(ctx, edges == wedges, "draw-transitions", "{:?} instead of {:?}", edges, wedges);
    chk!(ctx, txt.starts_with("digraph") && txt.trim_end().ends_with('}') && txt.contains("t i"), "draw-frame", "{:?}", txt);
    ctx.count("drawings_compared");
}

fn case_w<W: Wt + SerializableSemiring>(ctx: &mut Ctx) {
    let mut rng = ctx.rng.fork();
    let mut c = GenCfg::new();
    c.nmin = 0;
    c.nmax = if rng.chance(1, 20) { 40 } else { rng.range(1, 6) };
    c.eps_i = *rng.pick(&[0, 20, 50]);
    c.eps_o = *rng.pick(&[0, 20, 50]);
    c.alpha = rng.range(1, 4) as u32;
    c.p_nostart = 5;
    c.arcs_per_state = rng.range(1, 4);
    let mut s: Spec<W> = gen_spec(&mut rng, &c);
    if s.n() > 0 && rng.chance(1, 8) {
        let q = rng.below(s.n());
        s.fin[q] = Some(W::zero());
        ctx.count("zero_final");
    }
    ctx.input = format!("{} {}", W::NAME, s.dump());
    if s.narcs() >= 3 {
        ctx.distinct(s.hash());
    }
    let smp = ctx.input.clone();
    ctx.sample(|| smp);
    let t: Tabs = (table(&mut rng, "i"), table(&mut rng, "o"));
    let mut f = s.build_var(&mut rng);
    if let Some(x) = &t.0 {
        f.set_input_symbols(x.clone());
    }
    if let Some(x) = &t.1 {
        f.set_output_symbols(x.clone());
    }
    macro_rules! look {
        ($n:expr, $f:expr) => {{
            let f = $f;
            match ctx.guard($n, || views::<W, _>(f, &s, &t)) {
                Some(Err((k, e))) => ctx.fail(&format!("{}:{}", $n, k), e),
                Some(Ok(())) => ctx.count(concat!("views:", $n)),
                None => {}
            }
        }};
    }
    macro_rules! look_into {
        ($n:expr, $f:expr) => {{
            match ctx.guard($n, || into::<W, _>($f, &s)) {
                Some(Err((k, e))) => ctx.fail(&format!("{}:{}", $n, k), e),
                Some(Ok(())) => ctx.count(concat!("into:", $n)),
                None => {}
            }
        }};
    }
    look!("vector", &f);
    look_into!("vector", f.clone());
    // iterating over a copy while the original lives on
    let shared = f.clone();
    look_into!("vector-shared", shared.clone());
    look!("vector-after", &shared);
    let src_props = tri(f.properties());
    let Some(k) = ctx.guard("into-const", || ConstFst::<W>::from(f.clone())) else { return };
    // converting while someone still holds the transitions of some states
    {
        let g = f.clone();
        let held: Vec<_> = (0..s.n()).filter(|_| rng.bool()).map(|q| (q, g.get_trs(q as StateId).unwrap())).collect();
        if let Some(k2) = ctx.guard("into-const-held", || ConstFst::<W>::from(g)) {
            look!("const-held", &k2);
        }
        let g = f.clone();
        let held2: Vec<_> = (0..s.n()).filter(|_| rng.bool()).map(|q| (q, g.get_trs(q as StateId).unwrap())).collect();
        look_into!("vector-held", g);
        for (q, t) in held.iter().chain(held2.iter()) {
            let same = t.len() == s.arcs[*q].len() && t.trs().iter().zip(s.arcs[*q].iter()).all(|(x, y)| x.ilabel == y.il && x.olabel == y.ol && x.nextstate as usize == y.to && x.weight == y.w);
            chk!(ctx, same, "held-transitions", "the transitions of state {} changed in the hands of their holder: {:?}", q, t.trs());
        }
    }
    look!("const", &k);
    look_into!("const", k.clone());
    look!("const-after", &k);
    let kp = tri(k.properties());
    chk!(ctx, kp & src_props == src_props, "const-properties", "{:?} known before, {:?} after", src_props, kp);
    let mut fresh = s.build();
    let truth = tri(fresh.compute_and_update_properties_all().unwrap());
    chk!(ctx, kp == truth, "const-properties", "{:?} instead of {:?}", kp, truth);
    if rng.chance(1, 2) {
        look!("arc-vector", &Arc::new(f.clone()));
        look!("arc-const", &Arc::new(k.clone()));
        let g: Option<VectorFst<W>> = ctx.guard("convert", || fst_convert_from_ref(&Arc::new(k.clone())));
        if let Some(g) = g {
            look!("convert-arc", &g);
        }
    }
    macro_rules! conv {
        ($n:expr, $e:expr, $p:expr) => {
            let g: Option<VectorFst<W>> = ctx.guard($n, || $e);
            if let Some(g) = g {
                look!($n, &g);
                let p = tri(g.properties());
                chk!(ctx, p & $p == $p, concat!($n, ":properties"), "{:?} known before, {:?} after", $p, p);
                chk!(ctx, p & !truth == FstProperties::empty(), concat!($n, ":properties"), "{:?} claimed, {:?} true", p, truth);
                chk!(ctx, g == f, concat!($n, ":equality"), "differs from the original");
            }
        };
    }
    conv!("convert-const-ref", fst_convert_from_ref(&k), kp);
    conv!("convert-const", fst_convert(k.clone()), kp);
    conv!("convert-vector-ref", fst_convert_from_ref(&f), src_props);
    conv!("convert-vector", fst_convert(f.clone()), src_props);
    // printed forms are the same whatever the representation
    let (a, b) = (ctx.guard("text", || (f.text().ok(), format!("{}", f))), ctx.guard("text", || (k.text().ok(), format!("{}", k))));
    chk!(ctx, a == b && a.as_ref().map_or(true, |x| x.0.is_some()), "text-differs", "{:?} and {:?}", a, b);
    if rng.chance(1, 4) && s.n() < 10 {
        dot(ctx, &f, &s, &t, &mut rng);
        dot(ctx, &k, &s, &t, &mut rng);
    }
    // changing what does not exist is an error and changes nothing
    if rng.chance(1, 3) {
        let n = s.n() as StateId;
        let bad = *rng.pick(&[n, n + 3, u32::MAX]);
        let mut g = f.clone();
        let r = ctx.guard("missing-state", || {
            let tr = Tr::new(1, 1, W::one(), 0);
            vec![
                ("set_start", g.set_start(bad).is_err()),
                ("set_final", g.set_final(bad, W::one()).is_err()),
                ("add_tr", g.add_tr(bad, tr).is_err()),
                ("emplace_tr", g.emplace_tr(bad, 1, 1, W::one(), 0).is_err()),
                ("delete_trs", g.delete_trs(bad).is_err()),
                ("pop_trs", g.pop_trs(bad).is_err()),
                ("delete_final_weight", g.delete_final_weight(bad).is_err()),
                ("take_final_weight", g.take_final_weight(bad).is_err()),
                ("tr_iter_mut", g.tr_iter_mut(bad).is_err()),
                ("del_state", g.del_state(bad).is_err()),
                ("del_states", g.del_states(vec![bad]).is_err()),
            ]
        });
        if let Some(r) = r {
            for (k, ok) in r {
                chk!(ctx, ok, &format!("missing-state:{}", k), "{} on state {} of {} is no error", k, bad, n);
            }
            look!("after-errors", &g);
            ctx.count("edits_of_missing_states");
        }
    }
}

pub fn case(ctx: &mut Ctx) {
    with_w!(ctx, case_w, [TropicalWeight, LogWeight, ProbabilityWeight, IntegerWeight])
}

fn main() {
    run(Prop {
        id: "C23",
        quick: 700_000,
        thorough: 4_000_000,
        rule: "random machines (4 semirings, with and without tables, zero-weight finals, up to 40 states) in mutable, constant, shared and converted form: each accessor (checked and unchecked), count, iterator, transition list copy and symbol table is compared with the specification; states that do not exist are asked about and edited; known properties are compared before and after conversions and with recomputed ones; text, display and DOT drawings are compared between forms and with the specification. Non-trivial: distinct machines with at least three transitions.",
        case,
        must: &["views:const-held", "views:vector", "views:const", "views:arc-vector", "views:arc-const", "views:convert-const", "views:convert-const-ref", "views:convert-vector", "views:convert-vector-ref", "into:vector", "into:const", "zero_final", "drawings_compared", "edits_of_missing_states"],
        assumptions: &["Arc<Fst> offers no symbol-table setters and no consuming iteration (both unimplemented), these are not called", "a drawing of a machine without start state is empty by design"],
        ..DEFAULT
    });
}
