//! C09: weight and label pushing, reweighting.
use fstmon::driver::*;
use fstmon::gen::*;
use fstmon::ops::*;
use fstmon::reffst::*;
use fstmon::refw::*;
use fstmon::util::*;
use fstmon::{chk, with_w};
use rustfst::prelude::*;

/// inverse and distance for the two weight types pushing is judged on
trait Inv: RefW {
    fn inv(&self) -> Self;
    fn val(&self) -> f64;
}
impl Inv for RTrop {
    fn inv(&self) -> Self {
        RTrop(-self.0)
    }
    fn val(&self) -> f64 {
        self.0
    }
}
impl Inv for RLog {
    fn inv(&self) -> Self {
        RLog(-self.0)
    }
    fn val(&self) -> f64 {
        self.0
    }
}

/// every useful state other than `except` sums to one
fn stochastic<R: Inv>(ctx: &mut Ctx, op: &str, g: &RFst<R>, to_final: bool, removed: bool, tol: f64) {
    let t = g.trim();
    let Some(start) = t.start else { return };
    if !to_final {
        for (q, st) in t.st.iter().enumerate() {
            if q == start && !removed {
                continue;
            }
            let mut s = t.fin(q);
            for a in &st.arcs {
                s = s.plus(&a.w);
            }
            chk!(ctx, s.val().abs() <= tol, &format!("not-normalized:{}", op), "state {} sums to {:?} (tolerance {}); {}", q, s, tol, t.dump());
            ctx.count("states_normalized");
        }
    } else {
        let mut s: Vec<R> = vec![R::zero(); t.n()];
        s[start] = R::one();
        let mut tot = R::zero();
        for (q, st) in t.st.iter().enumerate() {
            for a in &st.arcs {
                s[a.to] = s[a.to].plus(&a.w);
            }
            tot = tot.plus(&t.fin(q));
        }
        for (q, v) in s.iter().enumerate() {
            chk!(ctx, v.val().abs() <= tol, &format!("not-normalized:{}", op), "incoming of state {} sums to {:?} (tolerance {}); {}", q, v, tol, t.dump());
            ctx.count("states_normalized");
        }
        if removed {
            chk!(ctx, tot.val().abs() <= tol, &format!("total-left:{}", op), "final weights sum to {:?}; {}", tot, t.dump());
        }
    }
}

/// longest common prefix (suffix) of the outputs of all paths leaving (reaching) each state
fn common_affix<R: RefW>(t: &RFst<R>, suffix: bool) -> Vec<Vec<u32>> {
    let n = t.n();
    let mut v: Vec<Option<Vec<u32>>> = vec![None; n];
    fn meet(a: &mut Option<Vec<u32>>, b: Vec<u32>, suffix: bool) -> bool {
        match a {
            None => {
                *a = Some(b);
                true
            }
            Some(x) => {
                let k = if suffix { x.iter().rev().zip(b.iter().rev()).take_while(|(p, q)| p == q).count() } else { x.iter().zip(b.iter()).take_while(|(p, q)| p == q).count() };
                if k < x.len() {
                    *x = if suffix { x[x.len() - k..].to_vec() } else { x[..k].to_vec() };
                    true
                } else {
                    false
                }
            }
        }
    }
    if suffix {
        if let Some(s) = t.start {
            v[s] = Some(vec![]);
        }
    } else {
        for q in 0..n {
            if t.is_fin(q) {
                v[q] = Some(vec![]);
            }
        }
    }
    loop {
        let mut ch = false;
        for q in 0..n {
            for a in &t.st[q].arcs {
                let (from, to) = if suffix { (q, a.to) } else { (a.to, q) };
                if let Some(x) = v[from].clone() {
                    let mut w = x;
                    if a.ol != 0 {
                        if suffix {
                            w.push(a.ol);
                        } else {
                            w.insert(0, a.ol);
                        }
                    }
                    ch |= meet(&mut v[to], w, suffix);
                }
            }
        }
        if !ch {
            break;
        }
    }
    v.into_iter().map(|x| x.unwrap_or_default()).collect()
}

/// An output label is written as early as possible, one per transition: a transition writes nothing
/// only when the outputs that can still follow have no common beginning.
fn labels_pushed<R: RefW>(ctx: &mut Ctx, op: &str, g: &RFst<R>, removed: bool) {
    let t = g.trim();
    let Some(start) = t.start else { return };
    let v = common_affix(&t, false);
    for q in 0..t.n() {
        for a in &t.st[q].arcs {
            chk!(ctx, a.ol != 0 || v[a.to].is_empty(), &format!("labels-not-pushed:{}", op), "{} --{}:{}--> {} writes nothing though {:?} must follow; {}", q, a.il, a.ol, a.to, v[a.to], t.dump());
            ctx.count("transitions_label_pushed");
        }
    }
    if removed {
        chk!(ctx, v[start].is_empty(), &format!("affix-left:{}", op), "common output {:?} left; {}", v[start], t.dump());
    }
}

/// the removed total is itself an approximation (within the requested delta)
fn cmp_approx<R: Inv>(ctx: &mut Ctx, op: &str, e: &Rel<R>, g: &RFst<R>, tol: f64) {
    let Some(gr) = g.relation(3, 3, 20000) else { return };
    for (k, w) in e.iter() {
        let x = gr.get(k).cloned().unwrap_or_else(R::zero);
        chk!(ctx, (x.val() - w.val()).abs() < tol || (x.is_zero() && w.is_zero()), &format!("relation:{}", op), "{:?}: {:?} instead of {:?}; {}", k, x, w, g.dump());
    }
    for (k, x) in gr.iter() {
        chk!(ctx, x.is_zero() || e.contains_key(k), &format!("relation:{}", op), "{:?} accepted; {}", k, g.dump());
    }
    ctx.count("relations_compared:rm-log");
}

fn case_w<W: FullW>(ctx: &mut Ctx)
where
    W::R: Inv,
{
    let mut c = GenCfg::new();
    c.nmax = ctx.rng.range(2, 8);
    c.acyclic = ctx.rng.chance(1, 3);
    c.acceptor = ctx.rng.chance(1, 3);
    c.arcs_per_state = ctx.rng.range(1, 3);
    c.trim = ctx.rng.chance(2, 3);
    c.p_final = *ctx.rng.pick(&[20, 40]);
    c.eps_i = *ctx.rng.pick(&[0, 25]);
    c.eps_o = *ctx.rng.pick(&[0, 25]);
    c.alpha = *ctx.rng.pick(&[1, 2, 3]);
    if ctx.rng.chance(1, 6) {
        c.prof = WProfile::Unweighted;
        c.acyclic |= !W::IDEMP;
    }
    if enlarge(&mut ctx.rng, &mut c, 60, 36) {
        ctx.count("large_machines");
    }
    let s: Spec<W> = gen_spec(&mut ctx.rng, &c);
    ctx.input = format!("{} {}", W::NAME, s.dump());
    let r = s.to_ref();
    if !r.converges() {
        ctx.count("divergent_input");
        return;
    }
    let t = r.trim();
    if t.narcs() >= 2 {
        ctx.distinct(s.hash());
    }
    let cyc = t.is_cyclic();
    let start_cyclic = {
        let sc = t.scc();
        t.start.map_or(false, |q| t.st[q].arcs.iter().any(|a| a.to == q) || sc.iter().filter(|x| **x == sc[q]).count() > 1)
    };
    if start_cyclic {
        ctx.count("start_on_cycle");
    }
    let smp = ctx.input.clone();
    ctx.sample(|| smp);
    let mut rng = ctx.rng.fork();
    let f = s.build_var(&mut rng);
    let total = r.total().unwrap();
    let is_trim = t.n() == r.n();
    let tol = |delta: f64| if W::IDEMP { 1e-3 + delta * 2.0 } else if cyc { 0.01 + delta * 60.0 } else { 2e-3 + delta * 20.0 };

    for to_final in [false, true] {
        let rt = || if to_final { ReweightType::ReweightToFinal } else { ReweightType::ReweightToInitial };
        let side = if to_final { "final" } else { "initial" };
        let delta: f32 = *rng.pick(&[1.0 / 1024.0, 1e-6]);
        for removed in [false, true] {
            let op = format!("push_weights-{}{}", side, if removed { "-rm" } else { "" });
            let mut m = f.clone();
            let def = delta > 1e-4 && !removed && rng.bool();
            if ctx
                .guard_ok(&op, || if def { push_weights(&mut m, rt()) } else { push_weights_with_config(&mut m, rt(), PushWeightsConfig::new(delta, removed)) })
                .is_none()
            {
                continue;
            }
            let Some(g) = ext(ctx, &op, &m) else { continue };
            if removed && !total.is_zero() {
                let Some(mut e) = r.relation(3, 3, 20000) else { continue };
                for w in e.values_mut() {
                    *w = w.times(&total.inv());
                }
                if W::IDEMP {
                    cmp_given(ctx, &op, &e, &g, 3);
                } else {
                    cmp_approx(ctx, &op, &e, &g, tol(delta as f64));
                }
            } else {
                cmp_rel(ctx, &op, &r, &g, 3);
            }
            if is_trim {
                stochastic(ctx, &op, &g, to_final, removed, tol(delta as f64));
            }
            chk!(ctx, g.n() <= r.n() + 1, "states-added", "{}: {} states from {}", op, g.n(), r.n());
        }
        // arbitrary potentials
        {
            let op = format!("reweight-{}", side);
            let mut p: Vec<W> = (0..f.num_states()).map(|_| W::gen(&mut rng, WProfile::Normal)).collect();
            if rng.chance(1, 3) {
                for x in p.iter_mut() {
                    if rng.bool() {
                        *x = W::one();
                    }
                }
            }
            let mut m = f.clone();
            if ctx.guard_ok(&op, || reweight(&mut m, &p, rt())).is_some() {
                if let Some(g) = ext(ctx, &op, &m) {
                    cmp_rel(ctx, &op, &r, &g, 3);
                }
            }
        }
        // labels
        for _ in 0..2 {
            let mut ty = PushType::PUSH_LABELS;
            let wts = rng.bool();
            if wts {
                ty |= PushType::PUSH_WEIGHTS;
            }
            let rmw = wts && rng.chance(1, 3);
            if rmw {
                ty |= PushType::REMOVE_TOTAL_WEIGHT;
            }
            let rma = rng.chance(1, 3);
            if rma {
                ty |= PushType::REMOVE_COMMON_AFFIX;
            }
            if !wts && !W::IDEMP && r.is_cyclic() {
                continue;
            }
            let op = format!("push-labels{}-{}{}{}", if wts { "-weights" } else { "" }, side, if rmw { "-rm" } else { "" }, if rma { "-affix" } else { "" });
            let Some(m) = ctx.guard_ok(&op, || push_with_config::<W, _, V<W>>(&f, rt(), ty, PushConfig::new(delta))) else { continue };
            let Some(g) = ext(ctx, &op, &m) else { continue };
            let affix = if rma {
                if to_final {
                    // common suffix of all outputs: close with one final state
                    let mut z = t.clone();
                    let fin: Vec<usize> = (0..z.n()).filter(|q| z.is_fin(*q)).collect();
                    z.st.push(RSt { arcs: vec![], fin: None });
                    let k = z.n() - 1;
                    for q in fin {
                        let w = z.fin(q);
                        z.st[q].fin = None;
                        z.st[q].arcs.push(RArc { il: 0, ol: 0, w, to: k });
                    }
                    z.st[k].fin = Some(<W::R>::one());
                    common_affix(&z, true)[k].clone()
                } else {
                    t.start.map(|q| common_affix(&t, false)[q].clone()).unwrap_or_default()
                }
            } else {
                vec![]
            };
            if !affix.is_empty() {
                ctx.count("affix_removed");
            }
            if affix.len() > 3 {
                continue;
            }
            let Some(full) = r.relation(3, 3 + affix.len(), 20000) else { continue };
            let mut e: Rel<W::R> = Rel::new();
            for ((x, y), w) in full {
                let k = affix.len();
                if y.len() < k {
                    continue;
                }
                let y = if to_final { y[..y.len() - k].to_vec() } else { y[k..].to_vec() };
                e.insert((x, y), if rmw { w.times(&total.inv()) } else { w });
            }
            if !rmw || W::IDEMP {
                cmp_given(ctx, &op, &e, &g, 3);
            } else {
                cmp_approx(ctx, &op, &e, &g, tol(delta as f64));
            }
            if is_trim && !to_final {
                labels_pushed(ctx, &op, &g, rma);
            }
        }
        // weights only / nothing through the generic entry point
        if rng.chance(1, 4) {
            let ty = if rng.bool() { PushType::PUSH_WEIGHTS } else { PushType::empty() };
            let op = format!("push-{}-{}", if ty.is_empty() { "nothing" } else { "weights" }, side);
            if let Some(m) = ctx.guard_ok(&op, || push::<W, _, V<W>>(&f, rt(), ty)) {
                if let Some(g) = ext(ctx, &op, &m) {
                    if ty.is_empty() {
                        if let Err(e) = r.same_structure(&g) {
                            ctx.fail("push-nothing", e);
                        }
                    } else {
                        cmp_rel(ctx, &op, &r, &g, 3);
                        if is_trim {
                            stochastic(ctx, &op, &g, to_final, false, tol(1e-3));
                        }
                    }
                }
            }
        }
    }
    if let Some(g) = ext(ctx, "operand", &f) {
        if let Err(e) = r.same_structure(&g) {
            ctx.fail("operand-modified", e);
        }
    }
}

pub fn case(ctx: &mut Ctx) {
    with_w!(ctx, case_w, [TropicalWeight, LogWeight]);
}

fn main() {
    run(Prop {
        id: "C09",
        quick: 300_000,
        thorough: 8_000_000,
        rule: "random transducers (tropical, log), acyclic and cyclic, trim and untrim; weight pushing, label pushing and reweighting by arbitrary potentials, both directions, with and without removal of the total weight / common affix; the relation is compared on all string pairs of length <=3, each useful state's normalisation and remaining common output is measured. Non-trivial: >=2 useful transitions.",
        case,
        must: &["states_normalized", "transitions_label_pushed", "start_on_cycle", "affix_removed", "relations_compared:reweight-final"],
        assumptions: &["inputs whose path sums diverge are excluded", "normalisation of machines with useless states is not judged"],
        ..DEFAULT
    });
}
