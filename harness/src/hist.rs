//! Random edit histories applied in lock step to a library transducer and to a plain labelled graph.
use crate::driver::{last_panic, Ctx};
use crate::gen::*;
use crate::reffst::*;
use crate::refw::*;
use crate::rng::Rng;
use rustfst::fst_properties::FstProperties;
use rustfst::prelude::*;
use rustfst::NO_STATE_ID;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Copy)]
pub struct HistCfg {
    /// also use the low-level calls that are documented not to maintain the stored knowledge
    pub lowlevel: bool,
    pub ops: usize,
    pub alpha: u32,
    pub nmax: usize,
    pub wild: bool,
}

pub struct Slot<W: Wt> {
    pub f: VectorFst<W>,
    pub m: Spec<W>,
}

pub fn gen_w<W: Wt>(rng: &mut Rng, wild: bool) -> W {
    match rng.below(4) {
        0 => W::one(),
        1 if wild => W::zero(),
        2 if wild => W::gen(rng, WProfile::Wild),
        _ => W::gen(rng, WProfile::Normal),
    }
}

fn tr_of<W: Wt>(a: &SArc<W>) -> Tr<W> {
    Tr::new(a.il as Label, a.ol as Label, a.w.clone(), a.to as StateId)
}

fn del_states_model<W: Wt>(m: &mut Spec<W>, del: &[usize]) {
    let n = m.n();
    let mut map = vec![usize::MAX; n];
    let mut k = 0;
    for i in 0..n {
        if !del.contains(&i) {
            map[i] = k;
            k += 1;
        }
    }
    let (mut fin, mut arcs) = (vec![], vec![]);
    for i in 0..n {
        if map[i] != usize::MAX {
            fin.push(m.fin[i].clone());
            arcs.push(
                m.arcs[i]
                    .iter()
                    .filter(|a| map[a.to] != usize::MAX)
                    .map(|a| SArc { il: a.il, ol: a.ol, w: a.w.clone(), to: map[a.to] })
                    .collect::<Vec<_>>(),
            );
        }
    }
    m.start = m.start.and_then(|s| if map[s] == usize::MAX { None } else { Some(map[s]) });
    m.fin = fin;
    m.arcs = arcs;
}

fn arcs_same<W: Wt>(a: &[SArc<W>], b: &[Tr<W>]) -> bool {
    a.len() == b.len()
        && a.iter().zip(b).all(|(x, t)| {
            x.il == t.ilabel as u32 && x.ol == t.olabel as u32 && x.to == t.nextstate as usize && x.w.to_ref().same(&t.weight.to_ref())
        })
}

/// one random edit. Returns its description, or Err(kind, what) when the call itself answered wrongly.
pub fn step<W: Wt>(rng: &mut Rng, c: &HistCfg, s: &mut Slot<W>) -> Result<String, (String, String)> {
    let n = s.m.n();
    let lab = |rng: &mut Rng| -> u32 {
        if rng.chance(1, 4) {
            0
        } else {
            1 + rng.below(c.alpha as usize) as u32
        }
    };
    let bad = |op: &str, what: String| -> (String, String) { (format!("answer:{}", op), what) };
    let op = rng.below(if c.lowlevel { 30 } else { 26 });
    // an edit naming a state that does not exist
    if rng.chance(1, 25) {
        let b = if rng.chance(1, 4) { NO_STATE_ID } else { (n + rng.below(3)) as StateId };
        let k = rng.below(11);
        let mut w = W::gen(rng, WProfile::Normal);
        let r = catch_unwind(AssertUnwindSafe(|| match k {
            0 => ("set_start", s.f.set_start(b).is_err()),
            1 => ("set_final", s.f.set_final(b, w.clone()).is_err()),
            2 => ("tr_iter_mut", s.f.tr_iter_mut(b).is_err()),
            3 => ("del_state", s.f.del_state(b).is_err()),
            4 => {
                let mut v: Vec<StateId> = (0..n as StateId).filter(|x| x % 2 == 0).collect();
                v.push(b);
                if v.len() > 2 {
                    v.swap(0, 2);
                    let l = v.len();
                    v.swap(1, l - 1);
                }
                ("del_states", s.f.del_states(v).is_err())
            }
            5 => ("add_tr", s.f.add_tr(b, Tr::new(1, 1, w.clone(), 0)).is_err()),
            6 => ("emplace_tr", s.f.emplace_tr(b, 1, 1, w.clone(), 0).is_err()),
            7 => ("delete_final_weight", s.f.delete_final_weight(b).is_err()),
            8 => ("delete_trs", s.f.delete_trs(b).is_err()),
            9 => ("pop_trs", s.f.pop_trs(b).is_err()),
            _ => ("take_final_weight", s.f.take_final_weight(b).is_err()),
        }));
        let _ = &mut w;
        return match r {
            Ok((nm, true)) => Ok(format!("{}(bad {})", nm, b)),
            Ok((nm, false)) => Err((format!("accepted:{}", nm), format!("{} of state {} (of {}) was accepted", nm, b, n))),
            Err(_) => Err((format!("panic:bad-state-{}", k), format!("state {} of {}: {}", b, n, last_panic()))),
        };
    }
    if n == 0 || (n < c.nmax && op < 4) {
        if rng.chance(1, 4) {
            let k = rng.below(3);
            s.f.add_states(k);
            for _ in 0..k {
                s.m.fin.push(None);
                s.m.arcs.push(vec![]);
            }
            return Ok(format!("add_states({})", k));
        }
        let id = s.f.add_state();
        s.m.fin.push(None);
        s.m.arcs.push(vec![]);
        if id as usize != n {
            return Err(bad("add_state", format!("returned {} with {} states", id, n)));
        }
        return Ok("add_state".into());
    }
    let q = rng.below(n);
    let qs = q as StateId;
    let res = catch_unwind(AssertUnwindSafe(|| -> Result<String, (String, String)> {
        let er = |op: &'static str| move |e: anyhow::Error| -> (String, String) { (format!("error:{}", op), format!("{:?}", e)) };
        match op {
            0 | 1 | 4 => {
                if rng.chance(1, 4) {
                    unsafe { s.f.set_start_unchecked(qs) };
                } else {
                    s.f.set_start(qs).map_err(er("set_start"))?;
                }
                s.m.start = Some(q);
                Ok(format!("set_start({})", q))
            }
            2 | 5 => {
                let w: W = gen_w(rng, c.wild);
                if rng.chance(1, 4) {
                    unsafe { s.f.set_final_unchecked(qs, w.clone()) };
                } else {
                    s.f.set_final(qs, w.clone()).map_err(er("set_final"))?;
                }
                let d = format!("set_final({},{:?})", q, w);
                s.m.fin[q] = Some(w);
                Ok(d)
            }
            6 => {
                if rng.bool() {
                    s.f.delete_final_weight(qs).map_err(er("delete_final_weight"))?;
                } else {
                    unsafe { s.f.delete_final_weight_unchecked(qs) };
                }
                s.m.fin[q] = None;
                Ok(format!("delete_final_weight({})", q))
            }
            7 => {
                let g = if rng.bool() {
                    s.f.take_final_weight(qs).map_err(er("take_final_weight"))?
                } else {
                    unsafe { s.f.take_final_weight_unchecked(qs) }
                };
                let e = s.m.fin[q].take();
                let ok = match (&g, &e) {
                    (None, None) => true,
                    (Some(a), Some(b)) => a.to_ref().same(&b.to_ref()),
                    _ => false,
                };
                if !ok {
                    return Err(bad("take_final_weight", format!("{:?}, expected {:?}", g, e)));
                }
                Ok(format!("take_final_weight({})", q))
            }
            3 | 8..=13 => {
                let il = lab(rng);
                let ol = if rng.bool() { il } else { lab(rng) };
                let a = SArc { il, ol, w: gen_w::<W>(rng, c.wild), to: if rng.chance(1, 3) { (q + 1).min(n - 1) } else { rng.below(n) } };
                match rng.below(4) {
                    0 => s.f.emplace_tr(qs, a.il as Label, a.ol as Label, a.w.clone(), a.to as StateId).map_err(er("emplace_tr"))?,
                    1 => unsafe { s.f.add_tr_unchecked(qs, tr_of(&a)) },
                    2 => unsafe { s.f.emplace_tr_unchecked(qs, a.il as Label, a.ol as Label, a.w.clone(), a.to as StateId) },
                    _ => s.f.add_tr(qs, tr_of(&a)).map_err(er("add_tr"))?,
                }
                let d = format!("add_tr({},{}:{}/{:?}>{})", q, a.il, a.ol, a.w, a.to);
                s.m.arcs[q].push(a);
                Ok(d)
            }
            14 => {
                if rng.chance(1, 2) {
                    s.f.del_state(qs).map_err(er("del_state"))?;
                    del_states_model(&mut s.m, &[q]);
                    Ok(format!("del_state({})", q))
                } else {
                    let mut v: Vec<usize> = (0..rng.below(3)).map(|_| rng.below(n)).collect();
                    if rng.chance(1, 3) && !v.is_empty() {
                        let x = v[0];
                        v.push(x);
                    }
                    s.f.del_states(v.iter().map(|x| *x as StateId).collect::<Vec<_>>()).map_err(er("del_states"))?;
                    del_states_model(&mut s.m, &v);
                    Ok(format!("del_states({:?})", v))
                }
            }
            15 => {
                if rng.chance(1, 6) {
                    s.f.del_all_states();
                    s.m = Spec { start: None, fin: vec![], arcs: vec![] };
                    return Ok("del_all_states".into());
                }
                s.f.delete_trs(qs).map_err(er("delete_trs"))?;
                s.m.arcs[q].clear();
                Ok(format!("delete_trs({})", q))
            }
            16 => {
                let g = if rng.bool() { s.f.pop_trs(qs).map_err(er("pop_trs"))? } else { unsafe { s.f.pop_trs_unchecked(qs) } };
                let e = std::mem::take(&mut s.m.arcs[q]);
                if !arcs_same(&e, &g) {
                    return Err(bad("pop_trs", format!("{:?}, expected {:?}", g, e)));
                }
                Ok(format!("pop_trs({})", q))
            }
            17 => {
                let k = s.m.arcs[q].len();
                let del: Vec<usize> = (0..k).filter(|_| rng.chance(1, 2)).collect();
                unsafe { s.f.del_trs_id_sorted_unchecked(qs, &del) };
                let mut i = 0;
                s.m.arcs[q].retain(|_| {
                    i += 1;
                    !del.contains(&(i - 1))
                });
                Ok(format!("del_trs_id_sorted({},{:?})", q, del))
            }
            18..=23 => {
                let k = s.m.arcs[q].len();
                let mut d = format!("tr_iter_mut({}):", q);
                let un = rng.chance(1, 3);
                let mut it = if un { unsafe { s.f.tr_iter_unchecked_mut(qs) } } else { s.f.tr_iter_mut(qs).map_err(er("tr_iter_mut"))? };
                if it.len() != k || it.is_empty() != (k == 0) {
                    return Err(bad("tr_iter_mut", format!("len {} expected {}", it.len(), k)));
                }
                for _ in 0..rng.range(1, 3) {
                    // out of range
                    if rng.chance(1, 10) || k == 0 {
                        let i = k + rng.below(2);
                        let ok = match rng.below(5) {
                            0 => it.set_ilabel(i, 3).is_err(),
                            1 => it.set_olabel(i, 3).is_err(),
                            2 => it.set_weight(i, W::one()).is_err(),
                            3 => it.set_nextstate(i, 0).is_err(),
                            _ => it.set_tr(i, Tr::new(1, 1, W::one(), 0)).is_err(),
                        };
                        if !ok || it.get(i).is_some() {
                            return Err(bad("tr_iter_mut", format!("transition {} of {} accepted", i, k)));
                        }
                        continue;
                    }
                    let i = rng.below(k);
                    let a = &mut s.m.arcs[q][i];
                    let t = it.get(i).cloned();
                    if t.map(|t| !arcs_same(std::slice::from_ref(a), std::slice::from_ref(&t))).unwrap_or(true) {
                        return Err(bad("tr_iter_mut", format!("get({}) disagrees", i)));
                    }
                    match rng.below(if un { 6 } else { 5 }) {
                        0 => {
                            a.il = lab(rng);
                            if un {
                                unsafe { it.set_ilabel_unchecked(i, a.il as Label) }
                            } else {
                                it.set_ilabel(i, a.il as Label).map_err(er("set_ilabel"))?
                            }
                            d += &format!(" il{}={}", i, a.il);
                        }
                        1 => {
                            a.ol = lab(rng);
                            if un {
                                unsafe { it.set_olabel_unchecked(i, a.ol as Label) }
                            } else {
                                it.set_olabel(i, a.ol as Label).map_err(er("set_olabel"))?
                            }
                            d += &format!(" ol{}={}", i, a.ol);
                        }
                        2 => {
                            a.w = gen_w(rng, c.wild);
                            if un {
                                unsafe { it.set_weight_unchecked(i, a.w.clone()) }
                            } else {
                                it.set_weight(i, a.w.clone()).map_err(er("set_weight"))?
                            }
                            d += &format!(" w{}={:?}", i, a.w);
                        }
                        3 => {
                            a.to = rng.below(n);
                            if un {
                                unsafe { it.set_nextstate_unchecked(i, a.to as StateId) }
                            } else {
                                it.set_nextstate(i, a.to as StateId).map_err(er("set_nextstate"))?
                            }
                            d += &format!(" to{}={}", i, a.to);
                        }
                        4 => {
                            let il = lab(rng);
                            *a = SArc { il, ol: if rng.bool() { il } else { lab(rng) }, w: gen_w(rng, c.wild), to: rng.below(n) };
                            if un {
                                unsafe { it.set_tr_unchecked(i, tr_of(a)) }
                            } else {
                                it.set_tr(i, tr_of(a)).map_err(er("set_tr"))?
                            }
                            d += &format!(" tr{}={:?}", i, a);
                        }
                        _ => {
                            a.il = lab(rng);
                            a.ol = lab(rng);
                            unsafe { it.set_labels_unchecked(i, a.il as Label, a.ol as Label) }
                            d += &format!(" l{}={}:{}", i, a.il, a.ol);
                        }
                    }
                }
                Ok(d)
            }
            24 => {
                match rng.below(4) {
                    0 => s.f.reserve_states(rng.below(20)),
                    1 => s.f.reserve_trs(qs, rng.below(20)).map_err(er("reserve_trs"))?,
                    2 => s.f.shrink_to_fit(),
                    _ => s.f.shrink_to_fit_trs(qs).map_err(er("shrink_to_fit_trs"))?,
                }
                Ok("reserve/shrink".into())
            }
            25 => {
                let m = random_mask(rng);
                s.f.compute_and_update_properties(m).map_err(er("compute_and_update_properties"))?;
                Ok(format!("compute_and_update_properties({:?})", m))
            }
            26 => {
                let k = rng.below(5);
                let v: Vec<SArc<W>> = (0..k)
                    .map(|_| {
                        let il = lab(rng);
                        SArc { il, ol: lab(rng), w: gen_w(rng, c.wild), to: rng.below(n) }
                    })
                    .collect();
                unsafe { s.f.set_trs_unchecked(qs, v.iter().map(tr_of).collect()) };
                s.m.arcs[q] = v;
                Ok(format!("set_trs({},{})", q, k))
            }
            27 => {
                let byo = rng.bool();
                if byo {
                    s.f.sort_trs_unchecked(qs, |a, b| b.olabel.cmp(&a.olabel));
                    s.m.arcs[q].sort_by(|a, b| b.ol.cmp(&a.ol));
                } else {
                    s.f.sort_trs_unchecked(qs, |a, b| a.ilabel.cmp(&b.ilabel));
                    s.m.arcs[q].sort_by(|a, b| a.il.cmp(&b.il));
                }
                Ok(format!("sort_trs({},{})", q, byo))
            }
            28 => {
                // keeps one of each (labels, destination, weight)
                unsafe { s.f.unique_trs_unchecked(qs) };
                s.m.arcs[q].sort_by_key(|a| (a.il, a.ol, a.to));
                let mut o: Vec<SArc<W>> = vec![];
                for a in s.m.arcs[q].drain(..) {
                    if !o.iter().any(|b| a.il == b.il && a.ol == b.ol && a.to == b.to && a.w == b.w) {
                        o.push(a);
                    }
                }
                s.m.arcs[q] = o;
                adopt_order(s, q);
                Ok(format!("unique_trs({})", q))
            }
            _ => {
                unsafe { s.f.sum_trs_unchecked(qs) };
                s.m.arcs[q].sort_by_key(|a| (a.il, a.ol, a.to));
                let mut o: Vec<SArc<W>> = vec![];
                for a in s.m.arcs[q].drain(..) {
                    match o.last_mut() {
                        Some(l) if l.il == a.il && l.ol == a.ol && l.to == a.to => {
                            l.w = l.w.plus(&a.w).unwrap();
                        }
                        _ => o.push(a),
                    }
                }
                s.m.arcs[q] = o;
                adopt_order(s, q);
                Ok(format!("sum_trs({})", q))
            }
        }
    }));
    match res {
        Ok(r) => r,
        Err(_) => Err((format!("panic:op{}", op), last_panic())),
    }
}

/// The order in which merged transitions come out is the library's choice: when its list is a
/// permutation of the model's, the model follows it.
fn adopt_order<W: Wt>(s: &mut Slot<W>, q: usize) {
    let real = s.f.get_trs(q as StateId).unwrap();
    let mut left = s.m.arcs[q].clone();
    let mut o = vec![];
    for t in real.trs() {
        match left
            .iter()
            .position(|a| a.il == t.ilabel && a.ol == t.olabel && a.to == t.nextstate as usize && a.w == t.weight)
        {
            Some(i) => o.push(left.remove(i)),
            None => return,
        }
    }
    if left.is_empty() {
        s.m.arcs[q] = o;
    }
}

pub fn random_mask(rng: &mut Rng) -> FstProperties {
    match rng.below(4) {
        0 => FstProperties::all(),
        1 => {
            let (p, q) = *rng.pick(PAIRS);
            p | q
        }
        _ => {
            let mut m = FstProperties::empty();
            for (p, q) in PAIRS {
                if rng.chance(1, 3) {
                    m |= *p | *q;
                }
            }
            m
        }
    }
}

pub const PAIRS: &[(FstProperties, FstProperties)] = &[
    (FstProperties::ACCEPTOR, FstProperties::NOT_ACCEPTOR),
    (FstProperties::I_DETERMINISTIC, FstProperties::NOT_I_DETERMINISTIC),
    (FstProperties::O_DETERMINISTIC, FstProperties::NOT_O_DETERMINISTIC),
    (FstProperties::EPSILONS, FstProperties::NO_EPSILONS),
    (FstProperties::I_EPSILONS, FstProperties::NO_I_EPSILONS),
    (FstProperties::O_EPSILONS, FstProperties::NO_O_EPSILONS),
    (FstProperties::I_LABEL_SORTED, FstProperties::NOT_I_LABEL_SORTED),
    (FstProperties::O_LABEL_SORTED, FstProperties::NOT_O_LABEL_SORTED),
    (FstProperties::WEIGHTED, FstProperties::UNWEIGHTED),
    (FstProperties::CYCLIC, FstProperties::ACYCLIC),
    (FstProperties::INITIAL_CYCLIC, FstProperties::INITIAL_ACYCLIC),
    (FstProperties::TOP_SORTED, FstProperties::NOT_TOP_SORTED),
    (FstProperties::ACCESSIBLE, FstProperties::NOT_ACCESSIBLE),
    (FstProperties::COACCESSIBLE, FstProperties::NOT_COACCESSIBLE),
    (FstProperties::STRING, FstProperties::NOT_STRING),
    (FstProperties::WEIGHTED_CYCLES, FstProperties::UNWEIGHTED_CYCLES),
];

/// The truth value of the first member of each pair in PAIRS (None: not judged).
/// `wone`: how a weight relates to one; Some(true) = one, None = too close to call.
pub fn true_props<R: RefW>(f: &RFst<R>) -> Vec<Option<bool>> {
    let n = f.n();
    let arcs = || f.st.iter().enumerate().flat_map(|(i, s)| s.arcs.iter().map(move |a| (i, a)));
    let det = |input: bool| -> bool {
        f.st.iter().all(|s| {
            let mut v: Vec<u32> = s.arcs.iter().map(|a| if input { a.il } else { a.ol }).collect();
            let k = v.len();
            v.sort();
            v.dedup();
            v.len() == k
        })
    };
    let sorted = |input: bool| -> bool {
        f.st.iter().all(|s| {
            s.arcs.windows(2).all(|w| if input { w[0].il <= w[1].il } else { w[0].ol <= w[1].ol })
        })
    };
    // weight classes: Some(true) = neither zero nor one, None = near one but not exactly
    let proper = |w: &R| -> Option<bool> {
        if w.is_zero() {
            return Some(false);
        }
        if w.exactly(&R::one()) {
            return Some(false);
        }
        if w.same(&R::one()) || w.same(&R::zero()) {
            return None;
        }
        Some(true)
    };
    let any = |it: &mut dyn Iterator<Item = Option<bool>>| -> Option<bool> {
        let mut amb = false;
        for x in it {
            match x {
                Some(true) => return Some(true),
                None => amb = true,
                _ => {}
            }
        }
        if amb {
            None
        } else {
            Some(false)
        }
    };
    let weighted = {
        let mut it = arcs().map(|(_, a)| proper(&a.w)).chain(f.st.iter().filter_map(|s| s.fin.as_ref()).map(|w| proper(w)));
        any(&mut it)
    };
    let comp = f.scc();
    let cyc = arcs().any(|(i, a)| comp[i] == comp[a.to]);
    let wcyc = {
        let mut it = arcs().filter(|(i, a)| comp[*i] == comp[a.to]).map(|(_, a)| proper(&a.w));
        any(&mut it)
    };
    let init_cyc = match f.start {
        None => false,
        Some(s) => {
            // a path from s back to s
            arcs().any(|(i, a)| comp[i] == comp[s] && comp[a.to] == comp[s])
        }
    };
    let top = arcs().all(|(i, a)| a.to > i);
    let acc = f.accessible();
    let coacc = f.coaccessible();
    let allacc = acc.iter().all(|x| *x);
    let allcoacc = coacc.iter().all(|x| *x);
    // final states whose weight is zero: present, but never accepting
    let zero_final = f.st.iter().any(|s| s.fin.as_ref().map(|w| w.is_zero()).unwrap_or(false));
    let allcoacc_loose = {
        let mut g = f.clone();
        for s in g.st.iter_mut() {
            if s.fin.is_some() {
                s.fin = Some(R::one());
            }
        }
        g.coaccessible().iter().all(|x| *x)
    };
    let coacc_v = if zero_final && allcoacc != allcoacc_loose { None } else { Some(allcoacc) };
    // a linear string: states 0..n-1 in a chain, the last one the only final state
    let string = if zero_final || (n > 0 && f.start.is_none()) || n == 0 {
        None
    } else {
        let mut ok = f.start == Some(0);
        for i in 0..n {
            let last = i + 1 == n;
            if last {
                ok &= f.is_fin(i) && f.st[i].arcs.is_empty();
            } else {
                ok &= !f.is_fin(i) && f.st[i].arcs.len() == 1 && f.st[i].arcs[0].to == i + 1;
            }
        }
        Some(ok)
    };
    vec![
        Some(arcs().all(|(_, a)| a.il == a.ol)),
        Some(det(true)),
        Some(det(false)),
        Some(arcs().any(|(_, a)| a.il == 0 && a.ol == 0)),
        Some(arcs().any(|(_, a)| a.il == 0)),
        Some(arcs().any(|(_, a)| a.ol == 0)),
        Some(sorted(true)),
        Some(sorted(false)),
        weighted,
        Some(cyc),
        Some(init_cyc),
        Some(top),
        Some(allacc),
        coacc_v,
        string,
        wcyc,
    ]
}

/// Compares reported knowledge with the truth; None when every known bit is right.
pub fn check_props<R: RefW>(f: &RFst<R>, p: FstProperties) -> Result<usize, String> {
    let t = true_props(f);
    let mut known = 0;
    for (i, (pos, neg)) in PAIRS.iter().enumerate() {
        let (hp, hn) = (p.contains(*pos), p.contains(*neg));
        if hp && hn {
            return Err(format!("both {:?} and {:?} reported", pos, neg));
        }
        if hp || hn {
            known += 1;
        }
        match t[i] {
            Some(true) if hn => return Err(format!("{:?} reported but it is false", neg)),
            Some(false) if hp => return Err(format!("{:?} reported but it is false", pos)),
            _ => {}
        }
    }
    Ok(known)
}

/// Structure of every slot against its model.
pub fn check_slot<W: Wt>(ctx: &mut Ctx, s: &Slot<W>) -> bool {
    match extract::<W, _>(&s.f) {
        Err(e) => {
            ctx.fail("malformed", e);
            false
        }
        Ok(r) => match s.m.to_ref().same_structure(&r) {
            Ok(()) => true,
            Err(e) => {
                ctx.fail("model", e);
                false
            }
        },
    }
}
