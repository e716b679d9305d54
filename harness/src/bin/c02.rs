//! C02: edit histories against a plain labelled graph.
use fstmon::driver::*;
use fstmon::gen::*;
use fstmon::hist::*;
use fstmon::refw::*;
use fstmon::with_w;
use rustfst::prelude::*;

fn case_w<W: Wt>(ctx: &mut Ctx) {
    let big = ctx.rng.chance(1, 20);
    let c = HistCfg {
        lowlevel: ctx.rng.bool(),
        ops: if big { 150 } else { ctx.rng.range(5, 45) },
        alpha: if big { 6 } else { 2 },
        nmax: if big { 25 } else { ctx.rng.range(2, 7) },
        wild: ctx.rng.bool(),
    };
    let mut slots: Vec<Slot<W>> = vec![];
    let g = GenCfg { nmax: 6, p_nostart: 10, prof: if c.wild { WProfile::Wild } else { WProfile::Normal }, ..GenCfg::new() };
    let m: Spec<W> = if ctx.rng.bool() { gen_spec(&mut ctx.rng, &g) } else { Spec { start: None, fin: vec![], arcs: vec![] } };
    let f = m.build();
    let mut log = format!("{} from {}: ", W::NAME, m.dump());
    slots.push(Slot { f, m });
    for _ in 0..c.ops {
        let k = ctx.rng.below(slots.len());
        let mut rng = ctx.rng.fork();
        if rng.chance(1, 15) {
            // copy, drop, exchange
            match rng.below(4) {
                0 | 1 if slots.len() < 4 => {
                    let s = Slot { f: slots[k].f.clone(), m: slots[k].m.clone() };
                    slots.push(s);
                    log += &format!("{}=clone {}; ", slots.len() - 1, k);
                }
                2 if slots.len() > 1 => {
                    slots.swap_remove(k);
                    log += &format!("drop {}; ", k);
                }
                _ => {
                    // a transition list read earlier must not change under the reader
                    let n = slots[k].m.n();
                    if n > 0 {
                        let q = rng.below(n);
                        let held = slots[k].f.get_trs(q as StateId).unwrap();
                        let before: Vec<Tr<W>> = held.trs().to_vec();
                        if let Ok(d) = step(&mut rng, &c, &mut slots[k]) {
                            log += &format!("{}.{} (list of {} held); ", k, d, q);
                        }
                        let same = before.len() == held.trs().len()
                            && before.iter().zip(held.trs()).all(|(a, b)| a.ilabel == b.ilabel && a.olabel == b.olabel && a.nextstate == b.nextstate && a.weight == b.weight);
                        ctx.count("held_lists_checked");
                        if !same {
                            ctx.input = log.clone();
                            ctx.fail("held-list-changed", format!("state {}", q));
                            return;
                        }
                    }
                }
            }
        } else {
            match step(&mut rng, &c, &mut slots[k]) {
                Ok(d) => {
                    let nm: String = d.chars().take_while(|c| *c != '(' && *c != ':').collect();
                    ctx.count(&format!("edit:{}", nm));
                    log += &format!("{}.{}; ", k, d);
                }
                Err((kind, what)) => {
                    ctx.input = log.clone();
                    ctx.fail(&kind, what);
                    return;
                }
            }
        }
        for s in &slots {
            ctx.count("states_compared");
            if !check_slot(ctx, s) {
                if let Some(_) = Some(()) {
                    ctx.input = log.clone();
                    let m = log.clone();
                    ctx.fail("history", m);
                }
                return;
            }
        }
    }
    for s in &slots {
        if !s.m.is_trivial() {
            ctx.distinct(s.m.hash());
        }
    }
    ctx.sample(|| log);
}

pub fn case(ctx: &mut Ctx) {
    with_w!(ctx, case_w, [TropicalWeight, LogWeight, ProbabilityWeight, BooleanWeight, IntegerWeight]);
}

fn main() {
    run(Prop {
        id: "C02",
        quick: 900_000,
        thorough: 3_000_000,
        rule: "random edit histories (5-150 edits) over several machines and their clones; after every edit each machine is read through all accessors and compared with a plain labelled graph that underwent the same edits. Non-trivial: the final graph has >=2 useful states and >=2 useful transitions.",
        case,
        must: &["edit:add_tr", "edit:del_states", "edit:tr_iter_mut", "edit:pop_trs", "edit:del_trs_id_sorted", "edit:sum_trs", "edit:unique_trs", "held_lists_checked"],
        assumptions: &["an added transition's destination is chosen among the existing states (the library does not check it)", "unchecked calls are only made with valid arguments"],
        ..DEFAULT
    });
}
