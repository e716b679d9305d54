//! Exploration of on-demand machines: random accessor walks, delay injection, observation logs and
//! a form of the machine that does not depend on how states are numbered.
use crate::chk;
use crate::driver::Ctx;
use crate::ops::V;
use crate::rng::{mix, Rng};
use rustfst::algorithms::compose::filter_states::{FilterState, IntegerFilterState};
use rustfst::algorithms::compose::ComposeStateTuple;
use rustfst::algorithms::lazy::*;
use rustfst::fst_properties::FstProperties;
use rustfst::fst_traits::{FstIterator, StateIterator};
use rustfst::prelude::*;
use std::cell::Cell;
use std::collections::{BTreeMap, HashMap};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex};

// ---- delay injection ----
pub static DELAY: AtomicU64 = AtomicU64::new(0);
pub static SEQ: AtomicU64 = AtomicU64::new(0);
thread_local! {
    pub static TR: Cell<u64> = Cell::new(1);
}
pub fn pause() {
    let d = DELAY.load(SeqCst);
    if d == 0 {
        return;
    }
    let x = TR.with(|c| {
        let v = mix(c.get().wrapping_add(0x9e37));
        c.set(v);
        v
    });
    match x % 16 {
        0..=2 => std::thread::yield_now(),
        3..=5 => {
            for _ in 0..(x >> 8) % (50 * d) {
                std::hint::spin_loop();
            }
        }
        6 if d > 2 => std::thread::sleep(std::time::Duration::from_micros((x >> 8) % 30)),
        _ => {}
    }
}

// ---- a cache that delays and watches what is put into the real one ----
#[derive(Debug, Default)]
pub struct Mon {
    pub trs: Mutex<HashMap<StateId, String>>,
    pub fin: Mutex<HashMap<StateId, String>>,
    pub start: Mutex<Option<String>>,
    pub bad: Mutex<Vec<String>>,
    pub again: AtomicU64,
}
#[derive(Debug, Default)]
pub struct MonCache<C> {
    pub inner: C,
    pub mon: Arc<Mon>,
}
impl Mon {
    fn put<K: std::hash::Hash + Eq + std::fmt::Debug>(&self, m: &Mutex<HashMap<K, String>>, k: K, v: String) {
        let mut m = m.lock().unwrap();
        if let Some(o) = m.get(&k) {
            self.again.fetch_add(1, SeqCst);
            if *o != v {
                self.bad.lock().unwrap().push(format!("state {:?} computed as {} and then as {}", k, o, v));
            }
        } else {
            m.insert(k, v);
        }
    }
}
impl<W: Semiring, C: FstCache<W>> FstCache<W> for MonCache<C> {
    fn get_start(&self) -> CacheStatus<Option<StateId>> {
        pause();
        self.inner.get_start()
    }
    fn insert_start(&self, id: Option<StateId>) {
        {
            let mut s = self.mon.start.lock().unwrap();
            let v = format!("{:?}", id);
            if s.as_ref().map_or(false, |o| *o != v) {
                self.mon.bad.lock().unwrap().push(format!("start {:?} then {}", s, v));
            }
            *s = Some(v);
        }
        pause();
        self.inner.insert_start(id)
    }
    fn get_trs(&self, id: StateId) -> CacheStatus<TrsVec<W>> {
        pause();
        let r = self.inner.get_trs(id);
        pause();
        r
    }
    fn insert_trs(&self, id: StateId, trs: TrsVec<W>) {
        self.mon.put(&self.mon.trs, id, format!("{:?}", trs.trs()));
        pause();
        self.inner.insert_trs(id, trs)
    }
    fn get_final_weight(&self, id: StateId) -> CacheStatus<Option<W>> {
        pause();
        let r = self.inner.get_final_weight(id);
        pause();
        r
    }
    fn insert_final_weight(&self, id: StateId, weight: Option<W>) {
        self.mon.put(&self.mon.fin, id, format!("{:?}", weight));
        pause();
        self.inner.insert_final_weight(id, weight)
    }
    fn num_known_states(&self) -> usize {
        self.inner.num_known_states()
    }
    fn compute_num_known_trs(&self) -> usize {
        self.inner.compute_num_known_trs()
    }
    fn num_trs(&self, id: StateId) -> Option<usize> {
        self.inner.num_trs(id)
    }
    fn num_input_epsilons(&self, id: StateId) -> Option<usize> {
        self.inner.num_input_epsilons(id)
    }
    fn num_output_epsilons(&self, id: StateId) -> Option<usize> {
        self.inner.num_output_epsilons(id)
    }
    fn len_trs(&self) -> usize {
        self.inner.len_trs()
    }
    fn len_final_weights(&self) -> usize {
        self.inner.len_final_weights()
    }
}

// ---- an operand that delays its answers ----
#[derive(Debug, Clone)]
pub struct Slow<W: Semiring>(pub V<W>);
impl<W: Semiring> CoreFst<W> for Slow<W> {
    type TRS = <V<W> as CoreFst<W>>::TRS;
    fn start(&self) -> Option<StateId> {
        pause();
        self.0.start()
    }
    fn final_weight(&self, s: StateId) -> anyhow::Result<Option<W>> {
        pause();
        self.0.final_weight(s)
    }
    unsafe fn final_weight_unchecked(&self, s: StateId) -> Option<W> {
        self.0.final_weight(s).unwrap()
    }
    fn num_trs(&self, s: StateId) -> anyhow::Result<usize> {
        self.0.num_trs(s)
    }
    unsafe fn num_trs_unchecked(&self, s: StateId) -> usize {
        self.0.num_trs(s).unwrap()
    }
    fn get_trs(&self, s: StateId) -> anyhow::Result<Self::TRS> {
        pause();
        self.0.get_trs(s)
    }
    unsafe fn get_trs_unchecked(&self, s: StateId) -> Self::TRS {
        pause();
        self.0.get_trs(s).unwrap()
    }
    fn properties(&self) -> FstProperties {
        self.0.properties()
    }
    fn num_input_epsilons(&self, s: StateId) -> anyhow::Result<usize> {
        self.0.num_input_epsilons(s)
    }
    fn num_output_epsilons(&self, s: StateId) -> anyhow::Result<usize> {
        self.0.num_output_epsilons(s)
    }
}
impl<'a, W: Semiring> StateIterator<'a> for Slow<W> {
    type Iter = <V<W> as StateIterator<'a>>::Iter;
    fn states_iter(&'a self) -> Self::Iter {
        self.0.states_iter()
    }
}
impl<'a, W: Semiring> FstIterator<'a, W> for Slow<W> {
    type FstIter = <V<W> as FstIterator<'a, W>>::FstIter;
    fn fst_iter(&'a self) -> Self::FstIter {
        self.0.fst_iter()
    }
}
impl<W: Semiring + 'static> Fst<W> for Slow<W> {
    fn input_symbols(&self) -> Option<&Arc<SymbolTable>> {
        self.0.input_symbols()
    }
    fn output_symbols(&self) -> Option<&Arc<SymbolTable>> {
        self.0.output_symbols()
    }
    fn set_input_symbols(&mut self, s: Arc<SymbolTable>) {
        self.0.set_input_symbols(s)
    }
    fn set_output_symbols(&mut self, s: Arc<SymbolTable>) {
        self.0.set_output_symbols(s)
    }
    fn take_input_symbols(&mut self) -> Option<Arc<SymbolTable>> {
        self.0.take_input_symbols()
    }
    fn take_output_symbols(&mut self) -> Option<Arc<SymbolTable>> {
        self.0.take_output_symbols()
    }
}

// ---- observations ----
#[derive(Clone, Debug, PartialEq)]
pub enum Val<W> {
    Start(Option<StateId>),
    Fin(Option<W>),
    Trs(Vec<(Label, Label, W, StateId)>),
    N(usize),
    Ni(usize),
    No(usize),
    IsFin(bool),
}
pub struct Obs<W> {
    pub seq: u64,
    pub state: StateId,
    pub val: Val<W>,
}
pub fn trs_of<W: Semiring, F: CoreFst<W>>(f: &F, s: StateId) -> Result<Vec<(Label, Label, W, StateId)>, String> {
    Ok(f.get_trs(s).map_err(|e| format!("get_trs({}): {:?}", s, e))?.trs().iter().map(|t| (t.ilabel, t.olabel, t.weight.clone(), t.nextstate)).collect())
}

/// A random walk over the machine's accessors. Only states already seen as a start or a destination are asked about.
pub fn explore<W: Semiring, F: CoreFst<W>>(f: &F, rng: &mut Rng, budget: usize) -> Result<Vec<Obs<W>>, String> {
    let mut log = vec![];
    let mut known: Vec<StateId> = vec![];
    let mut seen = std::collections::HashSet::new();
    let style = rng.below(4);
    for k in 0..budget {
        pause();
        let mut push = |state, val| log.push(Obs { seq: SEQ.fetch_add(1, SeqCst), state, val });
        if known.is_empty() || rng.chance(1, 15) {
            let s = f.start();
            push(0, Val::Start(s));
            match s {
                None => {
                    if k > 2 {
                        break;
                    }
                }
                Some(s) => {
                    if seen.insert(s) {
                        known.push(s);
                    }
                }
            }
            continue;
        }
        let i = match style {
            0 => known.len() - 1 - rng.below(known.len().min(2)),
            1 => k % known.len(),
            _ => rng.below(known.len()),
        };
        let s = known[i];
        let er = |n: &str, e: anyhow::Error| format!("{}({}): {:?}", n, s, e);
        match rng.below(if style == 3 { 6 } else { 12 }) {
            0 => push(s, Val::Fin(f.final_weight(s).map_err(|e| er("final_weight", e))?)),
            1 => push(s, Val::N(f.num_trs(s).map_err(|e| er("num_trs", e))?)),
            2 => push(s, Val::Ni(f.num_input_epsilons(s).map_err(|e| er("num_input_epsilons", e))?)),
            3 => push(s, Val::No(f.num_output_epsilons(s).map_err(|e| er("num_output_epsilons", e))?)),
            4 => match rng.below(3) {
                0 => push(s, Val::IsFin(f.is_final(s).map_err(|e| er("is_final", e))?)),
                1 => push(s, Val::N(unsafe { f.num_trs_unchecked(s) })),
                _ => push(s, Val::Fin(unsafe { f.final_weight_unchecked(s) })),
            },
            _ => {
                let t = if rng.chance(1, 4) {
                    unsafe { f.get_trs_unchecked(s) }.trs().iter().map(|t| (t.ilabel, t.olabel, t.weight.clone(), t.nextstate)).collect()
                } else {
                    trs_of(f, s)?
                };
                for x in &t {
                    if seen.insert(x.3) {
                        known.push(x.3);
                    }
                }
                push(s, Val::Trs(t));
            }
        }
    }
    Ok(log)
}

/// The first `cap` states in breadth-first order, numbered by discovery: the same for every numbering of the states.
pub type Canon<W> = Vec<(Option<W>, Vec<(Label, Label, W, usize)>)>;
pub fn canon<W: Semiring, F: CoreFst<W>>(f: &F, cap: usize) -> Result<(Canon<W>, Vec<StateId>, bool), String> {
    let mut order = vec![];
    let mut ids: HashMap<StateId, usize> = HashMap::new();
    if let Some(s) = f.start() {
        order.push(s);
        ids.insert(s, 0);
    }
    let mut out = vec![];
    let mut i = 0;
    while i < order.len() && i < cap {
        let s = order[i];
        let mut v = vec![];
        for t in trs_of(f, s)? {
            let n = order.len();
            let to = *ids.entry(t.3).or_insert(n);
            if to == n {
                order.push(t.3);
            }
            v.push((t.0, t.1, t.2, to));
        }
        out.push((f.final_weight(s).map_err(|e| format!("{:?}", e))?, v));
        i += 1;
    }
    let whole = i == order.len();
    Ok((out, order, whole))
}

pub fn judge<W: Semiring, F: CoreFst<W>>(f: &F, logs: &[Vec<Obs<W>>]) -> Result<usize, String> {
    let mut n = 0;
    for (t, l) in logs.iter().enumerate() {
        for o in l {
            let s = o.state;
            let ok = match &o.val {
                Val::Start(x) => *x == f.start(),
                Val::Fin(x) => *x == f.final_weight(s).unwrap(),
                Val::IsFin(x) => *x == f.is_final(s).unwrap(),
                Val::Trs(x) => *x == trs_of(f, s)?,
                Val::N(x) => *x == f.get_trs(s).unwrap().len() && *x == f.num_trs(s).unwrap(),
                Val::Ni(x) => *x == f.get_trs(s).unwrap().trs().iter().filter(|t| t.ilabel == 0).count() && *x == f.num_input_epsilons(s).unwrap(),
                Val::No(x) => *x == f.get_trs(s).unwrap().trs().iter().filter(|t| t.olabel == 0).count() && *x == f.num_output_epsilons(s).unwrap(),
            };
            if !ok {
                return Err(format!("thread {} saw state {} as {:?} (event {}), later trs={:?} final={:?} counts={:?}", t, s, o.val, o.seq, trs_of(f, s), f.final_weight(s).ok(), (f.num_trs(s).ok(), f.num_input_epsilons(s).ok(), f.num_output_epsilons(s).ok())));
            }
            n += 1;
        }
    }
    Ok(n)
}


type Tuple = ComposeStateTuple<IntegerFilterState>;

/// A destination that lets the others run in the middle of a save.
struct Lazy(Vec<u8>, u64, usize);
impl std::io::Write for Lazy {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.0.extend_from_slice(b);
        self.1 = mix(self.1);
        if self.1 % self.2 as u64 == 0 {
            std::thread::yield_now();
            for _ in 0..self.1 % 500 {
                std::hint::spin_loop();
            }
        }
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

/// A state table numbered by several threads, and saved meanwhile.
pub fn state_tables(ctx: &mut Ctx) {
    let mut rng = ctx.rng.fork();
    let (most, long) = if cfg!(miri) { (12, 12) } else { (120, 150) };
    let n = rng.range(5, most) as u32;
    let nth = rng.range(2, 3);
    let per = rng.range(10, long);
    let seed = rng.next();
    let every = *rng.pick(&[1usize, 3, 10]);
    ctx.input = format!("state table: {} threads, {} requests each over {} tuples, seed {}", nth, per, n, seed);
    ctx.distinct(mix(seed));
    let tuple = |k: u32| Tuple { fs: IntegerFilterState::new(k % 3), s1: k / 3, s2: k % 7 };
    let t: StateTable<Tuple> = StateTable::new();
    let mut before = vec![];
    for _ in 0..rng.below(10) {
        let k = rng.below(n as usize) as u32;
        before.push((k, t.find_id(tuple(k))));
    }
    let mut seen: Vec<(u32, StateId)> = vec![];
    let go = std::sync::atomic::AtomicUsize::new(0);
    let saved = ctx.guard("state-table", || {
        std::thread::scope(|sc| {
            let (t, go, tuple) = (&t, &go, &tuple);
            let hs: Vec<_> = (0..nth as u64)
                .map(|h| {
                    sc.spawn(move || {
                        go.fetch_add(1, SeqCst);
                        let mut r = Rng::new(mix(seed ^ (h + 1)));
                        // the same requests in nearly the same order, so that they collide
                        let mut common = Rng::new(seed);
                        let mut v = vec![];
                        for _ in 0..per {
                            let k = if r.chance(3, 4) { common.below(n as usize) } else { r.below(n as usize) } as u32;
                            let id = if r.bool() { t.find_id(tuple(k)) } else { t.find_id_from_ref(&tuple(k)) };
                            v.push((k, id));
                            if r.chance(1, 6) {
                                std::thread::yield_now();
                            }
                        }
                        v
                    })
                })
                .collect();
            while go.load(SeqCst) == 0 {
                std::thread::yield_now();
            }
            let mut w = Lazy(vec![], seed, every);
            let r = t.write_binary(&mut w);
            for h in hs {
                seen.extend(h.join().unwrap());
            }
            r.map(|_| w.0)
        })
    });
    let Some(Ok(bytes)) = saved else {
        return ctx.fail("save:state-table", "could not be saved");
    };
    seen.extend(before.iter().cloned());
    // one number per tuple, numbers without holes
    let mut by: BTreeMap<u32, StateId> = BTreeMap::new();
    for (k, id) in &seen {
        let e = *by.entry(*k).or_insert(*id);
        chk!(ctx, e == *id, "numbered-twice", "tuple {} got the numbers {} and {}", k, e, id);
        let back = ctx.guard("find_tuple", || t.find_tuple(*id));
        chk!(ctx, back == Some(tuple(*k)), "find_tuple", "number {} of tuple {} names {:?}", id, k, back);
    }
    let mut ids: Vec<StateId> = by.values().cloned().collect();
    ids.sort_unstable();
    chk!(ctx, ids.iter().enumerate().all(|(i, x)| i == *x as usize), "holes", "numbers {:?}", ids);
    // what was saved is a state of the table at some moment: a prefix of the numbering, both ways
    match ctx.guard("load:state-table", || StateTable::<Tuple>::parse_binary(&bytes).map(|(rest, t)| (rest.len(), t)).map_err(|e| format!("{:?}", e))) {
        None => {}
        Some(Err(e)) => ctx.fail("load:state-table", e),
        Some(Ok((rest, l))) => {
            chk!(ctx, rest == 0, "load:rest", "{} bytes left", rest);
            for (k, id) in &before {
                let r = ctx.guard("load:find", || (l.find_id(tuple(*k)), l.find_tuple(*id)));
                chk!(ctx, r == Some((*id, tuple(*k))), "saved-lost", "tuple {} had number {} before the save, loaded {:?}", k, id, r);
            }
            // numbering goes on where it was: known tuples keep their numbers, each new one gets the next
            let mut order: Vec<(StateId, u32)> = by.iter().map(|(k, id)| (*id, *k)).collect();
            order.sort_unstable();
            for (id, k) in order {
                let r = ctx.guard("load:find", || l.find_id(tuple(k)));
                let b = r.and_then(|r| ctx.guard("load:find", || l.find_tuple(r)));
                chk!(ctx, r == Some(id) && b == Some(tuple(k)), "resumed-numbering", "tuple {} has number {} and in the resumed table {:?}, which names {:?}", k, id, r, b);
                if ctx.failed() {
                    break;
                }
            }
            ctx.count("state_tables_saved_meanwhile");
        }
    }
}

