//! Random transducers: a plain specification that is turned into library objects in varied ways.
use crate::refw::{WProfile, Wt};
use crate::reffst::{RArc, RFst, RSt};
use crate::rng::Rng;
use rustfst::prelude::*;

#[derive(Clone, Debug)]
pub struct SArc<W> {
    pub il: u32,
    pub ol: u32,
    pub w: W,
    pub to: usize,
}

#[derive(Clone, Debug)]
pub struct Spec<W> {
    pub start: Option<usize>,
    pub fin: Vec<Option<W>>,
    pub arcs: Vec<Vec<SArc<W>>>,
}

#[derive(Clone, Debug)]
pub struct GenCfg {
    pub nmin: usize,
    pub nmax: usize,
    pub alpha: u32,
    /// probability (percent) that an input / output label is epsilon
    pub eps_i: usize,
    pub eps_o: usize,
    pub acceptor: bool,
    pub acyclic: bool,
    /// at most one arc per input label per state (epsilon counts as a label)
    pub idet: bool,
    pub arcs_per_state: usize,
    pub prof: WProfile,
    pub p_nostart: usize,
    /// percent of states that are final
    pub p_final: usize,
    /// allow dead/unreachable states (otherwise the spec is trimmed)
    pub trim: bool,
    /// percent chance of adding a duplicate or near-duplicate of an existing arc
    pub p_dup: usize,
    /// no eps:eps cycle
    pub no_eps_cycle: bool,
    /// labels spread over the whole range
    pub big_labels: bool,
    /// most transitions leave one state
    pub hub: bool,
}

impl GenCfg {
    pub fn new() -> Self {
        GenCfg {
            nmin: 0,
            nmax: 6,
            alpha: 2,
            eps_i: 25,
            eps_o: 25,
            acceptor: false,
            acyclic: false,
            idet: false,
            arcs_per_state: 2,
            prof: WProfile::Normal,
            p_nostart: 2,
            p_final: 40,
            trim: false,
            p_dup: 20,
            no_eps_cycle: false,
            big_labels: false,
            hub: false,
        }
    }
}

/// Now and then asks for a machine that is long or wide rather than small; returns whether it did.
pub fn enlarge(rng: &mut Rng, c: &mut GenCfg, one_in: usize, nmax: usize) -> bool {
    if cfg!(miri) {
        return false;
    }
    c.big_labels = rng.chance(1, 12);
    if !rng.chance(1, one_in) {
        return false;
    }
    match rng.below(3) {
        0 => {
            // wide
            c.hub = true;
            c.alpha = *rng.pick(&[3, 20, 100]);
            c.arcs_per_state = *rng.pick(&[4, 10]);
            c.nmax = c.nmax.max(nmax / 3);
        }
        1 => {
            // long, nearly a chain
            c.nmin = nmax / 3;
            c.nmax = nmax;
            c.arcs_per_state = 1;
            c.alpha = *rng.pick(&[2, 20]);
        }
        _ => {
            c.nmin = nmax / 3;
            c.nmax = nmax;
            c.arcs_per_state = 2;
            c.alpha = *rng.pick(&[4, 20, 100]);
        }
    }
    true
}

/// An order-preserving spread of small labels over the whole label range.
pub fn spread(l: u32) -> u32 {
    match l {
        0..=1 => l,
        2 => 250,
        3..=9 => 65_530 + 3 * l,
        _ => 4_000_000_000 + l * 1000,
    }
}

impl<W: Wt> Spec<W> {
    pub fn n(&self) -> usize {
        self.fin.len()
    }
    pub fn narcs(&self) -> usize {
        self.arcs.iter().map(|a| a.len()).sum()
    }
    pub fn to_ref(&self) -> RFst<W::R> {
        RFst {
            start: self.start,
            st: (0..self.n())
                .map(|i| RSt {
                    fin: self.fin[i].as_ref().map(|w| w.to_ref()),
                    arcs: self.arcs[i]
                        .iter()
                        .map(|a| RArc {
                            il: a.il,
                            ol: a.ol,
                            w: a.w.to_ref(),
                            to: a.to,
                        })
                        .collect(),
                })
                .collect(),
        }
    }
    pub fn dump(&self) -> String {
        self.to_ref().dump()
    }
    pub fn sort(&mut self, by_output: bool) {
        for v in self.arcs.iter_mut() {
            if by_output {
                v.sort_by_key(|a| a.ol);
            } else {
                v.sort_by_key(|a| a.il);
            }
        }
    }
    /// plain construction
    pub fn build(&self) -> VectorFst<W> {
        let mut f = VectorFst::<W>::new();
        f.add_states(self.n());
        for i in 0..self.n() {
            for a in &self.arcs[i] {
                f.add_tr(
                    i as StateId,
                    Tr::new(a.il as Label, a.ol as Label, a.w.clone(), a.to as StateId),
                )
                .unwrap();
            }
            if let Some(w) = &self.fin[i] {
                f.set_final(i as StateId, w.clone()).unwrap();
            }
        }
        if let Some(s) = self.start {
            f.set_start(s as StateId).unwrap();
        }
        f
    }
    /// the same machine built through a random history of library calls (so that the stored
    /// knowledge about it varies)
    pub fn build_var(&self, rng: &mut Rng) -> VectorFst<W> {
        let mut f = match rng.below(4) {
            0 => {
                // start first, states one by one
                let mut f = VectorFst::<W>::new();
                for i in 0..self.n() {
                    f.add_state();
                    if self.start == Some(i) {
                        f.set_start(i as StateId).unwrap();
                    }
                }
                for i in (0..self.n()).rev() {
                    if let Some(w) = &self.fin[i] {
                        f.set_final(i as StateId, w.clone()).unwrap();
                    }
                    for a in &self.arcs[i] {
                        f.emplace_tr(
                            i as StateId,
                            a.il as Label,
                            a.ol as Label,
                            a.w.clone(),
                            a.to as StateId,
                        )
                        .unwrap();
                    }
                }
                f
            }
            1 => {
                // a detour through states that get deleted again
                let mut f = self.build();
                let k = f.add_state();
                if self.n() > 0 {
                    let t = rng.below(self.n()) as StateId;
                    f.add_tr(k, Tr::new(1, 2, W::one(), t)).unwrap();
                    f.add_tr(t, Tr::new(1, 1, W::one(), k)).unwrap();
                }
                f.set_final(k, W::one()).unwrap();
                if rng.bool() {
                    f.compute_and_update_properties_all().unwrap();
                }
                f.del_state(k).unwrap();
                f
            }
            _ => self.build(),
        };
        match rng.below(5) {
            0 | 1 => {
                f.compute_and_update_properties_all().unwrap();
            }
            2 => {
                f = f.clone();
            }
            _ => {}
        }
        f
    }
    pub fn hash(&self) -> u64 {
        crate::rng::hash_str(&self.dump())
    }
    pub fn is_trivial(&self) -> bool {
        let t = self.to_ref().trim();
        t.n() < 2 || t.narcs() < 2
    }
    /// keep only useful states
    pub fn trimmed(&self) -> Spec<W> {
        let r = self.to_ref();
        let (a, b) = (r.accessible(), r.coaccessible());
        let mut map = vec![usize::MAX; self.n()];
        let mut k = 0;
        for i in 0..self.n() {
            if a[i] && b[i] {
                map[i] = k;
                k += 1;
            }
        }
        let mut s = Spec {
            start: self
                .start
                .and_then(|s| if map[s] == usize::MAX { None } else { Some(map[s]) }),
            fin: vec![],
            arcs: vec![],
        };
        for i in 0..self.n() {
            if map[i] != usize::MAX {
                s.fin.push(self.fin[i].clone());
                s.arcs.push(
                    self.arcs[i]
                        .iter()
                        .filter(|x| map[x.to] != usize::MAX)
                        .map(|x| SArc {
                            il: x.il,
                            ol: x.ol,
                            w: x.w.clone(),
                            to: map[x.to],
                        })
                        .collect(),
                );
            }
        }
        s
    }
    /// renumber states: new id of state i is p[i]
    pub fn permuted(&self, p: &[usize]) -> Spec<W> {
        let n = self.n();
        let mut s = Spec {
            start: self.start.map(|x| p[x]),
            fin: vec![None; n],
            arcs: vec![vec![]; n],
        };
        for i in 0..n {
            s.fin[p[i]] = self.fin[i].clone();
            s.arcs[p[i]] = self.arcs[i]
                .iter()
                .map(|a| SArc {
                    il: a.il,
                    ol: a.ol,
                    w: a.w.clone(),
                    to: p[a.to],
                })
                .collect();
        }
        s
    }
}

pub fn gen_spec<W: Wt>(rng: &mut Rng, c: &GenCfg) -> Spec<W> {
    let mut small = c.clone();
    if cfg!(miri) {
        // the interpreter is slow: many small machines rather than few larger ones
        small.nmax = small.nmax.min(4).max(small.nmin);
        small.arcs_per_state = small.arcs_per_state.min(2);
    }
    let c = &small;
    let mut n = rng.range(c.nmin, c.nmax);
    if rng.chance(2, 3) {
        n = n.max(rng.range(c.nmin, c.nmax));
    }
    if n == 0 {
        return Spec {
            start: None,
            fin: vec![],
            arcs: vec![],
        };
    }
    let shape = rng.below(7);
    // "rank" order used for acyclic machines
    let mut arcs: Vec<Vec<SArc<W>>> = vec![vec![]; n];
    let mut m = 0;
    let target = if shape == 0 { n } else { rng.range(n.saturating_sub(1), n * c.arcs_per_state.max(1)) };
    let label = |rng: &mut Rng, eps: usize, alpha: u32| -> u32 {
        if rng.chance(eps, 100) {
            0
        } else {
            1 + rng.below(alpha as usize) as u32
        }
    };
    // usually a spanning tree from state 0, so that most states are reachable
    if rng.chance(3, 4) {
        for i in 1..n {
            let from = if rng.chance(1, 2) { i - 1 } else { rng.below(i) };
            let il = label(rng, c.eps_i, c.alpha);
            let ol = if c.acceptor { il } else { label(rng, c.eps_o, c.alpha) };
            if c.idet && arcs[from].iter().any(|a| a.il == il) {
                continue;
            }
            arcs[from].push(SArc {
                il,
                ol,
                w: W::gen(rng, c.prof),
                to: i,
            });
            m += 1;
        }
    }
    let target = target.max(m + rng.below(n + 1));
    let mut tries = 0;
    while m < target && tries < target * 6 + 10 {
        tries += 1;
        let from = match shape {
            0 | 1 => {
                if m < n {
                    m
                } else {
                    rng.below(n)
                }
            }
            _ if c.hub && rng.chance(4, 5) => (n - 1) / 2,
            _ => rng.below(n),
        };
        if rng.chance(c.p_dup, 100) && m > 0 && !c.idet {
            // duplicate some arc (possibly with another weight / label / target)
            let f = rng.below(n);
            if !arcs[f].is_empty() {
                let k = rng.below(arcs[f].len());
                let mut a = arcs[f][k].clone();
                match rng.below(4) {
                    0 => {}
                    1 => a.w = W::gen(rng, c.prof),
                    2 => {
                        if c.acyclic {
                            if f + 1 < n {
                                a.to = rng.range(f + 1, n - 1);
                            }
                        } else {
                            a.to = rng.below(n);
                        }
                    }
                    _ => {
                        let l = label(rng, c.eps_o, c.alpha);
                        if !c.acceptor {
                            a.ol = l;
                        }
                    }
                }
                arcs[f].push(a);
                m += 1;
                continue;
            }
        }
        let to = if c.acyclic {
            if from + 1 >= n {
                continue;
            }
            match shape {
                0 => from + 1,
                1 => {
                    if rng.bool() {
                        from + 1
                    } else {
                        rng.range(from + 1, n - 1)
                    }
                }
                2 => (from + 1 + rng.below(2)).min(n - 1),
                _ => rng.range(from + 1, n - 1),
            }
        } else {
            match shape {
                0 => (from + 1) % n,
                1 => {
                    if rng.chance(2, 3) {
                        (from + 1).min(n - 1)
                    } else {
                        rng.below(n)
                    }
                }
                2 => {
                    if rng.chance(1, 4) {
                        from
                    } else {
                        rng.below(n)
                    }
                }
                3 => {
                    if rng.chance(1, 4) {
                        0
                    } else {
                        rng.below(n)
                    }
                }
                _ => rng.below(n),
            }
        };
        let il = label(rng, c.eps_i, c.alpha);
        let ol = if c.acceptor {
            il
        } else if rng.chance(1, 5) && c.eps_o > 0 {
            il
        } else {
            label(rng, c.eps_o, c.alpha)
        };
        if c.idet && arcs[from].iter().any(|a| a.il == il) {
            continue;
        }
        arcs[from].push(SArc {
            il,
            ol,
            w: W::gen(rng, c.prof),
            to,
        });
        m += 1;
    }
    if c.no_eps_cycle {
        // drop eps:eps arcs that go backwards in the construction order
        for (i, v) in arcs.iter_mut().enumerate() {
            v.retain(|a| !(a.il == 0 && a.ol == 0 && a.to <= i));
        }
    }
    if c.big_labels {
        for a in arcs.iter_mut().flatten() {
            a.il = spread(a.il);
            a.ol = spread(a.ol);
        }
    }
    let mut fin: Vec<Option<W>> = vec![None; n];
    for f in fin.iter_mut() {
        if rng.chance(c.p_final, 100) {
            *f = Some(W::gen(rng, c.prof));
        }
    }
    if fin.iter().all(|f| f.is_none()) && !rng.chance(1, 12) {
        let k = if rng.bool() { n - 1 } else { rng.below(n) };
        fin[k] = Some(W::gen(rng, c.prof));
    }
    let start = if rng.chance(c.p_nostart, 100) {
        None
    } else if rng.chance(3, 4) {
        Some(0)
    } else {
        Some(rng.below(n))
    };
    let mut s = Spec { start, fin, arcs };
    // converging cycles for the summing semirings
    if !W::IDEMP && W::CYCLE_OK && c.prof != WProfile::Unweighted && c.prof != WProfile::Wild {
        for v in s.arcs.iter_mut() {
            let k = v.len();
            for a in v.iter_mut() {
                a.w = a.w.damp(k);
            }
        }
    }
    if c.trim {
        s = s.trimmed();
    }
    // hide the construction order
    if s.n() > 1 && rng.chance(1, 3) {
        let p = rng.perm(s.n());
        s = s.permuted(&p);
    }
    if rng.chance(1, 4) {
        s.sort(rng.bool());
    }
    s
}
