//! Reference transducers and the weighted-relation oracle.
//! Everything is computed from the raw states/transitions with the reference algebra of `refw`.
use crate::refw::{RefW, Wt};
use crate::rng::Rng;
use rustfst::prelude::*;
use std::collections::{BTreeMap, HashMap};

#[derive(Clone, Debug)]
pub struct RArc<R> {
    pub il: u32,
    pub ol: u32,
    pub w: R,
    pub to: usize,
}
#[derive(Clone, Debug)]
pub struct RSt<R> {
    pub fin: Option<R>,
    pub arcs: Vec<RArc<R>>,
}
#[derive(Clone, Debug)]
pub struct RFst<R> {
    pub start: Option<usize>,
    pub st: Vec<RSt<R>>,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum RelErr {
    Diverge,
    Cap,
}
pub type Str = Vec<u32>;
pub type Rel<R> = BTreeMap<(Str, Str), R>;

/// Reads a stored transducer through every accessor and checks that they agree with each other.
pub fn extract<W: Wt, F: ExpandedFst<W>>(f: &F) -> Result<RFst<W::R>, String> {
    let n = f.num_states();
    let start = f.start();
    if let Some(s) = start {
        if s as usize >= n {
            return Err(format!("start {} out of range ({} states)", s, n));
        }
    }
    let ids: Vec<StateId> = f.states_iter().collect();
    if ids.len() != n || ids.iter().enumerate().any(|(i, s)| i != *s as usize) {
        return Err(format!("states_iter yields {:?} for {} states", ids, n));
    }
    if f.states_range() != (0..n as StateId) {
        return Err("states_range disagrees with num_states".to_string());
    }
    let mut st = Vec::with_capacity(n);
    for s in 0..n {
        let sid = s as StateId;
        let trs = f
            .get_trs(sid)
            .map_err(|e| format!("get_trs({}) failed: {}", s, e))?;
        let mut arcs = Vec::with_capacity(trs.trs().len());
        let (mut ni, mut no) = (0, 0);
        for t in trs.trs() {
            if t.nextstate as usize >= n {
                return Err(format!(
                    "transition {}->{} leaves the machine ({} states)",
                    s, t.nextstate, n
                ));
            }
            ni += (t.ilabel == 0) as usize;
            no += (t.olabel == 0) as usize;
            arcs.push(RArc {
                il: t.ilabel as u32,
                ol: t.olabel as u32,
                w: t.weight.to_ref(),
                to: t.nextstate as usize,
            });
        }
        let nt = f.num_trs(sid).map_err(|e| e.to_string())?;
        if nt != arcs.len() {
            return Err(format!("num_trs({})={} but {} transitions", s, nt, arcs.len()));
        }
        let fw = f.final_weight(sid).map_err(|e| e.to_string())?;
        let fin = fw.as_ref().map(|w| w.to_ref());
        let isf = f.is_final(sid).map_err(|e| e.to_string())?;
        let exp = fin.as_ref().map(|w| !w.is_zero()).unwrap_or(false);
        if isf != exp {
            return Err(format!("is_final({})={} but final weight {:?}", s, isf, fin));
        }
        let (gi, go) = (
            f.num_input_epsilons(sid).map_err(|e| e.to_string())?,
            f.num_output_epsilons(sid).map_err(|e| e.to_string())?,
        );
        if gi != ni || go != no {
            return Err(format!(
                "state {}: epsilon counts reported ({},{}) actual ({},{})",
                s, gi, go, ni, no
            ));
        }
        st.push(RSt { fin, arcs });
    }
    Ok(RFst {
        start: start.map(|s| s as usize),
        st,
    })
}

/// Explores an on-demand machine from its start (breadth first) and renumbers in discovery order.
/// Returns the machine and the original state ids.
pub fn extract_lazy<W: Wt, F: CoreFst<W>>(
    f: &F,
    cap: usize,
) -> Result<Option<(RFst<W::R>, Vec<StateId>)>, String> {
    let start = match f.start() {
        None => {
            return Ok(Some((
                RFst {
                    start: None,
                    st: vec![],
                },
                vec![],
            )))
        }
        Some(s) => s,
    };
    let mut ids: HashMap<StateId, usize> = HashMap::new();
    let mut order = vec![start];
    ids.insert(start, 0);
    let mut st = vec![];
    let mut i = 0;
    while i < order.len() {
        if order.len() > cap {
            return Ok(None);
        }
        let sid = order[i];
        let trs = f
            .get_trs(sid)
            .map_err(|e| format!("get_trs({}) failed: {:?}", sid, e))?;
        let mut arcs = vec![];
        let (mut ni, mut no) = (0, 0);
        for t in trs.trs() {
            let l = order.len();
            let to = *ids.entry(t.nextstate).or_insert(l);
            if to == l {
                order.push(t.nextstate);
            }
            ni += (t.ilabel == 0) as usize;
            no += (t.olabel == 0) as usize;
            arcs.push(RArc {
                il: t.ilabel as u32,
                ol: t.olabel as u32,
                w: t.weight.to_ref(),
                to,
            });
        }
        let fin = f
            .final_weight(sid)
            .map_err(|e| format!("final_weight({}) failed: {:?}", sid, e))?
            .map(|w| w.to_ref());
        let nt = f.num_trs(sid).map_err(|e| e.to_string())?;
        if nt != arcs.len() {
            return Err(format!("lazy num_trs({})={} but {} transitions", sid, nt, arcs.len()));
        }
        let (gi, go) = (
            f.num_input_epsilons(sid).map_err(|e| e.to_string())?,
            f.num_output_epsilons(sid).map_err(|e| e.to_string())?,
        );
        if gi != ni || go != no {
            return Err(format!(
                "lazy state {}: epsilon counts reported ({},{}) actual ({},{})",
                sid, gi, go, ni, no
            ));
        }
        st.push(RSt { fin, arcs });
        i += 1;
    }
    Ok(Some((RFst { start: Some(0), st }, order)))
}

impl<R: RefW> RFst<R> {
    pub fn empty() -> Self {
        RFst {
            start: None,
            st: vec![],
        }
    }
    pub fn n(&self) -> usize {
        self.st.len()
    }
    pub fn narcs(&self) -> usize {
        self.st.iter().map(|s| s.arcs.len()).sum()
    }
    pub fn dump(&self) -> String {
        let mut o = format!("start={:?};", self.start);
        for (i, s) in self.st.iter().enumerate() {
            o += &format!(" {}", i);
            if let Some(f) = &s.fin {
                o += &format!("/{:?}", f);
            }
            o += ":[";
            for a in &s.arcs {
                o += &format!("{}:{}/{:?}>{} ", a.il, a.ol, a.w, a.to);
            }
            o += "]";
        }
        o
    }
    pub fn fin(&self, s: usize) -> R {
        self.st[s].fin.clone().unwrap_or_else(R::zero)
    }
    pub fn is_fin(&self, s: usize) -> bool {
        self.st[s].fin.as_ref().map(|w| !w.is_zero()).unwrap_or(false)
    }
    /// states reachable from the start (zero-weight transitions count as edges)
    pub fn accessible(&self) -> Vec<bool> {
        let mut v = vec![false; self.n()];
        let mut stack = vec![];
        if let Some(s) = self.start {
            v[s] = true;
            stack.push(s);
        }
        while let Some(s) = stack.pop() {
            for a in &self.st[s].arcs {
                if !v[a.to] {
                    v[a.to] = true;
                    stack.push(a.to);
                }
            }
        }
        v
    }
    /// states from which a state satisfying `fin` is reachable
    pub fn coaccessible(&self) -> Vec<bool> {
        let n = self.n();
        let mut pred = vec![vec![]; n];
        for (i, s) in self.st.iter().enumerate() {
            for a in &s.arcs {
                pred[a.to].push(i);
            }
        }
        let mut v = vec![false; n];
        let mut stack: Vec<usize> = (0..n).filter(|s| self.is_fin(*s)).collect();
        for s in &stack {
            v[*s] = true;
        }
        while let Some(s) = stack.pop() {
            for p in &pred[s] {
                if !v[*p] {
                    v[*p] = true;
                    stack.push(*p);
                }
            }
        }
        v
    }
    /// trimmed copy without zero-weight transitions or zero final weights
    pub fn trim(&self) -> RFst<R> {
        let mut c = self.clone();
        for s in c.st.iter_mut() {
            s.arcs.retain(|a| !a.w.is_zero());
            if s.fin.as_ref().map(|w| w.is_zero()).unwrap_or(false) {
                s.fin = None;
            }
        }
        c.trim_struct()
    }
    /// trimmed copy, keeping state order
    pub fn trim_struct(&self) -> RFst<R> {
        let a = self.accessible();
        let b = self.coaccessible();
        let keep: Vec<bool> = (0..self.n()).map(|i| a[i] && b[i]).collect();
        self.restrict(&keep)
    }
    pub fn restrict(&self, keep: &[bool]) -> RFst<R> {
        let mut map = vec![usize::MAX; self.n()];
        let mut k = 0;
        for i in 0..self.n() {
            if keep[i] {
                map[i] = k;
                k += 1;
            }
        }
        let mut st = vec![];
        for i in 0..self.n() {
            if keep[i] {
                let mut s = self.st[i].clone();
                s.arcs.retain(|a| keep[a.to]);
                for a in s.arcs.iter_mut() {
                    a.to = map[a.to];
                }
                st.push(s);
            }
        }
        RFst {
            start: self.start.and_then(|s| if keep[s] { Some(map[s]) } else { None }),
            st,
        }
    }
    pub fn num_eps_free(&self) -> bool {
        self.st.iter().all(|s| s.arcs.iter().all(|a| a.il != 0 || a.ol != 0))
    }
    /// strongly connected components (component id per state)
    pub fn scc(&self) -> Vec<usize> {
        // Kosaraju, iterative
        let n = self.n();
        let mut order = vec![];
        let mut seen = vec![false; n];
        for r in 0..n {
            if seen[r] {
                continue;
            }
            seen[r] = true;
            let mut stack = vec![(r, 0usize)];
            while let Some((s, i)) = stack.pop() {
                if i < self.st[s].arcs.len() {
                    stack.push((s, i + 1));
                    let t = self.st[s].arcs[i].to;
                    if !seen[t] {
                        seen[t] = true;
                        stack.push((t, 0));
                    }
                } else {
                    order.push(s);
                }
            }
        }
        let mut pred = vec![vec![]; n];
        for (i, s) in self.st.iter().enumerate() {
            for a in &s.arcs {
                pred[a.to].push(i);
            }
        }
        let mut comp = vec![usize::MAX; n];
        let mut c = 0;
        for r in order.into_iter().rev() {
            if comp[r] != usize::MAX {
                continue;
            }
            let mut stack = vec![r];
            comp[r] = c;
            while let Some(s) = stack.pop() {
                for p in &pred[s] {
                    if comp[*p] == usize::MAX {
                        comp[*p] = c;
                        stack.push(*p);
                    }
                }
            }
            c += 1;
        }
        comp
    }
    pub fn is_cyclic(&self) -> bool {
        let c = self.scc();
        self.st
            .iter()
            .enumerate()
            .any(|(i, s)| s.arcs.iter().any(|a| c[i] == c[a.to]))
    }
    pub fn labels(&self, input: bool) -> Vec<u32> {
        let mut v: Vec<u32> = self
            .st
            .iter()
            .flat_map(|s| s.arcs.iter().map(|a| if input { a.il } else { a.ol }))
            .filter(|l| *l != 0)
            .collect();
        v.sort();
        v.dedup();
        v
    }

    /// closure of the eps:eps transitions. None if it diverges.
    fn eps_closure(&self) -> Option<EpsClosure<R>> {
        let n = self.n();
        let mut idx = vec![usize::MAX; n];
        let mut members = vec![];
        let touch = |s: usize, idx: &mut Vec<usize>, members: &mut Vec<usize>| {
            if idx[s] == usize::MAX {
                idx[s] = members.len();
                members.push(s);
            }
        };
        for (i, s) in self.st.iter().enumerate() {
            for a in &s.arcs {
                if a.il == 0 && a.ol == 0 {
                    touch(i, &mut idx, &mut members);
                    touch(a.to, &mut idx, &mut members);
                }
            }
        }
        let m = members.len();
        let mut mat: Vec<Vec<R>> = vec![vec![R::zero(); m]; m];
        for (i, s) in self.st.iter().enumerate() {
            for a in &s.arcs {
                if a.il == 0 && a.ol == 0 {
                    let (p, q) = (idx[i], idx[a.to]);
                    mat[p][q] = mat[p][q].plus(&a.w);
                }
            }
        }
        if !star_matrix(&mut mat) {
            return None;
        }
        let sparse = mat
            .into_iter()
            .map(|row| {
                row.into_iter()
                    .enumerate()
                    .filter(|(_, w)| !w.is_zero())
                    .map(|(j, w)| (members[j], w))
                    .collect::<Vec<_>>()
            })
            .collect();
        Some(EpsClosure { idx, rows: sparse })
    }

    /// The weighted relation restricted to |x|<=li, |y|<=lo. None if an epsilon cycle diverges
    /// or more than `cap` string pairs are reachable.
    pub fn relation(&self, li: usize, lo: usize, cap: usize) -> Option<Rel<R>> {
        self.relation_r(li, lo, cap).ok()
    }
    pub fn relation_r(&self, li: usize, lo: usize, cap: usize) -> Result<Rel<R>, RelErr> {
        if cfg!(miri) {
            // under the interpreter only the library's own execution is of interest
            return Ok(BTreeMap::new());
        }
        let t = self.trim();
        let mut out: Rel<R> = BTreeMap::new();
        let start = match t.start {
            None => return Ok(out),
            Some(s) => s,
        };
        let ec = t.eps_closure().ok_or(RelErr::Diverge)?;
        let mut levels: Vec<HashMap<(Str, Str), Vec<(usize, R)>>> =
            vec![HashMap::new(); li + lo + 3];
        levels[0].insert((vec![], vec![]), vec![(start, R::one())]);
        let mut nkeys = 1;
        let n = t.n();
        for lev in 0..=(li + lo) {
            let cur = std::mem::take(&mut levels[lev]);
            for ((x, y), contrib) in cur {
                let mut v: Vec<R> = vec![R::zero(); n];
                let mut act: Vec<usize> = vec![];
                let add = |s: usize, w: R, v: &mut Vec<R>, act: &mut Vec<usize>| {
                    if w.is_zero() {
                        return;
                    }
                    if v[s].is_zero() {
                        act.push(s);
                    }
                    v[s] = v[s].plus(&w);
                };
                let mut acc: Vec<R> = vec![R::zero(); n];
                let mut aact: Vec<usize> = vec![];
                for (s, w) in contrib {
                    add(s, w, &mut acc, &mut aact);
                }
                aact.sort();
                aact.dedup();
                for s in aact {
                    let w = acc[s].clone();
                    if ec.idx[s] == usize::MAX {
                        add(s, w, &mut v, &mut act);
                    } else {
                        for (q, e) in &ec.rows[ec.idx[s]] {
                            add(*q, w.times(e), &mut v, &mut act);
                        }
                    }
                }
                act.sort();
                act.dedup();
                let mut tot = R::zero();
                for s in act {
                    let w = &v[s];
                    if w.is_zero() {
                        continue;
                    }
                    if let Some(f) = &t.st[s].fin {
                        tot = tot.plus(&w.times(f));
                    }
                    for a in &t.st[s].arcs {
                        if a.il == 0 && a.ol == 0 {
                            continue;
                        }
                        if a.il != 0 && x.len() == li {
                            continue;
                        }
                        if a.ol != 0 && y.len() == lo {
                            continue;
                        }
                        let mut x2 = x.clone();
                        let mut y2 = y.clone();
                        let mut l2 = lev;
                        if a.il != 0 {
                            x2.push(a.il);
                            l2 += 1;
                        }
                        if a.ol != 0 {
                            y2.push(a.ol);
                            l2 += 1;
                        }
                        let e = levels[l2].entry((x2, y2)).or_insert_with(|| {
                            nkeys += 1;
                            vec![]
                        });
                        e.push((a.to, w.times(&a.w)));
                    }
                }
                if !tot.is_zero() {
                    out.insert((x, y), tot);
                }
                if nkeys > cap {
                    return Err(RelErr::Cap);
                }
            }
        }
        Ok(out)
    }

    /// weight given to one pair of strings; None if an epsilon cycle diverges
    pub fn eval(&self, x: &[u32], y: &[u32]) -> Option<R> {
        let t = self.trim();
        let start = match t.start {
            None => return Some(R::zero()),
            Some(s) => s,
        };
        let ec = t.eps_closure()?;
        let n = t.n();
        let mut g: Vec<Vec<Vec<R>>> = vec![vec![vec![R::zero(); n]; y.len() + 1]; x.len() + 1];
        g[0][0][start] = R::one();
        for i in 0..=x.len() {
            for j in 0..=y.len() {
                // close
                let raw = std::mem::replace(&mut g[i][j], vec![R::zero(); n]);
                let mut v = vec![R::zero(); n];
                for s in 0..n {
                    if raw[s].is_zero() {
                        continue;
                    }
                    if ec.idx[s] == usize::MAX {
                        v[s] = v[s].plus(&raw[s]);
                    } else {
                        for (q, e) in &ec.rows[ec.idx[s]] {
                            v[*q] = v[*q].plus(&raw[s].times(e));
                        }
                    }
                }
                for s in 0..n {
                    if v[s].is_zero() {
                        continue;
                    }
                    for a in &t.st[s].arcs {
                        if a.il == 0 && a.ol == 0 {
                            continue;
                        }
                        let i2 = if a.il != 0 {
                            if i < x.len() && x[i] == a.il {
                                i + 1
                            } else {
                                continue;
                            }
                        } else {
                            i
                        };
                        let j2 = if a.ol != 0 {
                            if j < y.len() && y[j] == a.ol {
                                j + 1
                            } else {
                                continue;
                            }
                        } else {
                            j
                        };
                        let w = v[s].times(&a.w);
                        g[i2][j2][a.to] = g[i2][j2][a.to].plus(&w);
                    }
                }
                g[i][j] = v;
            }
        }
        let mut tot = R::zero();
        for s in 0..n {
            if let Some(f) = &t.st[s].fin {
                tot = tot.plus(&g[x.len()][y.len()][s].times(f));
            }
        }
        Some(tot)
    }

    /// labels of a random successful path (None if there is none of at most `maxlen` steps)
    pub fn sample(&self, rng: &mut Rng, maxlen: usize) -> Option<(Str, Str)> {
        let t = self.trim();
        let mut s = t.start?;
        let (mut x, mut y) = (vec![], vec![]);
        for _ in 0..maxlen {
            let fin = t.is_fin(s);
            let na = t.st[s].arcs.len();
            if fin && (na == 0 || rng.chance(1, 4)) {
                return Some((x, y));
            }
            if na == 0 {
                return None;
            }
            let a = &t.st[s].arcs[rng.below(na)];
            if a.il != 0 {
                x.push(a.il);
            }
            if a.ol != 0 {
                y.push(a.ol);
            }
            s = a.to;
        }
        if t.is_fin(s) {
            Some((x, y))
        } else {
            None
        }
    }

    /// sum of all successful path weights. None when it diverges.
    pub fn total(&self) -> Option<R> {
        let t = self.trim();
        let s = match t.start {
            None => return Some(R::zero()),
            Some(s) => s,
        };
        let m = t.distance_matrix()?;
        let mut tot = R::zero();
        for q in 0..t.n() {
            if let Some(f) = &t.st[q].fin {
                tot = tot.plus(&m[s][q].times(f));
            }
        }
        Some(tot)
    }
    /// sum over all paths between each pair of states; None when it diverges
    pub fn distance_matrix(&self) -> Option<Vec<Vec<R>>> {
        let n = self.n();
        let mut mat = vec![vec![R::zero(); n]; n];
        for (i, s) in self.st.iter().enumerate() {
            for a in &s.arcs {
                mat[i][a.to] = mat[i][a.to].plus(&a.w);
            }
        }
        if star_matrix(&mut mat) {
            Some(mat)
        } else {
            None
        }
    }
    /// the sum over all paths between any two states exists and is of moderate size
    pub fn converges(&self) -> bool {
        if !self.is_cyclic() {
            return true;
        }
        match self.distance_matrix() {
            None => false,
            Some(m) => m.iter().flatten().all(|w| w.moderate()),
        }
    }
    pub fn structure_key(&self) -> String {
        self.dump()
    }
    /// same numbered machine, arcs compared in order
    pub fn same_structure(&self, o: &RFst<R>) -> Result<(), String> {
        if self.start != o.start {
            return Err(format!("start {:?} vs {:?}", self.start, o.start));
        }
        if self.n() != o.n() {
            return Err(format!("{} states vs {}", self.n(), o.n()));
        }
        for i in 0..self.n() {
            let (a, b) = (&self.st[i], &o.st[i]);
            match (&a.fin, &b.fin) {
                (None, None) => {}
                (Some(x), Some(y)) if x.same(y) => {}
                _ => return Err(format!("state {}: final {:?} vs {:?}", i, a.fin, b.fin)),
            }
            if a.arcs.len() != b.arcs.len() {
                return Err(format!(
                    "state {}: {} transitions vs {}",
                    i,
                    a.arcs.len(),
                    b.arcs.len()
                ));
            }
            for (k, (p, q)) in a.arcs.iter().zip(b.arcs.iter()).enumerate() {
                if p.il != q.il || p.ol != q.ol || p.to != q.to || !p.w.same(&q.w) {
                    return Err(format!("state {} transition {}: {:?} vs {:?}", i, k, p, q));
                }
            }
        }
        Ok(())
    }
    /// same numbered machine up to the order of transitions in each state
    pub fn same_up_to_order(&self, o: &RFst<R>) -> Result<(), String> {
        let (mut a, mut b) = (self.clone(), o.clone());
        for m in [&mut a, &mut b] {
            for s in m.st.iter_mut() {
                s.arcs.sort_by_key(|x| (x.il, x.ol, x.to, x.w.key()));
            }
        }
        a.same_structure(&b)
    }
}

struct EpsClosure<R> {
    idx: Vec<usize>,
    rows: Vec<Vec<(usize, R)>>,
}

/// mat := mat^* (Lehmann / Kleene elimination). false when some star diverges.
pub fn star_matrix<R: RefW>(mat: &mut [Vec<R>]) -> bool {
    let m = mat.len();
    for k in 0..m {
        let s = match mat[k][k].star() {
            Some(s) => s,
            None => return false,
        };
        let row: Vec<R> = mat[k].clone();
        let col: Vec<R> = (0..m).map(|i| mat[i][k].clone()).collect();
        for i in 0..m {
            if col[i].is_zero() {
                continue;
            }
            let c = col[i].times(&s);
            for j in 0..m {
                if row[j].is_zero() {
                    continue;
                }
                mat[i][j] = mat[i][j].plus(&c.times(&row[j]));
            }
        }
    }
    for (k, row) in mat.iter_mut().enumerate() {
        row[k] = row[k].plus(&R::one());
    }
    true
}

pub fn rel_diff<R: RefW>(exp: &Rel<R>, got: &Rel<R>) -> Option<String> {
    for (k, w) in exp {
        let g = got.get(k).cloned().unwrap_or_else(R::zero);
        if !w.same(&g) {
            return Some(format!("{:?}->{:?}: expected {:?}, got {:?}", k.0, k.1, w, g));
        }
    }
    for (k, g) in got {
        if !exp.contains_key(k) && !g.same(&R::zero()) {
            return Some(format!(
                "{:?}->{:?}: expected {:?} (absent), got {:?}",
                k.0,
                k.1,
                R::zero(),
                g
            ));
        }
    }
    None
}

pub fn rel_plus<R: RefW>(a: &Rel<R>, b: &Rel<R>) -> Rel<R> {
    let mut r = a.clone();
    for (k, w) in b {
        let e = r.entry(k.clone()).or_insert_with(R::zero);
        *e = e.plus(w);
    }
    r
}

pub fn rel_concat<R: RefW>(a: &Rel<R>, b: &Rel<R>, li: usize, lo: usize) -> Rel<R> {
    let mut r: Rel<R> = BTreeMap::new();
    for ((x1, y1), w1) in a {
        for ((x2, y2), w2) in b {
            if x1.len() + x2.len() > li || y1.len() + y2.len() > lo {
                continue;
            }
            let mut x = x1.clone();
            x.extend(x2);
            let mut y = y1.clone();
            y.extend(y2);
            let e = r.entry((x, y)).or_insert_with(R::zero);
            *e = e.plus(&w1.times(w2));
        }
    }
    r
}

/// star of a relation, up to the length bounds; the empty pair's weight needs a star.
/// None if it diverges.
pub fn rel_star<R: RefW>(a: &Rel<R>, li: usize, lo: usize, plus_only: bool) -> Option<Rel<R>> {
    // r = a0* + a0* a' r  where a0 is the (eps,eps) weight and a' the rest
    let ek = (vec![], vec![]);
    let a0 = a.get(&ek).cloned().unwrap_or_else(R::zero);
    let s0 = a0.star()?;
    let mut rest = a.clone();
    rest.remove(&ek);
    let mut unit: Rel<R> = BTreeMap::new();
    unit.insert(ek.clone(), s0.clone());
    // iterate: layers by number of non-empty factors
    let mut total = unit.clone();
    let step = rel_concat(&rest, &unit, li, lo);
    let mut layer = unit.clone();
    for _ in 0..(li + lo) {
        layer = rel_concat(&layer, &step, li, lo);
        if layer.is_empty() {
            break;
        }
        total = rel_plus(&total, &layer);
    }
    if plus_only {
        Some(rel_concat(a, &total, li, lo))
    } else {
        Some(total)
    }
}

/// What a comparison of two machines came to.
pub enum Cmp {
    Same { pairs: usize, nonzero: usize },
    Diff(String),
    Skip,
}

/// Compares the relations of two machines on all short pairs and on sampled longer ones.
pub fn compare<R: RefW>(exp: &RFst<R>, got: &RFst<R>, rng: &mut Rng, l: usize) -> Cmp {
    if cfg!(miri) {
        return Cmp::Same { pairs: 0, nonzero: 0 };
    }
    let mut l = l;
    let (a, b) = loop {
        match (exp.relation_r(l, l, 4000), got.relation_r(l, l, 12000)) {
            (Ok(a), Ok(b)) => break (a, b),
            (Err(RelErr::Diverge), _) => return Cmp::Skip,
            (Ok(_), Err(RelErr::Diverge)) => {
                return Cmp::Diff("the result has a divergent epsilon cycle".to_string())
            }
            _ => {
                if l == 0 {
                    return Cmp::Skip;
                }
                l -= 1;
            }
        }
    };
    if let Some(d) = rel_diff(&a, &b) {
        return Cmp::Diff(d);
    }
    let mut pairs = a.len().max(b.len());
    for k in 0..6 {
        let m = if k % 2 == 0 { exp } else { got };
        if let Some((x, y)) = m.sample(rng, 12) {
            if x.len() <= l && y.len() <= l {
                continue;
            }
            match (exp.eval(&x, &y), got.eval(&x, &y)) {
                (Some(e), Some(g)) => {
                    pairs += 1;
                    if !e.same(&g) {
                        return Cmp::Diff(format!(
                            "{:?}->{:?}: expected {:?}, got {:?}",
                            x, y, e, g
                        ));
                    }
                }
                _ => {}
            }
        }
    }
    Cmp::Same {
        pairs,
        nonzero: a.len(),
    }
}

/// Composition by definition: every pair of matching paths counted once (moves on A's output
/// epsilons are taken before moves on B's input epsilons).
pub fn compose_ref<R: RefW>(a: &RFst<R>, b: &RFst<R>) -> RFst<R> {
    let mut out = RFst { start: None, st: vec![] };
    let (sa, sb) = match (a.start, b.start) {
        (Some(x), Some(y)) => (x, y),
        _ => return out,
    };
    let mut ids: HashMap<(usize, usize, bool), usize> = HashMap::new();
    let mut todo = vec![(sa, sb, false)];
    ids.insert((sa, sb, false), 0);
    out.start = Some(0);
    out.st.push(RSt { fin: None, arcs: vec![] });
    while let Some((p, q, f)) = todo.pop() {
        let me = ids[&(p, q, f)];
        let mut get = |k: (usize, usize, bool), out: &mut RFst<R>| -> usize {
            *ids.entry(k).or_insert_with(|| {
                out.st.push(RSt { fin: None, arcs: vec![] });
                todo.push(k);
                out.st.len() - 1
            })
        };
        if let (Some(x), Some(y)) = (&a.st[p].fin, &b.st[q].fin) {
            out.st[me].fin = Some(x.times(y));
        }
        for x in &a.st[p].arcs {
            if x.ol == 0 {
                if !f {
                    let to = get((x.to, q, false), &mut out);
                    out.st[me].arcs.push(RArc { il: x.il, ol: 0, w: x.w.clone(), to });
                }
                continue;
            }
            for y in &b.st[q].arcs {
                if y.il == x.ol {
                    let to = get((x.to, y.to, false), &mut out);
                    out.st[me].arcs.push(RArc { il: x.il, ol: y.ol, w: x.w.times(&y.w), to });
                }
            }
        }
        for y in &b.st[q].arcs {
            if y.il == 0 {
                let to = get((p, y.to, true), &mut out);
                out.st[me].arcs.push(RArc { il: 0, ol: y.ol, w: y.w.clone(), to });
            }
        }
    }
    out
}
