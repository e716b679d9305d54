//! C16: saving then loading restores the same transducer and symbol tables.
use fstmon::chk;
use fstmon::driver::*;
use fstmon::rng::Rng;
use rustfst::algorithms::{fst_convert, fst_convert_from_ref};
use rustfst::prelude::*;
use rustfst::semirings::{GallicWeight, GallicWeightLeft, GallicWeightMin, GallicWeightRestrict, ProductWeight, StringWeightLeft, StringWeightRestrict, StringWeightRight};
use std::fmt::Debug;
use std::sync::Arc;

/// a weight type with a generator of unusual values and an independent encoder
trait SW: SerializableSemiring + Debug + 'static {
    const TYPE: &'static str;
    fn any(r: &mut Rng) -> Self;
    fn enc(&self, o: &mut Vec<u8>);
}
fn f(r: &mut Rng) -> f32 {
    match r.below(14) {
        0 => 0.0,
        1 => 1.0,
        2 => f32::INFINITY,
        3 => 0.1,
        4 => 1.0 / 3.0,
        5 => f32::MAX,
        6 => f32::MIN_POSITIVE,
        7 => 1.0e-45,
        8 => -7.25,
        9 => 16777217.0,
        10 => -1.0e-7,
        _ => {
            let x = f32::from_bits(r.next() as u32);
            if x.is_finite() {
                x
            } else {
                2.5
            }
        }
    }
}
fn lab(r: &mut Rng) -> Label {
    match r.below(8) {
        0 | 1 => 0,
        2 => r.next() as u32 >> 1,
        3 => i32::MAX as u32,
        4 => 1_000_000,
        _ => r.below(4) as u32,
    }
}
fn strv(r: &mut Rng) -> Vec<Label> {
    (0..r.below(4))
        .map(|_| match lab(r) {
            0 => 7,
            l => l,
        })
        .collect()
}
fn le32(o: &mut Vec<u8>, x: i32) {
    o.extend_from_slice(&x.to_le_bytes())
}
fn le64(o: &mut Vec<u8>, x: i64) {
    o.extend_from_slice(&x.to_le_bytes())
}
macro_rules! sw_f {
    ($t:ty, $n:expr) => {
        impl SW for $t {
            const TYPE: &'static str = $n;
            fn any(r: &mut Rng) -> Self {
                <$t>::new(f(r))
            }
            fn enc(&self, o: &mut Vec<u8>) {
                o.extend_from_slice(&self.value().to_le_bytes())
            }
        }
    };
}
sw_f!(TropicalWeight, "standard");
sw_f!(LogWeight, "log");
sw_f!(ProbabilityWeight, "probability");
impl SW for IntegerWeight {
    const TYPE: &'static str = "integer";
    fn any(r: &mut Rng) -> Self {
        IntegerWeight::new(*r.pick(&[0, 1, -1, i32::MAX, i32::MIN, 12345, 2]))
    }
    fn enc(&self, o: &mut Vec<u8>) {
        le32(o, *self.value())
    }
}
macro_rules! sw_s {
    ($t:ty, $n:expr) => {
        impl SW for $t {
            const TYPE: &'static str = $n;
            fn any(r: &mut Rng) -> Self {
                if r.chance(1, 8) {
                    <$t>::zero()
                } else {
                    strv(r).into()
                }
            }
            fn enc(&self, o: &mut Vec<u8>) {
                if self.is_zero() {
                    le32(o, 1);
                    le32(o, -1);
                } else {
                    let l = self.value().unwrap_labels();
                    le32(o, l.len() as i32);
                    for x in l {
                        le32(o, *x as i32);
                    }
                }
            }
        }
    };
}
sw_s!(StringWeightLeft, "left_string");
sw_s!(StringWeightRight, "right_string");
sw_s!(StringWeightRestrict, "restricted_string");
impl SW for ProductWeight<TropicalWeight, LogWeight> {
    const TYPE: &'static str = "tropical_X_log";
    fn any(r: &mut Rng) -> Self {
        ProductWeight::new((SW::any(r), SW::any(r)))
    }
    fn enc(&self, o: &mut Vec<u8>) {
        self.value1().enc(o);
        self.value2().enc(o);
    }
}
macro_rules! sw_g {
    ($t:ident, $s:ty, $n:expr) => {
        impl SW for $t<TropicalWeight> {
            const TYPE: &'static str = $n;
            fn any(r: &mut Rng) -> Self {
                (<$s as SW>::any(r), TropicalWeight::any(r)).into()
            }
            fn enc(&self, o: &mut Vec<u8>) {
                self.value1().enc(o);
                self.value2().enc(o);
            }
        }
    };
}
sw_g!(GallicWeightLeft, StringWeightLeft, "left_gallic");
sw_g!(GallicWeightMin, StringWeightRestrict, "min_gallic");
sw_g!(GallicWeightRestrict, StringWeightRestrict, "restricted_gallic");
impl SW for GallicWeight<TropicalWeight> {
    const TYPE: &'static str = "gallic";
    fn any(r: &mut Rng) -> Self {
        let mut v: Vec<(Vec<Label>, TropicalWeight)> = vec![];
        for _ in 0..r.range(1, 3) {
            let s = strv(r);
            if !v.iter().any(|x| x.0 == s) {
                v.push((s, TropicalWeight::new(r.below(9) as f32 * 0.5)));
            }
        }
        v.sort_by_key(|x| (x.0.len(), x.0.clone()));
        GallicWeight::new(v.into_iter().map(|(s, w)| (StringWeightRestrict::from(s), w).into()).collect())
    }
    fn enc(&self, o: &mut Vec<u8>) {
        le32(o, self.len() as i32);
        for w in self.iter() {
            w.enc(o);
        }
    }
}

/// the plain model of a transducer
struct M<W> {
    start: Option<usize>,
    fin: Vec<Option<W>>,
    arcs: Vec<Vec<(Label, Label, W, usize)>>,
    isym: Option<Vec<String>>,
    osym: Option<Vec<String>>,
}
fn syms(r: &mut Rng, text: bool) -> Vec<String> {
    let mut v: Vec<String> = vec!["<eps>".into()];
    for k in 0..r.below(5) {
        let s: String = match r.below(12) {
            0 => "".into(),
            1 => "日本".into(),
            2 => "a\u{301}".into(),
            3 => "\"quoted\"".into(),
            4 => "#".into(),
            5 => "0".into(),
            6 if !text => "with space".into(),
            7 if !text => "tab\tnew\nline".into(),
            8 => "\u{1F600}".into(),
            9 => "x".repeat(300),
            10 => "a\u{a0}b\r".into(),
            _ => format!("s{}", k),
        };
        if !v.contains(&s) {
            v.push(s);
        }
    }
    if r.chance(1, 10) {
        v.remove(0);
    }
    v
}
fn symt(v: &[String]) -> SymbolTable {
    let mut t = SymbolTable::empty();
    for s in v {
        t.add_symbol(s.clone());
    }
    t
}
fn same_symt(want: &Option<Vec<String>>, got: Option<&Arc<SymbolTable>>) -> Result<(), String> {
    match (want, got) {
        (None, None) => Ok(()),
        (Some(v), Some(t)) => same_table(v, t),
        _ => Err("symbol table lost or invented".into()),
    }
}
fn same_table(v: &[String], t: &SymbolTable) -> Result<(), String> {
    let ok = t.len() == v.len() && v.iter().enumerate().all(|(i, s)| t.get_symbol(i as Label) == Some(s) && t.get_label(s) == Some(i as Label));
    if ok {
        Ok(())
    } else {
        Err(format!("symbol table {:?} instead of {:?}", t, v))
    }
}

impl<W: SW> M<W> {
    fn gen(r: &mut Rng) -> Self {
        // mostly small; some long ones, dense or with few transitions
        let n = match r.below(60) {
            0 | 1 => r.range(7, 40),
            2 if r.chance(1, 8) => r.range(100, 400),
            _ => r.below(6),
        };
        let (fin, arcs) = if n > 6 { (*r.pick(&[1usize, 3, 6]), *r.pick(&[1usize, 2, 4, 30])) } else { (2, 4) };
        let mut m = M { start: None, fin: vec![], arcs: vec![], isym: None, osym: None };
        for _ in 0..n {
            m.fin.push(if r.chance(fin, 6) { Some(W::any(r)) } else { None });
            let k = r.below(arcs);
            m.arcs.push((0..k).map(|_| (lab(r), lab(r), W::any(r), r.below(n))).collect());
        }
        if n > 0 && !r.chance(1, 8) {
            m.start = Some(r.below(n));
        }
        if r.chance(1, 2) {
            m.isym = Some(syms(r, false));
        }
        if r.chance(1, 2) {
            m.osym = Some(syms(r, false));
        }
        m
    }
    fn build(&self, r: &mut Rng) -> VectorFst<W> {
        let mut f = VectorFst::new();
        f.add_states(self.fin.len());
        let mut order: Vec<usize> = (0..self.fin.len()).collect();
        for i in (1..order.len()).rev() {
            order.swap(i, r.below(i + 1));
        }
        for q in order {
            for (i, o, w, to) in &self.arcs[q] {
                f.add_tr(q as StateId, Tr::new(*i, *o, w.clone(), *to as StateId)).unwrap();
            }
            if let Some(w) = &self.fin[q] {
                f.set_final(q as StateId, w.clone()).unwrap();
            }
        }
        if let Some(s) = self.start {
            f.set_start(s as StateId).unwrap();
        }
        if r.bool() {
            f.compute_and_update_properties_all().unwrap();
        }
        if let Some(v) = &self.isym {
            f.set_input_symbols(Arc::new(symt(v)));
        }
        if let Some(v) = &self.osym {
            f.set_output_symbols(Arc::new(symt(v)));
        }
        f
    }
    fn dump(&self) -> String {
        let mut s = format!("start={:?}", self.start);
        for q in 0..self.fin.len() {
            s += &format!("; {}/{:?}:", q, self.fin[q]);
            for (i, o, w, to) in &self.arcs[q] {
                s += &format!(" {}:{}/{:?}>{}", i, o, w, to);
            }
        }
        format!("{}; isym={:?} osym={:?}", s, self.isym, self.osym)
    }
    /// exact comparison with a loaded machine; a zero final weight means not final.
    /// `n`: how many states the format is able to carry
    fn same<F: ExpandedFst<W>>(&self, g: &F, n: usize, symbols: bool) -> Result<(), String> {
        if g.num_states() != n {
            return Err(format!("{} states instead of {}", g.num_states(), n));
        }
        if g.start() != self.start.map(|x| x as StateId) {
            return Err(format!("start {:?} instead of {:?}", g.start(), self.start));
        }
        for q in 0..n {
            let trs = g.get_trs(q as StateId).map_err(|e| e.to_string())?;
            let got: Vec<String> = trs.trs().iter().map(|t| format!("{}:{}/{:?}>{}", t.ilabel, t.olabel, t.weight, t.nextstate)).collect();
            let want: Vec<String> = self.arcs[q].iter().map(|(i, o, w, to)| format!("{}:{}/{:?}>{}", i, o, w, to)).collect();
            if got != want {
                return Err(format!("state {}: {:?} instead of {:?}", q, got, want));
            }
            let norm = |w: Option<W>| w.filter(|w| !w.is_zero()).map(|w| format!("{:?}", w));
            let gf = norm(g.final_weight(q as StateId).map_err(|e| e.to_string())?);
            if gf != norm(self.fin[q].clone()) {
                return Err(format!("final weight of {}: {:?} instead of {:?}", q, gf, self.fin[q]));
            }
            let ni = self.arcs[q].iter().filter(|a| a.0 == 0).count();
            let no = self.arcs[q].iter().filter(|a| a.1 == 0).count();
            if g.num_input_epsilons(q as StateId).ok() != Some(ni) || g.num_output_epsilons(q as StateId).ok() != Some(no) || g.num_trs(q as StateId).ok() != Some(self.arcs[q].len()) {
                return Err(format!("counts of state {} wrong", q));
            }
        }
        if symbols {
            same_symt(&self.isym, g.input_symbols()).map_err(|e| format!("input {}", e))?;
            same_symt(&self.osym, g.output_symbols()).map_err(|e| format!("output {}", e))?;
        }
        Ok(())
    }
    fn enc_header(&self, o: &mut Vec<u8>, ty: &str, version: i32, props: u64) {
        let st = |o: &mut Vec<u8>, s: &str| {
            le32(o, s.len() as i32);
            o.extend_from_slice(s.as_bytes());
        };
        le32(o, 2125659606);
        st(o, ty);
        st(o, W::TYPE);
        le32(o, version);
        le32(o, self.isym.is_some() as i32 | (self.osym.is_some() as i32) << 1);
        le64(o, props as i64);
        le64(o, self.start.map_or(-1, |x| x as i64));
        le64(o, self.fin.len() as i64);
        le64(o, self.arcs.iter().map(|a| a.len() as i64).sum());
        for v in [&self.isym, &self.osym].into_iter().flatten() {
            enc_symt(o, v);
        }
    }
    fn enc_arc(o: &mut Vec<u8>, a: &(Label, Label, W, usize)) {
        le32(o, a.0 as i32);
        le32(o, a.1 as i32);
        a.2.enc(o);
        le32(o, a.3 as i32);
    }
    fn enc_vector(&self, props: u64) -> Vec<u8> {
        let mut o = vec![];
        self.enc_header(&mut o, "vector", 2, props);
        for q in 0..self.fin.len() {
            self.fin[q].clone().unwrap_or_else(W::zero).enc(&mut o);
            le64(&mut o, self.arcs[q].len() as i64);
            for a in &self.arcs[q] {
                Self::enc_arc(&mut o, a);
            }
        }
        o
    }
    fn enc_const(&self, props: u64, aligned: bool) -> Vec<u8> {
        let mut o = vec![];
        self.enc_header(&mut o, "const", if aligned { 1 } else { 2 }, props);
        let pad = |o: &mut Vec<u8>| {
            while aligned && o.len() % 16 != 0 {
                o.push(0);
            }
        };
        if !self.fin.is_empty() {
            pad(&mut o);
        }
        let mut pos = 0;
        for q in 0..self.fin.len() {
            self.fin[q].clone().unwrap_or_else(W::zero).enc(&mut o);
            le32(&mut o, pos);
            le32(&mut o, self.arcs[q].len() as i32);
            le32(&mut o, self.arcs[q].iter().filter(|a| a.0 == 0).count() as i32);
            le32(&mut o, self.arcs[q].iter().filter(|a| a.1 == 0).count() as i32);
            pos += self.arcs[q].len() as i32;
        }
        if pos > 0 {
            pad(&mut o);
        }
        for a in self.arcs.iter().flatten() {
            Self::enc_arc(&mut o, a);
        }
        o
    }
}
fn enc_symt(o: &mut Vec<u8>, v: &[String]) {
    le32(o, 2125658996);
    le32(o, 19);
    o.extend_from_slice(b"rustfst_symboltable");
    le64(o, v.len() as i64);
    le64(o, v.len() as i64);
    for (i, s) in v.iter().enumerate() {
        le32(o, s.len() as i32);
        o.extend_from_slice(s.as_bytes());
        le64(o, i as i64);
    }
}

struct Dir(std::path::PathBuf);
impl Dir {
    fn new(ctx: &Ctx) -> Self {
        static N: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
        let k = N.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        let d = std::env::temp_dir().join(format!("fstmon-c16-{}-{}-{}", std::process::id(), ctx.case, k));
        std::fs::create_dir_all(&d).unwrap();
        Dir(d)
    }
}
impl Drop for Dir {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

fn case_w<W: SW>(ctx: &mut Ctx) {
    let m: M<W> = M::gen(&mut ctx.rng);
    ctx.input = format!("{} {}", W::TYPE, m.dump());
    let n = m.fin.len();
    if m.arcs.iter().map(|a| a.len()).sum::<usize>() >= 2 {
        use std::hash::{Hash, Hasher};
        let mut h = std::collections::hash_map::DefaultHasher::new();
        ctx.input.hash(&mut h);
        ctx.distinct(h.finish());
    }
    let smp = ctx.input.clone();
    ctx.sample(|| smp);
    let mut rng = ctx.rng.fork();
    let fst = m.build(&mut rng);
    let cfst: ConstFst<W> = fst.clone().into();
    let files = rng.chance(1, 8);
    let dir = if files { Some(Dir::new(ctx)) } else { None };

    // binary, both representations
    macro_rules! bin {
        ($name:expr, $t:ty, $f:expr, $enc:expr) => {{
            let f: &$t = $f;
            let mut buf = vec![];
            if ctx.guard_ok(concat!("store-", $name), || f.store(&mut buf)).is_some() {
                if let Some(g) = ctx.guard_ok(concat!("load-", $name), || <$t>::load(&buf)) {
                    if let Err(e) = m.same(&g, n, true) {
                        ctx.fail(concat!("binary-", $name), e);
                    }
                    chk!(ctx, g.properties() == f.properties(), concat!("properties-", $name), "{:?} became {:?}", f.properties(), g.properties());
                    let mut again = vec![];
                    if ctx.guard_ok(concat!("store-", $name), || g.store(&mut again)).is_some() {
                        // a zero final weight and none are the same; everything else is bit for bit stable
                        if m.fin.iter().flatten().all(|w| !w.is_zero()) {
                            chk!(ctx, again == buf, concat!("unstable-bytes-", $name), "storing the loaded machine gives other bytes");
                        }
                    }
                    ctx.count(concat!("binary_round_trips_", $name));
                }
                // the layout is the documented one
                let want: Vec<u8> = $enc;
                let skip = |b: &[u8]| -> Option<(Vec<u8>, Vec<u8>)> {
                    // everything but the 8 property bytes
                    let p = 4 + 4 + $name.len() + 4 + W::TYPE.len() + 8;
                    if b.len() < p + 8 {
                        return None;
                    }
                    Some((b[..p].to_vec(), b[p + 8..].to_vec()))
                };
                chk!(ctx, skip(&buf) == skip(&want), concat!("layout-", $name), "bytes {:?} instead of {:?}", buf, want);
                ctx.count("layouts_compared");
                if let Some(d) = &dir {
                    let p = d.0.join($name);
                    if ctx.guard_ok(concat!("write-", $name), || f.write(&p)).is_some() {
                        chk!(ctx, std::fs::read(&p).unwrap() == buf, concat!("file-differs-", $name), "file and memory forms differ");
                        if let Some(g) = ctx.guard_ok(concat!("read-", $name), || <$t>::read(&p)) {
                            if let Err(e) = m.same(&g, n, true) {
                                ctx.fail(concat!("binary-file-", $name), e);
                            }
                            ctx.count("file_round_trips");
                        }
                        // an existing longer file is replaced
                        std::fs::write(&p, vec![7u8; buf.len() + 100]).unwrap();
                        if ctx.guard_ok(concat!("write-", $name), || f.write(&p)).is_some() {
                            chk!(ctx, std::fs::read(&p).unwrap() == buf, concat!("file-not-replaced-", $name), "an older file shines through");
                        }
                    }
                }
            }
        }};
    }
    let vprops = fst.properties().bits() | 0x3;
    bin!("vector", VectorFst<W>, &fst, m.enc_vector(vprops));
    bin!("const", ConstFst<W>, &cfst, m.enc_const(0, false));
    // files of another origin
    {
        let b = m.enc_vector(0x3);
        if let Some(g) = ctx.guard_ok("load-foreign-vector", || VectorFst::<W>::load(&b)) {
            if let Err(e) = m.same(&g, n, true) {
                ctx.fail("foreign-vector", e);
            }
        }
        let aligned = rng.bool();
        let b = m.enc_const(0x1, aligned);
        if let Some(g) = ctx.guard_ok("load-foreign-const", || ConstFst::<W>::load(&b)) {
            if let Err(e) = m.same(&g, n, true) {
                ctx.fail(if aligned { "foreign-const-aligned" } else { "foreign-const" }, e);
            }
            ctx.count(if aligned { "aligned_files" } else { "unaligned_files" });
        }
        if let Some(d) = &dir {
            let p = d.0.join("c");
            std::fs::write(&p, &b).unwrap();
            if let Some(g) = ctx.guard_ok("read-from-const", || VectorFst::<W>::read_from_const(&p)) {
                if let Err(e) = m.same(&g, n, true) {
                    ctx.fail("read-from-const", e);
                }
                for q in 0..n {
                    let (i, o) = (g.num_input_epsilons(q as StateId).unwrap(), g.num_output_epsilons(q as StateId).unwrap());
                    let (wi, wo) = (m.arcs[q].iter().filter(|a| a.0 == 0).count(), m.arcs[q].iter().filter(|a| a.1 == 0).count());
                    chk!(ctx, (i, o) == (wi, wo), "read-from-const-eps", "state {} counts {:?} instead of {:?}", q, (i, o), (wi, wo));
                }
                ctx.count("const_files_as_vector");
            }
        }
    }
    // between the representations
    {
        if let Err(e) = m.same(&cfst, n, true) {
            ctx.fail("vector-to-const", e);
        }
        if let Some(g) = ctx.guard("convert", || fst_convert_from_ref::<W, _, VectorFst<W>>(&cfst)) {
            if let Err(e) = m.same(&g, n, true) {
                ctx.fail("const-to-vector", e);
            }
            chk!(ctx, g == fst, "const-to-vector", "not equal to the original");
        }
        if let Some(g) = ctx.guard("convert", || fst_convert::<W, _, VectorFst<W>>(cfst.clone())) {
            if let Err(e) = m.same(&g, n, true) {
                ctx.fail("const-into-vector", e);
            }
        }
        ctx.count("representations_converted");
    }
    // text: carries the states that some line mentions; nothing without a start state
    {
        let nt = if m.start.is_none() {
            0
        } else {
            let mut k = m.start.unwrap() + 1;
            for q in 0..n {
                if !m.arcs[q].is_empty() || m.fin[q].as_ref().map_or(false, |w| !w.is_zero()) {
                    k = k.max(q + 1);
                }
                for a in &m.arcs[q] {
                    k = k.max(a.3 + 1);
                }
            }
            k
        };
        // the text of a zero final weight may or may not mention its state
        let zero_fin = m.fin.iter().flatten().any(|w| w.is_zero());
        let t1 = ctx.guard_ok("text-vector", || fst.text());
        let t2 = ctx.guard_ok("text-const", || cfst.text());
        if let (Some(t1), Some(t2)) = (t1, t2) {
            chk!(ctx, t1 == t2, "text-differs", "vector {:?}, const {:?}", t1, t2);
            let check = |ctx: &mut Ctx, what: &str, r: Result<(), String>, t: &str| {
                if let Err(e) = r {
                    ctx.fail(what, format!("{}; text {:?}", e, t));
                }
            };
            if let Some(g) = ctx.guard_ok("from-text-vector", || VectorFst::<W>::from_text_string(&t1)) {
                let k = if zero_fin { g.num_states().max(nt).min(n) } else { nt };
                check(ctx, "text-round-trip-vector", m.same(&g, k, false), &t1);
                if let Some(t3) = ctx.guard_ok("text-again", || g.text()) {
                    chk!(ctx, zero_fin || t3 == t1, "text-unstable", "{:?} then {:?}", t1, t3);
                }
                ctx.count("text_round_trips");
            }
            if let Some(g) = ctx.guard_ok("from-text-const", || ConstFst::<W>::from_text_string(&t1)) {
                let k = if zero_fin { g.num_states().max(nt).min(n) } else { nt };
                check(ctx, "text-round-trip-const", m.same(&g, k, false), &t1);
            }
            if let Some(d) = &dir {
                let p = d.0.join("t");
                if ctx.guard_ok("write_text", || fst.write_text(&p)).is_some() {
                    chk!(ctx, std::fs::read(&p).unwrap() == t1.as_bytes(), "text-file-differs", "");
                    if let Some(g) = ctx.guard_ok("read_text", || VectorFst::<W>::read_text(&p)) {
                        let k = if zero_fin { g.num_states().max(nt).min(n) } else { nt };
                        check(ctx, "text-file", m.same(&g, k, false), &t1);
                    }
                }
            }
        }
    }
}

fn case_symt(ctx: &mut Ctx) {
    let text = ctx.rng.bool();
    let v = syms(&mut ctx.rng, text);
    ctx.input = format!("symbol table {:?}", v);
    let t = symt(&v);
    let d = Dir::new(ctx);
    let p = d.0.join("s");
    if ctx.guard_ok("symt-write", || t.write(&p)).is_some() {
        let b = std::fs::read(&p).unwrap();
        let mut want = vec![];
        enc_symt(&mut want, &v);
        chk!(ctx, b == want, "symt-layout", "{:?} instead of {:?}", b, want);
        if let Some(g) = ctx.guard_ok("symt-read", || SymbolTable::read(&p)) {
            if let Err(e) = same_table(&v, &g) {
                ctx.fail("symt-binary", e);
            }
            chk!(ctx, g == t, "symt-equality", "{:?} vs {:?}", g, t);
            ctx.count("symbol_table_binary_round_trips");
        }
    }
    if text {
        if let Some(s) = ctx.guard_ok("symt-text", || t.text()) {
            if let Some(g) = ctx.guard_ok("symt-from-text", || SymbolTable::from_text_string(&s)) {
                if let Err(e) = same_table(&v, &g) {
                    ctx.fail("symt-text", e);
                }
                ctx.count("symbol_table_text_round_trips");
            }
            // a last line that does not end in a line break counts too
            if let Some(g) = ctx.guard_ok("symt-from-text", || SymbolTable::from_text_string(s.trim_end_matches('\n'))) {
                if let Err(e) = same_table(&v, &g) {
                    ctx.fail("symt-text-unterminated", e);
                }
            }
            if ctx.guard_ok("symt-write_text", || t.write_text(&p)).is_some() {
                chk!(ctx, std::fs::read(&p).unwrap() == s.as_bytes(), "symt-text-file-differs", "");
                if let Some(g) = ctx.guard_ok("symt-read_text", || SymbolTable::read_text(&p)) {
                    if let Err(e) = same_table(&v, &g) {
                        ctx.fail("symt-text-file", e);
                    }
                }
            }
        }
    }
}

/// A device that is full: saving must say so.
fn full(ctx: &mut Ctx) {
    ctx.input = "writing to /dev/full".into();
    if !std::path::Path::new("/dev/full").exists() {
        return;
    }
    let mut f = VectorFst::<TropicalWeight>::new();
    let s = f.add_state();
    f.set_start(s).unwrap();
    f.set_final(s, TropicalWeight::one()).unwrap();
    let t = symt(&["a".into(), "b".into()]);
    for k in [0usize, 3, 2000] {
        for _ in 0..k {
            f.add_tr(s, Tr::new(1, 1, TropicalWeight::one(), s)).unwrap();
        }
        let c: ConstFst<TropicalWeight> = f.clone().into();
        macro_rules! err {
            ($e:expr) => {
                if let Some(r) = ctx.guard("full", || $e) {
                    chk!(ctx, r.is_err(), "write-error-lost", "{} succeeded on a full device ({} transitions)", stringify!($e), k);
                    ctx.count("full_device_writes");
                }
            };
        }
        err!(f.write("/dev/full"));
        err!(c.write("/dev/full"));
        err!(f.write_text("/dev/full"));
        err!(c.write_text("/dev/full"));
        err!(t.write("/dev/full"));
        err!(t.write_text("/dev/full"));
        err!(f.draw("/dev/full", &DrawingConfig::default()));
    }
}

pub fn case(ctx: &mut Ctx) {
    match ctx.rng.below(40) {
        0 => case_symt(ctx),
        1..=12 => case_w::<TropicalWeight>(ctx),
        13..=16 => case_w::<LogWeight>(ctx),
        17..=20 => case_w::<ProbabilityWeight>(ctx),
        21..=24 => case_w::<IntegerWeight>(ctx),
        25..=26 => case_w::<StringWeightLeft>(ctx),
        27 => case_w::<StringWeightRight>(ctx),
        28 => case_w::<StringWeightRestrict>(ctx),
        29..=31 => case_w::<ProductWeight<TropicalWeight, LogWeight>>(ctx),
        32..=33 => case_w::<GallicWeightLeft<TropicalWeight>>(ctx),
        34 => case_w::<GallicWeightMin<TropicalWeight>>(ctx),
        35 => case_w::<GallicWeightRestrict<TropicalWeight>>(ctx),
        _ => case_w::<GallicWeight<TropicalWeight>>(ctx),
    }
}

fn main() {
    run(Prop {
        id: "C16",
        quick: 150_000,
        thorough: 10_000_000,
        rule: "random machines over 11 weight types with extreme, fractional, infinite and denormal weights, large labels, empty machines, missing starts and unusual symbols; stored and loaded in binary and text, in memory and through files, for both representations; the bytes are also compared with an independent encoder of the OpenFst layout, and files it writes (also aligned ones) are loaded. Non-trivial: >=2 transitions.",
        case,
        fixed: &[("full", full)],
        must: &["const_files_as_vector", "binary_round_trips_vector", "binary_round_trips_const", "layouts_compared", "file_round_trips", "aligned_files", "text_round_trips", "representations_converted", "symbol_table_binary_round_trips", "symbol_table_text_round_trips"],
        assumptions: &["a final weight equal to zero (in the sense of the weight type's own is_zero) means not final", "the text format carries neither symbol tables nor trailing states that no line mentions", "symbols with spaces, tabs or line breaks cannot be carried by the text format"],
        ..DEFAULT
    });
}
