//! C17: loading arbitrary bytes or text never crashes and never yields a bad machine.
use fstmon::chk;
use fstmon::driver::*;
use fstmon::rng::Rng;
use rustfst::prelude::*;
use rustfst::semirings::{GallicWeight, ProductWeight, StringWeightLeft};
use std::alloc::{GlobalAlloc, Layout, System};
use std::fmt::Debug;
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};
use std::sync::Arc;

/// memory in use and its peak (a worker process has one thread)
struct Counting;
static CUR: AtomicUsize = AtomicUsize::new(0);
static PEAK: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let c = CUR.fetch_add(l.size(), Relaxed) + l.size();
        PEAK.fetch_max(c, Relaxed);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        CUR.fetch_sub(l.size(), Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let c = CUR.fetch_add(l.size(), Relaxed) + l.size();
        PEAK.fetch_max(c, Relaxed);
        System.alloc_zeroed(l)
    }
}
#[global_allocator]
static A: Counting = Counting;

fn measured<T>(ctx: &mut Ctx, op: &str, allowance: usize, f: impl FnOnce() -> T) -> Option<T> {
    let base = CUR.load(Relaxed);
    PEAK.store(base, Relaxed);
    let r = ctx.guard(op, f);
    let used = PEAK.load(Relaxed).saturating_sub(base);
    chk!(ctx, used <= allowance, &format!("memory:{}", op), "{} bytes of memory used where {} are ample", used, allowance);
    r
}

trait SW: SerializableSemiring + Debug + 'static {
    const N: &'static str;
    fn any(r: &mut Rng) -> Self;
}
impl SW for TropicalWeight {
    const N: &'static str = "tropical";
    fn any(r: &mut Rng) -> Self {
        TropicalWeight::new(*r.pick(&[0.0, 1.5, 0.1, f32::INFINITY, -2.0]))
    }
}
impl SW for IntegerWeight {
    const N: &'static str = "integer";
    fn any(r: &mut Rng) -> Self {
        IntegerWeight::new(r.below(5) as i32 - 1)
    }
}
impl SW for StringWeightLeft {
    const N: &'static str = "string";
    fn any(r: &mut Rng) -> Self {
        let v: Vec<Label> = (0..r.below(3)).map(|_| 1 + r.below(3) as Label).collect();
        v.into()
    }
}
impl SW for ProductWeight<TropicalWeight, LogWeight> {
    const N: &'static str = "product";
    fn any(r: &mut Rng) -> Self {
        ProductWeight::new((TropicalWeight::any(r), LogWeight::new(1.0)))
    }
}
impl SW for GallicWeight<TropicalWeight> {
    const N: &'static str = "gallic";
    fn any(r: &mut Rng) -> Self {
        (rustfst::semirings::StringWeightRestrict::from(vec![1 + r.below(3) as Label]), TropicalWeight::any(r)).into()
    }
}

fn gen<W: SW>(r: &mut Rng) -> VectorFst<W> {
    let n = r.below(5);
    let mut f = VectorFst::new();
    f.add_states(n);
    for q in 0..n {
        for _ in 0..r.below(3) {
            let w = W::any(r);
            f.add_tr(q as StateId, Tr::new(r.below(3) as Label, r.below(3) as Label, w, r.below(n) as StateId)).unwrap();
        }
        if r.chance(1, 3) {
            let w = W::any(r);
            f.set_final(q as StateId, w).unwrap();
        }
    }
    if n > 0 && !r.chance(1, 6) {
        f.set_start(r.below(n) as StateId).unwrap();
    }
    if r.chance(1, 4) {
        f.set_input_symbols(Arc::new(table(r)));
    }
    if r.chance(1, 4) {
        f.set_output_symbols(Arc::new(table(r)));
    }
    f
}
fn table(r: &mut Rng) -> SymbolTable {
    let mut t = SymbolTable::new();
    for _ in 0..r.below(4) {
        t.add_symbol(*r.pick(&["a", "b", "éé", "", "long symbol"]));
    }
    t
}

fn mutate(r: &mut Rng, b: &mut Vec<u8>, other: &[u8]) -> String {
    let mut log = String::new();
    let k = *r.pick(&[1, 1, 1, 2, 3]);
    for _ in 0..k {
        if b.is_empty() {
            b.push(r.next() as u8);
        }
        let p = r.below(b.len());
        match r.below(11) {
            0 => {
                b.truncate(p);
                log += &format!(" truncate@{}", p);
            }
            1 => {
                b[p] ^= 1 << r.below(8);
                log += &format!(" flip@{}", p);
            }
            2 => {
                b[p] = *r.pick(&[0, 1, 0x7f, 0x80, 0xff]);
                log += &format!(" set@{}", p);
            }
            3 | 4 | 5 => {
                // a 4 or 8 byte field, preferably one that is a small number now
                let w = if r.bool() { 4 } else { 8 };
                let v: i64 = *r.pick(&[-1, -2, 0, 1, 2, 3, 4, 5, 6, 8, 100, 1000, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff, 0x1_0000_0000, 0x1_0000_0001, i64::MAX, i64::MIN, 1 << 40]);
                let mut pos = p;
                for _ in 0..20 {
                    if pos + 4 <= b.len() && b[pos + 1] == 0 && b[pos + 2] == 0 && b[pos + 3] == 0 && b[pos] < 16 {
                        break;
                    }
                    pos = r.below(b.len());
                }
                if pos + w <= b.len() {
                    let by = v.to_le_bytes();
                    b[pos..pos + w].copy_from_slice(&by[..w]);
                    log += &format!(" field{}@{}={}", w, pos, v);
                }
            }
            6 => {
                let q = r.range(p, (p + 16).min(b.len() - 1));
                b.drain(p..=q);
                log += &format!(" delete@{}..{}", p, q);
            }
            7 => {
                let q = r.range(p, (p + 16).min(b.len() - 1));
                let c: Vec<u8> = b[p..=q].to_vec();
                for (i, x) in c.into_iter().enumerate() {
                    b.insert(p + i, x);
                }
                log += &format!(" double@{}..{}", p, q);
            }
            8 => {
                if !other.is_empty() {
                    let q = r.below(other.len());
                    b.truncate(p);
                    b.extend_from_slice(&other[q..]);
                    log += &format!(" splice@{}/{}", p, q);
                }
            }
            9 => {
                for _ in 0..r.below(9) {
                    b.insert(p, r.next() as u8);
                }
                log += &format!(" insert@{}", p);
            }
            _ => {
                // swap two words
                let q = r.below(b.len());
                if p + 4 <= b.len() && q + 4 <= b.len() {
                    for i in 0..4 {
                        b.swap(p + i, q + i);
                    }
                }
                log += &format!(" swap@{}/{}", p, q);
            }
        }
    }
    log
}

/// a loaded machine has an existing start, existing destinations and consistent counts, and can be walked and written
fn sound<W: SW, F: SerializableFst<W>>(ctx: &mut Ctx, op: &str, g: &F, len: usize) {
    let n = g.num_states();
    chk!(ctx, n <= len + 8, "too-many-states", "{} states from {} bytes", n, len);
    if let Some(s) = g.start() {
        chk!(ctx, (s as usize) < n, "bad-start", "start state {} of a machine with {} states", s, n);
    }
    if ctx.failed() {
        return;
    }
    let mut total = 0;
    let r = ctx.guard(&format!("walk-{}", op), || -> Result<(), String> {
        for q in 0..n as StateId {
            let trs = g.get_trs(q).map_err(|e| e.to_string())?;
            let v: Vec<Tr<W>> = trs.trs().to_vec();
            total += v.len();
            if total > len {
                return Err(format!("more than {} transitions from {} bytes", total, len));
            }
            for t in &v {
                if t.nextstate as usize >= n {
                    return Err(format!("transition {:?} of state {} leads nowhere ({} states)", t, q, n));
                }
            }
            let counts = (g.num_trs(q).ok(), g.num_input_epsilons(q).ok(), g.num_output_epsilons(q).ok());
            let want = (Some(v.len()), Some(v.iter().filter(|t| t.ilabel == 0).count()), Some(v.iter().filter(|t| t.olabel == 0).count()));
            if counts != want {
                return Err(format!("counts of state {}: {:?} instead of {:?}", q, counts, want));
            }
            g.final_weight(q).map_err(|e| e.to_string())?;
        }
        if g.states_iter().count() != n {
            return Err("states_iter disagrees with num_states".into());
        }
        Ok(())
    });
    match r {
        Some(Ok(())) => {}
        Some(Err(e)) => {
            ctx.fail(&format!("bad-machine:{}", op), e);
            return;
        }
        None => return,
    }
    ctx.count(&format!("loaded_machines_walked_{}", op));
    let mut o = vec![];
    ctx.guard_ok(&format!("store-loaded-{}", op), || g.store(&mut o));
    ctx.guard_ok(&format!("text-loaded-{}", op), || g.text());
    ctx.guard(&format!("debug-loaded-{}", op), || format!("{:?}", g).len());
    // other processing needs no more than a sound machine
    if !ctx.failed() {
        ctx.guard(&format!("process-loaded-{}", op), || {
            let mut v: VectorFst<W> = rustfst::algorithms::fst_convert_from_ref(g);
            let _ = rustfst::algorithms::connect(&mut v);
            v.num_states()
        });
    }
}

fn binary<W: SW>(ctx: &mut Ctx) {
    let f: VectorFst<W> = gen(&mut ctx.rng);
    let konst = ctx.rng.bool();
    let store = |f: VectorFst<W>| -> Vec<u8> {
        let mut b = vec![];
        if konst {
            ConstFst::from(f).store(&mut b).unwrap();
        } else {
            f.store(&mut b).unwrap();
        }
        b
    };
    let mut b = store(f);
    let other = store(gen(&mut ctx.rng));
    let mut rng = ctx.rng.fork();
    let name = if konst { "const" } else { "vector" };
    let all = rng.chance(1, 25);
    let from_const = rng.chance(1, 20);
    let try_one = |ctx: &mut Ctx, b: &[u8]| {
        let cap = 1 << 20 | 512 * b.len();
        if konst {
            if let Some(Ok(g)) = measured(ctx, "load-const", cap, || ConstFst::<W>::load(b)) {
                sound(ctx, "const", &g, b.len());
            } else {
                ctx.count("rejected_binary");
            }
            if from_const {
                let p = std::env::temp_dir().join(format!("fstmon-c17-{}", std::process::id()));
                std::fs::write(&p, b).unwrap();
                if let Some(Ok(g)) = measured(ctx, "read-from-const", cap, || VectorFst::<W>::read_from_const(&p)) {
                    sound(ctx, "const-as-vector", &g, b.len());
                    ctx.count("loaded_const_as_vector");
                }
                let _ = std::fs::remove_file(&p);
            }
        } else if let Some(Ok(g)) = measured(ctx, "load-vector", cap, || VectorFst::<W>::load(b)) {
            sound(ctx, "vector", &g, b.len());
        } else {
            ctx.count("rejected_binary");
        }
    };
    if all {
        // every truncation
        for k in 0..b.len() {
            ctx.input = format!("{} {} truncated to {} of {:?}", name, W::N, k, b);
            try_one(ctx, &b[..k]);
            ctx.count("truncations");
        }
        return;
    }
    let log = if rng.chance(1, 30) {
        b = (0..rng.below(200)).map(|_| rng.next() as u8).collect();
        " random".to_string()
    } else {
        mutate(&mut rng, &mut b, &other)
    };
    ctx.input = format!("{} {}{} {:?}", name, W::N, log, b);
    ctx.distinct(hash(&b));
    let smp = ctx.input.clone();
    ctx.sample(|| smp);
    try_one(ctx, &b);
    // the wrong kind of machine or weight
    if rng.chance(1, 20) {
        if let Some(Ok(_)) = measured(ctx, "load-other", 1 << 20 | 512 * b.len(), || if konst { VectorFst::<LogWeight>::load(&b).map(|_| ()) } else { ConstFst::<LogWeight>::load(&b).map(|_| ()) }) {
            ctx.fail("wrong-type-accepted", "a file of another type was loaded");
        }
        ctx.count("wrong_types_offered");
    }
}
fn hash(b: &[u8]) -> u64 {
    use std::hash::{Hash, Hasher};
    let mut h = std::collections::hash_map::DefaultHasher::new();
    b.hash(&mut h);
    h.finish()
}

/// what a line of the text format means, read independently
#[derive(Debug, PartialEq, Clone)]
enum Verdict {
    Good,
    Bad,
    Unknown,
}
fn number(s: &str) -> Option<u32> {
    if !s.is_empty() && s.bytes().all(|c| c.is_ascii_digit()) {
        s.parse().ok()
    } else {
        None
    }
}
fn weight_tok(s: &str) -> Verdict {
    let t = s.strip_prefix('-').unwrap_or(s);
    let plain = |t: &str| -> bool {
        let mut it = t.splitn(2, '.');
        let a = it.next().unwrap();
        let d = |x: &str| !x.is_empty() && x.len() < 30 && x.bytes().all(|c| c.is_ascii_digit());
        d(a) && it.next().map_or(true, d)
    };
    if plain(t) || s == "inf" || s == "Infinity" {
        Verdict::Good
    } else if s.is_empty() || s.bytes().all(|c| !c.is_ascii_digit() && !b"eEiInNaA.+-".contains(&c)) {
        Verdict::Bad
    } else {
        Verdict::Unknown
    }
}
fn text_verdict(t: &str) -> (Verdict, u32) {
    let mut v = Verdict::Good;
    let mut maxid = 0;
    // whitespace at the end of the text may be taken or refused
    let body = t.trim_end();
    if body.is_empty() {
        return (if t.is_empty() || t == "\n" { Verdict::Good } else { Verdict::Unknown }, 0);
    }
    if t.len() > body.len() && &t[body.len()..] != "\n" {
        v = Verdict::Unknown;
    }
    for l in body.split('\n') {
        let fs: Vec<&str> = l.split('\t').collect();
        let nums = match fs.len() {
            1 | 2 => 1,
            4 | 5 => 4,
            _ => return (Verdict::Bad, maxid),
        };
        for (i, x) in fs[..nums].iter().enumerate() {
            match number(x) {
                Some(k) if i < 2 => maxid = maxid.max(k),
                Some(_) => {}
                None if x.contains(' ') || x.contains('\r') || x.starts_with('+') => return (Verdict::Unknown, maxid),
                None => return (Verdict::Bad, maxid),
            }
        }
        if fs.len() == nums + 1 {
            match weight_tok(fs[nums]) {
                Verdict::Good => {}
                Verdict::Bad => return (Verdict::Bad, maxid),
                Verdict::Unknown => v = Verdict::Unknown,
            }
        }
    }
    (v, maxid)
}

fn text(ctx: &mut Ctx) {
    let f: VectorFst<TropicalWeight> = gen(&mut ctx.rng);
    let mut rng = ctx.rng.fork();
    let t = f.text().unwrap();
    let mut lines: Vec<Vec<String>> = t.lines().map(|l| l.split('\t').map(|x| x.to_string()).collect()).collect();
    let k = *rng.pick(&[0, 1, 1, 2, 3]);
    let mut ending = "\n".to_string();
    let mut sep = "\n";
    let mut raw: Option<String> = None;
    for _ in 0..k {
        let l = if lines.is_empty() { 0 } else { rng.below(lines.len()) };
        match rng.below(11) {
            0 => ending = rng.pick(&["", "\n\n", "\n \n", "\t", "\r\n"]).to_string(),
            1 => lines.insert(l, vec![]),
            2 => lines.push(vec!["garbage".into()]),
            3 if !lines.is_empty() => {
                lines.remove(l);
            }
            4 if !lines.is_empty() => lines[l].push(rng.pick(&["", "7", "0.5", "x"]).to_string()),
            5 if !lines.is_empty() && !lines[l].is_empty() => {
                let i = rng.below(lines[l].len());
                lines[l].remove(i);
            }
            6 | 7 | 8 if !lines.is_empty() && !lines[l].is_empty() => {
                let i = rng.below(lines[l].len());
                lines[l][i] = rng.pick(&["-1", "99999999999", "4294967296", "", "x", "1e3", "1e999", "nan", "inf", "Infinity", "-inf", "0x1", "1.5", "0", "3", "7", "٣", "1 ", "+1", "é"]).to_string();
            }
            9 => sep = *rng.pick(&["\r\n", " ", "\n\n"]),
            _ => {
                let s = format!("{}{}", lines.iter().map(|l| l.join("\t")).collect::<Vec<_>>().join(sep), ending);
                let cut = rng.below(s.chars().count() + 1);
                raw = Some(s.chars().take(cut).collect());
            }
        }
    }
    let s = raw.unwrap_or_else(|| if lines.is_empty() { String::new() } else { format!("{}{}", lines.iter().map(|l| l.join("\t")).collect::<Vec<_>>().join(sep), ending) });
    ctx.input = format!("text {:?}", s);
    ctx.distinct(hash(s.as_bytes()));
    let (v, maxid) = text_verdict(&s);
    if maxid > 100_000 {
        ctx.count("large_state_number_skipped");
        return;
    }
    let cap = (1 << 20) + 512 * s.len() + 512 * maxid as usize;
    let a = measured(ctx, "text-vector", cap, || VectorFst::<TropicalWeight>::from_text_string(&s));
    let b = measured(ctx, "text-const", cap, || ConstFst::<TropicalWeight>::from_text_string(&s));
    let (Some(a), Some(b)) = (a, b) else { return };
    chk!(ctx, a.is_ok() == b.is_ok(), "text-disagree", "vector {:?}, const {:?}", a.is_ok(), b.is_ok());
    match v {
        Verdict::Good => {
            chk!(ctx, a.is_ok(), "good-text-rejected", "{:?}", a.as_ref().err());
            ctx.count("good_texts");
        }
        Verdict::Bad => {
            chk!(ctx, a.is_err(), "bad-text-accepted", "some line cannot be understood, yet loaded as {:?}", a.as_ref().ok());
            ctx.count("bad_texts");
        }
        Verdict::Unknown => ctx.count("unjudged_texts"),
    }
    if let Ok(g) = a {
        let len = s.len() + maxid as usize + 2;
        sound(ctx, "text", &g, len);
        if v == Verdict::Good {
            // every line is there
            let (mut trs, mut fins) = (0, std::collections::BTreeSet::new());
            for l in s.split('\n').filter(|l| !l.is_empty()) {
                let fs: Vec<&str> = l.split('\t').collect();
                if fs.len() >= 4 {
                    trs += 1
                } else if fs.get(1).map_or(true, |w| *w != "inf" && *w != "Infinity") {
                    fins.insert(fs[0].parse::<usize>().unwrap());
                }
            }
            let got: usize = (0..g.num_states() as StateId).map(|q| g.num_trs(q).unwrap()).sum();
            let gf = (0..g.num_states()).filter(|q| g.final_weight(*q as StateId).unwrap().map_or(false, |w| !w.is_zero())).count();
            // a later line may change an earlier final weight, so only the count of states that can be final is bounded
            chk!(ctx, got == trs && gf <= fins.len(), "text-lines-lost", "{} transitions instead of {}, {} final states of {}", got, trs, gf, fins.len());
        }
    }
    if let Ok(g) = b {
        sound(ctx, "text-const", &g, s.len() + maxid as usize + 2);
    }
}

fn symt(ctx: &mut Ctx) {
    let mut rng = ctx.rng.fork();
    let t = table(&mut rng);
    static K: AtomicUsize = AtomicUsize::new(0);
    let p = std::env::temp_dir().join(format!("fstmon-c17-{}-{}", std::process::id(), K.fetch_add(1, Relaxed)));
    let ok_table = |ctx: &mut Ctx, t: &SymbolTable| {
        let n = t.len();
        for i in 0..n {
            let s = t.get_symbol(i as Label).map(|s| s.to_string());
            let good = s.as_ref().map_or(false, |s| t.get_label(s) == Some(i as Label));
            chk!(ctx, good, "bad-symbol-table", "{:?}", t);
        }
        ctx.count("loaded_tables_checked");
    };
    if rng.bool() {
        t.write(&p).unwrap();
        let mut b = std::fs::read(&p).unwrap();
        let other = b.clone();
        let log = mutate(&mut rng, &mut b, &other);
        std::fs::write(&p, &b).unwrap();
        ctx.input = format!("symbol table{} {:?}", log, b);
        ctx.distinct(hash(&b));
        if let Some(Ok(t)) = measured(ctx, "symt-read", (1 << 20) + 512 * b.len(), || SymbolTable::read(&p)) {
            ok_table(ctx, &t);
        }
    } else {
        let mut t = SymbolTable::new();
        for _ in 0..rng.below(4) {
            t.add_symbol(*rng.pick(&["a", "b", "éé", "", "c"]));
        }
        let s0 = t.text().unwrap();
        let mut ls: Vec<String> = s0.lines().map(|x| x.to_string()).collect();
        let l = rng.below(ls.len());
        match rng.below(8) {
            0 => ls[l] = "a".into(),
            1 => ls[l] = "a b c".into(),
            2 => ls[l] = "a\t-1".into(),
            3 => ls[l] = "a\t99999999999".into(),
            4 => ls.insert(l, String::new()),
            5 => ls.push("garbage".into()),
            6 => {
                ls.remove(l);
            }
            _ => {}
        }
        let s = ls.join("\n") + *rng.pick(&["", "\n", "\n\n"]);
        ctx.input = format!("symbol table text {:?}", s);
        ctx.distinct(hash(s.as_bytes()));
        // lines "symbol label" with labels counting from 0 are good, anything else bad
        let mut good = true;
        let body = s.trim_end_matches('\n');
        let mut seen = vec![];
        if !body.is_empty() {
            for (i, l) in body.split('\n').enumerate() {
                let f: Vec<&str> = l.split('\t').collect();
                good &= f.len() == 2 && !f[0].contains(' ') && number(f[1]) == Some(i as u32) && !seen.contains(&f[0].to_string());
                seen.push(f[0].to_string());
            }
        }
        match measured(ctx, "symt-text", (1 << 20) + 512 * s.len(), || SymbolTable::from_text_string(&s)) {
            Some(Ok(t)) => {
                chk!(ctx, good, "bad-symbol-text-accepted", "loaded as {:?}", t);
                chk!(ctx, !good || t.len() == seen.len(), "symbol-text-lines-lost", "loaded as {:?}", t);
                ok_table(ctx, &t);
            }
            Some(Err(e)) => chk!(ctx, !good, "good-symbol-text-rejected", "{}", e),
            None => {}
        }
        ctx.count(if good { "good_symbol_texts" } else { "bad_symbol_texts" });
    }
    let _ = std::fs::remove_file(&p);
}

fn files(ctx: &mut Ctx) {
    let p = std::env::temp_dir().join(format!("fstmon-c17-none-{}", std::process::id()));
    ctx.input = "missing file, directory, non-UTF-8 text".into();
    macro_rules! err {
        ($e:expr) => {
            if let Some(r) = ctx.guard("read", || $e.map(|_| ())) {
                chk!(ctx, r.is_err(), "unreadable-accepted", "{}", stringify!($e));
                ctx.count("unreadable_files_offered");
            }
        };
    }
    let d = std::env::temp_dir();
    for q in [&p, &d] {
        err!(VectorFst::<TropicalWeight>::read(q));
        err!(ConstFst::<TropicalWeight>::read(q));
        err!(VectorFst::<TropicalWeight>::read_text(q));
        err!(SymbolTable::read(q));
        err!(SymbolTable::read_text(q));
    }
    std::fs::write(&p, [b'0', b'\t', 0xff, 0xfe, b'\n']).unwrap();
    err!(VectorFst::<TropicalWeight>::read_text(&p));
    err!(SymbolTable::read_text(&p));
    std::fs::write(&p, []).unwrap();
    err!(VectorFst::<TropicalWeight>::read(&p));
    err!(ConstFst::<TropicalWeight>::read(&p));
    err!(SymbolTable::read(&p));
    std::fs::remove_file(&p).unwrap();
}

pub fn case(ctx: &mut Ctx) {
    match ctx.rng.below(24) {
        0 => symt(ctx),
        1..=5 => text(ctx),
        6..=13 => binary::<TropicalWeight>(ctx),
        14..=16 => binary::<IntegerWeight>(ctx),
        17..=19 => binary::<StringWeightLeft>(ctx),
        20..=21 => binary::<ProductWeight<TropicalWeight, LogWeight>>(ctx),
        _ => binary::<GallicWeight<TropicalWeight>>(ctx),
    }
}

fn main() {
    run(Prop {
        id: "C17",
        quick: 600_000,
        thorough: 40_000_000,
        rule: "valid binary files of both representations over 5 weight types, texts and symbol tables, damaged by truncation (every length), bit flips, field overwrites with extreme values, deletions, insertions, splices; purely random bytes. Monitors: no panic, abort or hang, peak memory (counting allocator) within a multiple of the input size, loaded machines have an existing start and destinations, consistent counts, and survive being walked, stored, printed and connected; texts with a line that cannot be understood are rejected, others keep every line. Non-trivial: every distinct damaged input.",
        case,
        fixed: &[("files", files)],
        must: &["loaded_const_as_vector", "rejected_binary", "truncations", "loaded_machines_walked_vector", "loaded_machines_walked_const", "loaded_machines_walked_text", "good_texts", "bad_texts", "loaded_tables_checked", "bad_symbol_texts", "wrong_types_offered", "unreadable_files_offered"],
        assumptions: &["a text may name a large state number, and memory is then allowed in proportion to it", "property bits stored in a binary file are taken on trust, as in OpenFst"],
        ..DEFAULT
    });
}
