//! C20: a symbol table is a stable two-way mapping, whatever was added to it and in which order.
use fstmon::chk;
use fstmon::driver::*;
use fstmon::rng::{hash_str, mix, Rng};
use rustfst::prelude::*;
use std::hash::{BuildHasher, BuildHasherDefault, Hasher};
use std::path::PathBuf;

/// A hasher under which nearly everything collides.
#[derive(Default, Clone)]
struct Coll(u64);
impl Hasher for Coll {
    fn finish(&self) -> u64 {
        self.0 & 1
    }
    fn write(&mut self, b: &[u8]) {
        self.0 += b.len() as u64;
    }
}
type CollBuild = BuildHasherDefault<Coll>;

const EPS: &str = "<eps>";

fn symbol(r: &mut Rng, pool: &[String]) -> String {
    if !pool.is_empty() && r.chance(1, 3) {
        let p = r.pick(pool).clone();
        // near misses of known symbols
        return match r.below(6) {
            0 => p.to_uppercase(),
            1 => format!("{} ", p),
            2 => format!("{}\u{301}", p),
            3 => p.chars().rev().collect(),
            _ => p,
        };
    }
    match r.below(9) {
        0 => String::new(),
        1 => EPS.into(),
        2 => r.pick(&["<EPS>", "<eps", "eps", "<sigma>", "0", "1", "-1", "ab", "a b", "\t", "\n", "a\tb", "\u{0}", "é", "e\u{301}", "語", "👨‍👩‍👧", "\u{feff}a", "\u{a0}", "\r"]).to_string(),
        3 => format!("{}", r.below(20)),
        4 => (0..r.range(1, 40)).map(|_| (b'a' + r.below(26) as u8) as char).collect(),
        _ => (0..r.range(1, 3)).map(|_| (b'a' + r.below(4) as u8) as char).collect(),
    }
}

/// The table answers exactly as the list of symbols does.
fn look<H: BuildHasher>(t: &SymbolTable<H>, m: &[String], probes: &[String]) -> Result<(), (&'static str, String)> {
    macro_rules! eq {
        ($k:expr, $a:expr, $b:expr) => {{
            let (a, b) = ($a, $b);
            if a != b {
                return Err(($k, format!("{} gives {:?} instead of {:?}", stringify!($a), a, b)));
            }
        }};
    }
    eq!("len", t.len(), m.len());
    eq!("is_empty", t.is_empty(), m.is_empty());
    for (i, s) in m.iter().enumerate() {
        let i = i as Label;
        eq!("get_symbol", t.get_symbol(i), Some(s.as_str()));
        eq!("get_label", t.get_label(s), Some(i));
        eq!("contains", (t.contains_symbol(s), t.contains_label(i)), (true, true));
    }
    for l in [m.len() as Label, m.len() as Label + 1, u32::MAX, u32::MAX - 1, 1 << 31] {
        eq!("unknown-label", (t.get_symbol(l), t.contains_label(l)), (None, false));
    }
    for s in probes {
        let want = m.iter().position(|x| x == s).map(|x| x as Label);
        eq!("probe", (t.get_label(s), t.contains_symbol(s)), (want, want.is_some()));
    }
    let mut ls: Vec<Label> = t.labels().collect();
    ls.sort();
    eq!("labels", ls, (0..m.len() as Label).collect::<Vec<_>>());
    let mut ss: Vec<String> = t.symbols().map(|s| s.to_string()).collect();
    ss.sort();
    let mut ms = m.to_vec();
    ms.sort();
    eq!("symbols", ss, ms);
    let mut it: Vec<(Label, String)> = t.iter().map(|(l, s)| (l, s.to_string())).collect();
    it.sort();
    eq!("iter", it, m.iter().enumerate().map(|(i, s)| (i as Label, s.clone())).collect::<Vec<_>>());
    // labels() and symbols() walk in the same order
    for (l, s) in t.labels().zip(t.symbols()) {
        eq!("parallel", t.get_symbol(l), Some(s));
    }
    Ok(())
}

fn plain(s: &str) -> bool {
    !s.is_empty() && !s.chars().any(|c| c.is_whitespace() || c.is_control() || c == '\u{feff}')
}

fn scratch(ctx: &Ctx) -> PathBuf {
    std::env::temp_dir().join(format!("fstmon-c20-{}-{}", std::process::id(), ctx.case))
}

fn history<H: BuildHasher + Clone>(ctx: &mut Ctx, mut t: SymbolTable<H>, mut m: Vec<String>, back: &dyn Fn(SymbolTable) -> Option<SymbolTable<H>>) {
    let mut rng = ctx.rng.fork();
    let mut log = format!("{:?}:", m);
    let mut pool: Vec<String> = m.clone();
    let mut h = m.len() as u64;
    let mut old: Vec<(SymbolTable<H>, Vec<String>)> = vec![];
    let p = scratch(ctx);
    let n = if rng.chance(1, 30) { 300 } else { rng.range(2, 25) };
    for _ in 0..n {
        let op = rng.below(12);
        h = mix(h ^ (op as u64) << 5);
        let before = m.len();
        let add = |m: &mut Vec<String>, s: &str| -> Label {
            match m.iter().position(|x| x == s) {
                Some(i) => i as Label,
                None => {
                    m.push(s.to_string());
                    m.len() as Label - 1
                }
            }
        };
        match op {
            0..=5 => {
                let s = symbol(&mut rng, &pool);
                log += &format!(" add {:?}", s);
                h = mix(h ^ hash_str(&s));
                let want = add(&mut m, &s);
                ctx.input = log.clone();
                let got = if rng.bool() { t.add_symbol(s.clone()) } else { t.add_symbol(s.as_str()) };
                chk!(ctx, got == want, "add-label", "add_symbol({:?}) gave {} instead of {}", s, got, want);
                ctx.count(if m.len() == before { "adds_of_known_symbols" } else { "adds_of_new_symbols" });
                pool.push(s);
            }
            6 => {
                let v: Vec<String> = (0..rng.below(5)).map(|_| symbol(&mut rng, &pool)).collect();
                log += &format!(" add_symbols {:?}", v);
                for s in &v {
                    h = mix(h ^ hash_str(s));
                    add(&mut m, s);
                }
                ctx.input = log.clone();
                t.add_symbols(v.clone());
                pool.extend(v);
                ctx.count("bulk_adds");
            }
            7 => {
                // merge: the other table's symbols in its label order
                let mut o = if rng.bool() { SymbolTable::new() } else { SymbolTable::empty() };
                for _ in 0..rng.below(6) {
                    o.add_symbol(symbol(&mut rng, &pool));
                }
                let v: Vec<String> = (0..o.len()).map(|l| o.get_symbol(l as Label).unwrap_or("").to_string()).collect();
                log += &format!(" add_table {:?}", v);
                for s in &v {
                    h = mix(h ^ hash_str(s));
                    add(&mut m, s);
                }
                ctx.input = log.clone();
                t.add_table(&o);
                if let Err((k, e)) = look(&o, &v, &pool) {
                    ctx.fail(&format!("merge-changed-source:{}", k), e);
                }
                pool.extend(v);
                ctx.count("merges");
            }
            8 => {
                log += " clone";
                old.push((t.clone(), m.clone()));
                if rng.chance(1, 3) {
                    t.reserve(rng.below(100));
                }
                if rng.chance(1, 4) && !old.is_empty() {
                    // go on from an older copy
                    let i = rng.below(old.len());
                    t = old[i].0.clone();
                    m = old[i].1.clone();
                    log += &format!(" back to {:?}", m);
                }
            }
            9 => {
                log += " save/load";
                ctx.input = log.clone();
                if ctx.guard_ok("write", || t.write(&p)).is_some() {
                    if let Some(l) = ctx.guard_ok("read", || SymbolTable::read(&p)) {
                        if let Err((k, e)) = look(&l, &m, &pool) {
                            ctx.fail(&format!("binary:{}", k), e);
                        }
                        ctx.count("binary_round_trips");
                        if let Some(x) = back(l) {
                            t = x;
                        }
                    }
                }
            }
            10 => {
                if m.iter().all(|s| plain(s)) {
                    log += " text";
                    ctx.input = log.clone();
                    if let Some(s) = ctx.guard_ok("text", || t.text()) {
                        chk!(ctx, s == format!("{}", t), "text-display", "text() and Display differ: {:?}", s);
                        if let Some(l) = ctx.guard_ok("from_text", || SymbolTable::from_text_string(&s)) {
                            if let Err((k, e)) = look(&l, &m, &pool) {
                                ctx.fail(&format!("text:{}", k), e);
                            }
                            ctx.count("text_round_trips");
                            if let Some(x) = back(l) {
                                t = x;
                            }
                        }
                        if ctx.guard_ok("write_text", || t.write_text(&p)).is_some() {
                            if let Some(l) = ctx.guard_ok("read_text", || SymbolTable::read_text(&p)) {
                                if let Err((k, e)) = look(&l, &m, &pool) {
                                    ctx.fail(&format!("text-file:{}", k), e);
                                }
                            }
                        }
                    }
                }
            }
            _ => {
                let s = symbol(&mut rng, &pool);
                pool.push(s);
            }
        }
        if n < 100 || rng.chance(1, 20) {
            if let Err((k, e)) = look(&t, &m, &pool) {
                ctx.fail(k, e);
                break;
            }
            ctx.count("states_compared_with_model");
        }
        if ctx.failed() {
            break;
        }
    }
    // copies are independent of the table they were taken from; equality is equality of the mapping
    for (c, cm) in &old {
        if let Err((k, e)) = look(c, cm, &pool) {
            ctx.fail(&format!("copy:{}", k), e);
        }
        chk!(ctx, (*c == t) == (*cm == m), "equality", "tables {:?} and {:?} compare {}", cm, m, *c == t);
        ctx.count(if *cm == m { "equal_pairs" } else { "unequal_pairs" });
    }
    let _ = std::fs::remove_file(&p);
    if m.len() >= 3 {
        ctx.distinct(h);
    }
    let s = log.clone();
    ctx.sample(|| s);
}

/// Same mapping or not, decided for tables built separately.
fn equality(ctx: &mut Ctx) {
    let mut rng = ctx.rng.fork();
    let v: Vec<String> = (0..rng.range(1, 6)).map(|_| symbol(&mut rng, &[])).collect();
    let mk = |v: &[String]| {
        let mut t = SymbolTable::empty();
        let mut m: Vec<String> = vec![];
        for s in v {
            t.add_symbol(s.clone());
            if !m.contains(s) {
                m.push(s.clone());
            }
        }
        (t, m)
    };
    let mut w = v.clone();
    match rng.below(5) {
        0 => {
            let (i, j) = (rng.below(w.len()), rng.below(w.len()));
            w.swap(i, j);
        }
        1 => w.push(symbol(&mut rng, &v)),
        2 => {
            w.pop();
        }
        3 => {
            let i = rng.below(w.len());
            w[i] = symbol(&mut rng, &v);
        }
        _ => {}
    }
    ctx.input = format!("{:?} and {:?}", v, w);
    let ((a, ma), (b, mb)) = (mk(&v), mk(&w));
    chk!(ctx, (a == b) == (ma == mb) && (b == a) == (ma == mb), "equality", "compare {} / {}", a == b, b == a);
    ctx.count(if ma == mb { "equal_pairs" } else { "unequal_pairs" });
    let t = symt!["a", "b", "a", "<eps>"];
    if let Err((k, e)) = look(&t, &["<eps>".into(), "a".into(), "b".into()], &v) {
        ctx.fail(&format!("macro:{}", k), e);
    }
}

pub fn case(ctx: &mut Ctx) {
    let eps = vec![EPS.to_string()];
    match ctx.rng.below(8) {
        0 => equality(ctx),
        1 => history::<CollBuild>(ctx, SymbolTable::with_hasher(CollBuild::default()), eps, &|_| None),
        2 => history(ctx, SymbolTable::empty(), vec![], &Some),
        3 => history(ctx, SymbolTable::default(), eps, &Some),
        _ => history(ctx, SymbolTable::new(), eps, &Some),
    }
}

/// Many symbols: labels stay dense and stable through growth.
fn big(ctx: &mut Ctx) {
    let mut t = SymbolTable::new();
    let n = 200_000u32;
    for i in 1..=n {
        let l = t.add_symbol(format!("s{}", i));
        if l != i {
            return ctx.fail("big-add", format!("symbol {} got label {}", i, l));
        }
    }
    let mut u = SymbolTable::new();
    u.add_symbols((0..n).rev().map(|i| format!("s{}", i)));
    t.add_table(&u);
    let p = scratch(ctx);
    t.write(&p).unwrap();
    let r = SymbolTable::read(&p).unwrap();
    for t in [&t, &r] {
        for i in 1..=n {
            let s = format!("s{}", i);
            if t.get_label(&s) != Some(i) || t.get_symbol(i) != Some(s.as_str()) {
                return ctx.fail("big", format!("symbol {}: {:?}, label: {:?}", s, t.get_label(&s), t.get_symbol(i)));
            }
        }
        chk!(ctx, t.get_label("s0") == Some(n + 1) && t.len() == n as usize + 2, "big-merge", "s0 has {:?} of {}", t.get_label("s0"), t.len());
    }
    let _ = std::fs::remove_file(&p);
    ctx.count("big_table");
}

fn main() {
    run(Prop {
        id: "C20",
        quick: 300_000,
        thorough: 10_000_000,
        rule: "random histories of additions (new, known and near-miss symbols, odd Unicode, empty and blank symbols), bulk additions, merges, clones, returns to older copies, binary and text save/load, on tables created with and without epsilon and with a colliding hasher; after each step every lookup, iterator and count is compared with a model list. Separately built tables are compared for equality. A table of 200000 symbols is grown, merged, saved and reloaded. Non-trivial: distinct histories ending with at least 3 symbols.",
        case,
        fixed: &[("big", big)],
        must: &["adds_of_known_symbols", "adds_of_new_symbols", "bulk_adds", "merges", "binary_round_trips", "text_round_trips", "states_compared_with_model", "equal_pairs", "unequal_pairs", "big_table"],
        assumptions: &["the order of iteration is not specified beyond labels() and symbols() walking in step; merged symbols get labels in the source's label order", "symbols that are empty or contain white space or control characters are not taken through the text form, which separates columns by white space"],
        ..DEFAULT
    });
}
