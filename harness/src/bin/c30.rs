//! C30: the Graphviz drawing of a machine shows that machine.
//!
//! The file written by `draw` is read back with a small parser of the DOT language, written from the
//! DOT grammar, and the graph found there is compared with the machine that was drawn.
use fstmon::chk;
use fstmon::driver::*;
use fstmon::gen::*;
use fstmon::refw::{WProfile, Wt};
use fstmon::rng::Rng;
use rustfst::prelude::*;
use std::collections::BTreeMap;
use std::path::PathBuf;
use std::sync::Arc;

type Attrs = BTreeMap<String, String>;
#[derive(Debug, Default)]
struct Graph {
    name: String,
    attrs: Attrs,
    nodes: Vec<(String, Attrs)>,
    edges: Vec<(String, String, Attrs)>,
}
#[derive(Debug, PartialEq, Clone)]
enum T {
    /// identifier, numeral or quoted string
    Id(String),
    P(char),
    Arrow,
}

/// DOT tokens. Inside a quoted string the only lexical escape is \" (a backslash stays).
fn lex(s: &str) -> Result<Vec<T>, String> {
    let c: Vec<char> = s.chars().collect();
    let (mut i, mut v) = (0, vec![]);
    while i < c.len() {
        let x = c[i];
        if x.is_whitespace() {
            i += 1
        } else if x == '"' {
            let mut t = String::new();
            i += 1;
            loop {
                match c.get(i) {
                    None => return Err("unterminated string".into()),
                    Some('"') => break,
                    Some('\\') if c.get(i + 1).is_some() => {
                        if c[i + 1] != '"' {
                            t.push('\\');
                        }
                        t.push(c[i + 1]);
                        i += 2;
                    }
                    Some(ch) => {
                        t.push(*ch);
                        i += 1;
                    }
                }
            }
            i += 1;
            v.push(T::Id(t));
        } else if x == '-' && c.get(i + 1) == Some(&'>') {
            v.push(T::Arrow);
            i += 2;
        } else if x.is_ascii_alphanumeric() || x == '_' || x == '.' || x == '-' {
            let mut t = String::new();
            while i < c.len() && (c[i].is_ascii_alphanumeric() || c[i] == '_' || c[i] == '.' || (c[i] == '-' && t.is_empty())) {
                t.push(c[i]);
                i += 1;
            }
            v.push(T::Id(t));
        } else if "{}[];,=".contains(x) {
            v.push(T::P(x));
            i += 1;
        } else {
            return Err(format!("character {:?} outside a string", x));
        }
    }
    Ok(v)
}

/// What a label attribute shows: the escapes of DOT labels resolved.
fn shown(s: &str) -> Result<String, String> {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\\' {
            match it.next() {
                Some('\\') => o.push('\\'),
                Some(x) => return Err(format!("label escape \\{}", x)),
                None => return Err("label ends in a backslash".into()),
            }
        } else {
            o.push(c)
        }
    }
    Ok(o)
}

fn parse(s: &str) -> Result<Graph, String> {
    let t = lex(s)?;
    let mut i = 0;
    let mut g = Graph::default();
    let id = |k: usize| match t.get(k) {
        Some(T::Id(s)) => Ok(s.clone()),
        o => Err(format!("identifier expected, found {:?} at token {}", o, k)),
    };
    if id(0)? != "digraph" {
        return Err("not a digraph".into());
    }
    g.name = id(1)?;
    i += 2;
    if t.get(i) != Some(&T::P('{')) {
        return Err("{ expected".into());
    }
    i += 1;
    let attrs = |i: &mut usize| -> Result<Attrs, String> {
        let mut a = Attrs::new();
        while t.get(*i) == Some(&T::P('[')) {
            *i += 1;
            while t.get(*i) != Some(&T::P(']')) {
                let k = id(*i)?;
                if t.get(*i + 1) != Some(&T::P('=')) {
                    return Err(format!("= expected after attribute {}", k));
                }
                let val = id(*i + 2)?;
                if a.insert(k.clone(), val).is_some() {
                    return Err(format!("attribute {} twice", k));
                }
                *i += 3;
                if matches!(t.get(*i), Some(T::P(',')) | Some(T::P(';'))) {
                    *i += 1;
                }
            }
            *i += 1;
        }
        Ok(a)
    };
    loop {
        match t.get(i) {
            Some(T::P('}')) => break,
            Some(T::P(';')) => i += 1,
            Some(T::Id(_)) => {
                let n = id(i)?;
                i += 1;
                match t.get(i) {
                    Some(T::P('=')) => {
                        g.attrs.insert(n, id(i + 1)?);
                        i += 2;
                    }
                    Some(T::Arrow) => {
                        let m = id(i + 1)?;
                        i += 2;
                        let a = attrs(&mut i)?;
                        g.edges.push((n, m, a));
                    }
                    _ => {
                        let a = attrs(&mut i)?;
                        g.nodes.push((n, a));
                    }
                }
            }
            o => return Err(format!("unexpected {:?} at token {}", o, i)),
        }
    }
    if i + 1 != t.len() {
        return Err("text after the closing brace".into());
    }
    Ok(g)
}

fn odd(r: &mut Rng, i: usize) -> String {
    match r.below(14) {
        0 => format!("a b{}", i),
        1 => format!("\"q{}\"", i),
        2 => format!("back\\slash{}", i),
        3 => format!("\\n{}", i),
        4 => format!("end{}\\", i),
        5 => format!("a:b/{}", i),
        6 => format!("]{};}}", i),
        7 => format!("語é{}", i),
        8 => format!("<b>{}", i),
        9 => format!("// {}", i),
        10 => format!("{}\"];x [label=\"", i),
        _ => format!("s{}", i),
    }
}

fn table(r: &mut Rng, max: u32, plain: bool) -> SymbolTable {
    let mut t = SymbolTable::new();
    let n = if r.chance(1, 12) { r.below(max as usize + 1) } else { max as usize + r.below(2) };
    for i in 0..n {
        t.add_symbol(if plain { format!("s{}", i) } else { odd(r, i) });
    }
    t
}

fn path(ctx: &Ctx, k: &str) -> PathBuf {
    std::env::temp_dir().join(format!("fstmon-c30-{}-{}-{}.dot", std::process::id(), ctx.case, k))
}

fn draw<W: Wt + SerializableSemiring, F: SerializableFst<W>>(ctx: &mut Ctx, what: &str, s: &Spec<W>, f: &F, c: &DrawingConfig) {
    let (it, ot) = (f.input_symbols().cloned(), f.output_symbols().cloned());
    let name = |t: &Option<Arc<SymbolTable>>, l: u32| match t {
        None => Some(l.to_string()),
        Some(t) => t.get_symbol(l).map(|x| x.to_string()),
    };
    let missing = s.arcs.iter().flatten().any(|a| name(&it, a.il).is_none() || name(&ot, a.ol).is_none());
    let p = path(ctx, what);
    let r = ctx.guard("draw", || f.draw(&p, c));
    let text = std::fs::read(&p).ok();
    let _ = std::fs::remove_file(&p);
    let Some(r) = r else { return };
    if s.start.is_none() {
        ctx.count("machines_without_a_start");
        return;
    }
    if missing {
        chk!(ctx, r.is_err(), "missing-symbol", "{}: a label without a symbol was drawn", what);
        ctx.count("missing_symbols_refused");
        return;
    }
    if let Err(e) = r {
        ctx.fail("error", format!("{}: draw failed: {:?}", what, e));
        return;
    }
    let Some(text) = text.and_then(|t| String::from_utf8(t).ok()) else {
        ctx.fail("no-file", format!("{}: no readable file was written", what));
        return;
    };
    ctx.input = format!("{} || {:?} || {}", ctx.input.split(" || ").next().unwrap_or(""), c, text.chars().take(1500).collect::<String>());
    let g = match parse(&text) {
        Ok(g) => g,
        Err(e) => {
            ctx.fail("not-dot", format!("{}: the file is not a DOT graph: {}", what, e));
            return;
        }
    };
    ctx.count("drawings_read_back");
    // the layout asked for
    let mut want = Attrs::new();
    want.insert("rankdir".into(), if c.vertical { "BT" } else { "LR" }.into());
    want.insert("orientation".into(), if c.portrait { "Portrait" } else { "Landscape" }.into());
    for (k, v) in &want {
        chk!(ctx, g.attrs.get(k) == Some(v), "layout", "{}: {} is {:?}, not {}", what, k, g.attrs.get(k), v);
    }
    chk!(ctx, g.attrs.get("label").map(|l| shown(l)) == Some(Ok(c.title.clone())), "title", "{}: title {:?}", what, g.attrs.get("label"));
    let nums = |s: Option<&String>| -> Option<Vec<f32>> { s.and_then(|s| s.split(',').map(|x| x.parse().ok()).collect()) };
    for (k, v) in [("size", c.size.map(|(a, b)| vec![a, b])), ("ranksep", c.ranksep.map(|x| vec![x])), ("nodesep", c.nodesep.map(|x| vec![x]))] {
        let got = g.attrs.get(k);
        chk!(ctx, got.is_some() == v.is_some() && nums(got) == v, "layout", "{}: {} is {:?}, wanted {:?}", what, k, got, v);
    }
    // every state once, with its finality and start mark
    let shows = |w: &W| c.print_weight && (c.show_weight_one || !w.is_one());
    let mut seen = BTreeMap::new();
    for (n, a) in &g.nodes {
        if seen.insert(n.clone(), a.clone()).is_some() {
            ctx.fail("state-twice", format!("{}: state {} is drawn twice", what, n));
        }
    }
    chk!(ctx, seen.len() == s.n(), "states", "{}: {} states drawn for {}", what, seen.len(), s.n());
    for q in 0..s.n() {
        let Some(a) = seen.get(&q.to_string()) else {
            ctx.fail("state-missing", format!("{}: state {} is not drawn", what, q));
            continue;
        };
        let label = match &s.fin[q] {
            Some(w) if shows(w) => format!("{}/{}", q, w),
            _ => q.to_string(),
        };
        let get = |k: &str| a.get(k).cloned().unwrap_or_default();
        chk!(ctx, shown(&get("label")).as_deref() == Ok(&label), "state-label", "{}: state {} is labelled {:?}, not {:?}", what, q, get("label"), label);
        chk!(ctx, (get("shape") == "doublecircle") == s.fin[q].is_some(), "final-mark", "{}: state {} has shape {}", what, q, get("shape"));
        chk!(ctx, (get("style") == "bold") == (s.start == Some(q)), "start-mark", "{}: state {} has style {}", what, q, get("style"));
        chk!(ctx, get("fontsize") == c.fontsize.to_string(), "layout", "{}: state {} has font size {}", what, q, get("fontsize"));
    }
    // every transition once
    let mut want: Vec<(usize, usize, String)> = vec![];
    for (q, v) in s.arcs.iter().enumerate() {
        for a in v {
            let mut l = name(&it, a.il).unwrap();
            if !c.acceptor {
                l += &format!(":{}", name(&ot, a.ol).unwrap());
            }
            if shows(&a.w) {
                l += &format!("/{}", a.w);
            }
            want.push((q, a.to, l));
        }
    }
    let mut got = vec![];
    for (p, n, a) in &g.edges {
        let l = a.get("label").map(|l| shown(l));
        match (p.parse(), n.parse(), l) {
            (Ok(p), Ok(n), Some(Ok(l))) => got.push((p, n, l)),
            _ => ctx.fail("edge", format!("{}: edge {} -> {} with {:?}", what, p, n, a)),
        }
        chk!(ctx, a.get("fontsize") == Some(&c.fontsize.to_string()), "layout", "{}: edge font size {:?}", what, a.get("fontsize"));
    }
    want.sort();
    got.sort();
    chk!(ctx, want == got, "transitions", "{}: drawn {:?}, machine has {:?}", what, got, want);
    ctx.add("transitions_compared", want.len() as u64);
}

fn case_w<W: Wt + SerializableSemiring>(ctx: &mut Ctx) {
    let mut c = GenCfg::new();
    c.nmax = 6;
    c.prof = if ctx.rng.chance(1, 4) { WProfile::Unweighted } else { WProfile::Normal };
    c.acceptor = ctx.rng.chance(1, 4);
    let mut s = gen_spec::<W>(&mut ctx.rng, &c);
    for f in s.fin.iter_mut() {
        if matches!(f, Some(w) if w.is_zero()) {
            *f = None;
        }
    }
    ctx.input = format!("{} {}", W::NAME, s.dump());
    let mut f = s.build_var(&mut ctx.rng);
    let max = s.arcs.iter().flatten().map(|a| a.il.max(a.ol)).max().unwrap_or(0);
    let plain = ctx.rng.chance(1, 3);
    if ctx.rng.chance(2, 3) {
        f.set_input_symbols(Arc::new(table(&mut ctx.rng, max, plain)));
        ctx.count("with_symbols");
    }
    if ctx.rng.chance(2, 3) {
        f.set_output_symbols(Arc::new(table(&mut ctx.rng, max, plain)));
    }
    let r = &mut ctx.rng;
    let opt = |r: &mut Rng| if r.bool() { Some(r.below(40) as f32 * 0.25) } else { None };
    let cfg = DrawingConfig {
        vertical: r.bool(),
        size: opt(r).map(|w| (w, w + 1.5)),
        title: r.pick(&["", "FST", "my title", "a:b/[c];", "été"]).to_string(),
        portrait: r.bool(),
        ranksep: opt(r),
        nodesep: opt(r),
        fontsize: r.below(30) as u32,
        acceptor: r.chance(1, 3),
        show_weight_one: r.bool(),
        print_weight: r.chance(3, 4),
    };
    draw(ctx, "vector", &s, &f, &cfg);
    if !s.is_trivial() {
        ctx.distinct(s.hash());
    }
    ctx.sample(|| s.dump());
    if ctx.rng.chance(1, 3) && !ctx.failed() {
        let k: ConstFst<W> = f.into();
        draw(ctx, "const", &s, &k, &cfg);
        ctx.count("const_drawings");
    }
}

pub fn case(ctx: &mut Ctx) {
    match ctx.rng.below(8) {
        0..=3 => case_w::<TropicalWeight>(ctx),
        4 => case_w::<LogWeight>(ctx),
        5 => case_w::<ProbabilityWeight>(ctx),
        6 => case_w::<IntegerWeight>(ctx),
        _ => case_w::<ProductWeight<TropicalWeight, LogWeight>>(ctx),
    }
}

fn main() {
    run(Prop {
        id: "C30",
        quick: 120_000,
        thorough: 4_000_000,
        rule: "random machines over 5 weight types, drawn with random drawing options, titles and symbol tables (symbols with quotes, backslashes, braces, separators, white space and non-ASCII letters; tables that lack a label); each file is read back with an independent DOT parser and the graph compared with the machine, state by state and transition by transition. Non-trivial: >=2 transitions.",
        case,
        fixed: &[],
        must: &["drawings_read_back", "transitions_compared", "const_drawings", "with_symbols", "missing_symbols_refused", "machines_without_a_start"],
        assumptions: &["weights are shown as their Display form, which other properties compare with their value", "a title is written as given, so that DOT escapes can be used in it: titles with quotes or backslashes are not generated", "what is drawn for a machine without a start state is not judged", "final weights equal to zero are not generated"],
        ..DEFAULT
    });
}
