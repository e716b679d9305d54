//! C26: every command of the command-line program, run as a process on real files, does what the
//! library call of the same name does, and reports failure through its exit status.
use anyhow::Result;
use fstmon::driver::*;
use fstmon::gen::*;
use fstmon::reffst::*;
use fstmon::refw::*;
use fstmon::rng::*;
use fstmon::util::*;
use rustfst::algorithms::compose::compose;
use rustfst::algorithms::determinize::*;
use rustfst::algorithms::rm_epsilon::rm_epsilon;
use rustfst::algorithms::tr_mappers::*;
use rustfst::prelude::*;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::Arc;
use std::time::{Duration, Instant};

type W = TropicalWeight;
type V = VectorFst<W>;

fn bin() -> PathBuf {
    std::env::current_exe().unwrap().with_file_name("rustfst-cli-under-test")
}

struct Scratch(PathBuf);
impl Scratch {
    fn new() -> Self {
        static N: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
        let n = N.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        let d = std::env::temp_dir().join(format!("fstmon-cli-{}-{}", std::process::id(), n));
        std::fs::create_dir_all(&d).expect("scratch directory");
        Scratch(d)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

enum Exit {
    Code(i32),
    Signal(String),
    Hang,
}

fn run_cli(args: &[String], dir: &Path) -> (Exit, String) {
    let errf = dir.join("stderr.txt");
    let e = std::fs::File::create(&errf).unwrap();
    let mut c = Command::new(bin())
        .args(args)
        .current_dir(dir)
        .env_remove("RUST_BACKTRACE")
        .env("RUST_LOG", "debug")
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(e)
        .spawn()
        .expect("the command-line program starts");
    let t0 = Instant::now();
    let st = loop {
        match c.try_wait().unwrap() {
            Some(s) => break s,
            None if t0.elapsed() > Duration::from_secs(30) => {
                let _ = c.kill();
                let _ = c.wait();
                return (Exit::Hang, String::new());
            }
            None => std::thread::sleep(Duration::from_micros(200)),
        }
    };
    let txt = std::fs::read_to_string(&errf).unwrap_or_default();
    let tail: String = txt.chars().rev().take(300).collect::<Vec<_>>().into_iter().rev().collect();
    match st.code() {
        Some(c) => (Exit::Code(c), tail),
        None => (Exit::Signal(format!("{}", st)), tail),
    }
}

fn lib<T>(f: impl FnOnce() -> Result<T>) -> Option<T> {
    catch_unwind(AssertUnwindSafe(f)).ok().and_then(|r| r.ok())
}

/// the stored content, weights bit for bit
fn content(v: &V) -> String {
    use std::fmt::Write;
    let mut s = String::new();
    write!(s, "start={:?} ", v.start()).unwrap();
    for q in v.states_iter() {
        write!(s, "{}:{:?}[", q, v.final_weight(q).unwrap().map(|w| w.value().to_bits())).unwrap();
        for t in v.get_trs(q).unwrap().trs() {
            write!(s, "({},{},{},{})", t.ilabel, t.olabel, t.weight.value().to_bits(), t.nextstate).unwrap();
        }
        s.push(']');
    }
    s
}

struct Plan {
    args: Vec<String>,
    /// the library call, from the machines as read from the files
    exp: Box<dyn Fn(&V, Option<&V>) -> Result<V>>,
    semantic: bool,
    binary: bool,
    name: String,
}

fn plan(rng: &mut Rng, deep_ok: bool) -> Plan {
    // (long-running commands only on acyclic machines)
    let names: &[&str] = if deep_ok {
        &["connect", "tr_sort", "project", "invert", "topsort", "reverse", "map", "map", "map", "shortestpath", "shortestpath", "rmfinalepsilon", "push", "push", "compose", "compose", "determinize", "minimize", "optimize"]
    } else {
        &["connect", "tr_sort", "project", "invert", "topsort", "reverse", "map", "map", "shortestpath", "rmfinalepsilon", "push", "compose"]
    };
    let name = *rng.pick(names);
    let mut o: Vec<String> = vec![];
    let mut semantic = false;
    let mut label = name.to_string();
    let sep = rng.bool();
    let opt = |o: &mut Vec<String>, k: &str, v: &str| {
        if sep {
            o.push(format!("--{}", k));
            o.push(v.to_string());
        } else {
            o.push(format!("--{}={}", k, v));
        }
    };
    let exp: Box<dyn Fn(&V, Option<&V>) -> Result<V>> = match name {
        "connect" => Box::new(|v, _| {
            let mut v = v.clone();
            connect(&mut v)?;
            Ok(v)
        }),
        "invert" => Box::new(|v, _| {
            let mut v = v.clone();
            invert(&mut v);
            Ok(v)
        }),
        "topsort" => Box::new(|v, _| {
            let mut v = v.clone();
            top_sort(&mut v)?;
            Ok(v)
        }),
        "optimize" => Box::new(|v, _| {
            let mut v = v.clone();
            optimize(&mut v)?;
            Ok(v)
        }),
        "reverse" => Box::new(|v, _| reverse(v)),
        "rmfinalepsilon" => Box::new(|v, _| {
            let mut v = v.clone();
            rm_final_epsilon(&mut v)?;
            Ok(v)
        }),
        "project" => {
            let out = rng.bool();
            if out {
                o.push("--project-output".into());
                label += "-output";
            }
            Box::new(move |v, _| {
                let mut v = v.clone();
                project(&mut v, if out { ProjectType::ProjectOutput } else { ProjectType::ProjectInput });
                Ok(v)
            })
        }
        "tr_sort" => {
            let k = rng.below(3);
            match k {
                1 => opt(&mut o, "sort_type", "ilabel"),
                2 => opt(&mut o, "sort_type", "olabel"),
                _ => {}
            }
            label += ["", "-ilabel", "-olabel"][k];
            Box::new(move |v, _| {
                let mut v = v.clone();
                if k == 2 {
                    tr_sort(&mut v, OLabelCompare {});
                } else {
                    tr_sort(&mut v, ILabelCompare {});
                }
                Ok(v)
            })
        }
        "determinize" => {
            let k = rng.below(4);
            let t = ["functional", "functional", "nonfunctional", "disambiguate"][k];
            if k > 0 {
                opt(&mut o, "det_type", t);
                label = format!("{}-{}", label, t);
            }
            Box::new(move |v, _| {
                let ty = match t {
                    "functional" => DeterminizeType::DeterminizeFunctional,
                    "nonfunctional" => DeterminizeType::DeterminizeNonFunctional,
                    _ => DeterminizeType::DeterminizeDisambiguate,
                };
                determinize_with_config(v, DeterminizeConfig::default().with_det_type(ty))
            })
        }
        "minimize" => {
            let nd = rng.bool();
            if nd {
                o.push("--allow-nondet".into());
                label += "-nondet";
            }
            Box::new(move |v, _| {
                let mut v = v.clone();
                minimize_with_config(&mut v, MinimizeConfig::default().with_allow_nondet(nd))?;
                Ok(v)
            })
        }
        "shortestpath" => {
            let (n, u) = (rng.below(5), deep_ok && rng.chance(1, 3));
            let n = if !deep_ok { n.min(2) } else { n };
            if n != 1 || rng.bool() {
                opt(&mut o, "nshortest", &n.to_string());
            }
            if u {
                o.push("--unique".into());
                label += "-unique";
            }
            label += ["-none", "-1", "-n", "-n", "-n"][n];
            Box::new(move |v, _| shortest_path_with_config(v, ShortestPathConfig::default().with_nshortest(n).with_unique(u)))
        }
        "push" => {
            let b: [bool; 5] = std::array::from_fn(|_| rng.bool());
            for (k, n) in ["to_final", "push_weights", "push_labels", "remove_total_weight", "remove_common_affix"].iter().enumerate() {
                if b[k] {
                    o.push(format!("--{}", n));
                    label += &format!("+{}", n);
                }
            }
            Box::new(move |v, _| {
                let mut t = PushType::empty();
                if b[1] {
                    t.insert(PushType::PUSH_WEIGHTS)
                }
                if b[2] {
                    t.insert(PushType::PUSH_LABELS)
                }
                if b[3] {
                    t.insert(PushType::REMOVE_TOTAL_WEIGHT)
                }
                if b[4] {
                    t.insert(PushType::REMOVE_COMMON_AFFIX)
                }
                push(v, if b[0] { ReweightType::ReweightToFinal } else { ReweightType::ReweightToInitial }, t)
            })
        }
        "map" => {
            let t = *rng.pick(&["", "identity", "arc_sum", "tr_sum", "arc_unique", "tr_unique", "input_epsilon", "output_epsilon", "invert", "plus", "times", "quantize", "rmweight"]);
            let w = *rng.pick(&[0.0f32, 0.5, 1.0, 2.25, 7.0]);
            if !t.is_empty() {
                opt(&mut o, "map_type", t);
            }
            if t == "plus" || t == "times" || rng.chance(1, 5) {
                opt(&mut o, "weight", &w.to_string());
            }
            label = format!("{}-{}", label, t);
            Box::new(move |v, _| {
                let mut v = v.clone();
                match t {
                    "arc_sum" | "tr_sum" => tr_sum(&mut v),
                    "arc_unique" | "tr_unique" => tr_unique(&mut v),
                    "input_epsilon" => tr_map(&mut v, &InputEpsilonMapper {})?,
                    "output_epsilon" => tr_map(&mut v, &OutputEpsilonMapper {})?,
                    "invert" => tr_map(&mut v, &InvertWeightMapper {})?,
                    "plus" => tr_map(&mut v, &PlusMapper::new(w))?,
                    "times" => tr_map(&mut v, &TimesMapper::new(w))?,
                    "quantize" => tr_map(&mut v, &QuantizeMapper::default())?,
                    "rmweight" => tr_map(&mut v, &RmWeightMapper {})?,
                    _ => {}
                }
                Ok(v)
            })
        }
        _ => {
            let k = rng.below(3);
            match k {
                1 => opt(&mut o, "compose_type", "default"),
                2 => opt(&mut o, "compose_type", "lookahead"),
                _ => {}
            }
            if k == 2 {
                label += "-lookahead";
                semantic = true;
            }
            Box::new(move |v, b| {
                let (mut v, mut b) = (v.clone(), b.unwrap().clone());
                if k == 2 {
                    tr_sort(&mut v, OLabelCompare {});
                    tr_sort(&mut b, ILabelCompare {});
                }
                compose::<W, V, V, V, _, _>(v, b)
            })
        }
    };
    let name2 = if name == "tr_sort" && rng.chance(1, 3) { "arcsort" } else { name };
    let mut args = vec![name2.to_string()];
    args.extend(o);
    Plan { args, exp, semantic, binary: name == "compose", name: label }
}

fn tables(rng: &mut Rng, v: &mut V) -> bool {
    let mk = |tag: &str| {
        let mut t = SymbolTable::new();
        for s in ["a", "b", "c", tag] {
            t.add_symbol(s);
        }
        Arc::new(t)
    };
    let mut any = false;
    if rng.chance(1, 3) {
        v.set_input_symbols(mk("in"));
        any = true;
    }
    if rng.chance(1, 3) {
        v.set_output_symbols(mk("out"));
        any = true;
    }
    any
}

fn machine(rng: &mut Rng, acyclic: bool, second: bool, by: usize) -> V {
    let mut g = GenCfg::new();
    g.nmax = 7;
    g.alpha = rng.range(1, 4) as u32;
    g.acyclic = acyclic;
    g.eps_i = *rng.pick(&[0, 0, 20]);
    g.eps_o = *rng.pick(&[0, 0, 20]);
    g.acceptor = rng.chance(1, 3);
    g.idet = rng.chance(1, 4);
    g.no_eps_cycle = true;
    let s: Spec<W> = gen_spec(rng, &g);
    let mut v = s.build();
    // the commands refuse to compose machines not known to be sorted
    match by {
        0 if second => tr_sort(&mut v, ILabelCompare {}),
        0 => tr_sort(&mut v, OLabelCompare {}),
        1 => v.compute_and_update_properties_all().map(|_| ()).unwrap_or(()),
        _ => {}
    }
    v
}

fn case(ctx: &mut Ctx) {
    let mut rng = ctx.rng.fork();
    let d = Scratch::new();
    let acyclic = rng.chance(3, 4);
    let p = plan(&mut rng, acyclic);
    let by = rng.below(4);
    let mut a = machine(&mut rng, acyclic, false, by.min(2));
    let mut b = machine(&mut rng, acyclic, true, by.min(2));
    if tables(&mut rng, &mut a) {
        ctx.count("machines_with_tables");
    }
    if p.semantic {
        // a look-ahead composition that reads shorter than it could is C05's subject
        let _ = rm_epsilon(&mut b);
    }
    let pa = d.0.join("a in.fst");
    let pb = d.0.join("b.fst");
    a.write(&pa).expect("writing the operand");
    b.write(&pb).expect("writing the operand");
    ctx.input = format!("{:?} on a: {}", p.args, content(&a));
    if p.binary {
        ctx.input += &format!(" b: {}", content(&b));
    }
    ctx.distinct(hash_str(&ctx.input));

    // faults
    let fault = if rng.chance(1, 4) { 1 + rng.below(9) } else { 0 };
    let mut args = p.args.clone();
    let mut out = d.0.join("out.fst");
    let mut ina = pa.clone();
    let mut must_fail = false;
    let mut fname = "";
    match fault {
        1 => {
            ina = d.0.join("missing.fst");
            must_fail = true;
            fname = "missing_input";
        }
        2 => {
            let by = std::fs::read(&pa).unwrap();
            let n = rng.below(by.len());
            std::fs::write(&pa, &by[..n]).unwrap();
            fname = "truncated_input";
        }
        3 => {
            let by: Vec<u8> = (0..rng.below(100)).map(|_| rng.next() as u8).collect();
            std::fs::write(&pa, &by).unwrap();
            fname = "garbage_input";
        }
        4 => {
            out = d.0.join("no_such_dir").join("out.fst");
            must_fail = true;
            fname = "unwritable_output";
        }
        5 => {
            out = pa.clone();
            fname = "in_place";
        }
        6 => {
            let bad = *rng.pick(&["--no-such-option", "--sort_type=sideways", "--map_type=nothing", "--det_type=never", "--nshortest=-1", "--nshortest=many", "--compose_type=x"]);
            args.push(bad.to_string());
            must_fail = true;
            fname = "bad_option";
        }
        7 => {
            let k = p.name.as_str();
            if k.starts_with("map-") {
                args = vec!["map".into(), "--map_type".into(), rng.pick(&["plus", "times"]).to_string()];
                if rng.bool() {
                    args.push("--weight".into());
                    args.push("heavy".into());
                }
                must_fail = true;
                fname = "bad_weight";
            }
        }
        8 => {
            let by = std::fs::read(&pa).unwrap();
            let mut by2 = by.clone();
            for _ in 0..rng.range(1, 4) {
                let i = rng.below(by2.len().min(60));
                by2[i] = rng.next() as u8;
            }
            std::fs::write(&pa, &by2).unwrap();
            fname = "damaged_input";
        }
        9 => {
            // an existing output is replaced
            std::fs::write(&out, b"something that was here before, long enough to show a partial overwrite........................................................................................................................................................................................................................................................................................................................................................").unwrap();
            fname = "output_exists";
        }
        _ => {}
    }
    // (repeating a command that writes over its input repeats its effect)
    let bench = rng.chance(1, 8) && out != ina;
    let md = d.0.join("report.md");
    let with_md = rng.chance(1, 6);
    if bench {
        args.push("--bench".into());
        args.push(format!("--n_iters={}", rng.range(1, 3)));
        args.push(format!("--n_warm_ups={}", rng.below(2)));
    }
    if with_md {
        args.push("--export-markdown".into());
        args.push(md.display().to_string());
    }
    // positional arguments may come before, between or after the options
    let mut pos = vec![ina.display().to_string()];
    if p.binary {
        pos.push(pb.display().to_string());
    }
    pos.push(out.display().to_string());
    if rng.bool() {
        let k = 1;
        for (i, x) in pos.iter().enumerate() {
            args.insert(k + i, x.clone());
        }
    } else {
        args.extend(pos);
    }
    if !fname.is_empty() {
        ctx.count(&format!("fault:{}", fname));
    }
    ctx.input = format!("{:?} [{}] || {}", args, fname, ctx.input);

    // what the library does with these files
    let before_a = std::fs::read(&ina).ok();
    let before_b = std::fs::read(&pb).ok();
    let before_out = std::fs::read(&out).ok();
    let mut tabs = (None, None);
    let mut refs = None;
    let expected: Option<V> = if must_fail {
        None
    } else {
        lib(|| {
            let x = V::read(&ina)?;
            let y = if p.binary { Some(V::read(&pb)?) } else { None };
            let r = (p.exp)(&x, y.as_ref())?;
            // (as a file stores it: a zero final weight is no final weight)
            let q = d.0.join("expected.fst");
            r.write(&q)?;
            let r = V::read(&q)?;
            if p.semantic {
                refs = extract::<W, V>(&r).ok();
            }
            Ok(r)
        })
    };
    if let Some(e) = &expected {
        tabs = (e.input_symbols().cloned(), e.output_symbols().cloned());
    }
    let t0 = Instant::now();
    let (st, err) = run_cli(&args, &d.0);
    ctx.add("process_ms", t0.elapsed().as_millis() as u64);
    ctx.count("processes");
    let code = match st {
        Exit::Code(c) => c,
        Exit::Signal(s) => {
            ctx.fail("crash", format!("the program died: {}; stderr: {}", s, err));
            return;
        }
        Exit::Hang => {
            ctx.fail("hang", "the program did not end within 30 s, the library call did".to_string());
            return;
        }
    };
    if out != ina && std::fs::read(&ina).ok() != before_a || std::fs::read(&pb).ok() != before_b {
        ctx.fail("inputs", "an input file was changed".to_string());
        return;
    }
    // a report is written exactly when a benchmark was asked for and went through
    let report = md.exists();
    if report && !bench {
        ctx.fail("bench", "a benchmark was run (its report exists) although --bench was not given".to_string());
        return;
    }
    match expected {
        None => {
            ctx.count("failures_expected");
            if p.semantic && !must_fail && code == 0 {
                // the reference route (plain composition) may refuse what look-ahead accepts
                ctx.count("lookahead_unjudged");
                return;
            }
            if code == 0 {
                ctx.fail("exit:success", format!("{}: the call fails, the program exits with success; stderr: {}", p.name, err));
                return;
            }
            if !must_fail || fault != 4 {
                let now = std::fs::read(&out).ok();
                if now != before_out {
                    ctx.fail("output-on-failure", format!("{}: the call fails, yet the output file was touched", p.name));
                }
            }
        }
        Some(e) => {
            if code != 0 {
                ctx.fail("exit:failure", format!("{}: the call succeeds, the program exits with {}; stderr: {}", p.name, code, err));
                return;
            }
            let got = match lib(|| V::read(&out)) {
                Some(g) => g,
                None => {
                    ctx.fail("output", format!("{}: the output file cannot be read back", p.name));
                    return;
                }
            };
            ctx.count(&format!("ran:{}", p.name.split('+').next().unwrap()));
            if e.num_states() > 0 {
                ctx.count("nonempty_results");
            }
            if bench {
                ctx.count("bench_runs");
                if with_md && !report {
                    ctx.fail("bench", "--bench --export-markdown wrote no report".to_string());
                    return;
                }
            }
            if p.semantic {
                if let (Some(x), Some(y)) = (refs, ext::<W, V>(ctx, "output", &got)) {
                    cmp_rel(ctx, "compose-lookahead", &x, &y, 3);
                }
                return;
            }
            let (x, y) = (content(&e), content(&got));
            if x != y {
                ctx.fail("result", format!("{}: wrote {}, the library gives {}", p.name, y, x));
                return;
            }
            // an attached empty table and none are alike in a file
            let same = |p: &Option<Arc<SymbolTable>>, q: Option<&Arc<SymbolTable>>| match (p, q) {
                (Some(x), Some(y)) => **x == **y,
                (None, None) => true,
                (Some(x), None) | (None, Some(x)) => x.len() <= 1,
            };
            if !same(&tabs.0, got.input_symbols()) || !same(&tabs.1, got.output_symbols()) {
                ctx.fail("tables", format!("{}: attached symbol tables differ", p.name));
            }
            ctx.count("results_compared");
        }
    }
}

/// the program's own interface: help and version succeed, no or unknown commands fail
fn interface(ctx: &mut Ctx) {
    let d = Scratch::new();
    for (a, ok) in [
        (vec!["--help"], true),
        (vec!["--version"], true),
        (vec!["connect", "--help"], true),
        (vec!["compose", "--help"], true),
        (vec!["frobnicate"], false),
        (vec![], false),
        (vec!["connect"], false),
        (vec!["connect", "only_one"], false),
        (vec!["compose", "a", "b"], false),
    ] {
        let args: Vec<String> = a.iter().map(|s| s.to_string()).collect();
        let (st, err) = run_cli(&args, &d.0);
        match st {
            Exit::Code(c) if (c == 0) == ok => ctx.count("interface_answers"),
            Exit::Code(c) => ctx.fail("interface", format!("{:?} exits with {}; stderr: {}", a, c, err)),
            _ => ctx.fail("interface", format!("{:?} died", a)),
        }
    }
}

fn main() {
    run(Prop {
        id: "C26",
        quick: 24_000,
        thorough: 300_000,
        rule: "the real command-line program is started as a process on files written to a scratch directory: a random machine (or two), every command with every documented option in both spellings and any position, plus faults (missing, truncated, damaged or garbage input, unwritable or existing output, output over the input, bad option values, missing weights); the library call is made in the monitor on the same files and exit status, output content bit for bit, attached tables, untouched inputs and untouched output on failure are compared; --bench and its report are observed. Look-ahead composition is compared by its relation. Non-trivial: distinct command lines and machines.",
        case,
        fixed: &[("interface", interface)],
        must: &["processes", "results_compared", "nonempty_results", "failures_expected", "machines_with_tables", "bench_runs", "interface_answers", "fault:missing_input", "fault:truncated_input", "fault:garbage_input", "fault:unwritable_output", "fault:in_place", "fault:bad_option", "fault:bad_weight", "fault:damaged_input", "fault:output_exists", "ran:connect", "ran:tr_sort-olabel", "ran:project", "ran:project-output", "ran:invert", "ran:topsort", "ran:reverse", "ran:rmfinalepsilon", "ran:push", "ran:compose", "ran:compose-lookahead", "ran:determinize", "ran:determinize-nonfunctional", "ran:minimize", "ran:minimize-nondet", "ran:optimize", "ran:shortestpath-1", "ran:shortestpath-n", "ran:map-plus", "ran:map-times", "ran:map-rmweight", "ran:map-invert"],
        assumptions: &["results of a command that fails are judged only by the exit status and the untouched output", "long-running commands are run on acyclic machines"],
        ..DEFAULT
    });
}
