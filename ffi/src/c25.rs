//! C25: the C interface behaves like the library and is memory safe.
//!
//! Random sequences of foreign calls, made through C declarations of the exported symbols, on a pool of
//! handles. Next to every handle lives a shadow made with direct library calls; after each call the handle
//! is read back through the C interface and compared with its shadow. Every block of memory allocated
//! inside a foreign call is followed until it is freed, and after all handles are destroyed none may be
//! left. The program is also run under AddressSanitizer.
use fstmon::driver::*;
use fstmon::gen::*;
use fstmon::refw::*;
use fstmon::rng::Rng;
use rustfst::algorithms::compose::matchers::MatcherRewriteMode;
use rustfst::algorithms::compose::*;
use rustfst::algorithms::concat::{concat, ConcatFst};
use rustfst::algorithms::determinize::*;
use rustfst::algorithms::randgen::*;
use rustfst::algorithms::replace::replace;
use rustfst::algorithms::rm_epsilon::rm_epsilon;
use rustfst::algorithms::union::union;
use rustfst::prelude::*;
use rustfst::utils::{acceptor, transducer};
use std::alloc::{GlobalAlloc, Layout, System};
use std::ffi::{c_char, c_void, CStr, CString};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::Relaxed};
use std::sync::Arc;

extern crate rustfst_ffi;

// ---------------------------------------------------------------- memory accounting
struct Counting;
const CAP: usize = 1 << 16;
static TRACK: AtomicBool = AtomicBool::new(false);
static LIVE: AtomicUsize = AtomicUsize::new(0);
static TOTAL: AtomicUsize = AtomicUsize::new(0);
static OVER: AtomicBool = AtomicBool::new(false);
static mut TAB: [usize; CAP] = [0; CAP];
const TOMB: usize = 1;

fn hsh(p: usize) -> usize {
    (p >> 4).wrapping_mul(0x9E3779B97F4A7C15) >> 48
}
#[allow(static_mut_refs)]
unsafe fn ins(p: usize) {
    if LIVE.load(Relaxed) > CAP / 2 {
        OVER.store(true, Relaxed);
        return;
    }
    let mut i = hsh(p) & (CAP - 1);
    while TAB[i] > TOMB {
        i = (i + 1) & (CAP - 1);
    }
    TAB[i] = p;
    LIVE.fetch_add(1, Relaxed);
    TOTAL.fetch_add(1, Relaxed);
}
#[allow(static_mut_refs)]
unsafe fn del(p: usize) -> bool {
    if LIVE.load(Relaxed) == 0 {
        return false;
    }
    let mut i = hsh(p) & (CAP - 1);
    for _ in 0..CAP {
        if TAB[i] == 0 {
            return false;
        }
        if TAB[i] == p {
            TAB[i] = TOMB;
            LIVE.fetch_sub(1, Relaxed);
            return true;
        }
        i = (i + 1) & (CAP - 1);
    }
    false
}
#[allow(static_mut_refs)]
unsafe fn reset_track() {
    for x in TAB.iter_mut() {
        *x = 0;
    }
    LIVE.store(0, Relaxed);
    OVER.store(false, Relaxed);
}
// the worker is single-threaded: the table needs no lock
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        if TRACK.load(Relaxed) && !p.is_null() {
            ins(p as usize);
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        del(p as usize);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let had = del(p as usize);
        let q = System.realloc(p, l, n);
        if !q.is_null() {
            if had || TRACK.load(Relaxed) {
                ins(q as usize);
            }
        } else if had {
            ins(p as usize);
        }
        q
    }
}
#[global_allocator]
static A: Counting = Counting;

// ---------------------------------------------------------------- the C declarations
type H = *mut c_void;
type R = i32;
#[repr(C)]
struct Arr8 {
    data: *const u8,
    size: usize,
}
#[repr(C)]
struct IntArr {
    data: *const u32,
    size: usize,
}
#[repr(C)]
struct LFP {
    label: u32,
    fst: H,
}
extern "C" {
    fn rustfst_ffi_get_last_error(e: *mut *mut c_char) -> R;
    fn rustfst_destroy_string(s: *mut c_char) -> R;
    fn vec_fst_new(p: *mut H) -> R;
    fn vec_fst_set_start(f: H, s: u32) -> R;
    fn vec_fst_set_final(f: H, s: u32, w: f32) -> R;
    fn vec_fst_add_state(f: H, s: *mut u32) -> R;
    fn vec_fst_delete_states(f: H) -> R;
    fn vec_fst_add_tr(f: H, s: u32, tr: H) -> R;
    fn vec_fst_del_final_weight(f: H, s: u32) -> R;
    fn vec_fst_from_path(p: *mut H, path: *const c_char) -> R;
    fn vec_fst_write_file(f: H, path: *const c_char) -> R;
    fn vec_fst_relabel_tables(f: H, oi: H, ni: H, ai: usize, oo: H, no: H, ao: usize) -> R;
    fn vec_fst_draw(f: H, i: H, o: H, fname: *const c_char, title: *const c_char, acceptor: usize, width: f32, height: f32, portrait: usize, vertical: usize, ranksep: f32, nodesep: f32, fontsize: usize, w1: usize, pw: usize) -> R;
    fn vec_fst_num_states(f: H, n: *mut usize) -> R;
    fn vec_fst_equals(f: H, g: H, e: *mut usize) -> R;
    fn vec_fst_copy(f: H, c: *mut H) -> R;
    fn vec_fst_display(f: H, s: *mut *mut c_char) -> R;
    fn vec_fst_to_bytes(f: H, b: *mut *mut Arr8) -> R;
    fn vec_fst_from_bytes(b: *const Arr8, f: *mut H) -> R;
    fn const_fst_from_path(p: *mut H, path: *const c_char) -> R;
    fn const_fst_write_file(f: H, path: *const c_char) -> R;
    fn const_fst_equals(f: H, g: H, e: *mut usize) -> R;
    fn const_fst_copy(f: H, c: *mut H) -> R;
    fn const_fst_draw(f: H, i: H, o: H, fname: *const c_char, title: *const c_char, acceptor: usize, width: f32, height: f32, portrait: usize, vertical: usize, ranksep: f32, nodesep: f32, fontsize: usize, w1: usize, pw: usize) -> R;
    fn const_fst_display(f: H, s: *mut *mut c_char) -> R;
    fn concat_fst_new(p: *mut H, a: H, b: H) -> R;
    fn concat_fst_compute(f: *mut H) -> R;
    fn utils_string_to_acceptor(s: *const c_char, t: H, w: f32, f: *mut H) -> R;
    fn utils_string_to_transducer(i: *const c_char, o: *const c_char, ti: H, to: H, w: f32, f: *mut H) -> R;
    fn fst_start(f: H, s: *mut u32) -> R;
    fn fst_final_weight(f: H, s: u32, w: *mut f32) -> R;
    fn fst_num_trs(f: H, s: u32, n: *mut usize) -> R;
    fn fst_get_trs(f: H, s: u32, t: *mut H) -> R;
    fn fst_is_final(f: H, s: u32, b: *mut usize) -> R;
    fn fst_is_start(f: H, s: u32, b: *mut usize) -> R;
    fn fst_input_symbols(f: H, t: *mut H) -> R;
    fn fst_output_symbols(f: H, t: *mut H) -> R;
    fn fst_set_input_symbols(f: H, t: H) -> R;
    fn fst_set_output_symbols(f: H, t: H) -> R;
    fn fst_unset_input_symbols(f: H) -> R;
    fn fst_unset_output_symbols(f: H) -> R;
    fn fst_weight_one(w: *mut f32) -> R;
    fn fst_weight_zero(w: *mut f32) -> R;
    fn fst_destroy(f: H) -> R;
    fn trs_iterator_new(f: H, s: u32, i: *mut H) -> R;
    fn trs_iterator_next(i: H, tr: *mut H) -> R;
    fn trs_iterator_done(i: H, d: *mut usize) -> R;
    fn trs_iterator_reset(i: H) -> R;
    fn trs_iterator_destroy(i: H) -> R;
    fn mut_trs_iterator_new(f: H, s: u32, i: *mut H) -> R;
    fn mut_trs_iterator_next(i: H) -> R;
    fn mut_trs_iterator_value(i: H, tr: *mut H) -> R;
    fn mut_trs_iterator_set_value(i: H, tr: H) -> R;
    fn mut_trs_iterator_done(i: H, d: *mut usize) -> R;
    fn mut_trs_iterator_reset(i: H) -> R;
    fn mut_trs_iterator_destroy(i: H) -> R;
    fn state_iterator_new(f: H, i: *mut H) -> R;
    fn state_iterator_next(i: H, s: *mut u32) -> R;
    fn state_iterator_done(i: H, d: *mut usize) -> R;
    fn state_iterator_destroy(i: H) -> R;
    fn trs_vec_new(t: *mut H) -> R;
    fn trs_vec_remove(t: H, i: usize, tr: *mut H) -> R;
    fn trs_vec_push(t: H, tr: H) -> R;
    fn trs_vec_shallow_clone(t: H, c: *mut H) -> R;
    fn trs_vec_len(t: H, n: *mut usize) -> R;
    fn trs_vec_display(t: H, s: *mut *mut c_char) -> R;
    fn trs_vec_delete(t: H) -> R;
    fn tr_new(i: u32, o: u32, w: f32, n: u32, tr: *mut H) -> R;
    fn tr_ilabel(t: H, l: *mut u32) -> R;
    fn tr_set_ilabel(t: H, l: usize) -> R;
    fn tr_olabel(t: H, l: *mut u32) -> R;
    fn tr_set_olabel(t: H, l: usize) -> R;
    fn tr_weight(t: H, w: *mut f32) -> R;
    fn tr_set_weight(t: H, w: f32) -> R;
    fn tr_next_state(t: H, s: *mut u32) -> R;
    fn tr_set_next_state(t: H, s: usize) -> R;
    fn tr_delete(t: H) -> R;
    fn symt_new(t: *mut H) -> R;
    fn symt_add_symbol(t: H, s: *const c_char, k: *mut usize) -> R;
    fn symt_add_table(t: H, o: H) -> R;
    fn symt_find_index(t: H, k: u32, s: *mut *mut c_char) -> R;
    fn symt_find_symbol(t: H, s: *const c_char, k: *mut usize) -> R;
    fn symt_from_path(t: *mut H, p: *const c_char, binary: usize) -> R;
    fn symt_write_file(t: H, p: *const c_char, binary: usize) -> R;
    fn symt_member_index(t: H, k: u32, b: *mut usize) -> R;
    fn symt_member_symbol(t: H, s: *const c_char, b: *mut usize) -> R;
    fn symt_num_symbols(t: H, n: *mut usize) -> R;
    fn symt_copy(t: H, c: *mut H) -> R;
    fn symt_equals(t: H, o: H, b: *mut usize) -> R;
    fn symt_destroy(t: H) -> R;
    fn string_paths_iterator_new(f: H, i: *mut H) -> R;
    fn string_paths_iterator_next(i: H, p: *mut H) -> R;
    fn string_paths_iterator_done(i: H, d: *mut usize) -> R;
    fn string_paths_iterator_destroy(i: H) -> R;
    fn string_path_destroy(p: H) -> R;
    fn string_path_weight(p: H, w: *mut f32) -> R;
    fn string_path_istring(p: H, s: *mut *mut c_char) -> R;
    fn string_path_ostring(p: H, s: *mut *mut c_char) -> R;
    fn fst_matcher_config_new(sigma: usize, mode: usize, allowed: IntArr, c: *mut H) -> R;
    fn fst_compose_config_new(filter: usize, connect: bool, m1: H, m2: H, c: *mut H) -> R;
    fn fst_matcher_config_destroy(c: H) -> R;
    fn fst_compose_config_destroy(c: H) -> R;
    fn fst_compose(a: H, b: H, c: *mut H) -> R;
    fn fst_compose_with_config(a: H, b: H, cfg: H, c: *mut H) -> R;
    fn fst_concat(a: H, b: H) -> R;
    fn fst_connect(a: H) -> R;
    fn fst_determinize_config_new(delta: f32, t: usize, c: *mut H) -> R;
    fn fst_determinize(a: H, r: *mut H) -> R;
    fn fst_determinize_with_config(a: H, c: H, r: *mut H) -> R;
    fn fst_isomorphic(a: H, b: H, r: *mut usize) -> R;
    fn fst_minimize_config_new(delta: f32, nondet: bool, c: *mut H) -> R;
    fn fst_minimize(a: H) -> R;
    fn fst_minimize_with_config(a: H, c: H) -> R;
    fn fst_optimize(a: H) -> R;
    fn fst_optimize_in_log(a: *mut H) -> R;
    fn fst_project_type_new(t: usize, c: *mut H) -> R;
    fn fst_project(a: H, c: H) -> R;
    fn fst_randgen(a: H, npath: usize, seed: usize, maxlen: usize, weight: bool, rm: bool, r: *mut H) -> R;
    fn fst_replace(root: u32, l: *mut LFP, n: usize, eps: bool, r: *mut H) -> R;
    fn fst_reverse(a: H, r: *mut H) -> R;
    fn fst_rm_epsilon(a: H) -> R;
    fn fst_shortest_path_config_new(delta: f32, n: usize, unique: bool, c: *mut H) -> R;
    fn fst_shortest_path(a: H, r: *mut H) -> R;
    fn fst_shortest_path_with_config(a: H, c: H, r: *mut H) -> R;
    fn fst_top_sort(a: H) -> R;
    fn fst_tr_sort(a: H, il: bool) -> R;
    fn fst_tr_unique(a: H) -> R;
    fn fst_union(a: H, b: H) -> R;
}

type W = TropicalWeight;
type V = VectorFst<W>;
type T = Arc<SymbolTable>;

enum Shadow {
    V(V),
    C(ConstFst<W>),
    L(V),
}
struct F {
    h: H,
    s: Shadow,
}
struct Sy {
    h: H,
    s: T,
}
struct Ts {
    h: H,
    s: Vec<Tr<W>>,
}
struct It {
    h: H,
    s: Vec<Tr<W>>,
    pos: usize,
}
struct SIt {
    h: H,
    n: u32,
    pos: u32,
}
#[derive(Default)]
struct Pool {
    f: Vec<F>,
    y: Vec<Sy>,
    t: Vec<Ts>,
    i: Vec<It>,
    si: Vec<SIt>,
}

struct M<'a> {
    ctx: &'a mut Ctx,
    log: String,
    /// blocks the interface offers no way to free (configurations): counted, not reported
    unfreeable: usize,
}

/// call with memory tracking on
macro_rules! c {
    ($m:expr, $n:ident ( $($a:expr),* )) => {{
        $m.ctx.count(concat!("call:", stringify!($n)));
        $m.log += concat!(stringify!($n), " ");
        TRACK.store(true, Relaxed);
        let r = unsafe { $n($($a),*) };
        TRACK.store(false, Relaxed);
        $m.ctx.count("calls");
        r
    }};
}

impl<'a> M<'a> {
    fn bad(&mut self, kind: &str, what: String) {
        self.ctx.input = self.log.chars().rev().take(900).collect::<String>().chars().rev().collect();
        self.ctx.fail(kind, what);
    }
    /// the outcome must be the library's; on error a message must be available
    fn outcome(&mut self, name: &str, r: R, lib_ok: bool) -> bool {
        if r != 0 && r != 1 {
            self.bad(&format!("code:{}", name), format!("{} returned {}", name, r));
            return false;
        }
        if r == 1 {
            self.ctx.count("errors_seen");
            let mut e: *mut c_char = std::ptr::null_mut();
            let r2 = c!(self, rustfst_ffi_get_last_error(&mut e));
            if r2 != 0 || e.is_null() {
                self.bad("no-message", format!("{} failed and no message can be fetched", name));
                return false;
            }
            let msg = unsafe { CStr::from_ptr(e) }.to_string_lossy().to_string();
            c!(self, rustfst_destroy_string(e));
            if msg == "No error message" || msg.is_empty() {
                self.bad("no-message", format!("{} failed without a message", name));
            }
        }
        if (r == 0) != lib_ok {
            self.bad(&format!("outcome:{}", name), format!("{} returned {}, the library call {}", name, if r == 0 { "success" } else { "an error" }, if lib_ok { "succeeds" } else { "fails" }));
            return false;
        }
        r == 0
    }
    fn string(&mut self, p: *mut c_char) -> String {
        if p.is_null() {
            self.bad("null-string", "a success returned a null string".into());
            return String::new();
        }
        let s = unsafe { CStr::from_ptr(p) }.to_string_lossy().to_string();
        c!(self, rustfst_destroy_string(p));
        s
    }
    fn take_tr(&mut self, h: H) -> Option<Tr<W>> {
        if h.is_null() {
            return None;
        }
        let (mut i, mut o, mut w, mut n) = (7777, 7777, 0f32, 7777);
        c!(self, tr_ilabel(h, &mut i));
        c!(self, tr_olabel(h, &mut o));
        c!(self, tr_weight(h, &mut w));
        c!(self, tr_next_state(h, &mut n));
        c!(self, tr_delete(h));
        Some(Tr::new(i, o, W::new(w), n))
    }
    fn make_tr(&mut self, rng: &mut Rng, t: &Tr<W>) -> H {
        let mut h: H = std::ptr::null_mut();
        if rng.bool() {
            c!(self, tr_new(t.ilabel, t.olabel, *t.weight.value(), t.nextstate, &mut h));
        } else {
            c!(self, tr_new(99, 98, 97.0, 96, &mut h));
            c!(self, tr_set_ilabel(h, t.ilabel as usize));
            c!(self, tr_set_olabel(h, t.olabel as usize));
            c!(self, tr_set_weight(h, *t.weight.value()));
            c!(self, tr_set_next_state(h, t.nextstate as usize));
        }
        h
    }
    /// reads a machine back through the C interface and compares it with the shadow
    fn compare(&mut self, what: &str, f: &F) -> bool {
        match &f.s {
            Shadow::V(v) => self.compare_with(what, f.h, v, true),
            Shadow::C(v) => self.compare_with(what, f.h, v, false),
            Shadow::L(v) => self.compare_lazy(what, f.h, v),
        }
    }
    fn tables<F2: Fst<W>>(&mut self, what: &str, h: H, v: &F2) -> bool {
        for side in 0..2 {
            let mut t: H = std::ptr::null_mut();
            if side == 0 {
                c!(self, fst_input_symbols(h, &mut t));
            } else {
                c!(self, fst_output_symbols(h, &mut t));
            }
            let exp = if side == 0 { v.input_symbols() } else { v.output_symbols() };
            if t.is_null() != exp.is_none() {
                self.bad("tables", format!("{}: table present {}, library {}", what, !t.is_null(), exp.is_some()));
                c!(self, symt_destroy(t));
                return false;
            }
            if let Some(e) = exp {
                let e = Arc::clone(e);
                let ok = self.same_table(t, &e);
                c!(self, symt_destroy(t));
                if !ok {
                    self.bad("tables", format!("{}: content of side {}", what, side));
                    return false;
                }
            }
        }
        true
    }
    fn same_table(&mut self, h: H, e: &SymbolTable) -> bool {
        let mut n = 0usize;
        c!(self, symt_num_symbols(h, &mut n));
        if n != e.len() {
            return false;
        }
        for l in 0..n as u32 {
            let mut s: *mut c_char = std::ptr::null_mut();
            let r = c!(self, symt_find_index(h, l, &mut s));
            match e.get_symbol(l) {
                Some(x) => {
                    if r != 0 || self.string(s) != x {
                        return false;
                    }
                }
                None => {
                    if r == 0 {
                        return false;
                    }
                    self.outcome("symt_find_index", r, false);
                }
            }
        }
        true
    }
    fn start_of(&mut self, h: H) -> Option<u32> {
        let mut s = 123456789u32;
        let r = c!(self, fst_start(h, &mut s));
        if r != 0 {
            self.bad("outcome:fst_start", "fst_start failed".into());
        }
        if s == 123456789 {
            None
        } else {
            Some(s)
        }
    }
    fn compare_lazy(&mut self, what: &str, h: H, v: &V) -> bool {
        // the handle is an on-demand machine; the shadow its expansion
        let st = self.start_of(h);
        if st != v.start() {
            self.bad("content", format!("{}: start {:?}, library {:?}", what, st, v.start()));
            return false;
        }
        if v.start().is_none() {
            return true;
        }
        for q in v.states_iter() {
            if !self.compare_state(what, h, v, q) {
                return false;
            }
        }
        self.tables(what, h, v)
    }
    fn compare_state<F2: Fst<W>>(&mut self, what: &str, h: H, v: &F2, q: u32) -> bool {
        let mut w = -99.5f32;
        c!(self, fst_final_weight(h, q, &mut w));
        let exp = v.final_weight(q).unwrap().map(|x| *x.value()).unwrap_or(-99.5);
        let mut fin = 77usize;
        c!(self, fst_is_final(h, q, &mut fin));
        let mut ist = 77usize;
        c!(self, fst_is_start(h, q, &mut ist));
        if !same_w(what, w, exp) || fin != v.is_final(q).unwrap() as usize || ist != v.is_start(q) as usize {
            self.bad("content", format!("{}: state {}: final weight {} is_final {} is_start {}, library {} {} {}", what, q, w, fin, ist, exp, v.is_final(q).unwrap(), v.is_start(q)));
            return false;
        }
        let mut n = 7777usize;
        c!(self, fst_num_trs(h, q, &mut n));
        let owned = v.get_trs(q).unwrap();
        let e: &[Tr<W>] = owned.trs();
        if n != e.len() {
            self.bad("content", format!("{}: state {}: {} transitions, library {}", what, q, n, e.len()));
            return false;
        }
        let mut it: H = std::ptr::null_mut();
        c!(self, trs_iterator_new(h, q, &mut it));
        for (k, t) in e.iter().enumerate() {
            let mut d = 7usize;
            c!(self, trs_iterator_done(it, &mut d));
            let mut tr: H = std::ptr::null_mut();
            c!(self, trs_iterator_next(it, &mut tr));
            let g = self.take_tr(tr);
            if d != 0 || !same_tr(what, g.as_ref(), Some(t)) {
                self.bad("content", format!("{}: state {} transition {}: {:?} (done {}), library {:?}", what, q, k, g, d, t));
                c!(self, trs_iterator_destroy(it));
                return false;
            }
        }
        let mut d = 7usize;
        c!(self, trs_iterator_done(it, &mut d));
        let mut past: H = 8 as H;
        c!(self, trs_iterator_next(it, &mut past));
        c!(self, trs_iterator_destroy(it));
        if !past.is_null() {
            self.bad("content", format!("{}: an exhausted iterator gives a transition", what));
            return false;
        }
        if d != 1 {
            self.bad("content", format!("{}: iterator not done at the end", what));
            return false;
        }
        true
    }
    fn compare_with<F2: ExpandedFst<W>>(&mut self, what: &str, h: H, v: &F2, vec: bool) -> bool {
        self.ctx.count("handles_compared");
        if h.is_null() {
            self.bad("content", format!("{}: null handle", what));
            return false;
        }
        let st = self.start_of(h);
        if st != v.start() {
            self.bad("content", format!("{}: start {:?}, library {:?}", what, st, v.start()));
            return false;
        }
        if vec {
            let mut n = 7777usize;
            c!(self, vec_fst_num_states(h, &mut n));
            if n != v.num_states() {
                self.bad("content", format!("{}: {} states, library {}", what, n, v.num_states()));
                return false;
            }
        }
        for q in v.states_range() {
            if !self.compare_state(what, h, v, q) {
                return false;
            }
        }
        self.tables(what, h, v)
    }
}

fn cs(s: &str) -> CString {
    CString::new(s).unwrap()
}

const SYMS: [&str; 6] = ["a", "b", "cc", "", "é", "<eps>"];

fn gen_machine(rng: &mut Rng) -> Spec<W> {
    let mut c = GenCfg::new();
    c.nmin = 0;
    c.nmax = rng.range(1, 5);
    c.acyclic = rng.chance(2, 3);
    c.acceptor = rng.chance(1, 2);
    c.alpha = 2;
    c.p_nostart = 10;
    c.arcs_per_state = rng.range(1, 2);
    if rng.chance(1, 2) {
        c.eps_i = 0;
        c.eps_o = 0;
    }
    gen_spec(rng, &c)
}

/// builds a machine through the C interface
fn build(m: &mut M, rng: &mut Rng, s: &Spec<W>) -> F {
    let mut h: H = std::ptr::null_mut();
    c!(m, vec_fst_new(&mut h));
    let mut v = V::new();
    for _ in 0..s.n() {
        let mut q = 5555;
        c!(m, vec_fst_add_state(h, &mut q));
        let e = v.add_state();
        if q != e {
            m.bad("content", format!("add_state gave {}, library {}", q, e));
        }
    }
    if let Some(q) = s.start {
        c!(m, vec_fst_set_start(h, q as u32));
        v.set_start(q as u32).unwrap();
    }
    for q in 0..s.n() {
        for a in &s.arcs[q] {
            let t = Tr::new(a.il, a.ol, a.w.clone(), a.to as u32);
            let th = m.make_tr(rng, &t);
            c!(m, vec_fst_add_tr(h, q as u32, th));
            c!(m, tr_delete(th));
            v.add_tr(q as u32, t).unwrap();
        }
        if let Some(w) = &s.fin[q] {
            c!(m, vec_fst_set_final(h, q as u32, *w.value()));
            v.set_final(q as u32, w.clone()).unwrap();
        }
    }
    F { h, s: Shadow::V(v) }
}

fn lib<X>(f: impl FnOnce() -> anyhow::Result<X>) -> Option<X> {
    // a library panic must come out of the C interface as an error
    catch_unwind(AssertUnwindSafe(f)).ok().and_then(|r| r.ok())
}

/// in-place algorithm on handle k
fn inplace(m: &mut M, p: &mut Pool, k: usize, name: &str, call: impl FnOnce(&mut M, H) -> R, f: impl FnOnce(&mut V) -> anyhow::Result<()>) {
    let h = p.f[k].h;
    let exp = match &p.f[k].s {
        Shadow::V(v) => {
            let mut x = v.clone();
            Some(lib(|| f(&mut x)).map(|_| x))
        }
        _ => None, // not a vector machine: must be refused
    };
    let r = call(m, h);
    match exp {
        Some(Some(x)) => {
            if m.outcome(name, r, true) {
                p.f[k].s = Shadow::V(x);
                let what = name.to_string();
                m.compare(&what, &p.f[k]);
            }
        }
        Some(None) => {
            m.outcome(name, r, false);
            // what a failed in-place call leaves behind is not judged: start over from what is there
            drop_fst(m, p, k);
        }
        None => {
            m.ctx.count("wrong_kind_refused");
            m.outcome(name, r, false);
            let what = format!("{} (refused)", name);
            m.compare(&what, &p.f[k]);
        }
    }
}

fn drop_fst(m: &mut M, p: &mut Pool, k: usize) {
    let f = p.f.swap_remove(k);
    c!(m, fst_destroy(f.h));
}

/// algorithm producing a new handle from handle k
/// Weights have to agree bit for bit, save after sums of logarithms.
fn same_w(what: &str, a: f32, b: f32) -> bool {
    a.to_bits() == b.to_bits() || (what == "fst_optimize_in_log" && (a - b).abs() <= 1.0 / 1024.0)
}
fn same_tr(what: &str, a: Option<&Tr<W>>, b: Option<&Tr<W>>) -> bool {
    match (a, b) {
        (Some(a), Some(b)) => a.ilabel == b.ilabel && a.olabel == b.olabel && a.nextstate == b.nextstate && same_w(what, *a.weight.value(), *b.weight.value()),
        (None, None) => true,
        _ => false,
    }
}

fn produce(m: &mut M, p: &mut Pool, k: usize, name: &str, call: impl FnOnce(&mut M, H, &mut H) -> R, f: impl FnOnce(&V) -> anyhow::Result<V>) {
    let h = p.f[k].h;
    let exp = match &p.f[k].s {
        Shadow::V(v) => lib(|| f(v)),
        _ => {
            m.ctx.count("wrong_kind_refused");
            None
        }
    };
    let mut out: H = std::ptr::null_mut();
    let r = call(m, h, &mut out);
    if m.outcome(name, r, exp.is_some()) {
        let g = F { h: out, s: Shadow::V(exp.unwrap()) };
        m.compare(name, &g);
        p.f.push(g);
    }
    // the operand is untouched
    let what = format!("operand of {}", name);
    m.compare(&what, &p.f[k]);
}

/// Sums of logarithms are taken in an order that differs from run to run (hash maps), so two runs
/// may also number states or order transitions differently. A result is held against several runs
/// of the library; one equal to none of them has to have their relation and about their size.
fn optimize_in_log(m: &mut M, p: &mut Pool, k: usize) {
    const N: &str = "fst_optimize_in_log";
    let run = |v: &V| -> Option<V> {
        lib(|| {
            let mut cv = rustfst::algorithms::weight_converters::SimpleWeightConverter {};
            let mut l: VectorFst<LogWeight> = rustfst::algorithms::weight_convert(v, &mut cv)?;
            optimize(&mut l)?;
            rustfst::algorithms::weight_convert(&l, &mut cv)
        })
    };
    let Shadow::V(v) = &p.f[k].s else { return };
    let v = v.clone();
    let first = run(&v);
    let mut out = p.f[k].h;
    let r = c!(m, fst_optimize_in_log(&mut out));
    if m.outcome(N, r, first.is_some()) {
        let first = first.unwrap();
        let mut n = 0usize;
        c!(m, vec_fst_num_states(out, &mut n));
        let mut got = V::new();
        got.add_states(n);
        let st = m.start_of(out);
        if let Some(q) = st.filter(|q| (*q as usize) < n) {
            got.set_start(q).unwrap();
        }
        for q in 0..n as u32 {
            let (mut w, mut fin, mut nt) = (0f32, 0usize, 0usize);
            c!(m, fst_is_final(out, q, &mut fin));
            c!(m, fst_final_weight(out, q, &mut w));
            if fin == 1 {
                got.set_final(q, w).unwrap();
            }
            c!(m, fst_num_trs(out, q, &mut nt));
            let mut it: H = std::ptr::null_mut();
            c!(m, trs_iterator_new(out, q, &mut it));
            for _ in 0..nt {
                let mut tr: H = std::ptr::null_mut();
                c!(m, trs_iterator_next(it, &mut tr));
                match m.take_tr(tr) {
                    Some(t) if (t.nextstate as usize) < n => got.add_tr(q, t).unwrap(),
                    t => m.bad("content", format!("{}: state {} of {} has the transition {:?}", N, q, n, t)),
                }
            }
            c!(m, trs_iterator_destroy(it));
        }
        let alike = |a: &V, b: &V| {
            a.start() == b.start()
                && a.num_states() == b.num_states()
                && a.states_range().all(|q| {
                    let (x, y) = (a.get_trs(q).unwrap(), b.get_trs(q).unwrap());
                    let fw = |f: &V| f.final_weight(q).unwrap().map(|w| *w.value());
                    x.trs().len() == y.trs().len()
                        && x.trs().iter().zip(y.trs()).all(|(x, y)| same_tr(N, Some(x), Some(y)))
                        && match (fw(a), fw(b)) {
                            (Some(x), Some(y)) => same_w(N, x, y),
                            (None, None) => true,
                            _ => false,
                        }
                })
        };
        m.ctx.count("handles_compared");
        let mut size = first.num_states();
        let mut same = alike(&first, &got);
        for _ in 0..6 {
            if !same {
                if let Some(x) = run(&v) {
                    same = alike(&x, &got);
                    size = size.max(x.num_states());
                }
            }
        }
        if !same {
            m.ctx.count("optimized_differently");
            let rel = |f: &V| {
                let mut cv = rustfst::algorithms::weight_converters::SimpleWeightConverter {};
                let l: VectorFst<LogWeight> = rustfst::algorithms::weight_convert(f, &mut cv).ok()?;
                fstmon::reffst::extract::<LogWeight, _>(&l).ok()?.relation(40, 40, 20000)
            };
            if got.num_states() > size + 2 {
                m.bad("content", format!("{}: {} states, library {}", N, n, size));
            } else if let (Some(a), Some(b)) = (rel(&v), rel(&got)) {
                let far = |x: &RLog, y: &RLog| (x.0 - y.0).abs() > 0.05;
                let d = a.iter().find(|(k, x)| b.get(*k).map(|y| far(x, y)).unwrap_or(true)).or_else(|| b.iter().find(|(k, _)| !a.contains_key(*k)));
                if let Some((k, x)) = d {
                    m.bad("content", format!("{}: weight {:?} of {:?}: machine {:?} result {:?}; result {:?}", N, x, k, a.get(k), b.get(k), got));
                }
            }
        }
        m.tables(N, out, &first);
        c!(m, fst_destroy(out));
    }
    // the operand is untouched
    m.compare("operand of fst_optimize_in_log", &p.f[k]);
}

fn scratch() -> std::path::PathBuf {
    let d = std::env::temp_dir().join(format!("fstmon-ffi-{}", std::process::id()));
    let _ = std::fs::create_dir_all(&d);
    d
}

/// Blocks the monitor's own panic hook allocates inside a foreign call are not the library's.
fn quiet_hook() {
    static ONCE: std::sync::Once = std::sync::Once::new();
    ONCE.call_once(|| {
        let prev = std::panic::take_hook();
        std::panic::set_hook(Box::new(move |i| {
            let t = TRACK.swap(false, Relaxed);
            prev(i);
            TRACK.store(t, Relaxed);
        }));
    });
}

fn case(ctx: &mut Ctx) {
    quiet_hook();
    unsafe { reset_track() };
    let mut rng = ctx.rng.fork();
    let mut m = M { ctx, log: String::new(), unfreeable: 0 };
    let mut p = Pool::default();
    let steps = rng.range(4, 30);
    let mut used = 0u64;
    for _ in 0..steps {
        if m.ctx.failed() {
            break;
        }
        used = fstmon::rng::mix(used ^ step(&mut m, &mut rng, &mut p) as u64);
        while p.f.len() > 5 {
            let k = rng.below(p.f.len());
            drop_fst(&mut m, &mut p, k);
        }
    }
    m.ctx.distinct(used);
    // every handle in random order
    let ok = !m.ctx.failed();
    let total = p.f.len() + p.y.len() + p.t.len() + p.i.len() + p.si.len();
    for _ in 0..total {
        loop {
            match rng.below(5) {
                0 if !p.f.is_empty() => {
                    let k = rng.below(p.f.len());
                    if ok {
                        m.compare("at the end", &p.f[k]);
                    }
                    drop_fst(&mut m, &mut p, k);
                }
                1 if !p.y.is_empty() => {
                    let k = rng.below(p.y.len());
                    let y = p.y.swap_remove(k);
                    if ok && !m.same_table(y.h, &y.s) {
                        m.bad("tables", "a table changed".into());
                    }
                    c!(m, symt_destroy(y.h));
                }
                2 if !p.t.is_empty() => {
                    let k = rng.below(p.t.len());
                    let t = p.t.swap_remove(k);
                    c!(m, trs_vec_delete(t.h));
                }
                3 if !p.i.is_empty() => {
                    let k = rng.below(p.i.len());
                    let t = p.i.swap_remove(k);
                    c!(m, trs_iterator_destroy(t.h));
                }
                4 if !p.si.is_empty() => {
                    let k = rng.below(p.si.len());
                    let t = p.si.swap_remove(k);
                    c!(m, state_iterator_destroy(t.h));
                }
                _ => continue,
            }
            break;
        }
    }
    // take any message still stored
    let mut e: *mut c_char = std::ptr::null_mut();
    c!(m, rustfst_ffi_get_last_error(&mut e));
    if !e.is_null() {
        c!(m, rustfst_destroy_string(e));
    }
    let live = LIVE.load(Relaxed);
    if !OVER.load(Relaxed) {
        m.ctx.count("leak_checks");
        if live != m.unfreeable && !m.ctx.failed() {
            let w = format!("{} blocks allocated inside foreign calls are still allocated after every handle was destroyed ({} expected)", live, m.unfreeable);
            if std::env::var("C25_LEAKS").is_ok() {
                for i in 0..CAP {
                    if unsafe { TAB[i] } > TOMB {
                        let p = unsafe { TAB[i] } as *const u8;
                        eprintln!("live block {:p}: {:?}", p, unsafe { std::slice::from_raw_parts(p, 48) });
                    }
                }
            }
            m.bad("leak", w);
        }
    }
    let t = TOTAL.swap(0, Relaxed) as u64;
    m.ctx.add("blocks_followed", t);
    let l = m.log.clone();
    m.ctx.sample(|| l.chars().take(400).collect());
}

fn pick_f(rng: &mut Rng, p: &Pool) -> usize {
    rng.below(p.f.len())
}

fn step(m: &mut M, rng: &mut Rng, p: &mut Pool) -> usize {
    if p.f.is_empty() {
        let s = gen_machine(rng);
        let f = build(m, rng, &s);
        m.compare("build", &f);
        p.f.push(f);
        return 0;
    }
    if p.y.is_empty() {
        new_symt(m, rng, p);
        return 1;
    }
    let k = pick_f(rng, p);
    let op = rng.below(64);
    m.log += &format!("| {}:{} ", op, k);
    match op {
        0..=3 => {
            let s = gen_machine(rng);
            let f = build(m, rng, &s);
            m.compare("build", &f);
            p.f.push(f);
        }
        4 => {
            // edits with states that may not exist
            let n = match &p.f[k].s {
                Shadow::V(v) => v.num_states(),
                _ => 3,
            };
            let q = if rng.chance(1, 3) { *rng.pick(&[n as u32, n as u32 + 1, u32::MAX]) } else { rng.below(n.max(1)) as u32 };
            let w = W::gen(rng, WProfile::Normal);
            match rng.below(4) {
                0 => inplace(m, p, k, "vec_fst_set_start", |m, h| c!(m, vec_fst_set_start(h, q)), |v| v.set_start(q)),
                1 => inplace(m, p, k, "vec_fst_set_final", |m, h| c!(m, vec_fst_set_final(h, q, *w.value())), |v| v.set_final(q, w.clone())),
                2 => inplace(m, p, k, "vec_fst_del_final_weight", |m, h| c!(m, vec_fst_del_final_weight(h, q)), |v| v.delete_final_weight(q)),
                _ => {
                    let t = Tr::new(rng.below(3) as u32, rng.below(3) as u32, w.clone(), rng.below(n.max(1)) as u32);
                    if n == 0 {
                        return op;
                    }
                    let th = m.make_tr(rng, &t);
                    inplace(m, p, k, "vec_fst_add_tr", |m, h| c!(m, vec_fst_add_tr(h, q, th)), |v| v.add_tr(q, t.clone()));
                    c!(m, tr_delete(th));
                }
            }
        }
        5 => inplace(m, p, k, "vec_fst_delete_states", |m, h| c!(m, vec_fst_delete_states(h)), |v| {
            v.del_all_states();
            Ok(())
        }),
        6 => {
            // questions about states that do not exist
            let n = match &p.f[k].s {
                Shadow::V(v) => v.num_states(),
                Shadow::C(v) => v.num_states(),
                Shadow::L(_) => return op,
            } as u32;
            let q = *rng.pick(&[n, n + 1, n + 1000, u32::MAX]);
            let h = p.f[k].h;
            let (mut w, mut u, mut o) = (0f32, 0usize, std::ptr::null_mut());
            let r = c!(m, fst_final_weight(h, q, &mut w));
            m.outcome("fst_final_weight", r, false);
            let r = c!(m, fst_num_trs(h, q, &mut u));
            m.outcome("fst_num_trs", r, false);
            let r = c!(m, fst_is_final(h, q, &mut u));
            m.outcome("fst_is_final", r, false);
            let r = c!(m, fst_get_trs(h, q, &mut o));
            m.outcome("fst_get_trs", r, false);
            let r = c!(m, trs_iterator_new(h, q, &mut o));
            m.outcome("trs_iterator_new", r, false);
            if matches!(p.f[k].s, Shadow::V(_)) {
                let r = c!(m, mut_trs_iterator_new(h, q, &mut o));
                m.outcome("mut_trs_iterator_new", r, false);
            }
            u = 9;
            let r = c!(m, fst_is_start(h, q, &mut u));
            m.outcome("fst_is_start", r, true);
            if u != 0 {
                m.bad("content", "a state that does not exist is the start".into());
            }
            m.ctx.count("missing_states_asked");
        }
        7 | 8 => {
            // copies
            let h = p.f[k].h;
            let mut o: H = std::ptr::null_mut();
            match &p.f[k].s {
                Shadow::V(v) => {
                    let v = v.clone();
                    let r = c!(m, vec_fst_copy(h, &mut o));
                    if m.outcome("vec_fst_copy", r, true) {
                        p.f.push(F { h: o, s: Shadow::V(v) });
                    }
                    let r = c!(m, const_fst_copy(h, &mut o));
                    m.outcome("const_fst_copy", r, false);
                }
                Shadow::C(v) => {
                    let v = v.clone();
                    let r = c!(m, const_fst_copy(h, &mut o));
                    if m.outcome("const_fst_copy", r, true) {
                        p.f.push(F { h: o, s: Shadow::C(v) });
                    }
                    let r = c!(m, vec_fst_copy(h, &mut o));
                    m.outcome("vec_fst_copy", r, false);
                }
                Shadow::L(_) => {
                    let r = c!(m, vec_fst_copy(h, &mut o));
                    m.outcome("vec_fst_copy", r, false);
                }
            }
            if let Some(f) = p.f.last() {
                m.compare("copy", f);
            }
        }
        9 => {
            let k2 = pick_f(rng, p);
            let (a, b) = (p.f[k].h, p.f[k2].h);
            let mut e = 99usize;
            match (&p.f[k].s, &p.f[k2].s) {
                (Shadow::V(x), Shadow::V(y)) => {
                    let exp = x == y;
                    let r = c!(m, vec_fst_equals(a, b, &mut e));
                    m.outcome("vec_fst_equals", r, true);
                    if e != exp as usize {
                        m.bad("answer:vec_fst_equals", format!("{} expected {}", e, exp));
                    }
                    let iso = lib(|| isomorphic(x, y));
                    e = 99;
                    let r = c!(m, fst_isomorphic(a, b, &mut e));
                    if m.outcome("fst_isomorphic", r, iso.is_some()) && e != iso.unwrap() as usize {
                        m.bad("answer:fst_isomorphic", format!("{}", e));
                    }
                }
                (Shadow::C(x), Shadow::C(y)) => {
                    let exp = x == y;
                    let r = c!(m, const_fst_equals(a, b, &mut e));
                    m.outcome("const_fst_equals", r, true);
                    if e != exp as usize {
                        m.bad("answer:const_fst_equals", format!("{} expected {}", e, exp));
                    }
                }
                _ => {
                    let r = c!(m, vec_fst_equals(a, b, &mut e));
                    m.outcome("vec_fst_equals", r, false);
                    let r = c!(m, fst_isomorphic(a, b, &mut e));
                    m.outcome("fst_isomorphic", r, false);
                }
            }
        }
        10 => {
            let h = p.f[k].h;
            let mut s: *mut c_char = std::ptr::null_mut();
            match &p.f[k].s {
                Shadow::V(v) => {
                    let e = format!("{}", v);
                    let r = c!(m, vec_fst_display(h, &mut s));
                    if m.outcome("vec_fst_display", r, true) && m.string(s) != e {
                        m.bad("answer:vec_fst_display", "text differs".into());
                    }
                }
                Shadow::C(v) => {
                    let e = format!("{}", v);
                    let r = c!(m, const_fst_display(h, &mut s));
                    if m.outcome("const_fst_display", r, true) && m.string(s) != e {
                        m.bad("answer:const_fst_display", "text differs".into());
                    }
                }
                _ => {
                    let r = c!(m, vec_fst_display(h, &mut s));
                    m.outcome("vec_fst_display", r, false);
                }
            }
        }
        11 | 12 => {
            // bytes, possibly damaged
            let h = p.f[k].h;
            if let Shadow::V(v) = &p.f[k].s {
                let mut e = vec![];
                v.store(&mut e).unwrap();
                let mut b: *mut Arr8 = std::ptr::null_mut();
                let before = LIVE.load(Relaxed);
                let r = c!(m, vec_fst_to_bytes(h, &mut b));
                if m.outcome("vec_fst_to_bytes", r, true) {
                    // the interface has no call to free the array
                    m.unfreeable += LIVE.load(Relaxed) - before;
                    let got = unsafe { std::slice::from_raw_parts((*b).data, (*b).size) }.to_vec();
                    if got != e {
                        m.bad("answer:vec_fst_to_bytes", "bytes differ".into());
                    }
                    let mut g = got;
                    if rng.bool() {
                        match rng.below(3) {
                            0 => g.truncate(rng.below(g.len() + 1)),
                            1 => {
                                let i = rng.below(g.len());
                                g[i] ^= 1 << rng.below(8);
                            }
                            _ => g = (0..rng.below(40)).map(|_| rng.next() as u8).collect(),
                        }
                    }
                    let exp: Option<V> = lib(|| V::load(&g));
                    let a = Arr8 { data: g.as_ptr(), size: g.len() };
                    let mut o: H = std::ptr::null_mut();
                    let r = c!(m, vec_fst_from_bytes(&a, &mut o));
                    if m.outcome("vec_fst_from_bytes", r, exp.is_some()) {
                        let f = F { h: o, s: Shadow::V(exp.unwrap()) };
                        m.compare("vec_fst_from_bytes", &f);
                        p.f.push(f);
                    }
                }
            }
        }
        13 | 14 => {
            // files
            let d = scratch();
            let path = d.join("x.fst");
            let cp = cs(path.to_str().unwrap());
            let h = p.f[k].h;
            let mut o: H = std::ptr::null_mut();
            match &p.f[k].s {
                Shadow::V(v) => {
                    let v = v.clone();
                    let r = c!(m, vec_fst_write_file(h, cp.as_ptr()));
                    if m.outcome("vec_fst_write_file", r, true) {
                        let exp: Option<V> = lib(|| V::read(&path));
                        let r = c!(m, vec_fst_from_path(&mut o, cp.as_ptr()));
                        if m.outcome("vec_fst_from_path", r, exp.is_some()) {
                            let f = F { h: o, s: Shadow::V(exp.unwrap()) };
                            m.compare("vec_fst_from_path", &f);
                            p.f.push(f);
                        }
                        let r = c!(m, const_fst_from_path(&mut o, cp.as_ptr()));
                        m.outcome("const_fst_from_path", r, lib(|| ConstFst::<W>::read(&path)).is_some());
                    }
                    let cf: ConstFst<W> = v.into();
                    cf.write(&path).unwrap();
                    let exp: Option<ConstFst<W>> = lib(|| ConstFst::<W>::read(&path));
                    let r = c!(m, const_fst_from_path(&mut o, cp.as_ptr()));
                    if m.outcome("const_fst_from_path", r, exp.is_some()) {
                        let f = F { h: o, s: Shadow::C(exp.unwrap()) };
                        m.compare("const_fst_from_path", &f);
                        m.ctx.count("const_machines");
                        p.f.push(f);
                    }
                }
                Shadow::C(_) => {
                    let r = c!(m, const_fst_write_file(h, cp.as_ptr()));
                    m.outcome("const_fst_write_file", r, true);
                    let r = c!(m, vec_fst_write_file(h, cp.as_ptr()));
                    m.outcome("vec_fst_write_file", r, false);
                }
                _ => {}
            }
            let bad = cs(d.join("no/such/file").to_str().unwrap());
            let r = c!(m, vec_fst_from_path(&mut o, bad.as_ptr()));
            m.outcome("vec_fst_from_path", r, false);
            let r = c!(m, vec_fst_write_file(h, bad.as_ptr()));
            m.outcome("vec_fst_write_file", r, false);
            let _ = std::fs::remove_dir_all(&d);
        }
        15 => {
            // drawing with attached tables
            let d = scratch();
            let (pa, pb) = (d.join("a.dot"), d.join("b.dot"));
            let (h, portrait, vert, acc, one, pw) = (p.f[k].h, rng.bool(), rng.bool(), rng.bool(), rng.bool(), rng.bool());
            let (w, hh, rs, ns) = (rng.below(3) as f32 - 1.0, rng.below(3) as f32 - 1.0, rng.below(3) as f32 - 1.0, rng.below(3) as f32 - 1.0);
            let cfg = DrawingConfig {
                vertical: vert,
                size: if w >= 0.0 && hh >= 0.0 { Some((w, hh)) } else { None },
                title: "t".into(),
                portrait,
                ranksep: if rs >= 0.0 { Some(rs) } else { None },
                nodesep: if ns >= 0.0 { Some(ns) } else { None },
                fontsize: 14,
                acceptor: acc,
                show_weight_one: one,
                print_weight: pw,
            };
            let (cp, ti) = (cs(pa.to_str().unwrap()), cs("t"));
            // tables given for the drawing only
            let pick = |rng: &mut Rng, p: &Pool| if !p.y.is_empty() && rng.chance(1, 3) { Some(rng.below(p.y.len())) } else { None };
            let (iy, oy) = (pick(rng, p), pick(rng, p));
            let (ih, oh) = (iy.map_or(std::ptr::null_mut(), |x| p.y[x].h), oy.map_or(std::ptr::null_mut(), |x| p.y[x].h));
            let (it, ot) = (iy.map(|x| p.y[x].s.clone()), oy.map(|x| p.y[x].s.clone()));
            if iy.is_some() || oy.is_some() {
                m.ctx.count("drawn_with_given_tables");
            }
            let z: H = std::ptr::null_mut();
            let (r, ok, name) = match &p.f[k].s {
                Shadow::V(v) => {
                    let mut v = v.clone();
                    if let Some(t) = it {
                        v.set_input_symbols(t);
                    }
                    if let Some(t) = ot {
                        v.set_output_symbols(t);
                    }
                    let ok = lib(|| v.draw(&pb, &cfg)).is_some();
                    (c!(m, vec_fst_draw(h, ih, oh, cp.as_ptr(), ti.as_ptr(), acc as usize, w, hh, portrait as usize, vert as usize, rs, ns, 14, one as usize, pw as usize)), ok, "vec_fst_draw")
                }
                Shadow::C(v) => {
                    let mut v = v.clone();
                    if let Some(t) = it {
                        v.set_input_symbols(t);
                    }
                    if let Some(t) = ot {
                        v.set_output_symbols(t);
                    }
                    let ok = lib(|| v.draw(&pb, &cfg)).is_some();
                    (c!(m, const_fst_draw(h, ih, oh, cp.as_ptr(), ti.as_ptr(), acc as usize, w, hh, portrait as usize, vert as usize, rs, ns, 14, one as usize, pw as usize)), ok, "const_fst_draw")
                }
                _ => (c!(m, vec_fst_draw(h, z, z, cp.as_ptr(), ti.as_ptr(), 0, w, hh, 0, 0, rs, ns, 14, 0, 0)), false, "vec_fst_draw"),
            };
            if m.outcome(name, r, ok) && std::fs::read(&pa).ok() != std::fs::read(&pb).ok() {
                m.bad(&format!("answer:{}", name), "the drawings differ".into());
            }
            let _ = std::fs::remove_dir_all(&d);
        }
        16 | 17 => {
            // concatenation on demand
            let k2 = pick_f(rng, p);
            let (a, b) = (p.f[k].h, p.f[k2].h);
            let exp = match (&p.f[k].s, &p.f[k2].s) {
                (Shadow::V(x), Shadow::V(y)) => lib(|| ConcatFst::new(x.clone(), y.clone())?.compute::<V>()),
                _ => None,
            };
            let mut o: H = std::ptr::null_mut();
            let r = c!(m, concat_fst_new(&mut o, a, b));
            if m.outcome("concat_fst_new", r, exp.is_some()) {
                let f = F { h: o, s: Shadow::L(exp.clone().unwrap()) };
                if rng.bool() {
                    m.compare("concat_fst_new", &f);
                }
                p.f.push(f);
                m.ctx.count("lazy_machines");
                let mut q = o;
                let r = c!(m, concat_fst_compute(&mut q));
                if m.outcome("concat_fst_compute", r, true) {
                    let f = F { h: q, s: Shadow::V(exp.unwrap()) };
                    m.compare("concat_fst_compute", &f);
                    p.f.push(f);
                }
            }
        }
        18 => {
            // strings
            let yi = rng.below(p.y.len());
            let yo = rng.below(p.y.len());
            let mk = |rng: &mut Rng| -> String { (0..rng.below(4)).map(|_| *rng.pick(&SYMS)).collect::<Vec<_>>().join(" ") };
            let (s1, s2) = (mk(rng), mk(rng));
            let w = rng.below(5) as f32;
            let lab = |t: &SymbolTable, s: &str| -> Option<Vec<u32>> { s.split(' ').map(|x| t.get_label(x)).collect() };
            let mut o: H = std::ptr::null_mut();
            let (c1, c2) = (cs(&s1), cs(&s2));
            let e = lab(&p.y[yi].s, &s1);
            let r = c!(m, utils_string_to_acceptor(c1.as_ptr(), p.y[yi].h, w, &mut o));
            if m.outcome("utils_string_to_acceptor", r, e.is_some()) {
                let f = F { h: o, s: Shadow::V(acceptor(&e.clone().unwrap(), W::new(w))) };
                m.compare("utils_string_to_acceptor", &f);
                p.f.push(f);
            }
            let e2 = lab(&p.y[yo].s, &s2);
            let r = c!(m, utils_string_to_transducer(c1.as_ptr(), c2.as_ptr(), p.y[yi].h, p.y[yo].h, w, &mut o));
            if m.outcome("utils_string_to_transducer", r, e.is_some() && e2.is_some()) {
                let f = F { h: o, s: Shadow::V(transducer(&e.unwrap(), &e2.unwrap(), W::new(w))) };
                m.compare("utils_string_to_transducer", &f);
                p.f.push(f);
            }
        }
        19 | 20 => {
            // tables on and off
            let y = rng.below(p.y.len());
            let (h, side, set, yh, ys) = (p.f[k].h, rng.bool(), rng.chance(2, 3), p.y[y].h, Arc::clone(&p.y[y].s));
            let (r, name) = match (set, side) {
                (true, true) => (c!(m, fst_set_input_symbols(h, yh)), "fst_set_input_symbols"),
                (true, false) => (c!(m, fst_set_output_symbols(h, yh)), "fst_set_output_symbols"),
                (false, true) => (c!(m, fst_unset_input_symbols(h)), "fst_unset_input_symbols"),
                (false, false) => (c!(m, fst_unset_output_symbols(h)), "fst_unset_output_symbols"),
            };
            fn app<X: Fst<W>>(f: &mut X, side: bool, set: bool, t: Arc<SymbolTable>) {
                match (set, side) {
                    (true, true) => f.set_input_symbols(t),
                    (true, false) => f.set_output_symbols(t),
                    (false, true) => {
                        f.take_input_symbols();
                    }
                    (false, false) => {
                        f.take_output_symbols();
                    }
                }
            }
            // the shadow gets its own copy: later additions through the handle must not show
            let t = Arc::new(SymbolTable::clone(&ys));
            match &mut p.f[k].s {
                Shadow::V(v) | Shadow::L(v) => app(v, side, set, t),
                Shadow::C(v) => app(v, side, set, t),
            }
            m.outcome(name, r, true);
            m.compare(name, &p.f[k]);
        }
        21 => {
            let (a, b, c2, d) = (rng.below(p.y.len()), rng.below(p.y.len()), rng.below(p.y.len()), rng.below(p.y.len()));
            let z: H = std::ptr::null_mut();
            let (with_i, with_o, at_i, at_o) = (rng.bool(), rng.bool(), rng.bool(), rng.bool());
            let (sa, sb, sc, sd) = (Arc::new((*p.y[a].s).clone()), Arc::new((*p.y[b].s).clone()), Arc::new((*p.y[c2].s).clone()), Arc::new((*p.y[d].s).clone()));
            let (ha, hb, hc, hd) = (if with_i { p.y[a].h } else { z }, p.y[b].h, if with_o { p.y[c2].h } else { z }, p.y[d].h);
            inplace(
                m,
                p,
                k,
                "vec_fst_relabel_tables",
                |m, h| c!(m, vec_fst_relabel_tables(h, ha, hb, at_i as usize, hc, hd, at_o as usize)),
                |v| v.relabel_tables(if with_i { Some(&sa) } else { None }, &sb, at_i, if with_o { Some(&sc) } else { None }, &sd, at_o),
            );
        }
        22 | 23 => symt_step(m, rng, p),
        24 => new_symt(m, rng, p),
        25 => {
            // a transition list
            let mut o: H = std::ptr::null_mut();
            let exp: Option<(u32, Vec<Tr<W>>)> = match &p.f[k].s {
                Shadow::V(v) if v.num_states() > 0 => {
                    let q = rng.below(v.num_states()) as u32;
                    Some((q, v.get_trs(q).unwrap().trs().to_vec()))
                }
                Shadow::C(v) if v.num_states() > 0 => {
                    let q = rng.below(v.num_states()) as u32;
                    Some((q, v.get_trs(q).unwrap().trs().to_vec()))
                }
                _ => None,
            };
            match exp {
                Some((q, e)) => {
                    let r = c!(m, fst_get_trs(p.f[k].h, q, &mut o));
                    if m.outcome("fst_get_trs", r, true) {
                        p.t.push(Ts { h: o, s: e });
                    }
                }
                None => {
                    let r = c!(m, trs_vec_new(&mut o));
                    if m.outcome("trs_vec_new", r, true) {
                        p.t.push(Ts { h: o, s: vec![] });
                    }
                }
            }
            trs_step(m, rng, p);
        }
        26 | 27 => trs_step(m, rng, p),
        28 => {
            // an iterator that may outlive its machine
            if let Shadow::V(v) = &p.f[k].s {
                if v.num_states() > 0 {
                    let q = rng.below(v.num_states()) as u32;
                    let e = v.get_trs(q).unwrap().trs().to_vec();
                    let mut o: H = std::ptr::null_mut();
                    let r = c!(m, trs_iterator_new(p.f[k].h, q, &mut o));
                    if m.outcome("trs_iterator_new", r, true) {
                        p.i.push(It { h: o, s: e, pos: 0 });
                    }
                }
            }
            it_step(m, rng, p);
        }
        29 | 30 => it_step(m, rng, p),
        31 => {
            // state iterator
            let mut o: H = std::ptr::null_mut();
            match &p.f[k].s {
                Shadow::V(v) => {
                    let n = v.num_states() as u32;
                    let r = c!(m, state_iterator_new(p.f[k].h, &mut o));
                    if m.outcome("state_iterator_new", r, true) {
                        p.si.push(SIt { h: o, n, pos: 0 });
                    }
                }
                Shadow::C(v) => {
                    // either refused or right
                    let n = v.num_states() as u32;
                    let r = c!(m, state_iterator_new(p.f[k].h, &mut o));
                    if r == 0 {
                        p.si.push(SIt { h: o, n, pos: 0 });
                    } else {
                        m.outcome("state_iterator_new", r, false);
                    }
                }
                _ => {
                    let r = c!(m, state_iterator_new(p.f[k].h, &mut o));
                    m.outcome("state_iterator_new", r, false);
                }
            }
            sit_step(m, rng, p);
        }
        32 => sit_step(m, rng, p),
        33 | 34 => mut_iter(m, rng, p, k),
        35 | 36 => string_paths(m, p, k),
        37 => {
            // null handles
            let z: H = std::ptr::null_mut();
            let (mut u, mut w, mut o, mut q) = (0usize, 0f32, std::ptr::null_mut(), 0u32);
            let mut s: *mut c_char = std::ptr::null_mut();
            let rs = [
                ("fst_start", c!(m, fst_start(z, &mut q))),
                ("fst_final_weight", c!(m, fst_final_weight(z, 0, &mut w))),
                ("vec_fst_num_states", c!(m, vec_fst_num_states(z, &mut u))),
                ("vec_fst_copy", c!(m, vec_fst_copy(z, &mut o))),
                ("vec_fst_display", c!(m, vec_fst_display(z, &mut s))),
                ("fst_compose", c!(m, fst_compose(z, z, &mut o))),
                ("symt_num_symbols", c!(m, symt_num_symbols(z, &mut u))),
                ("tr_ilabel", c!(m, tr_ilabel(z, &mut q))),
                ("trs_vec_len", c!(m, trs_vec_len(z, &mut u))),
                ("trs_iterator_done", c!(m, trs_iterator_done(z, &mut u))),
                ("fst_project", c!(m, fst_project(z, z))),
                ("vec_fst_add_tr", c!(m, vec_fst_add_tr(p.f[k].h, 0, z))),
                ("fst_union", c!(m, fst_union(p.f[k].h, z))),
            ];
            for (n, r) in rs {
                if r != 1 {
                    m.bad(&format!("outcome:{}", n), format!("{} accepted a null handle", n));
                }
            }
            let r = c!(m, fst_destroy(z));
            m.outcome("fst_destroy", r, true);
            c!(m, symt_destroy(z));
            c!(m, tr_delete(z));
            c!(m, trs_vec_delete(z));
            m.ctx.count("null_handles");
            c!(m, fst_weight_one(&mut w));
            let ok1 = w == *W::one().value();
            c!(m, fst_weight_zero(&mut w));
            if !ok1 || w != *W::zero().value() {
                m.bad("content", "weight constants".into());
            }
        }
        38 => {
            drop_fst(m, p, k);
        }
        39 => inplace(m, p, k, "fst_connect", |m, h| c!(m, fst_connect(h)), |v| connect(v)),
        40 => inplace(m, p, k, "fst_top_sort", |m, h| c!(m, fst_top_sort(h)), |v| top_sort(v)),
        41 => inplace(m, p, k, "fst_tr_unique", |m, h| c!(m, fst_tr_unique(h)), |v| {
            tr_unique(v);
            Ok(())
        }),
        42 => {
            let il = rng.bool();
            inplace(m, p, k, "fst_tr_sort", |m, h| c!(m, fst_tr_sort(h, il)), |v| {
                if il {
                    tr_sort(v, ILabelCompare {})
                } else {
                    tr_sort(v, OLabelCompare {})
                }
                Ok(())
            })
        }
        43 => inplace(m, p, k, "fst_rm_epsilon", |m, h| c!(m, fst_rm_epsilon(h)), |v| rm_epsilon(v)),
        44 => {
            let t = rng.below(3);
            let mut cfg: H = std::ptr::null_mut();
            c!(m, fst_project_type_new(t, &mut cfg));
            m.unfreeable += 1;
            inplace(m, p, k, "fst_project", |m, h| c!(m, fst_project(h, cfg)), |v| {
                match t {
                    0 => project(v, ProjectType::ProjectInput),
                    1 => project(v, ProjectType::ProjectOutput),
                    _ => anyhow::bail!("no such projection"),
                }
                Ok(())
            })
        }
        45 => produce(m, p, k, "fst_reverse", |m, h, o| c!(m, fst_reverse(h, o)), |v| reverse(v)),
        46 => {
            let k2 = pick_f(rng, p);
            if k2 == k {
                m.ctx.count("same_machine_twice");
            }
            let (h2, s2) = (p.f[k2].h, if let Shadow::V(v) = &p.f[k2].s { Some(v.clone()) } else { None });
            inplace(m, p, k, "fst_union", |m, h| c!(m, fst_union(h, h2)), |v| match &s2 {
                Some(x) => union(v, x),
                None => anyhow::bail!("kind"),
            })
        }
        47 => {
            let k2 = pick_f(rng, p);
            if k2 == k {
                m.ctx.count("same_machine_twice");
            }
            let (h2, s2) = (p.f[k2].h, if let Shadow::V(v) = &p.f[k2].s { Some(v.clone()) } else { None });
            inplace(m, p, k, "fst_concat", |m, h| c!(m, fst_concat(h, h2)), |v| match &s2 {
                Some(x) => concat(v, x),
                None => anyhow::bail!("kind"),
            })
        }
        48..=50 => compose_step(m, rng, p, k),
        51 => {
            if acyclic(p, k) {
                produce(m, p, k, "fst_determinize", |m, h, o| c!(m, fst_determinize(h, o)), |v| determinize(v))
            }
        }
        52 => {
            if acyclic(p, k) {
                let (delta, t) = (*rng.pick(&[1.0 / 1024.0, 0.1]), rng.below(4));
                let mut cfg: H = std::ptr::null_mut();
                c!(m, fst_determinize_config_new(delta, t, &mut cfg));
                m.unfreeable += 1;
                produce(m, p, k, "fst_determinize_with_config", |m, h, o| c!(m, fst_determinize_with_config(h, cfg, o)), |v| {
                    let t = match t {
                        0 => DeterminizeType::DeterminizeFunctional,
                        1 => DeterminizeType::DeterminizeNonFunctional,
                        2 => DeterminizeType::DeterminizeDisambiguate,
                        _ => anyhow::bail!("no such type"),
                    };
                    determinize_with_config(v, DeterminizeConfig::new(delta, t))
                })
            }
        }
        53 => {
            if acyclic(p, k) {
                inplace(m, p, k, "fst_minimize", |m, h| c!(m, fst_minimize(h)), |v| minimize(v))
            }
        }
        54 => {
            if acyclic(p, k) {
                let (delta, nd) = (*rng.pick(&[1e-6, 0.1]), rng.bool());
                let mut cfg: H = std::ptr::null_mut();
                c!(m, fst_minimize_config_new(delta, nd, &mut cfg));
                m.unfreeable += 1;
                inplace(m, p, k, "fst_minimize_with_config", |m, h| c!(m, fst_minimize_with_config(h, cfg)), |v| minimize_with_config(v, MinimizeConfig::default().with_delta(delta).with_allow_nondet(nd)))
            }
        }
        55 => {
            if acyclic(p, k) {
                inplace(m, p, k, "fst_optimize", |m, h| c!(m, fst_optimize(h)), |v| optimize(v))
            }
        }
        56 => {
            if acyclic(p, k) {
                optimize_in_log(m, p, k);
            }
        }
        57 => produce(m, p, k, "fst_shortest_path", |m, h, o| c!(m, fst_shortest_path(h, o)), |v| shortest_path(v)),
        58 | 59 => {
            let (d, n, u) = (1e-6, rng.below(4), rng.bool());
            if u && !acyclic(p, k) {
                return op;
            }
            let mut cfg: H = std::ptr::null_mut();
            c!(m, fst_shortest_path_config_new(d, n, u, &mut cfg));
            m.unfreeable += 1;
            produce(m, p, k, "fst_shortest_path_with_config", |m, h, o| c!(m, fst_shortest_path_with_config(h, cfg, o)), |v| {
                shortest_path_with_config(v, ShortestPathConfig::default().with_delta(d).with_nshortest(n).with_unique(u))
            })
        }
        60 | 61 => {
            if acyclic(p, k) {
                let (np, seed, w, rm) = (rng.range(1, 4), rng.below(1000), rng.bool(), rng.bool());
                let ml = rng.range(1, 6);
                produce(m, p, k, "fst_randgen", |m, h, o| c!(m, fst_randgen(h, np, seed, ml, w, rm, o)), |v| {
                    randgen_with_config(v, RandGenConfig::new(UniformTrSelector::from_seed(seed as u64)).with_npath(np).with_weighted(w).with_max_length(ml).with_remove_total_weight(rm))
                })
            }
        }
        _ => {
            // replacement
            let k2 = pick_f(rng, p);
            if !acyclic(p, k) || !acyclic(p, k2) || k == k2 {
                return op;
            }
            let (mut l, eps, root) = (vec![LFP { label: 100, fst: p.f[k].h }, LFP { label: 2, fst: p.f[k2].h }], rng.bool(), if rng.chance(1, 8) { 77 } else { 100 });
            let exp = match (&p.f[k].s, &p.f[k2].s) {
                (Shadow::V(a), Shadow::V(b)) => {
                    // a callee that calls itself never ends
                    if b.states_iter().any(|q| b.get_trs(q).unwrap().trs().iter().any(|t| t.olabel == 2 || t.olabel == 100)) {
                        return op;
                    }
                    if a.states_iter().any(|q| a.get_trs(q).unwrap().trs().iter().any(|t| t.olabel == 100)) {
                        return op;
                    }
                    lib(|| replace::<W, V, V, _>(vec![(100, a.clone()), (2, b.clone())], root, eps))
                }
                _ => None,
            };
            let mut o: H = std::ptr::null_mut();
            let r = c!(m, fst_replace(root, l.as_mut_ptr(), 2, eps, &mut o));
            if m.outcome("fst_replace", r, exp.is_some()) {
                let f = F { h: o, s: Shadow::V(exp.unwrap()) };
                m.compare("fst_replace", &f);
                p.f.push(f);
            }
        }
    }
    op
}

fn acyclic(p: &Pool, k: usize) -> bool {
    match &p.f[k].s {
        Shadow::V(v) => fstmon::reffst::extract::<W, _>(v).map(|r| !r.is_cyclic()).unwrap_or(false),
        _ => true,
    }
}

fn compose_step(m: &mut M, rng: &mut Rng, p: &mut Pool, k: usize) {
    let k2 = pick_f(rng, p);
    // unsorted operands are refused; sort both sometimes
    if rng.chance(3, 4) {
        inplace(m, p, k, "fst_tr_sort", |m, h| c!(m, fst_tr_sort(h, false)), |v| {
            tr_sort(v, OLabelCompare {});
            Ok(())
        });
        if k2 != k {
            inplace(m, p, k2, "fst_tr_sort", |m, h| c!(m, fst_tr_sort(h, true)), |v| {
                tr_sort(v, ILabelCompare {});
                Ok(())
            });
        }
    }
    if m.ctx.failed() {
        return;
    }
    let (h1, h2) = (p.f[k].h, p.f[k2].h);
    let pair = match (&p.f[k].s, &p.f[k2].s) {
        (Shadow::V(a), Shadow::V(b)) => Some((a.clone(), b.clone())),
        _ => None,
    };
    let mut o: H = std::ptr::null_mut();
    if rng.chance(1, 3) {
        let exp = pair.and_then(|(a, b)| lib(|| compose::<W, V, V, V, _, _>(a, b)));
        let r = c!(m, fst_compose(h1, h2, &mut o));
        if m.outcome("fst_compose", r, exp.is_some()) {
            let f = F { h: o, s: Shadow::V(exp.unwrap()) };
            m.compare("fst_compose", &f);
            p.f.push(f);
        }
        return;
    }
    let (filter, conn) = (rng.below(8), rng.bool());
    let mut cfg: H = std::ptr::null_mut();
    let mut mc: [H; 2] = [std::ptr::null_mut(); 2];
    let mut lc = [MatcherConfig::default(), MatcherConfig::default()];
    let mut modes_ok = true;
    for i in 0..2 {
        if rng.chance(1, 4) {
            let (mode, sig) = (rng.below(4), 1 + rng.below(3));
            let allowed: Vec<u32> = (0..rng.below(3)).map(|x| x as u32 + 1).collect();
            let r = c!(m, fst_matcher_config_new(sig, mode, IntArr { data: if allowed.is_empty() && rng.bool() { std::ptr::null() } else { allowed.as_ptr() }, size: allowed.len() }, &mut mc[i]));
            m.outcome("fst_matcher_config_new", r, true);
            let rw = match mode {
                0 => MatcherRewriteMode::MatcherRewriteAuto,
                1 => MatcherRewriteMode::MatcherRewriteAlways,
                2 => MatcherRewriteMode::MatcherRewriteNever,
                _ => {
                    modes_ok = false;
                    MatcherRewriteMode::MatcherRewriteAuto
                }
            };
            lc[i].sigma_matcher_config = Some(SigmaMatcherConfig { sigma_label: sig as u32, rewrite_mode: rw, sigma_allowed_matches: if allowed.is_empty() { None } else { Some(allowed) } });
            m.ctx.count("sigma_configs");
        }
    }
    let r = c!(m, fst_compose_config_new(filter, conn, mc[0], mc[1], &mut cfg));
    m.outcome("fst_compose_config_new", r, true);
    let fe = match filter {
        0 => Some(ComposeFilterEnum::AutoFilter),
        1 => Some(ComposeFilterEnum::NullFilter),
        2 => Some(ComposeFilterEnum::TrivialFilter),
        3 => Some(ComposeFilterEnum::SequenceFilter),
        4 => Some(ComposeFilterEnum::AltSequenceFilter),
        5 => Some(ComposeFilterEnum::MatchFilter),
        6 => Some(ComposeFilterEnum::NoMatchFilter),
        _ => None,
    };
    // configurations may be dropped before they are used through the copy
    if rng.bool() {
        c!(m, fst_matcher_config_destroy(mc[0]));
        c!(m, fst_matcher_config_destroy(mc[1]));
        mc = [std::ptr::null_mut(); 2];
    }
    let [l1, l2] = lc;
    let exp = match (pair, fe, modes_ok) {
        (Some((a, b)), Some(fe), true) => lib(|| compose_with_config::<W, V, V, V, _, _>(a, b, ComposeConfig { compose_filter: fe, connect: conn, matcher1_config: l1, matcher2_config: l2 })),
        _ => None,
    };
    let r = c!(m, fst_compose_with_config(h1, h2, cfg, &mut o));
    if m.outcome("fst_compose_with_config", r, exp.is_some()) {
        let f = F { h: o, s: Shadow::V(exp.unwrap()) };
        m.compare("fst_compose_with_config", &f);
        p.f.push(f);
    }
    c!(m, fst_compose_config_destroy(cfg));
    c!(m, fst_matcher_config_destroy(mc[0]));
    c!(m, fst_matcher_config_destroy(mc[1]));
}

fn new_symt(m: &mut M, rng: &mut Rng, p: &mut Pool) {
    let mut h: H = std::ptr::null_mut();
    c!(m, symt_new(&mut h));
    let mut s = SymbolTable::new();
    // now and then a table whose labels don't fit a byte
    let (n, many) = if rng.chance(1, 40) { (300, true) } else { (rng.below(4), false) };
    for i in 0..n {
        let x = if many { format!("s{}", i) } else { rng.pick(&SYMS).to_string() };
        let mut key = 777usize;
        let cx = cs(&x);
        let r = c!(m, symt_add_symbol(h, cx.as_ptr(), &mut key));
        m.outcome("symt_add_symbol", r, true);
        let e = s.add_symbol(x.as_str());
        if key != e as usize {
            m.bad("answer:symt_add_symbol", format!("{} for {:?}, library {}", key, x, e));
        }
    }
    if p.y.len() > 3 {
        let y = p.y.swap_remove(0);
        c!(m, symt_destroy(y.h));
    }
    p.y.push(Sy { h, s: Arc::new(s) });
}

fn symt_step(m: &mut M, rng: &mut Rng, p: &mut Pool) {
    let k = rng.below(p.y.len());
    let k2 = rng.below(p.y.len());
    let h = p.y[k].h;
    match rng.below(7) {
        0 => {
            // an attached table may refuse to grow; it must not change then
            let x = *rng.pick(&["new", "a", "zz"]);
            let cx = cs(x);
            let mut key = 777usize;
            let r = c!(m, symt_add_symbol(h, cx.as_ptr(), &mut key));
            if r == 0 {
                let s = Arc::make_mut(&mut p.y[k].s);
                let e = s.add_symbol(x);
                if key != e as usize {
                    m.bad("answer:symt_add_symbol", format!("{} library {}", key, e));
                }
            } else {
                m.ctx.count("attached_table_refused");
                m.outcome("symt_add_symbol", r, false);
            }
        }
        1 => {
            if k != k2 {
                let r = c!(m, symt_add_table(h, p.y[k2].h));
                if r == 0 {
                    let o = Arc::clone(&p.y[k2].s);
                    Arc::make_mut(&mut p.y[k].s).add_table(&o);
                } else {
                    m.outcome("symt_add_table", r, false);
                }
            }
        }
        2 => {
            let x = *rng.pick(&["a", "nope", "<eps>", ""]);
            let cx = cs(x);
            let mut key = 777usize;
            let exp = p.y[k].s.get_label(x);
            let r = c!(m, symt_find_symbol(h, cx.as_ptr(), &mut key));
            if m.outcome("symt_find_symbol", r, exp.is_some()) && key != exp.unwrap() as usize {
                m.bad("answer:symt_find_symbol", format!("{}", key));
            }
            let mut b = 9usize;
            c!(m, symt_member_symbol(h, cx.as_ptr(), &mut b));
            if b != exp.is_some() as usize {
                m.bad("answer:symt_member_symbol", format!("{}", b));
            }
        }
        3 => {
            let l = *rng.pick(&[0, 1, 2, 5, 100, 127, 128, 255, 256, 257, 258, 299, 65536, 65537, (1 << 31) + 1, u32::MAX]);
            let mut b = 9usize;
            c!(m, symt_member_index(h, l, &mut b));
            let exp = p.y[k].s.get_symbol(l).map(|x| x.to_string());
            if b != exp.is_some() as usize {
                m.bad("answer:symt_member_index", format!("{}", b));
            }
            let mut s: *mut c_char = std::ptr::null_mut();
            let r = c!(m, symt_find_index(h, l, &mut s));
            if m.outcome("symt_find_index", r, exp.is_some()) && m.string(s) != exp.unwrap() {
                m.bad("answer:symt_find_index", format!("label {}", l));
            }
        }
        4 => {
            let mut o: H = std::ptr::null_mut();
            let r = c!(m, symt_copy(h, &mut o));
            if m.outcome("symt_copy", r, true) {
                let s = Arc::new(SymbolTable::clone(&p.y[k].s));
                p.y.push(Sy { h: o, s });
            }
        }
        5 => {
            let mut b = 9usize;
            let r = c!(m, symt_equals(h, p.y[k2].h, &mut b));
            m.outcome("symt_equals", r, true);
            if b != (p.y[k].s == p.y[k2].s) as usize {
                m.bad("answer:symt_equals", format!("{}", b));
            }
        }
        _ => {
            let d = scratch();
            let path = d.join("s.symt");
            let cp = cs(path.to_str().unwrap());
            let bin = rng.bool();
            let r = c!(m, symt_write_file(h, cp.as_ptr(), bin as usize));
            if m.outcome("symt_write_file", r, true) {
                let exp = lib(|| if bin { SymbolTable::read(&path) } else { SymbolTable::read_text(&path) });
                let mut o: H = std::ptr::null_mut();
                let r = c!(m, symt_from_path(&mut o, cp.as_ptr(), bin as usize));
                if m.outcome("symt_from_path", r, exp.is_some()) {
                    p.y.push(Sy { h: o, s: Arc::new(exp.unwrap()) });
                }
            }
            let _ = std::fs::remove_dir_all(&d);
        }
    }
    if !m.ctx.failed() {
        let (h, s) = (p.y[k].h, Arc::clone(&p.y[k].s));
        if !m.same_table(h, &s) {
            m.bad("tables", "table content differs from the library's".into());
        }
    }
}

fn trs_step(m: &mut M, rng: &mut Rng, p: &mut Pool) {
    if p.t.is_empty() {
        return;
    }
    let k = rng.below(p.t.len());
    let h = p.t[k].h;
    match rng.below(5) {
        0 => {
            let t = Tr::new(rng.below(4) as u32, rng.below(4) as u32, W::gen(rng, WProfile::Normal), rng.below(4) as u32);
            let th = m.make_tr(rng, &t);
            let r = c!(m, trs_vec_push(h, th));
            m.outcome("trs_vec_push", r, true);
            c!(m, tr_delete(th));
            p.t[k].s.push(t);
        }
        1 => {
            let n = p.t[k].s.len();
            let i = rng.below(n + 2);
            let mut o: H = std::ptr::null_mut();
            let r = c!(m, trs_vec_remove(h, i, &mut o));
            if m.outcome("trs_vec_remove", r, i < n) {
                let g = m.take_tr(o);
                let e = p.t[k].s.remove(i);
                if !same_tr("", g.as_ref(), Some(&e)) {
                    m.bad("answer:trs_vec_remove", format!("{:?} expected {:?}", g, e));
                }
            }
        }
        2 => {
            let mut o: H = std::ptr::null_mut();
            let r = c!(m, trs_vec_shallow_clone(h, &mut o));
            if m.outcome("trs_vec_shallow_clone", r, true) {
                let s = p.t[k].s.clone();
                p.t.push(Ts { h: o, s });
            }
        }
        3 => {
            let t = p.t.swap_remove(k);
            c!(m, trs_vec_delete(t.h));
            return;
        }
        _ => {}
    }
    // every list still has its own content
    for j in 0..p.t.len() {
        let h = p.t[j].h;
        let mut n = 777usize;
        c!(m, trs_vec_len(h, &mut n));
        let e = p.t[j].s.clone();
        if n != e.len() {
            m.bad("content", format!("list of {} transitions, expected {}", n, e.len()));
            return;
        }
        let mut s: *mut c_char = std::ptr::null_mut();
        c!(m, trs_vec_display(h, &mut s));
        let exp = format!("{:?}", TrsVec(Arc::new(e)));
        if m.string(s) != exp {
            m.bad("content", "transition list content".into());
            return;
        }
        m.ctx.count("lists_compared");
    }
}

fn it_step(m: &mut M, rng: &mut Rng, p: &mut Pool) {
    if p.i.is_empty() {
        return;
    }
    let k = rng.below(p.i.len());
    let h = p.i[k].h;
    for _ in 0..rng.range(1, 4) {
        match rng.below(6) {
            0 => {
                c!(m, trs_iterator_reset(h));
                p.i[k].pos = 0;
            }
            1 => {
                let it = p.i.swap_remove(k);
                c!(m, trs_iterator_destroy(it.h));
                return;
            }
            _ => {
                // also past the end
                let mut o: H = std::ptr::null_mut();
                let r = c!(m, trs_iterator_next(h, &mut o));
                m.outcome("trs_iterator_next", r, true);
                let g = m.take_tr(o);
                let e = p.i[k].s.get(p.i[k].pos).cloned();
                if e.is_none() {
                    m.ctx.count("past_the_end");
                }
                p.i[k].pos = (p.i[k].pos + 1).min(p.i[k].s.len());
                if !same_tr("", g.as_ref(), e.as_ref()) {
                    m.bad("answer:trs_iterator_next", format!("{:?} expected {:?}", g, e));
                    return;
                }
            }
        }
        let mut d = 9usize;
        c!(m, trs_iterator_done(h, &mut d));
        if d != (p.i[k].pos >= p.i[k].s.len()) as usize {
            m.bad("answer:trs_iterator_done", format!("{} at {} of {}", d, p.i[k].pos, p.i[k].s.len()));
            return;
        }
    }
}

fn sit_step(m: &mut M, rng: &mut Rng, p: &mut Pool) {
    if p.si.is_empty() {
        return;
    }
    let k = rng.below(p.si.len());
    let h = p.si[k].h;
    for _ in 0..rng.range(1, 4) {
        let mut d = 9usize;
        c!(m, state_iterator_done(h, &mut d));
        let end = p.si[k].pos >= p.si[k].n;
        if d != end as usize {
            m.bad("answer:state_iterator_done", format!("{} at {} of {}", d, p.si[k].pos, p.si[k].n));
            return;
        }
        let mut s = 987654u32;
        c!(m, state_iterator_next(h, &mut s));
        let e = if end { 987654 } else { p.si[k].pos };
        if s != e {
            m.bad("answer:state_iterator_next", format!("{} expected {}", s, e));
            return;
        }
        if !end {
            p.si[k].pos += 1;
        }
    }
}

/// the mutable iterator borrows its machine: opened, used and closed in one go
fn mut_iter(m: &mut M, rng: &mut Rng, p: &mut Pool, k: usize) {
    let h = p.f[k].h;
    let mut it: H = std::ptr::null_mut();
    let (n, q) = match &p.f[k].s {
        Shadow::V(v) if v.num_states() > 0 => (v.num_states(), rng.below(v.num_states()) as u32),
        Shadow::V(_) => return,
        _ => {
            // only vector machines can be edited
            let r = c!(m, mut_trs_iterator_new(h, 0, &mut it));
            m.outcome("mut_trs_iterator_new", r, false);
            m.ctx.count("wrong_kind_refused");
            m.compare("mut_trs_iterator_new (refused)", &p.f[k]);
            return;
        }
    };
    let r = c!(m, mut_trs_iterator_new(h, q, &mut it));
    if !m.outcome("mut_trs_iterator_new", r, true) {
        return;
    }
    let mut e: Vec<Tr<W>> = match &p.f[k].s {
        Shadow::V(v) => v.get_trs(q).unwrap().trs().to_vec(),
        _ => vec![],
    };
    let mut pos = 0;
    for _ in 0..rng.range(1, 6) {
        match rng.below(4) {
            0 => {
                c!(m, mut_trs_iterator_next(it));
                pos = (pos + 1).min(e.len());
            }
            1 => {
                let t = Tr::new(rng.below(3) as u32, rng.below(3) as u32, W::gen(rng, WProfile::Normal), rng.below(n) as u32);
                let th = m.make_tr(rng, &t);
                let r = c!(m, mut_trs_iterator_set_value(it, th));
                c!(m, tr_delete(th));
                if m.outcome("mut_trs_iterator_set_value", r, pos < e.len()) {
                    e[pos] = t.clone();
                    if let Shadow::V(v) = &mut p.f[k].s {
                        v.tr_iter_mut(q).unwrap().set_tr(pos, t).unwrap();
                    }
                }
            }
            2 => {
                let mut o: H = 8 as H;
                let r = c!(m, mut_trs_iterator_value(it, &mut o));
                m.outcome("mut_trs_iterator_value", r, true);
                let g = if o == 8 as H {
                    m.bad("answer:mut_trs_iterator_value", "the result is left unset".into());
                    None
                } else {
                    m.take_tr(o)
                };
                if !same_tr("", g.as_ref(), e.get(pos)) {
                    m.bad("answer:mut_trs_iterator_value", format!("{:?} expected {:?}", g, e.get(pos)));
                }
            }
            _ => {
                if rng.chance(1, 3) {
                    c!(m, mut_trs_iterator_reset(it));
                    pos = 0;
                }
                let mut d = 9usize;
                c!(m, mut_trs_iterator_done(it, &mut d));
                if d != (pos >= e.len()) as usize {
                    m.bad("answer:mut_trs_iterator_done", format!("{} at {} of {}", d, pos, e.len()));
                }
            }
        }
        if m.ctx.failed() {
            break;
        }
    }
    c!(m, mut_trs_iterator_destroy(it));
    if !m.ctx.failed() {
        m.compare("mut_trs_iterator", &p.f[k]);
    }
}

fn string_paths(m: &mut M, p: &mut Pool, k: usize) {
    let h = p.f[k].h;
    let mut it: H = std::ptr::null_mut();
    let v = match &p.f[k].s {
        Shadow::V(v) => v.clone(),
        _ => {
            let r = c!(m, string_paths_iterator_new(h, &mut it));
            m.outcome("string_paths_iterator_new", r, false);
            return;
        }
    };
    if !acyclic(p, k) {
        return;
    }
    let exp = lib(|| Ok(v.string_paths_iter()?.take(60).map(|x| (*x.weight().value(), x.istring().ok(), x.ostring().ok())).collect::<Vec<_>>()));
    let r = c!(m, string_paths_iterator_new(h, &mut it));
    if !m.outcome("string_paths_iterator_new", r, exp.is_some()) {
        return;
    }
    let exp = exp.unwrap();
    for (i, (w, is, os)) in exp.iter().enumerate() {
        let mut d = 9usize;
        c!(m, string_paths_iterator_done(it, &mut d));
        let mut o: H = std::ptr::null_mut();
        c!(m, string_paths_iterator_next(it, &mut o));
        if d != 0 || o.is_null() {
            m.bad("answer:string_paths_iterator_next", format!("ends at {} of {}", i, exp.len()));
            break;
        }
        let mut gw = -1f32;
        c!(m, string_path_weight(o, &mut gw));
        let mut s: *mut c_char = std::ptr::null_mut();
        let r = c!(m, string_path_istring(o, &mut s));
        let gi = if m.outcome("string_path_istring", r, is.is_some()) { Some(m.string(s)) } else { None };
        s = std::ptr::null_mut();
        let r = c!(m, string_path_ostring(o, &mut s));
        let go = if m.outcome("string_path_ostring", r, os.is_some()) { Some(m.string(s)) } else { None };
        c!(m, string_path_destroy(o));
        m.ctx.count("string_paths");
        if gw != *w || &gi != is || &go != os {
            m.bad("answer:string_path", format!("path {}: {} {:?} {:?}, library {} {:?} {:?}", i, gw, gi, go, w, is, os));
            break;
        }
        if m.ctx.failed() {
            break;
        }
    }
    if exp.len() < 60 && !m.ctx.failed() {
        let mut d = 9usize;
        c!(m, string_paths_iterator_done(it, &mut d));
        if d != 1 {
            m.bad("answer:string_paths_iterator_done", format!("{} at the end", d));
        }
    }
    c!(m, string_paths_iterator_destroy(it));
}

fn main() {
    run(Prop {
        id: "C25",
        quick: 200_000,
        thorough: 2_000_000,
        rule: "random histories of 4-30 foreign calls over a pool of machine, table, transition-list and iterator handles, made through C declarations of the exported symbols, with valid and invalid arguments (missing states, wrong kinds of machine, null handles, bad enumeration values, damaged bytes, unreadable paths) and destruction in random order; next to every handle lives a shadow built by direct library calls, and outcomes, contents and answers are compared after every call; memory blocks allocated inside foreign calls are followed until freed. Run natively and under AddressSanitizer. Non-trivial: distinct call histories.",
        case,
        must: &["handles_compared", "errors_seen", "leak_checks", "blocks_followed", "missing_states_asked", "const_machines", "lazy_machines", "wrong_kind_refused", "null_handles", "past_the_end", "string_paths", "lists_compared", "attached_table_refused", "sigma_configs", "call:vec_fst_relabel_tables", "call:fst_randgen", "call:fst_replace", "call:mut_trs_iterator_set_value", "call:vec_fst_from_bytes", "call:fst_optimize_in_log", "call:fst_determinize_with_config", "call:fst_minimize_with_config", "call:fst_shortest_path_with_config", "call:fst_compose_with_config"],
        assumptions: &["output pointers and strings passed in are valid; a mutable iterator is closed before its machine is used again", "configurations and byte arrays, for which the interface has no destructor, are not counted as leaks", "a failed in-place algorithm may leave its operand in any state"],
        ..DEFAULT
    });
}
