//! Helpers shared by the property monitors.
use crate::driver::Ctx;
use crate::refw::{RefW, Wt};
use crate::reffst::*;
use rustfst::prelude::*;

/// Picks a semiring at random: with_w!(ctx, func) calls func::<W>(ctx).
#[macro_export]
macro_rules! with_w {
    ($ctx:expr, $f:ident, [$($w:ty),+]) => {{
        let mut n = 0usize;
        $( { let _: Option<$w> = None; n += 1; } )+
        let k = $ctx.rng.below(n);
        let mut i = 0usize;
        $( if i == k { $f::<$w>($ctx); } i += 1; )+
        let _ = i;
    }};
}

/// Reads a stored result; accessor disagreement is a failure.
pub fn ext<W: Wt, F: ExpandedFst<W>>(ctx: &mut Ctx, op: &str, f: &F) -> Option<RFst<W::R>> {
    match extract::<W, F>(f) {
        Ok(r) => Some(r),
        Err(e) => {
            ctx.fail(&format!("malformed:{}", op), e);
            None
        }
    }
}

/// Reads a lazy result by exploring it.
pub fn ext_lazy<W: Wt, F: CoreFst<W>>(ctx: &mut Ctx, op: &str, f: &F, cap: usize) -> Option<RFst<W::R>> {
    match ctx.guard(op, || extract_lazy::<W, F>(f, cap))? {
        Ok(Some((r, _))) => Some(r),
        Ok(None) => {
            ctx.count("lazy_exploration_capped");
            None
        }
        Err(e) => {
            ctx.fail(&format!("malformed:{}", op), e);
            None
        }
    }
}

/// Compares relations, recording how much was observed.
pub fn cmp_rel<R: RefW>(ctx: &mut Ctx, op: &str, exp: &RFst<R>, got: &RFst<R>, l: usize) -> bool {
    let mut rng = ctx.rng.fork();
    match compare(exp, got, &mut rng, l) {
        Cmp::Same { pairs, nonzero } => {
            ctx.count(&format!("relations_compared:{}", op));
            ctx.add("string_pairs_compared", pairs as u64);
            if nonzero > 0 {
                ctx.count("nonempty_relations");
            }
            true
        }
        Cmp::Diff(d) => {
            ctx.fail(&format!("relation:{}", op), format!("{}; result: {}", d, got.dump()));
            false
        }
        Cmp::Skip => {
            ctx.count("comparison_skipped");
            true
        }
    }
}
pub fn cmp_given<R: RefW>(ctx: &mut Ctx, op: &str, exp: &Rel<R>, got: &RFst<R>, l: usize) -> bool {
    match got.relation_r(l, l, 30000) {
        Err(RelErr::Cap) => {
            ctx.count("comparison_skipped");
            true
        }
        Err(RelErr::Diverge) => {
            ctx.fail(&format!("relation:{}", op), format!("divergent epsilon cycle; result: {}", got.dump()));
            false
        }
        Ok(g) => {
            ctx.count(&format!("relations_compared:{}", op));
            ctx.add("string_pairs_compared", exp.len().max(g.len()) as u64);
            if !exp.is_empty() {
                ctx.count("nonempty_relations");
            }
            if let Some(d) = rel_diff(exp, &g) {
                ctx.fail(&format!("relation:{}", op), format!("{}; result: {}", d, got.dump()));
                return false;
            }
            true
        }
    }
}
