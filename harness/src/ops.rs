//! Catalogue of the library's algorithms as functions from stored machines to stored machines,
//! shared by the monitors that watch every algorithm (stored knowledge, symbol tables, memory).
use crate::refw::*;
use crate::rng::Rng;
use anyhow::Result;
use rustfst::algorithms::closure::{closure, ClosureFst, ClosureType};
use rustfst::algorithms::compose::*;
use rustfst::algorithms::concat::{concat, ConcatFst};
use rustfst::algorithms::determinize::*;
use rustfst::algorithms::encode::*;
use rustfst::algorithms::factor_weight::factor_iterators::IdentityFactor;
use rustfst::algorithms::factor_weight::*;
use rustfst::algorithms::randgen::*;
use rustfst::algorithms::replace::*;
use rustfst::algorithms::rm_epsilon::*;
use rustfst::algorithms::tr_mappers::*;
use rustfst::algorithms::union::{union, UnionFst};
use rustfst::prelude::*;

/// weight types every algorithm accepts
pub trait FullW: Wt + WeaklyDivisibleSemiring + WeightQuantize + Semiring<ReverseWeight = Self, Type = f32> + SerializableSemiring {}
impl FullW for TropicalWeight {}
impl FullW for LogWeight {}

pub type V<W> = VectorFst<W>;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Need {
    Any,
    /// the sums over all paths exist (see RFst::converges)
    Conv,
    /// acyclic input (otherwise it may legitimately not end)
    Acyclic,
    /// acyclic acceptor
    AcyclicAcceptor,
    /// semiring with the path property
    Path,
    /// path property and acyclic
    PathAcyclic,
    /// deterministic acceptor
    DetAcceptor,
}

/// how the sides of the result relate to the operand's (for symbol tables)
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Sides {
    Same,
    Swapped,
    Input,
    Output,
    /// not judged
    Free,
}

pub struct Op1<W: FullW> {
    pub name: &'static str,
    pub need: Need,
    pub sides: Sides,
    pub f: fn(&mut Rng, &V<W>) -> Result<V<W>>,
}

fn rtype(rng: &mut Rng) -> ReweightType {
    if rng.bool() {
        ReweightType::ReweightToInitial
    } else {
        ReweightType::ReweightToFinal
    }
}

pub fn unary<W: FullW>() -> Vec<Op1<W>> {
    macro_rules! op {
        ($n:expr, $need:ident, $s:ident, $f:expr) => {
            Op1 { name: $n, need: Need::$need, sides: Sides::$s, f: $f }
        };
    }
    macro_rules! inplace {
        ($n:expr, $need:ident, $s:ident, |$r:ident, $m:ident| $e:expr) => {
            Op1 {
                name: $n,
                need: Need::$need,
                sides: Sides::$s,
                f: |$r: &mut Rng, x: &V<W>| {
                    let _ = &$r;
                    let mut owned = x.clone();
                    {
                        let $m = &mut owned;
                        $e;
                    }
                    Ok(owned)
                },
            }
        };
    }
    vec![
        inplace!("closure-star", Any, Same, |_r, m| closure(m, ClosureType::ClosureStar)),
        inplace!("closure-plus", Any, Same, |_r, m| closure(m, ClosureType::ClosurePlus)),
        op!("closure-lazy", Any, Same, |r, x| {
            let t = if r.bool() { ClosureType::ClosureStar } else { ClosureType::ClosurePlus };
            ClosureFst::new(x.clone(), t)?.compute()
        }),
        inplace!("rm_epsilon", Conv, Same, |_r, m| rm_epsilon(m)?),
        op!("rm_epsilon-lazy", Conv, Same, |_r, x| RmEpsilonFst::<W, V<W>, _>::new(x)?.compute()),
        inplace!("connect", Any, Same, |_r, m| connect(m)?),
        inplace!("top_sort", Any, Same, |_r, m| top_sort(m)?),
        inplace!("state_sort", Any, Same, |r, m| {
            let p: Vec<StateId> = r.perm(m.num_states()).into_iter().map(|x| x as StateId).collect();
            state_sort(m, &p)?
        }),
        inplace!("tr_sort-i", Any, Same, |_r, m| tr_sort(m, ILabelCompare {})),
        inplace!("tr_sort-o", Any, Same, |_r, m| tr_sort(m, OLabelCompare {})),
        inplace!("tr_sum", Any, Same, |_r, m| tr_sum(m)),
        inplace!("tr_unique", Any, Same, |_r, m| tr_unique(m)),
        op!("condense", Any, Free, |_r, x| Ok(condense::<W, _, V<W>>(x)?.1)),
        op!("reverse", Any, Same, |_r, x| reverse(x)),
        inplace!("invert", Any, Swapped, |_r, m| invert(m)),
        inplace!("project-i", Any, Input, |_r, m| project(m, ProjectType::ProjectInput)),
        inplace!("project-o", Any, Output, |_r, m| project(m, ProjectType::ProjectOutput)),
        inplace!("relabel_pairs", Any, Free, |r, m| {
            let a = r.below(4) as Label;
            relabel_pairs(m, vec![(1, a), (2, 1)], vec![(2, a)])?
        }),
        inplace!("add_super_final_state", Any, Same, |_r, m| {
            add_super_final_state(m);
        }),
        inplace!("rm_final_epsilon", Any, Same, |_r, m| rm_final_epsilon(m)?),
        inplace!("tr_map-identity", Any, Same, |_r, m| m.tr_map(&mut IdentityTrMapper {})?),
        inplace!("tr_map-input-eps", Any, Same, |_r, m| m.tr_map(&mut InputEpsilonMapper {})?),
        inplace!("tr_map-output-eps", Any, Same, |_r, m| m.tr_map(&mut OutputEpsilonMapper {})?),
        inplace!("tr_map-rmweight", Any, Same, |_r, m| m.tr_map(&mut RmWeightMapper {})?),
        inplace!("tr_map-plus", Any, Same, |_r, m| m.tr_map(&mut PlusMapper::<W>::new(1.0))?),
        inplace!("tr_map-times", Any, Same, |_r, m| m.tr_map(&mut TimesMapper::<W>::new(1.0))?),
        inplace!("tr_map-quantize", Any, Same, |_r, m| m.tr_map(&mut QuantizeMapper::new(0.125))?),
        op!("encode", Any, Free, |r, x| {
            let mut m = x.clone();
            let t = match r.below(3) {
                0 => EncodeType::EncodeLabels,
                1 => EncodeType::EncodeWeights,
                _ => EncodeType::EncodeWeightsAndLabels,
            };
            encode(&mut m, t)?;
            Ok(m)
        }),
        op!("encode-decode", Any, Same, |r, x| {
            let mut m = x.clone();
            let t = match r.below(3) {
                0 => EncodeType::EncodeLabels,
                1 => EncodeType::EncodeWeights,
                _ => EncodeType::EncodeWeightsAndLabels,
            };
            let tab = encode(&mut m, t)?;
            decode(&mut m, tab)?;
            Ok(m)
        }),
        inplace!("push_weights", Conv, Same, |r, m| {
            let t = rtype(r);
            push_weights(m, t)?
        }),
        op!("push-labels", Acyclic, Same, |r, x| {
            let t = rtype(r);
            push(x, t, PushType::PUSH_LABELS)
        }),
        op!("push-weights", Acyclic, Same, |r, x| {
            let t = rtype(r);
            let p = if r.bool() { PushType::PUSH_WEIGHTS } else { PushType::PUSH_WEIGHTS | PushType::REMOVE_TOTAL_WEIGHT };
            push(x, t, p)
        }),
        op!("push-both", Acyclic, Same, |r, x| {
            let t = rtype(r);
            push(x, t, PushType::PUSH_LABELS | PushType::PUSH_WEIGHTS)
        }),
        inplace!("reweight", Any, Same, |r, m| {
            let t = rtype(r);
            let pot: Vec<W> = (0..m.num_states()).map(|_| W::gen(r, WProfile::Normal)).collect();
            reweight(m, &pot, t)?
        }),
        op!("determinize", AcyclicAcceptor, Same, |_r, x| determinize(x)),
        inplace!("minimize", DetAcceptor, Same, |_r, m| minimize(m)?),
        inplace!("minimize-nondet", Acyclic, Same, |_r, m| minimize_with_config(m, MinimizeConfig::default().with_allow_nondet(true))?),
        op!("shortest_path-1", Path, Same, |_r, x| shortest_path(x)),
        op!("shortest_path-n", Path, Same, |r, x| {
            let c = ShortestPathConfig::default().with_nshortest(r.range(1, 4));
            shortest_path_with_config(x, c)
        }),
        op!("shortest_path-unique", PathAcyclic, Input, |r, x| {
            let c = ShortestPathConfig::default().with_nshortest(r.range(1, 4)).with_unique(true);
            let mut y = x.clone();
            rm_epsilon(&mut y)?;
            project(&mut y, ProjectType::ProjectInput);
            shortest_path_with_config(&y, c)
        }),
        inplace!("optimize", Acyclic, Same, |_r, m| optimize(m)?),
        op!("factor_weight", Any, Same, |r, x| {
            let o = FactorWeightOptions::new(FactorWeightType::from_bits_truncate(r.below(4) as u32));
            factor_weight::<W, V<W>, _, V<W>, IdentityFactor<W>>(x.clone(), o)
        }),
        op!("randgen", Acyclic, Same, |r, x| {
            let mut y = x.clone();
            connect(&mut y)?;
            let c = RandGenConfig::new(UniformTrSelector::from_seed(r.next())).with_npath(r.range(1, 4)).with_weighted(r.bool());
            randgen_with_config(&y, c)
        }),
        op!("fst_convert", Any, Same, |r, x| {
            if r.bool() {
                Ok(fst_convert_from_ref(x))
            } else {
                Ok(fst_convert(x.clone()))
            }
        }),
        op!("const-roundtrip", Any, Same, |_r, x| {
            let c: ConstFst<W> = x.clone().into();
            Ok(fst_convert(c))
        }),
        op!("quantize", Any, Same, |_r, x| x.quantize()),
    ]
}

pub struct Op2<W: FullW> {
    pub name: &'static str,
    pub f: fn(&mut Rng, &V<W>, &V<W>) -> Result<V<W>>,
    /// result takes input table of the first and output table of the second
    pub compose: bool,
}

pub fn sorted_pair<W: FullW>(rng: &mut Rng, a: &V<W>, b: &V<W>) -> (V<W>, V<W>) {
    let (mut x, mut y) = (a.clone(), b.clone());
    match rng.below(3) {
        0 => tr_sort(&mut x, OLabelCompare {}),
        1 => tr_sort(&mut y, ILabelCompare {}),
        _ => {
            tr_sort(&mut x, OLabelCompare {});
            tr_sort(&mut y, ILabelCompare {});
        }
    }
    (x, y)
}

pub fn binary<W: FullW>() -> Vec<Op2<W>> {
    fn cfg(f: ComposeFilterEnum, c: bool) -> ComposeConfig {
        ComposeConfig { compose_filter: f, connect: c, ..Default::default() }
    }
    fn comp<W: FullW>(rng: &mut Rng, a: &V<W>, b: &V<W>, f: ComposeFilterEnum) -> Result<V<W>> {
        // the non-automatic filters use sorted matchers on both sides
        let (mut x, mut y) = (a.clone(), b.clone());
        tr_sort(&mut x, OLabelCompare {});
        tr_sort(&mut y, ILabelCompare {});
        let c = rng.bool();
        compose_with_config::<W, V<W>, V<W>, _, _, _>(x, y, cfg(f, c))
    }
    vec![
        Op2 { name: "union", compose: false, f: |_r, a, b| { let mut m = a.clone(); union(&mut m, b)?; Ok(m) } },
        Op2 { name: "union-lazy", compose: false, f: |_r, a, b| UnionFst::new(a.clone(), b.clone())?.compute() },
        Op2 { name: "concat", compose: false, f: |_r, a, b| { let mut m = a.clone(); concat(&mut m, b)?; Ok(m) } },
        Op2 { name: "concat-lazy", compose: false, f: |_r, a, b| ConcatFst::new(a.clone(), b.clone())?.compute() },
        Op2 { name: "compose", compose: true, f: |r, a, b| { let (x, y) = sorted_pair(r, a, b); compose::<W, V<W>, V<W>, _, _, _>(x, y) } },
        Op2 { name: "compose-sequence", compose: true, f: |r, a, b| comp(r, a, b, ComposeFilterEnum::SequenceFilter) },
        Op2 { name: "compose-altsequence", compose: true, f: |r, a, b| comp(r, a, b, ComposeFilterEnum::AltSequenceFilter) },
        Op2 { name: "compose-match", compose: true, f: |r, a, b| comp(r, a, b, ComposeFilterEnum::MatchFilter) },
        Op2 { name: "compose-auto", compose: true, f: |r, a, b| comp(r, a, b, ComposeFilterEnum::AutoFilter) },
        Op2 { name: "compose-trivial", compose: true, f: |r, a, b| comp(r, a, b, ComposeFilterEnum::TrivialFilter) },
        Op2 { name: "compose-null", compose: true, f: |r, a, b| comp(r, a, b, ComposeFilterEnum::NullFilter) },
        Op2 { name: "compose-nomatch", compose: true, f: |r, a, b| comp(r, a, b, ComposeFilterEnum::NoMatchFilter) },
        Op2 {
            name: "replace",
            compose: false,
            f: |r, a, b| {
                // label 2 in a calls b
                let mut callee = b.clone();
                relabel_pairs(&mut callee, vec![(2, 1)], vec![(2, 1)])?;
                let eps = r.bool();
                replace::<W, V<W>, V<W>, _>(vec![(100, a.clone()), (2, callee)], 100, eps)
            },
        },
        Op2 {
            name: "replace-lazy",
            compose: false,
            f: |r, a, b| {
                let mut callee = b.clone();
                relabel_pairs(&mut callee, vec![(2, 1)], vec![(2, 1)])?;
                let eps = r.bool();
                ReplaceFst::<W, V<W>, _>::new(vec![(100, a.clone()), (2, callee)], 100, eps)?.compute()
            },
        },
    ]
}
