//! Independent reference algebras, and the bridge from the library's weight types to them.
//! Nothing here calls the library's arithmetic: values are only read and constructed.
use crate::rng::Rng;
use rustfst::prelude::*;
use std::fmt::Debug;

/// Reference weight: computed in f64 / i64 / bool.
pub trait RefW: Clone + Debug {
    fn zero() -> Self;
    fn one() -> Self;
    fn plus(&self, o: &Self) -> Self;
    fn times(&self, o: &Self) -> Self;
    /// sum of all powers; None when it diverges
    fn star(&self) -> Option<Self>;
    fn is_zero(&self) -> bool;
    /// equality within the tolerance that single precision + the library's delta allow
    fn same(&self, o: &Self) -> bool;
    /// exact ordering "strictly better" in path semirings
    fn less(&self, _o: &Self) -> bool {
        false
    }
    /// bit-for-bit equal
    fn exactly(&self, o: &Self) -> bool;
    fn moderate(&self) -> bool {
        true
    }
    /// total canonical key (for sorting lists of arcs); tolerance-bucketed
    fn key(&self) -> i64;
}

fn close(a: f64, b: f64) -> bool {
    if a == b {
        return true;
    }
    if a.is_nan() || b.is_nan() || a.is_infinite() || b.is_infinite() {
        return false;
    }
    (a - b).abs() <= 2.5e-3 * (1.0 + 0.25 * a.abs().max(b.abs()))
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct RTrop(pub f64);
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct RLog(pub f64);
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct RProb(pub f64);
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct RBool(pub bool);
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct RInt(pub i64);

impl RefW for RTrop {
    fn zero() -> Self {
        RTrop(f64::INFINITY)
    }
    fn one() -> Self {
        RTrop(0.0)
    }
    fn plus(&self, o: &Self) -> Self {
        RTrop(self.0.min(o.0))
    }
    fn times(&self, o: &Self) -> Self {
        if self.0 == f64::INFINITY || o.0 == f64::INFINITY {
            RTrop(f64::INFINITY)
        } else {
            RTrop(self.0 + o.0)
        }
    }
    fn star(&self) -> Option<Self> {
        if self.0 >= -1e-4 {
            Some(RTrop(0.0))
        } else {
            None
        }
    }
    fn is_zero(&self) -> bool {
        self.0 == f64::INFINITY
    }
    fn exactly(&self, o: &Self) -> bool {
        self.0 == o.0
    }
    fn same(&self, o: &Self) -> bool {
        close(self.0, o.0)
    }
    fn less(&self, o: &Self) -> bool {
        self.0 < o.0 - 1e-4
    }
    fn key(&self) -> i64 {
        if self.0.is_infinite() {
            i64::MAX
        } else {
            (self.0 * 16.0).round() as i64
        }
    }
}

impl RefW for RLog {
    fn moderate(&self) -> bool {
        self.0 > -4.0
    }
    fn zero() -> Self {
        RLog(f64::INFINITY)
    }
    fn one() -> Self {
        RLog(0.0)
    }
    fn plus(&self, o: &Self) -> Self {
        if self.0 == f64::INFINITY {
            return *o;
        }
        if o.0 == f64::INFINITY {
            return *self;
        }
        let (a, b) = if self.0 < o.0 { (self.0, o.0) } else { (o.0, self.0) };
        RLog(a - (-(b - a)).exp().ln_1p())
    }
    fn times(&self, o: &Self) -> Self {
        if self.0 == f64::INFINITY || o.0 == f64::INFINITY {
            RLog(f64::INFINITY)
        } else {
            RLog(self.0 + o.0)
        }
    }
    fn star(&self) -> Option<Self> {
        if self.0 == f64::INFINITY {
            return Some(RLog(0.0));
        }
        if self.0 <= 0.0 {
            return None;
        }
        Some(RLog((1.0 - (-self.0).exp()).ln()))
    }
    fn is_zero(&self) -> bool {
        self.0 == f64::INFINITY
    }
    fn exactly(&self, o: &Self) -> bool {
        self.0 == o.0
    }
    fn same(&self, o: &Self) -> bool {
        // a log weight above ~18 is a probability below 1e-8: lost by the library's own
        // convergence threshold, so both "zero" and "tiny" are accepted there
        if self.0 > 9.0 && o.0 > 9.0 {
            return (self.0 == o.0) || (self.0 - o.0).abs() < 0.1 || (self.0 > 12.0 && o.0 > 12.0);
        }
        close(self.0, o.0)
    }
    fn key(&self) -> i64 {
        if self.0.is_infinite() {
            i64::MAX
        } else {
            (self.0 * 16.0).round() as i64
        }
    }
}

impl RefW for RProb {
    fn moderate(&self) -> bool {
        self.0 < 60.0
    }
    fn zero() -> Self {
        RProb(0.0)
    }
    fn one() -> Self {
        RProb(1.0)
    }
    fn plus(&self, o: &Self) -> Self {
        RProb(self.0 + o.0)
    }
    fn times(&self, o: &Self) -> Self {
        RProb(self.0 * o.0)
    }
    fn star(&self) -> Option<Self> {
        if self.0 < 1.0 {
            Some(RProb(1.0 / (1.0 - self.0)))
        } else {
            None
        }
    }
    fn is_zero(&self) -> bool {
        self.0 == 0.0
    }
    fn exactly(&self, o: &Self) -> bool {
        self.0 == o.0
    }
    fn same(&self, o: &Self) -> bool {
        close(self.0, o.0)
    }
    fn key(&self) -> i64 {
        (self.0 * 1024.0).round() as i64
    }
}

impl RefW for RBool {
    fn zero() -> Self {
        RBool(false)
    }
    fn one() -> Self {
        RBool(true)
    }
    fn plus(&self, o: &Self) -> Self {
        RBool(self.0 | o.0)
    }
    fn times(&self, o: &Self) -> Self {
        RBool(self.0 & o.0)
    }
    fn star(&self) -> Option<Self> {
        Some(RBool(true))
    }
    fn is_zero(&self) -> bool {
        !self.0
    }
    fn exactly(&self, o: &Self) -> bool {
        self.0 == o.0
    }
    fn same(&self, o: &Self) -> bool {
        self.0 == o.0
    }
    fn less(&self, o: &Self) -> bool {
        self.0 && !o.0
    }
    fn key(&self) -> i64 {
        self.0 as i64
    }
}

impl RefW for RInt {
    fn zero() -> Self {
        RInt(0)
    }
    fn one() -> Self {
        RInt(1)
    }
    fn plus(&self, o: &Self) -> Self {
        RInt(self.0 + o.0)
    }
    fn times(&self, o: &Self) -> Self {
        RInt(self.0 * o.0)
    }
    fn star(&self) -> Option<Self> {
        if self.0 == 0 {
            Some(RInt(1))
        } else {
            None
        }
    }
    fn is_zero(&self) -> bool {
        self.0 == 0
    }
    fn exactly(&self, o: &Self) -> bool {
        self.0 == o.0
    }
    fn same(&self, o: &Self) -> bool {
        self.0 == o.0
    }
    fn key(&self) -> i64 {
        self.0
    }
}

/// Pair of a reference weight and another one (product semiring).
#[derive(Clone, Debug)]
pub struct RPair<A, B>(pub A, pub B);
impl<A: RefW, B: RefW> RefW for RPair<A, B> {
    fn zero() -> Self {
        RPair(A::zero(), B::zero())
    }
    fn one() -> Self {
        RPair(A::one(), B::one())
    }
    fn plus(&self, o: &Self) -> Self {
        RPair(self.0.plus(&o.0), self.1.plus(&o.1))
    }
    fn times(&self, o: &Self) -> Self {
        RPair(self.0.times(&o.0), self.1.times(&o.1))
    }
    fn star(&self) -> Option<Self> {
        Some(RPair(self.0.star()?, self.1.star()?))
    }
    fn is_zero(&self) -> bool {
        self.0.is_zero() && self.1.is_zero()
    }
    fn exactly(&self, o: &Self) -> bool {
        self.0.exactly(&o.0) && self.1.exactly(&o.1)
    }
    fn same(&self, o: &Self) -> bool {
        self.0.same(&o.0) && self.1.same(&o.1)
    }
    fn key(&self) -> i64 {
        self.0.key().wrapping_mul(1_000_003).wrapping_add(self.1.key())
    }
}

/// How wild the generated weights may be.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum WProfile {
    /// every weight is one
    Unweighted,
    /// non-negative grid, converging on cycles
    Normal,
    /// may contain zero and negative values (acyclic use only)
    Wild,
}

/// Bridge from a library weight type to its reference algebra.
pub trait Wt: Semiring + Debug + Send + Sync + 'static {
    type R: RefW;
    const NAME: &'static str;
    fn to_ref(&self) -> Self::R;
    fn gen(rng: &mut Rng, prof: WProfile) -> Self;
    /// path (natural order) semiring
    const PATH: bool;
    const IDEMP: bool;
    /// cycles with weights from Normal always converge
    const CYCLE_OK: bool;
    /// weights can be rescaled so that out-mass < 1 (log / probability)
    fn damp(&self, _fanout: usize) -> Self {
        self.clone()
    }
}

fn grid(rng: &mut Rng) -> f32 {
    match rng.below(6) {
        0 => 0.0,
        1 => 1.0,
        _ => rng.below(17) as f32 * 0.25,
    }
}

impl Wt for TropicalWeight {
    type R = RTrop;
    const NAME: &'static str = "tropical";
    const PATH: bool = true;
    const IDEMP: bool = true;
    const CYCLE_OK: bool = true;
    fn to_ref(&self) -> RTrop {
        RTrop(*self.value() as f64)
    }
    fn gen(rng: &mut Rng, prof: WProfile) -> Self {
        match prof {
            WProfile::Unweighted => TropicalWeight::new(0.0),
            WProfile::Normal => TropicalWeight::new(grid(rng)),
            WProfile::Wild => match rng.below(10) {
                0 => TropicalWeight::new(f32::INFINITY),
                1 | 2 => TropicalWeight::new(-grid(rng)),
                _ => TropicalWeight::new(grid(rng)),
            },
        }
    }
}

impl Wt for LogWeight {
    type R = RLog;
    const NAME: &'static str = "log";
    const PATH: bool = false;
    const IDEMP: bool = false;
    const CYCLE_OK: bool = true;
    fn to_ref(&self) -> RLog {
        RLog(*self.value() as f64)
    }
    fn gen(rng: &mut Rng, prof: WProfile) -> Self {
        match prof {
            WProfile::Unweighted => LogWeight::new(0.0),
            WProfile::Normal => LogWeight::new(0.25 + rng.below(11) as f32 * 0.25),
            WProfile::Wild => match rng.below(10) {
                0 => LogWeight::new(f32::INFINITY),
                1 | 2 => LogWeight::new(-grid(rng) * 0.5),
                _ => LogWeight::new(grid(rng) * 0.5),
            },
        }
    }
    fn damp(&self, fanout: usize) -> Self {
        LogWeight::new(*self.value() + ((fanout as f32 + 1.0) * 1.5).ln())
    }
}

impl Wt for ProbabilityWeight {
    type R = RProb;
    const NAME: &'static str = "probability";
    const PATH: bool = false;
    const IDEMP: bool = false;
    const CYCLE_OK: bool = true;
    fn to_ref(&self) -> RProb {
        RProb(*self.value() as f64)
    }
    fn gen(rng: &mut Rng, prof: WProfile) -> Self {
        match prof {
            WProfile::Unweighted => ProbabilityWeight::new(1.0),
            WProfile::Normal => ProbabilityWeight::new((1 + rng.below(8)) as f32 / 8.0),
            WProfile::Wild => match rng.below(10) {
                0 => ProbabilityWeight::new(0.0),
                1 => ProbabilityWeight::new(2.0),
                _ => ProbabilityWeight::new((1 + rng.below(8)) as f32 / 8.0),
            },
        }
    }
    fn damp(&self, fanout: usize) -> Self {
        ProbabilityWeight::new(*self.value() / ((fanout as f32 + 1.0) * 1.25))
    }
}

impl Wt for BooleanWeight {
    type R = RBool;
    const NAME: &'static str = "boolean";
    const PATH: bool = true;
    const IDEMP: bool = true;
    const CYCLE_OK: bool = true;
    fn to_ref(&self) -> RBool {
        RBool(*self.value())
    }
    fn gen(rng: &mut Rng, prof: WProfile) -> Self {
        match prof {
            WProfile::Wild => BooleanWeight::new(!rng.chance(1, 8)),
            _ => BooleanWeight::new(true),
        }
    }
}

impl Wt for IntegerWeight {
    type R = RInt;
    const NAME: &'static str = "integer";
    const PATH: bool = false;
    const IDEMP: bool = false;
    const CYCLE_OK: bool = false;
    fn to_ref(&self) -> RInt {
        RInt(*self.value() as i64)
    }
    fn gen(rng: &mut Rng, prof: WProfile) -> Self {
        match prof {
            WProfile::Unweighted => IntegerWeight::new(1),
            WProfile::Normal => IntegerWeight::new(1 + rng.below(3) as i32),
            WProfile::Wild => IntegerWeight::new(rng.irange(0, 3) as i32),
        }
    }
}

impl Wt for ProductWeight<TropicalWeight, LogWeight> {
    type R = RPair<RTrop, RLog>;
    const NAME: &'static str = "tropical*log";
    const PATH: bool = false;
    const IDEMP: bool = false;
    const CYCLE_OK: bool = true;
    fn to_ref(&self) -> Self::R {
        RPair(self.value1().to_ref(), self.value2().to_ref())
    }
    fn gen(rng: &mut Rng, prof: WProfile) -> Self {
        ProductWeight::new((TropicalWeight::gen(rng, prof), LogWeight::gen(rng, prof)))
    }
    fn damp(&self, fanout: usize) -> Self {
        ProductWeight::new((self.value1().clone(), self.value2().damp(fanout)))
    }
}
