//! C01: every weight type obeys the semiring laws it declares.
use fstmon::chk;
use fstmon::driver::*;
use fstmon::rng::Rng;
use rustfst::prelude::*;
use rustfst::semirings::*;
use std::fmt::Debug;

/// observed value of a weight, compared with a tolerance of our own
#[derive(Clone, Debug)]
enum View {
    Num(f64),
    Str(Option<Vec<u32>>),
    Pair(Box<View>, Box<View>),
    List(Vec<View>),
}
use View::*;

fn tol(a: f64, b: f64) -> bool {
    if a == b {
        return true;
    }
    if !a.is_finite() || !b.is_finite() {
        return false;
    }
    (a - b).abs() <= 2e-4 * (1.0 + a.abs().max(b.abs()))
}
fn same(a: &View, b: &View) -> bool {
    match (a, b) {
        (Num(x), Num(y)) => tol(*x, *y),
        (Str(x), Str(y)) => x == y,
        (Pair(a, b), Pair(c, d)) => same(a, c) && same(b, d),
        (List(a), List(b)) => a.len() == b.len() && a.iter().zip(b).all(|(x, y)| same(x, y)),
        _ => false,
    }
}

trait Law: Semiring {
    const NAME: &'static str;
    fn gen(rng: &mut Rng) -> Self;
    fn view(&self) -> View;
    /// independent sum / product of values (None: not defined there)
    fn rplus(a: &View, b: &View) -> Option<View>;
    fn rtimes(a: &View, b: &View) -> View;
}

fn lnum(rng: &mut Rng) -> f32 {
    match rng.below(12) {
        0 => f32::INFINITY,
        1 => 0.0,
        2 => rng.irange(-50, 50) as f32,
        3 => rng.irange(-1000, 1000) as f32 * 0.01,
        4 => 1e-3 * rng.below(10) as f32,
        _ => rng.irange(-8, 16) as f32 * 0.25,
    }
}
fn num(v: &View) -> f64 {
    match v {
        Num(x) => *x,
        _ => panic!(),
    }
}
fn add(a: &View, b: &View) -> View {
    let (x, y) = (num(a), num(b));
    Num(if x == f64::INFINITY || y == f64::INFINITY { f64::INFINITY } else { x + y })
}

impl Law for TropicalWeight {
    const NAME: &'static str = "tropical";
    fn gen(rng: &mut Rng) -> Self {
        TropicalWeight::new(lnum(rng))
    }
    fn view(&self) -> View {
        Num(*self.value() as f64)
    }
    fn rplus(a: &View, b: &View) -> Option<View> {
        Some(Num(num(a).min(num(b))))
    }
    fn rtimes(a: &View, b: &View) -> View {
        add(a, b)
    }
}
impl Law for LogWeight {
    const NAME: &'static str = "log";
    fn gen(rng: &mut Rng) -> Self {
        LogWeight::new(lnum(rng))
    }
    fn view(&self) -> View {
        Num(*self.value() as f64)
    }
    fn rplus(a: &View, b: &View) -> Option<View> {
        let (x, y) = (num(a).min(num(b)), num(a).max(num(b)));
        if y == f64::INFINITY {
            return Some(Num(x));
        }
        Some(Num(x - (-(y - x)).exp().ln_1p()))
    }
    fn rtimes(a: &View, b: &View) -> View {
        add(a, b)
    }
}
impl Law for ProbabilityWeight {
    const NAME: &'static str = "probability";
    fn gen(rng: &mut Rng) -> Self {
        ProbabilityWeight::new(match rng.below(6) {
            0 => 0.0,
            1 => 1.0,
            2 => rng.below(1000) as f32 / 100.0,
            _ => rng.below(17) as f32 / 16.0,
        })
    }
    fn view(&self) -> View {
        Num(*self.value() as f64)
    }
    fn rplus(a: &View, b: &View) -> Option<View> {
        Some(Num(num(a) + num(b)))
    }
    fn rtimes(a: &View, b: &View) -> View {
        Num(num(a) * num(b))
    }
}
impl Law for BooleanWeight {
    const NAME: &'static str = "boolean";
    fn gen(rng: &mut Rng) -> Self {
        BooleanWeight::new(rng.bool())
    }
    fn view(&self) -> View {
        Num(*self.value() as u8 as f64)
    }
    fn rplus(a: &View, b: &View) -> Option<View> {
        Some(Num(num(a).max(num(b))))
    }
    fn rtimes(a: &View, b: &View) -> View {
        Num(num(a).min(num(b)))
    }
}
impl Law for IntegerWeight {
    const NAME: &'static str = "integer";
    fn gen(rng: &mut Rng) -> Self {
        IntegerWeight::new(rng.irange(-40, 40) as i32)
    }
    fn view(&self) -> View {
        Num(*self.value() as f64)
    }
    fn rplus(a: &View, b: &View) -> Option<View> {
        Some(Num(num(a) + num(b)))
    }
    fn rtimes(a: &View, b: &View) -> View {
        Num(num(a) * num(b))
    }
}

fn labels(rng: &mut Rng) -> Vec<u32> {
    // mostly short over two labels (so that prefixes collide), now and then long or with large labels
    let n = if rng.chance(1, 12) { 4 + rng.below(24) } else { rng.below(4) };
    let big = rng.chance(1, 20);
    (0..n)
        .map(|_| if big && rng.chance(1, 3) { u32::MAX - 1 - rng.below(3) as u32 } else { 1 + rng.below(2) as u32 })
        .collect()
}
fn parse(s: &str) -> View {
    match s {
        "Infinity" => Str(None),
        "Epsilon" => Str(Some(vec![])),
        _ => Str(Some(s.split('_').map(|x| x.parse().unwrap()).collect())),
    }
}
fn cat(a: &View, b: &View) -> View {
    match (a, b) {
        (Str(Some(x)), Str(Some(y))) => Str(Some(x.iter().chain(y).cloned().collect())),
        _ => Str(None),
    }
}
fn splus(a: &View, b: &View, f: fn(&[u32], &[u32]) -> Option<Vec<u32>>) -> Option<View> {
    match (a, b) {
        (Str(None), x) | (x, Str(None)) => Some(x.clone()),
        (Str(Some(x)), Str(Some(y))) => f(x, y).map(|v| Str(Some(v))),
        _ => panic!(),
    }
}
fn lcp(x: &[u32], y: &[u32]) -> Option<Vec<u32>> {
    let n = (0..x.len().min(y.len())).take_while(|&i| x[i] == y[i]).count();
    Some(x[..n].to_vec())
}
fn lcs(x: &[u32], y: &[u32]) -> Option<Vec<u32>> {
    let (p, q): (Vec<u32>, Vec<u32>) = (x.iter().rev().cloned().collect(), y.iter().rev().cloned().collect());
    lcp(&p, &q).map(|v| v.into_iter().rev().collect())
}
fn eqs(x: &[u32], y: &[u32]) -> Option<Vec<u32>> {
    if x == y {
        Some(x.to_vec())
    } else {
        None
    }
}
macro_rules! string_law {
    ($t:ty, $n:expr, $f:ident) => {
        impl Law for $t {
            const NAME: &'static str = $n;
            fn gen(rng: &mut Rng) -> Self {
                if rng.chance(1, 10) {
                    return <$t>::zero();
                }
                labels(rng).into()
            }
            fn view(&self) -> View {
                parse(&self.to_string())
            }
            fn rplus(a: &View, b: &View) -> Option<View> {
                splus(a, b, $f)
            }
            fn rtimes(a: &View, b: &View) -> View {
                cat(a, b)
            }
        }
    };
}
string_law!(StringWeightLeft, "left_string", lcp);
string_law!(StringWeightRight, "right_string", lcs);
string_law!(StringWeightRestrict, "restricted_string", eqs);

impl<A: Law, B: Law> Law for ProductWeight<A, B>
where
    A::ReverseWeight: ReverseBack<A>,
{
    const NAME: &'static str = "product";
    fn gen(rng: &mut Rng) -> Self {
        ProductWeight::new((A::gen(rng), B::gen(rng)))
    }
    fn view(&self) -> View {
        Pair(Box::new(self.value1().view()), Box::new(self.value2().view()))
    }
    fn rplus(a: &View, b: &View) -> Option<View> {
        match (a, b) {
            (Pair(a1, a2), Pair(b1, b2)) => Some(Pair(Box::new(A::rplus(a1, b1)?), Box::new(B::rplus(a2, b2)?))),
            _ => panic!(),
        }
    }
    fn rtimes(a: &View, b: &View) -> View {
        match (a, b) {
            (Pair(a1, a2), Pair(b1, b2)) => Pair(Box::new(A::rtimes(a1, b1)), Box::new(B::rtimes(a2, b2))),
            _ => panic!(),
        }
    }
}

type TW = TropicalWeight;
type LW = LogWeight;

macro_rules! gallic_law {
    ($t:ty, $w:ty, $s:ty, $n:expr, $plus:expr) => {
        impl Law for $t {
            const NAME: &'static str = $n;
            fn gen(rng: &mut Rng) -> Self {
                if rng.chance(1, 10) {
                    return <$t>::zero();
                }
                loop {
                    let w = <$w as Law>::gen(rng);
                    if !w.is_zero() {
                        return (labels(rng), w).into();
                    }
                }
            }
            fn view(&self) -> View {
                Pair(Box::new(self.value1().view()), Box::new(self.value2().view()))
            }
            fn rplus(a: &View, b: &View) -> Option<View> {
                let f: fn(&View, &View) -> Option<View> = $plus;
                f(a, b)
            }
            fn rtimes(a: &View, b: &View) -> View {
                ProductWeight::<$s, $w>::rtimes(a, b)
            }
        }
    };
}
gallic_law!(GallicWeightLeft<TW>, TW, StringWeightLeft, "left_gallic", |a, b| ProductWeight::<StringWeightLeft, TW>::rplus(a, b));
gallic_law!(GallicWeightRight<TW>, TW, StringWeightRight, "right_gallic", |a, b| ProductWeight::<StringWeightRight, TW>::rplus(a, b));
gallic_law!(GallicWeightRestrict<TW>, TW, StringWeightRestrict, "restricted_gallic", |a, b| ProductWeight::<StringWeightRestrict, TW>::rplus(a, b));
gallic_law!(GallicWeightLeft<LW>, LW, StringWeightLeft, "left_gallic-log", |a, b| ProductWeight::<StringWeightLeft, LW>::rplus(a, b));
gallic_law!(GallicWeightRestrict<LW>, LW, StringWeightRestrict, "restricted_gallic-log", |a, b| ProductWeight::<StringWeightRestrict, LW>::rplus(a, b));
gallic_law!(GallicWeightMin<TW>, TW, StringWeightRestrict, "min_gallic", |a, b| {
    let (Pair(s, x), Pair(t, y)) = (a, b) else { panic!() };
    let (x, y) = (num(x), num(y));
    if tol(x, y) {
        // ties are broken arbitrarily
        return if same(s, t) { Some(a.clone()) } else { None };
    }
    Some(if x < y { a.clone() } else { b.clone() })
});

fn key(v: &View) -> (usize, Vec<u32>) {
    match v {
        Pair(s, _) => match &**s {
            Str(Some(x)) => (x.len(), x.clone()),
            _ => (0, vec![]),
        },
        _ => panic!(),
    }
}
macro_rules! union_law {
    ($w:ty, $n:expr) => {
        impl Law for GallicWeight<$w> {
            const NAME: &'static str = $n;
            fn gen(rng: &mut Rng) -> Self {
                let mut m = std::collections::BTreeMap::new();
                for _ in 0..rng.below(4) {
                    let s = labels(rng);
                    let w = <$w as Law>::gen(rng);
                    if !w.is_zero() {
                        m.insert((s.len(), s.clone()), GallicWeightRestrict::from((s, w)));
                    }
                }
                GallicWeight::new(m.into_values().collect())
            }
            fn view(&self) -> View {
                List(self.iter().map(|x| Pair(Box::new(x.value1().view()), Box::new(x.value2().view()))).collect())
            }
            fn rplus(a: &View, b: &View) -> Option<View> {
                let (List(a), List(b)) = (a, b) else { panic!() };
                let mut m: std::collections::BTreeMap<_, View> = Default::default();
                for x in a.iter().chain(b) {
                    let k = key(x);
                    let v = match m.get(&k) {
                        None => x.clone(),
                        Some(y) => ProductWeight::<StringWeightRestrict, $w>::rplus(y, x)?,
                    };
                    m.insert(k, v);
                }
                Some(List(m.into_values().collect()))
            }
            fn rtimes(a: &View, b: &View) -> View {
                let (List(a), List(b)) = (a, b) else { panic!() };
                let mut r = List(vec![]);
                for x in a {
                    for y in b {
                        let p = List(vec![ProductWeight::<StringWeightRestrict, $w>::rtimes(x, y)]);
                        r = Self::rplus(&r, &p).unwrap();
                    }
                }
                r
            }
        }
    };
}
union_law!(TW, "gallic");
union_law!(LW, "gallic-log");

fn plus<W: Law>(ctx: &mut Ctx, a: &W, b: &W) -> Option<W> {
    let e = W::rplus(&a.view(), &b.view());
    let r = ctx.guard("plus", || a.plus(b))?;
    match (e, r) {
        (Some(e), Ok(r)) => {
            if !same(&e, &r.view()) {
                ctx.fail(&format!("plus:{}", W::NAME), format!("{:?} + {:?} = {:?}, expected {:?}", a, b, r, e));
                return None;
            }
            let mut c = a.clone();
            let ok = c.plus_assign(b).is_ok();
            chk!(ctx, ok && same(&c.view(), &r.view()), &format!("plus_assign:{}", W::NAME), "{:?} += {:?} gives {:?}, plus {:?}", a, b, c, r);
            Some(r)
        }
        (Some(e), Err(x)) => {
            ctx.fail(&format!("plus:{}", W::NAME), format!("{:?} + {:?} fails with {}, expected {:?}", a, b, x, e));
            None
        }
        (None, r) => r.ok(),
    }
}
fn times<W: Law>(ctx: &mut Ctx, a: &W, b: &W) -> Option<W> {
    let e = W::rtimes(&a.view(), &b.view());
    match ctx.guard("times", || a.times(b))? {
        Ok(r) => {
            if !same(&e, &r.view()) {
                ctx.fail(&format!("times:{}", W::NAME), format!("{:?} * {:?} = {:?}, expected {:?}", a, b, r, e));
                return None;
            }
            let mut c = a.clone();
            let ok = c.times_assign(b).is_ok();
            chk!(ctx, ok && same(&c.view(), &r.view()), &format!("times_assign:{}", W::NAME), "{:?} *= {:?} gives {:?}, times {:?}", a, b, c, r);
            Some(r)
        }
        Err(x) => {
            ctx.fail(&format!("times:{}", W::NAME), format!("{:?} * {:?} fails with {}", a, b, x));
            None
        }
    }
}

fn laws<W: Law>(ctx: &mut Ctx) {
    let (a, b, c) = (W::gen(&mut ctx.rng), W::gen(&mut ctx.rng), W::gen(&mut ctx.rng));
    let b = if ctx.rng.chance(1, 8) { a.clone() } else { b };
    ctx.input = format!("{} a={:?} b={:?} c={:?}", W::NAME, a, b, c);
    ctx.distinct(fstmon::rng::hash_str(&ctx.input));
    let s = ctx.input.clone();
    ctx.sample(|| s);
    ctx.count(&format!("triples:{}", W::NAME));
    let p = W::properties();
    let eq = |ctx: &mut Ctx, law: &str, x: Option<W>, y: Option<W>| {
        if let (Some(x), Some(y)) = (x, y) {
            ctx.count("laws_judged");
            chk!(ctx, same(&x.view(), &y.view()), &format!("{}:{}", law, W::NAME), "{}: {:?} vs {:?}", law, x, y);
        }
    };
    let defined = |x: &W, y: &W| W::rplus(&x.view(), &y.view()).is_some();
    // identities
    let (z, o) = (W::zero(), W::one());
    chk!(ctx, z.is_zero() && !z.is_one() && o.is_one() && !o.is_zero(), &format!("constants:{}", W::NAME), "zero {:?} one {:?}", z, o);
    let r = plus(ctx, &a, &z);
    eq(ctx, "a+0=a", r, Some(a.clone()));
    let r = plus(ctx, &z, &a);
    eq(ctx, "0+a=a", r, Some(a.clone()));
    let r = times(ctx, &a, &o);
    eq(ctx, "a*1=a", r, Some(a.clone()));
    let r = times(ctx, &o, &a);
    eq(ctx, "1*a=a", r, Some(a.clone()));
    let r = times(ctx, &a, &z);
    eq(ctx, "a*0=0", r, Some(z.clone()));
    let r = times(ctx, &z, &a);
    eq(ctx, "0*a=0", r, Some(z.clone()));
    // associativity, commutativity
    if defined(&a, &b) {
        let (x, y) = (plus(ctx, &a, &b), plus(ctx, &b, &a));
        eq(ctx, "a+b=b+a", x, y);
        if defined(&b, &c) && defined(&a, &c) {
            let l = plus(ctx, &a, &b).and_then(|x| plus(ctx, &x, &c));
            let r = plus(ctx, &b, &c).and_then(|x| plus(ctx, &a, &x));
            eq(ctx, "(a+b)+c=a+(b+c)", l, r);
        }
    }
    let l = times(ctx, &a, &b).and_then(|x| times(ctx, &x, &c));
    let r = times(ctx, &b, &c).and_then(|x| times(ctx, &a, &x));
    eq(ctx, "(ab)c=a(bc)", l, r);
    // declared properties
    if p.contains(SemiringProperties::LEFT_SEMIRING) && defined(&b, &c) {
        let l = plus(ctx, &b, &c).and_then(|x| times(ctx, &a, &x));
        let (x, y) = (times(ctx, &a, &b), times(ctx, &a, &c));
        if let (Some(x), Some(y)) = (x, y) {
            let r = plus(ctx, &x, &y);
            eq(ctx, "a(b+c)=ab+ac", l, r);
        }
    }
    if p.contains(SemiringProperties::RIGHT_SEMIRING) && defined(&b, &c) {
        let l = plus(ctx, &b, &c).and_then(|x| times(ctx, &x, &a));
        let (x, y) = (times(ctx, &b, &a), times(ctx, &c, &a));
        if let (Some(x), Some(y)) = (x, y) {
            let r = plus(ctx, &x, &y);
            eq(ctx, "(b+c)a=ba+ca", l, r);
        }
    }
    if p.contains(SemiringProperties::COMMUTATIVE) {
        let (x, y) = (times(ctx, &a, &b), times(ctx, &b, &a));
        eq(ctx, "ab=ba", x, y);
    }
    if p.contains(SemiringProperties::IDEMPOTENT) {
        let x = plus(ctx, &a, &a);
        eq(ctx, "a+a=a", x, Some(a.clone()));
    }
    if p.contains(SemiringProperties::PATH) && defined(&a, &b) {
        if let Some(x) = plus(ctx, &a, &b) {
            chk!(ctx, same(&x.view(), &a.view()) || same(&x.view(), &b.view()), &format!("path:{}", W::NAME), "{:?}+{:?}={:?}", a, b, x);
        }
    }
    // reversal
    if let (Some(ra), Some(rb)) = (ctx.guard_ok("reverse", || a.reverse()), ctx.guard_ok("reverse", || b.reverse())) {
        if let Some(x) = ctx.guard_ok("reverse_back", || ra.reverse_back()) {
            eq(ctx, "rev(rev a)=a", Some(x), Some(a.clone()));
        }
        if let Some(x) = ctx.guard_ok("reverse", || rb.times(&ra)) {
            if let Some(x) = ctx.guard_ok("reverse_back", || x.reverse_back()) {
                let y = times(ctx, &a, &b);
                eq(ctx, "rev(rev b * rev a)=ab", Some(x), y);
            }
        }
        if defined(&a, &b) {
            if let Some(x) = ctx.guard_ok("reverse-plus", || ra.plus(&rb)) {
                if let Some(x) = ctx.guard_ok("reverse_back", || x.reverse_back()) {
                    // sums may differ in kind between the two sides for strings (prefix/suffix):
                    // reversing twice maps suffix sums back to prefix sums
                    let y = plus(ctx, &a, &b);
                    eq(ctx, "rev(rev a + rev b)=a+b", Some(x), y);
                }
            }
        }
    }
    // equality
    chk!(ctx, a == a.clone() && a.approx_equal(&a, 1e-3), &format!("reflexive:{}", W::NAME), "{:?} not equal to itself", a);
    let (va, vb) = (a.view(), b.view());
    let far = far_apart(&va, &vb);
    if far {
        ctx.count("unequal_pairs");
        chk!(ctx, a != b && !a.approx_equal(&b, 1e-3), &format!("equality:{}", W::NAME), "{:?} equals {:?}", a, b);
        let d = num_gap(&va, &vb);
        if let Some(d) = d {
            chk!(ctx, a.approx_equal(&b, d as f32 + 0.01) && !a.approx_equal(&b, d as f32 - 0.01), &format!("approx_equal:{}", W::NAME), "{:?} vs {:?}, gap {}", a, b, d);
        }
    } else if same(&va, &vb) && matches!(va, Num(_)) {
        chk!(ctx, a.approx_equal(&b, 0.05), &format!("approx_equal:{}", W::NAME), "{:?} vs {:?}", a, b);
    }
    // value accessors
    let mut d = W::new(a.value().clone());
    chk!(ctx, same(&d.view(), &va), &format!("value:{}", W::NAME), "new(value) {:?} vs {:?}", d, a);
    d.set_value(b.clone().take_value());
    chk!(ctx, same(&d.view(), &vb), &format!("value:{}", W::NAME), "set_value {:?} vs {:?}", d, b);
}

fn far_apart(a: &View, b: &View) -> bool {
    match (a, b) {
        (Num(x), Num(y)) => x != y && !((x - y).abs() < 0.02),
        (Str(x), Str(y)) => x != y,
        (Pair(a, b), Pair(c, d)) => far_apart(a, c) || far_apart(b, d),
        (List(a), List(b)) => a.len() != b.len() || a.iter().zip(b).any(|(x, y)| far_apart(x, y)),
        _ => true,
    }
}
fn num_gap(a: &View, b: &View) -> Option<f64> {
    match (a, b) {
        (Num(x), Num(y)) if x.is_finite() && y.is_finite() && x.fract() != 0.0 => {
            let d = (x - y).abs();
            if d < 10.0 {
                Some(d)
            } else {
                None
            }
        }
        _ => None,
    }
}

fn division<W: Law + WeaklyDivisibleSemiring>(ctx: &mut Ctx, left: bool, right: bool, any: bool) {
    let (a, b) = (W::gen(&mut ctx.rng), W::gen(&mut ctx.rng));
    if a.is_zero() || b.is_zero() {
        return;
    }
    ctx.input = format!("{} a={:?} b={:?}", W::NAME, a, b);
    let Some(ab) = times(ctx, &a, &b) else { return };
    ctx.count(&format!("divisions:{}", W::NAME));
    let eq = |ctx: &mut Ctx, law: &str, x: Option<W>, y: &W| {
        if let Some(x) = x {
            ctx.count("laws_judged");
            chk!(ctx, same(&x.view(), &y.view()), &format!("{}:{}", law, W::NAME), "{}: {:?} vs {:?}", law, x, y);
        }
    };
    if left {
        if let Some(q) = ctx.guard_ok("divide-left", || ab.divide(&a, DivideType::DivideLeft)) {
            let r = times(ctx, &a, &q);
            eq(ctx, "a*(ab/a)=ab", r, &ab);
            let mut m = ab.clone();
            let ok = m.divide_assign(&a, DivideType::DivideLeft).is_ok();
            chk!(ctx, ok && same(&m.view(), &q.view()), &format!("divide_assign:{}", W::NAME), "{:?} vs {:?}", m, q);
        }
        if let Some(q) = ctx.guard_ok("divide-left", || W::zero().divide(&a, DivideType::DivideLeft)) {
            eq(ctx, "0/a=0", Some(q), &W::zero());
        }
    }
    if right {
        if let Some(q) = ctx.guard_ok("divide-right", || ab.divide(&b, DivideType::DivideRight)) {
            let r = times(ctx, &q, &b);
            eq(ctx, "(ab/b)*b=ab", r, &ab);
        }
    }
    if any {
        if let Some(q) = ctx.guard_ok("divide-any", || ab.divide(&b, DivideType::DivideAny)) {
            let r = times(ctx, &q, &b);
            eq(ctx, "(ab/b)*b=ab any", r, &ab);
        }
    }
}

fn union_division(ctx: &mut Ctx) {
    let s = labels(&mut ctx.rng);
    let w = loop {
        let w = <TW as Law>::gen(&mut ctx.rng);
        if !w.is_zero() {
            break w;
        }
    };
    let one = GallicWeight::<TW>::from((s, w));
    let many = GallicWeight::<TW>::gen(&mut ctx.rng);
    if many.is_empty() {
        return;
    }
    ctx.input = format!("gallic one={:?} many={:?}", one, many);
    if let Some(p) = times(ctx, &one, &many) {
        if let Some(q) = ctx.guard_ok("divide-left", || p.divide(&one, DivideType::DivideLeft)) {
            ctx.count("divisions:gallic");
            chk!(ctx, same(&q.view(), &many.view()), "division:gallic", "{:?} / {:?} = {:?}", p, one, q);
        }
    }
    if let Some(p) = times(ctx, &many, &one) {
        if let Some(q) = ctx.guard_ok("divide-right", || p.divide(&one, DivideType::DivideRight)) {
            let r = times(ctx, &q, &one);
            if let Some(r) = r {
                chk!(ctx, same(&r.view(), &p.view()), "division:gallic", "{:?} / {:?} = {:?}", p, one, q);
            }
        }
    }
}

fn quant_num(v: &View) -> Vec<f64> {
    match v {
        Num(x) => vec![*x],
        Str(_) => vec![],
        Pair(a, b) => quant_num(a).into_iter().chain(quant_num(b)).collect(),
        List(l) => l.iter().flat_map(quant_num).collect(),
    }
}
fn skeleton(v: &View) -> View {
    match v {
        Num(_) => Num(0.0),
        Str(s) => Str(s.clone()),
        Pair(a, b) => Pair(Box::new(skeleton(a)), Box::new(skeleton(b))),
        List(l) => List(l.iter().map(skeleton).collect()),
    }
}
fn quantize<W: Law + WeightQuantize>(ctx: &mut Ctx) {
    let a = W::gen(&mut ctx.rng);
    let delta = [1.0f32 / 1024.0, 0.125, 0.5][ctx.rng.below(3)];
    ctx.input = format!("{} a={:?} delta={}", W::NAME, a, delta);
    let Some(q) = ctx.guard_ok("quantize", || a.quantize(delta)) else { return };
    ctx.count(&format!("quantized:{}", W::NAME));
    let (va, vq) = (a.view(), q.view());
    chk!(ctx, same(&skeleton(&va), &skeleton(&vq)), &format!("quantize:{}", W::NAME), "{:?} became {:?}", a, q);
    for (x, y) in quant_num(&va).into_iter().zip(quant_num(&vq)) {
        let near = x == y || ((x - y).abs() <= delta as f64 * 0.51 + 1e-4 * x.abs() + 1e-5);
        let k = y / delta as f64;
        let on_grid = !y.is_finite() || (k - k.round()).abs() < 1e-2;
        chk!(ctx, near && on_grid, &format!("quantize:{}", W::NAME), "{:?} became {:?} with {}", a, q, delta);
    }
    if let Some(q2) = ctx.guard_ok("quantize", || q.quantize(delta)) {
        chk!(ctx, same(&q2.view(), &vq), &format!("quantize-twice:{}", W::NAME), "{:?} became {:?}", q, q2);
    }
}

fn star<W: Law + StarSemiring>(ctx: &mut Ctx, a: W) {
    ctx.input = format!("{} a={:?}", W::NAME, a);
    ctx.count(&format!("closures:{}", W::NAME));
    if let Some(s) = ctx.guard("closure", || a.closure()) {
        if let Some(t) = times(ctx, &a, &s) {
            if let Some(r) = plus(ctx, &W::one(), &t) {
                ctx.count("laws_judged");
                chk!(ctx, same(&r.view(), &s.view()), &format!("closure:{}", W::NAME), "a*={:?} but 1+a a*={:?}", s, r);
            }
        }
        // against the partial sums
        let mut acc = W::one();
        let mut pw = W::one();
        for _ in 0..400 {
            pw = pw.times(&a).unwrap();
            acc = acc.plus(&pw).unwrap();
        }
        let (x, y) = (num(&acc.view()), num(&s.view()));
        chk!(ctx, x == y || (x - y).abs() < 0.02 * (1.0 + y.abs()), &format!("closure-sum:{}", W::NAME), "a*={:?} but the powers sum to {:?}", s, acc);
    }
}

pub fn case(ctx: &mut Ctx) {
    macro_rules! pick {
        ($f:ident, $($t:ty),+) => {{
            let fs: &[fn(&mut Ctx)] = &[$($f::<$t>),+];
            let k = ctx.rng.below(fs.len());
            fs[k](ctx);
        }};
    }
    match ctx.rng.below(8) {
        0..=4 => pick!(
            laws, TW, LW, ProbabilityWeight, BooleanWeight, IntegerWeight, StringWeightLeft, StringWeightRight, StringWeightRestrict,
            ProductWeight<TW, LW>, ProductWeight<StringWeightLeft, TW>, ProductWeight<BooleanWeight, IntegerWeight>, GallicWeightLeft<TW>,
            GallicWeightRight<TW>, GallicWeightRestrict<TW>, GallicWeightMin<TW>, GallicWeightLeft<LW>, GallicWeightRestrict<LW>,
            GallicWeight<TW>, GallicWeight<LW>
        ),
        5 => match ctx.rng.below(10) {
            0 => division::<TW>(ctx, true, true, true),
            1 => division::<LW>(ctx, true, true, true),
            2 => division::<ProbabilityWeight>(ctx, true, true, true),
            3 => division::<StringWeightLeft>(ctx, true, false, false),
            4 => division::<StringWeightRight>(ctx, false, true, false),
            5 => division::<StringWeightRestrict>(ctx, true, true, false),
            6 => division::<GallicWeightLeft<TW>>(ctx, true, false, false),
            7 => division::<GallicWeightRight<TW>>(ctx, false, true, false),
            8 => division::<GallicWeightMin<TW>>(ctx, true, true, false),
            _ => union_division(ctx),
        },
        6 => pick!(quantize, TW, LW, ProbabilityWeight, StringWeightLeft, ProductWeight<TW, LW>, GallicWeightLeft<TW>, GallicWeightMin<TW>, GallicWeight<TW>),
        _ => match ctx.rng.below(4) {
            0 => {
                let x = if ctx.rng.chance(1, 8) { f32::INFINITY } else { ctx.rng.below(40) as f32 * 0.25 };
                star(ctx, TW::new(x))
            }
            1 => {
                let x = if ctx.rng.chance(1, 8) { f32::INFINITY } else { (1 + ctx.rng.below(20)) as f32 * 0.25 };
                star(ctx, LW::new(x))
            }
            2 => {
                let x = ctx.rng.below(15) as f32 / 16.0;
                star(ctx, ProbabilityWeight::new(x))
            }
            _ => {
                let x = ctx.rng.bool();
                star(ctx, BooleanWeight::new(x))
            }
        },
    }
}

fn main() {
    run(Prop {
        id: "C01",
        quick: 1_500_000,
        thorough: 200_000_000,
        rule: "for random triples (with infinities, zeros, ones, equal and near values, strings with shared prefixes/suffixes, multi-element unions) of 19 weight types every law and declared property is evaluated with the library's operations and each sum and product is also compared with an independent computation on the weight's value; division, quantization, reversal and closure likewise. Non-trivial: every distinct triple.",
        case,
        must: &["laws_judged", "triples:gallic", "triples:min_gallic", "triples:left_string", "triples:log", "divisions:gallic", "divisions:left_gallic", "quantized:gallic", "closures:log", "unequal_pairs"],
        assumptions: &[
            "values are compared with a relative tolerance of 2e-4",
            "sums that a type declares undefined (different strings in the restricted string semiring, ties between different strings in the min-gallic semiring) are not judged",
            "division by zero, NaN and i32 overflow are outside the property",
        ],
        ..DEFAULT
    });
}
