//! Histories of operations against a model: C24.
use bsplines::{
    curve::{
        generation::{generate, Generation},
        points::Points,
    },
    manipulation::{
        insert::{insert, InsertError},
        merge::{merge, merge_from, merge_to, Constraints, MergeError},
        reverse::reversed,
        split::{split_and_normalize, SplitError},
    },
};
use serde::{Deserialize, Serialize};

use super::{
    merge::{allowance, tame, JOIN},
    *,
};
use crate::{
    engine::Prop,
    gen::{self, data_points, CurveSpec, Opts, X},
    refm::merge_ref,
    src::Src,
};

/// A parameter, chosen when the operation is carried out.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum At {
    /// This fraction of the domain.
    Value(f64),
    /// One of the internal knots, if any.
    Knot(u32),
    /// A fraction of one of the pieces.
    Piece(u32, f64),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Insert { at: At, times: usize, api: usize },
    Reverse { api: usize },
    /// Keeps one of the pieces.
    Split { at: At, keep_right: bool, api: usize },
    /// Splits, changes nothing, and puts the pieces together.
    Append { other: CurveSpec, constraint: Option<f64>, api: usize },
    Prepend { other: CurveSpec, constraint: Option<f64>, api: usize },
    Differentiate { k: usize },
    /// A copy is changed; the curve must not notice.
    CopyAndSpoil { at: At },
    BadInsert { u: X, times: usize },
    Saturated { at: At, api: usize },
    BadSplit { u: X },
    BadMerge { other: CurveSpec },
    Evaluate { at: At },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Start {
    Given(CurveSpec),
    Interpolated { p: usize, data: Vec<Vec<f64>> },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct History {
    pub start: Start,
    pub ops: Vec<Op>,
}

/// What the curve is known to be: `u -> base(alpha * u + beta)`.
struct Model {
    base: RefCurve,
    alpha: Dd,
    beta: Dd,
    knots: Vec<f64>,
    /// How far knots may be off, and the relative rounding of control points.
    kerr: f64,
    rel: f64,
    /// Bound of the first derivative's control points of the base.
    slope: Vec<f64>,
}

impl Model {
    fn new(c: &Curve) -> Model {
        let base = RefCurve::of(c);
        let mut slope = vec![0.0f64; base.dim];
        for l in base.pieces() {
            for (s, x) in slope.iter_mut().zip(base.local_size(l, 1)) {
                *s = s.max(x);
            }
        }
        let big = base.max();
        for (s, b) in slope.iter_mut().zip(&big) {
            *s = s.max(*b);
        }
        let knots = c.knots.vector().iter().copied().collect();
        Model { base, alpha: Dd::from(1.0), beta: Dd::from(0.0), knots, kerr: 0.0, rel: EV, slope }
    }
    fn map(&self, u: Dd) -> Dd {
        let x = self.alpha * u + self.beta;
        if x < Dd::from(0.0) {
            Dd::from(0.0)
        } else if x > Dd::from(1.0) {
            Dd::from(1.0)
        } else {
            x
        }
    }
    fn value(&self, u: Dd) -> Vec<Val> {
        self.base.eval_local(self.map(u), 0, false)
    }
    fn p(&self) -> usize {
        self.base.p
    }
    fn inner(&self) -> &[f64] {
        &self.knots[self.p() + 1..self.knots.len() - self.p() - 1]
    }
    fn mult(&self, u: f64) -> usize {
        self.inner().iter().filter(|x| **x == u).count()
    }
    fn breaks(&self) -> Vec<f64> {
        let mut v = self.knots[self.p()..self.knots.len() - self.p()].to_vec();
        v.dedup();
        v
    }
    fn resolve(&self, at: &At) -> f64 {
        let b = self.breaks();
        let x = match at {
            At::Value(x) => *x,
            At::Knot(i) => {
                let k = self.inner();
                if k.is_empty() {
                    0.5
                } else {
                    k[*i as usize % k.len()]
                }
            }
            At::Piece(i, t) => {
                let i = *i as usize % (b.len() - 1);
                b[i] + (b[i + 1] - b[i]) * t
            }
        };
        gen::snap(&b, x, 1e-3)
    }
    fn insert(&mut self, u: f64) {
        let at = self.knots.iter().rposition(|x| *x <= u).unwrap() + 1;
        self.knots.insert(at, u);
    }
    /// The curve has these knots and runs through the base curve's points.
    fn agrees(&mut self, ctx: &mut Ctx, c: &Curve, ktol: f64, what: &str) -> Res {
        ensure!(c.degree() == self.p() && c.dimension() == self.base.dim, "{what}: degree {} and dimension {}", c.degree(), c.dimension());
        let kv = c.knots.vector().as_slice();
        ensure!(kv.len() == self.knots.len(), "{what}: {} knots, expected {}", kv.len(), self.knots.len());
        for (i, (a, b)) in kv.iter().zip(&self.knots).enumerate() {
            ensure!(ctx.close(*a, *b, ktol), "{what}: knot {i} is {a:?}, expected {b:?}");
            // equal knots stay equal, different ones different
            ensure!(i == 0 || (self.knots[i - 1] == *b) == (kv[i - 1] == *a), "{what}: repeated knots changed: {kv:?}");
        }
        self.knots = kv.to_vec();
        consistent(ctx, c, true, what)?;
        let got = RefCurve::of(c);
        let (kerr, rel) = (self.kerr, self.rel);
        let stretch = self.alpha.f().abs();
        let slope = self.slope.clone();
        let extra = move |_: usize, d: usize| kerr * stretch * slope[d];
        let big = self.base.max();
        let m: &Model = self;
        traces(
            ctx,
            &got,
            &|u| m.value(u).into_iter().zip(&big).map(|(v, b)| Val { v: v.v, m: *b }).collect(),
            rel,
            &extra,
            what,
        )?;
        // as the crate evaluates it
        for u in [0.0, 1.0, 0.37, 0.5, 0.875] {
            eval_matches(ctx, c, &got, u, 0)?;
            eval_matches(ctx, c, &got, u, 1)?;
        }
        Ok(())
    }
}

fn at(s: &mut Src) -> At {
    match s.weighted(&[3, 4, 3]) {
        0 => At::Value(s.range(1, 31) as f64 / 32.0),
        1 => At::Knot(s.below(1000) as u32),
        _ => At::Piece(s.below(1000) as u32, s.pick(&[0.5, 0.25, 1.0 / 3.0, 0.9, 0.1])),
    }
}

pub struct C24;
impl Prop for C24 {
    const ID: &'static str = "C24";
    const RULE: &'static str = "random curves (degree 1-5, some up to 9, given or interpolated) and histories of 3 to 14 operations (insertion, repeated insertion, reversal, split, append, prepend, with and without constraints, derivative curve, copies, evaluation, and operations that must be refused), each followed by a comparison of knots, derivative data and every polynomial piece with a model that never refines anything; non-trivial: at least three changes of at least two kinds to a curve of degree >= 2";
    const QUICK: u64 = 57_000;
    const THOROUGH: u64 = 2_800_000;
    const CHOICES: usize = 1200;
    type Case = History;
    fn gen(s: &mut Src) -> History {
        let o = Opts { max_p: if s.chance(5) { 9 } else { 5 }, max_int: 10, min_gap: 0.02, ..JOIN };
        let small = Opts { max_int: 4, ..o };
        let count = s.range(3, 14);
        let start = if s.chance(15) {
            let p = s.range(1, 4);
            let m = p + s.range(1, 6);
            let dim = gen::dimension(s, 3);
            Start::Interpolated { p, data: gen::points(s, m + 1, dim, true) }
        } else {
            Start::Given(gen::curve(s, &o))
        };
        let (mut p, dim) = match &start {
            Start::Given(c) => (c.p, c.dim()),
            Start::Interpolated { p, data } => (*p, data[0].len()),
        };
        let mut ops = vec![];
        for _ in 0..count {
            ops.push(match s.weighted(&[6, 3, 4, 2, 2, 1, 1, 1, 1, 1, 1, 2]) {
                0 => Op::Insert { at: at(s), times: s.range(1, 3), api: s.below(3) },
                1 => Op::Reverse { api: s.below(2) },
                2 => Op::Split { at: at(s), keep_right: s.chance(50), api: s.below(2) },
                k @ (3 | 4) => {
                    let constraint = (p >= 2 && s.chance(30)).then(|| s.range(0, 4) as f64 / 4.0);
                    let api = s.below(2);
                    let other = gen::curve_of(s, p, dim, &small);
                    if k == 3 {
                        Op::Append { other, constraint, api }
                    } else {
                        Op::Prepend { other, constraint, api }
                    }
                }
                5 => {
                    let k = s.range(1, 2);
                    if p > k {
                        p -= k;
                        Op::Differentiate { k }
                    } else {
                        Op::Reverse { api: 0 }
                    }
                }
                6 => Op::CopyAndSpoil { at: at(s) },
                7 => Op::BadInsert { u: X(super::edit::bad_param(s)), times: s.range(1, 2) },
                8 => Op::Saturated { at: at(s), api: s.below(2) },
                9 => Op::BadSplit { u: X(super::edit::bad_param(s)) },
                10 => {
                    let (q, e) = if s.chance(50) { (p % 5 + 1, dim) } else { (p, dim + 1) };
                    Op::BadMerge { other: gen::curve_of(s, q, e, &small) }
                }
                _ => Op::Evaluate { at: at(s) },
            });
        }
        History { start, ops }
    }
    fn check(h: &History, ctx: &mut Ctx) -> Res {
        let mut c = match &h.start {
            Start::Given(s) => s.build(),
            Start::Interpolated { p, data } => {
                let d = data_points(data);
                generate(Generation::Interpolation { degree: *p, points: &d }).map_err(|e| format!("interpolation: {e:?}"))?
            }
        };
        let mut m = Model::new(&c);
        let mut done: Vec<&str> = vec![];
        let mut top = c.degree();
        for (i, op) in h.ops.iter().enumerate() {
            let p = c.degree();
            top = top.max(p);
            let what = format!("step {i}");
            match op {
                Op::Insert { at, times, api } => {
                    let u = m.resolve(at);
                    // leave room: a knot of multiplicity p+1 tears the curve
                    let times = (*times).min(p.saturating_sub(m.mult(u)));
                    if times == 0 {
                        continue;
                    }
                    let r = match api {
                        0 => (0..times).try_for_each(|_| c.insert(u).map(|_| ())),
                        1 => (0..times).try_for_each(|_| insert(&mut c, u)),
                        _ => c.insert_times(u, times).map(|_| ()),
                    };
                    r.map_err(|e| format!("{what}: inserting {u:?} {times} times: {e:?}"))?;
                    (0..times).for_each(|_| m.insert(u));
                    m.rel += EV;
                    m.agrees(ctx, &c, 0.0, &format!("{what} (insertion of {u:?})"))?;
                    done.push("insert");
                }
                Op::Reverse { api } => {
                    if *api == 0 {
                        c.reverse();
                    } else {
                        c = reversed(&c);
                    }
                    m.beta = m.alpha + m.beta;
                    m.alpha = -m.alpha;
                    m.knots = m.knots.iter().rev().map(|x| 1.0 - x).collect();
                    m.kerr += 1e-15;
                    m.rel += EV;
                    m.agrees(ctx, &c, 1e-15, &format!("{what} (reversal)"))?;
                    done.push("reverse");
                }
                Op::Split { at, keep_right, api } => {
                    let u = m.resolve(at);
                    let mult = m.mult(u);
                    if mult > p || m.knots.len() > 200 {
                        continue;
                    }
                    let s = if *keep_right { 1.0 - u } else { u };
                    if m.alpha.f().abs() * s < 1e-3 {
                        continue;
                    }
                    let before = snapshot(&c);
                    let (l, r) = if *api == 0 { c.split(u) } else { split_and_normalize(&c, u, (true, true)) }
                        .map_err(|e| format!("{what}: splitting at {u:?}: {e:?}"))?;
                    ensure!(snapshot(&c) == before, "{what}: splitting changed the curve");
                    let inner = m.inner().to_vec();
                    let du = Dd::from(u);
                    let mut k = vec![0.0; p + 1];
                    if *keep_right {
                        let len = Dd::from(1.0) - du;
                        k.extend(inner.iter().filter(|x| **x > u).map(|x| ((Dd::from(*x) - du) / len).f()));
                        m.beta = m.alpha * du + m.beta;
                        m.alpha = m.alpha * len;
                        c = r;
                    } else {
                        k.extend(inner.iter().filter(|x| **x < u).map(|x| (Dd::from(*x) / du).f()));
                        m.alpha = m.alpha * du;
                        c = l;
                    }
                    k.extend(vec![1.0; p + 1]);
                    m.knots = k;
                    m.kerr = m.kerr / s + 2e-15 / s;
                    m.rel += EV;
                    m.agrees(ctx, &c, 1e-15 / s, &format!("{what} (split at {u:?}, {} piece)", if *keep_right { "right" } else { "left" }))?;
                    done.push("split");
                }
                Op::Append { other, constraint, api } | Op::Prepend { other, constraint, api } => {
                    let append = matches!(op, Op::Append { .. });
                    if other.p != p || p > 4 || other.dim() != c.dimension() || c.points.count() > 60 {
                        continue;
                    }
                    let own = RefCurve::of(&c);
                    // what the joint system needs to be well-behaved
                    if own.min_gap() < 0.01 || m.breaks().iter().any(|x| m.mult(*x) > p) {
                        continue;
                    }
                    let o = other.build();
                    let (a, b) = if append { (&own, &other.reff()) } else { (&other.reff(), &own) };
                    let cons: Vec<f64> = constraint.iter().copied().filter(|_| p >= 2).collect();
                    // on the first curve
                    let Some(r) = merge_ref(a, b, &cons, &[]) else { continue };
                    if !tame(&r) || r.cond > 1e6 {
                        continue;
                    }
                    let so = snapshot(&o);
                    let before = c.clone();
                    let ca = Constraints { params: cons.clone() };
                    let cb = Constraints { params: vec![] };
                    match (append, cons.is_empty()) {
                        (true, true) if *api == 0 => {
                            c.append(&o);
                        }
                        (true, true) => c = merge(&before, &o).map_err(|e| format!("{what}: {e:?}"))?,
                        (true, false) if *api == 1 && cons == [1.0] => {
                            c = merge_from(&before, &o).map_err(|e| format!("{what}: {e:?}"))?;
                        }
                        (true, false) => {
                            c.append_constrained(ca, &o, cb);
                        }
                        (false, true) if *api == 0 => {
                            c.prepend(&o);
                        }
                        (false, true) => c = merge(&o, &before).map_err(|e| format!("{what}: {e:?}"))?,
                        (false, false) if *api == 1 && cons == [1.0] => {
                            c = merge_from(&o, &before).map_err(|e| format!("{what}: {e:?}"))?;
                        }
                        (false, false) => {
                            c.prepend_constrained(cb, &o, ca);
                        }
                    }
                    ensure!(snapshot(&o) == so, "{what}: merging changed the other curve");
                    // against the independent solution
                    let got = RefCurve::of(&c);
                    let (half, two, one) = (Dd::from(0.5), Dd::from(2.0), Dd::from(1.0));
                    let want = |u: Dd| if u < half { r.a.eval_local(u * two, 0, false) } else { r.b.eval_local(u * two - one, 0, false) };
                    let tol = allowance(&r);
                    let noise = |l: usize, d: usize| tol + 2e-15 * got.local_size(l, 1)[d];
                    let text = format!("{what} ({})", if append { "append" } else { "prepend" });
                    consistent(ctx, &c, true, &text)?;
                    let mut k: Vec<f64> = a.u[..a.n() + 2].iter().map(|x| x.f() / 2.0).collect();
                    k.extend(b.u[p + 1..].iter().map(|x| (1.0 + x.f()) / 2.0));
                    traces(ctx, &got, &want, 1e-12, &noise, &text)?;
                    m = Model::new(&c);
                    m.knots = k;
                    m.agrees(ctx, &c, 1e-15, &text)?;
                    done.push(if append { "append" } else { "prepend" });
                }
                Op::Differentiate { k } => {
                    if *k >= p || m.breaks().iter().any(|x| m.mult(*x) + k > p) {
                        continue;
                    }
                    let old = RefCurve::of(&c);
                    let d = c.get_derivative_curve(*k);
                    let got = RefCurve::of(&d);
                    ensure!(d.degree() == p - k, "{what}: derivative {k} has degree {}", d.degree());
                    let text = format!("{what} (derivative {k})");
                    consistent(ctx, &d, true, &text)?;
                    traces(ctx, &got, &|u| old.eval_local(u, *k, false), 4.0 * EV, &no_extra, &text)?;
                    let kv = m.knots[*k..m.knots.len() - k].to_vec();
                    c = d;
                    m = Model::new(&c);
                    m.knots = kv;
                    m.agrees(ctx, &c, 0.0, &text)?;
                    done.push("differentiate");
                }
                Op::CopyAndSpoil { at } => {
                    let before = snapshot(&c);
                    let mut x = c.clone();
                    let u = m.resolve(at);
                    if m.mult(u) < p {
                        x.insert(u).map_err(|e| format!("{what}: {e:?}"))?;
                    }
                    x.reverse();
                    drop(x);
                    let mut y = c.get_derivative_curve(p.min(1));
                    y.reverse();
                    let mut z = reversed(&c);
                    z.reverse();
                    ensure!(snapshot(&c) == before, "{what}: changing a copy changed the curve");
                }
                Op::BadInsert { u, times } => {
                    let before = snapshot(&c);
                    match c.insert_times(u.0, *times) {
                        Err(InsertError::OutOfBounds { .. }) => {}
                        r => fail!("{what}: inserting {:?}: {:?}", u.0, r.map(|_| ())),
                    }
                    ensure!(snapshot(&c) == before, "{what}: a refused insertion changed the curve");
                }
                Op::Saturated { at, api } => {
                    let u = m.resolve(at);
                    let mut x = c.clone();
                    let room = p + 1 - m.mult(u);
                    x.insert_times(u, room).map_err(|e| format!("{what}: inserting {u:?} {room} times: {e:?}"))?;
                    let before = snapshot(&x);
                    let r = if *api == 0 { x.insert(u).map(|_| ()) } else { insert(&mut x, u) };
                    ensure!(matches!(r, Err(InsertError::MultiplicityError { .. })), "{what}: inserting {u:?} once more: {r:?}");
                    let r = x.split(u);
                    ensure!(matches!(r, Err(SplitError::MultiplicityTooHigh { .. })), "{what}: splitting at a full knot was accepted");
                    ensure!(snapshot(&x) == before, "{what}: refused operations changed the curve");
                    let kept = (m.knots.clone(), m.rel);
                    (0..room).for_each(|_| m.insert(u));
                    m.rel += EV;
                    m.agrees(ctx, &x, 0.0, &format!("{what} (saturated copy)"))?;
                    (m.knots, m.rel) = kept;
                }
                Op::BadSplit { u } => {
                    let before = snapshot(&c);
                    ensure!(matches!(c.split(u.0), Err(SplitError::OutOfBounds { .. })), "{what}: splitting at {:?} was accepted", u.0);
                    ensure!(snapshot(&c) == before, "{what}: a refused split changed the curve");
                }
                Op::BadMerge { other } => {
                    if other.p == p && other.dim() == c.dimension() {
                        continue;
                    }
                    let before = snapshot(&c);
                    let o = other.build();
                    for r in [merge(&c, &o), merge(&o, &c), merge_from(&c, &o), merge_to(&o, &c)] {
                        ensure!(
                            matches!(
                                r,
                                Err(MergeError::DegreeMismatch { .. } | MergeError::DimensionMismatch { .. } | MergeError::TooManyConstraints { .. })
                            ),
                            "{what}: merging curves that do not fit was accepted"
                        );
                    }
                    ensure!(snapshot(&c) == before, "{what}: a refused merge changed the curve");
                }
                Op::Evaluate { at } => {
                    let before = snapshot(&c);
                    let u = m.resolve(at);
                    let r = RefCurve::of(&c);
                    for k in 0..=p + 1 {
                        eval_matches(ctx, &c, &r, u, k)?;
                    }
                    ensure!(snapshot(&c) == before, "{what}: evaluating changed the curve");
                }
            }
        }
        for d in &done {
            ctx.label(*d);
        }
        let mut kinds = done.clone();
        kinds.sort();
        kinds.dedup();
        if done.len() >= 3 && kinds.len() >= 2 && top >= 2 {
            ctx.nontrivial();
        }
        ctx.label(match done.len() {
            0..=2 => "changes: 0-2",
            3..=5 => "changes: 3-5",
            6..=9 => "changes: 6-9",
            _ => "changes: 10 or more",
        });
        Ok(())
    }
}
