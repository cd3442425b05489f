//! Knot insertion, splitting, reversal: C07 to C11, C30.
use bsplines::{
    curve::points::Points,
    manipulation::{
        insert::{insert, InsertError},
        reverse::{reverse, reversed},
        split::{split, split_and_normalize, SplitError},
    },
};
use serde::{Deserialize, Serialize};

use super::{eval::knot_noise, *};
use crate::{
    engine::Prop,
    gen::{self, CurveSpec, Opts, WIDE, X},
    src::Src,
};

const EDIT: Opts = Opts { max_int: 60, min_gap: 1e-5, ..WIDE };

/// Number of pieces of work is bounded by the generator; this keeps the
/// derivative checks away from places where a derivative jumps.
fn smooth_at(c: &CurveSpec, u: f64) -> bool {
    c.internal().iter().all(|x| (x - u).abs() > 1e-9)
}

// ------------------------------------------------------------------------ C07

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct InsertCase {
    pub curve: CurveSpec,
    /// Parameters and how often each is inserted.
    pub steps: Vec<(f64, usize)>,
    /// 0 = method, 1 = free function, 2 = `insert_times`.
    pub api: usize,
}

pub struct C07;
impl Prop for C07 {
    const ID: &'static str = "C07";
    const RULE: &'static str = "random curves (degree 1-12, repeated knots), one to three knots inserted one to p+1 times through the method, the free function or the repeated form, at existing knots and elsewhere; every polynomial piece is compared at p+2 places, knots exactly; non-trivial: degree >= 2 and an insertion at an existing knot, next to repeated knots, or repeated";
    const QUICK: u64 = 53_000;
    const THOROUGH: u64 = 2_600_000;
    type Case = InsertCase;
    fn gen(s: &mut Src) -> InsertCase {
        let api = s.below(3);
        let curve = gen::curve(s, &EDIT);
        let mut sim = curve.clone();
        let mut steps = vec![];
        for _ in 0..s.range(1, 3) {
            let u = gen::inner_param_near(s, &sim, EDIT.min_gap, 0.0);
            let room = curve.p + 1 - sim.mult(u);
            if room == 0 {
                continue;
            }
            let times = match s.weighted(&[3, 2, 1, 1]) {
                0 => 1,
                1 => s.range(1, room),
                2 => room,
                _ => room.saturating_sub(1),
            };
            steps.push((u, times));
            for _ in 0..times {
                let at = sim.u.iter().rposition(|x| *x <= u).unwrap() + 1;
                sim.u.insert(at, u);
                sim.pts.push(vec![0.0; curve.dim()]);
            }
        }
        InsertCase { curve, steps, api }
    }
    fn check(c: &InsertCase, ctx: &mut Ctx) -> Res {
        let mut b = c.curve.build();
        let orig = c.curve.reff();
        c.curve.classes(ctx);
        let p = c.curve.p;
        let mut knots = c.curve.u.clone();
        for (u, times) in &c.steps {
            let had = knots.iter().filter(|x| *x == u).count();
            ctx.label(if had == 0 { "insert: new knot" } else { "insert: existing knot" });
            if p >= 2 && (had > 0 || *times > 1 || c.curve.max_mult() > 1) {
                ctx.nontrivial();
            }
            let old = RefCurve::of(&b);
            let r = match c.api {
                0 => (0..*times).try_for_each(|_| b.insert(*u).map(|_| ())),
                1 => (0..*times).try_for_each(|_| insert(&mut b, *u)),
                _ => b.insert_times(*u, *times).map(|_| ()),
            };
            if let Err(e) = r {
                fail!("inserting {u:?} {times} times (multiplicity {had}, degree {p}) failed: {e:?}");
            }
            for _ in 0..*times {
                let at = knots.iter().rposition(|x| x <= u).unwrap() + 1;
                knots.insert(at, *u);
            }
            ensure!(b.knots.vector().as_slice() == &knots[..], "knots after inserting {u:?}: {:?}", b.knots.vector().as_slice());
            ensure!(b.knots.multiplicity(*u) == had + times, "multiplicity of {u:?} is {}", b.knots.multiplicity(*u));
            // control points of pieces away from u stay
            let new = RefCurve::of(&b);
            let l = old.span(Dd::from(*u), false);
            for i in 0..=l.saturating_sub(p + had) {
                ensure!(new.pts[i] == old.pts[i], "control point {i} left of the changed range moved");
            }
            for i in l..=old.n() {
                ensure!(new.pts[i + times] == old.pts[i], "control point {i} right of the changed range moved");
            }
        }
        ensure!(b.segments() == c.curve.n() + knots.len() - c.curve.u.len(), "{} segments after the insertions", b.segments());
        consistent(ctx, &b, true, "after insertion")?;
        let got = RefCurve::of(&b);
        traces(ctx, &got, &|u| orig.eval_local(u, 0, false), EV, &no_extra, "after insertion the curve")?;
        for (u, _) in &c.steps {
            for x in [*u, u.next_down(), u.next_up(), 0.0, 1.0] {
                eval_matches(ctx, &b, &got, x, 0)?;
                if c.curve.mult(x) <= p && got.u.iter().filter(|k| k.f() == x).count() <= p {
                    let v = b.evaluate(x).map_err(|e| format!("{e:?}"))?;
                    for (d, w) in orig.eval_local(Dd::from(x), 0, false).into_iter().enumerate() {
                        ensure!(ctx.close(v[d], w.v.f(), 4.0 * EV * w.m + TINY), "after insertion the curve at {x:?} is {:?}, it was {:?}", v[d], w.v.f());
                    }
                }
            }
        }
        Ok(())
    }
    fn regressions() -> Vec<InsertCase> {
        let curve = CurveSpec {
            p: 2,
            u: vec![0., 0., 0., 0.25, 0.25, 0.5, 1., 1., 1.],
            pts: vec![vec![1.], vec![-2.], vec![5.], vec![3.], vec![-4.], vec![0.5]],
        };
        (0..3).map(|api| InsertCase { curve: curve.clone(), steps: vec![(0.75, 1), (0.4, 2)], api }).collect()
    }
}

// ------------------------------------------------------------------------ C08

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct BadInsert {
    pub curve: CurveSpec,
    pub u: X,
    pub times: usize,
    pub api: usize,
}

pub struct C08;
impl Prop for C08 {
    const ID: &'static str = "C08";
    const RULE: &'static str = "random curves and insertions that must be refused: parameters at, beyond or one step outside the ends, infinite or NaN, and knots that already fill their multiplicity, alone or reached half-way through a repeated insertion; non-trivial: NaN, saturated knots, or a repeated insertion that fails half-way";
    const QUICK: u64 = 170_000;
    const THOROUGH: u64 = 8_500_000;
    type Case = BadInsert;
    fn gen(s: &mut Src) -> BadInsert {
        let kind = s.weighted(&[3, 4, 3]);
        let api = s.below(3);
        let curve = gen::curve(s, &Opts { mult: 2, max_int: 24, ..EDIT });
        match kind {
            0 => BadInsert { curve, u: X(bad_param(s)), times: s.range(1, 3), api },
            1 => {
                // saturate a knot by construction
                let mut c = curve;
                let u = gen::inner_param_near(s, &c, 1e-5, 0.0);
                let at = c.u.iter().rposition(|x| *x <= u).unwrap() + 1;
                while c.mult(u) < c.p + 1 {
                    c.u.insert(at, u);
                    let q = c.pts[s.below(c.pts.len())].clone();
                    c.pts.push(q);
                }
                BadInsert { curve: c, u: X(u), times: s.range(1, 3), api }
            }
            _ => {
                let u = gen::inner_param_near(s, &curve, 1e-5, 0.0);
                let room = curve.p + 1 - curve.mult(u);
                BadInsert { u: X(u), times: room + s.range(1, 3), curve, api: 2 }
            }
        }
    }
    fn check(c: &BadInsert, ctx: &mut Ctx) -> Res {
        let mut b = c.curve.build();
        let orig = c.curve.reff();
        let p = c.curve.p;
        let before = snapshot(&b);
        let u = c.u.0;
        let inside = u > 0.0 && u < 1.0;
        let had = if inside { c.curve.mult(u) } else { 0 };
        let possible = if inside { p + 1 - had } else { 0 };
        if c.times <= possible {
            // shrinking can get here; nothing to refuse
            return Ok(());
        }
        if u.is_nan() || inside {
            ctx.nontrivial();
        }
        ctx.label(if !inside { "outside" } else if possible == 0 { "saturated knot" } else { "saturated half-way" });
        let r = match c.api {
            0 if possible == 0 => b.insert(u).map(|_| ()),
            1 if possible == 0 => insert(&mut b, u),
            _ => b.insert_times(u, c.times).map(|_| ()),
        };
        ctx.comparisons += 1;
        if let Err(e) = &r {
            speaks(e)?;
        }
        match r {
            Ok(()) => fail!("inserting {u:?} {} times at multiplicity {had} of degree {p} was accepted", c.times),
            Err(InsertError::OutOfBounds { u: e, lower_bound, upper_bound }) => {
                ensure!(!inside, "inserting {u:?} was refused as out of bounds");
                ensure!(
                    (e == u || (e.is_nan() && u.is_nan())) && lower_bound == 0.0 && upper_bound == 1.0,
                    "the error for {u:?} speaks of {e:?} and ({lower_bound:?}, {upper_bound:?})"
                );
            }
            Err(InsertError::MultiplicityError { u: e, m, p: q }) => {
                ensure!(inside, "inserting {u:?} was refused for its multiplicity");
                ensure!(e == u && m == p + 1 && q == p, "the error for {u:?} speaks of u={e:?}, m={m}, p={q}");
            }
        }
        if possible == 0 {
            ensure!(snapshot(&b) == before, "a refused insertion of {u:?} changed the curve");
        } else {
            // the insertions before the refused one are valid; the curve is too
            consistent(ctx, &b, true, "after a repeated insertion that failed")?;
            let got = RefCurve::of(&b);
            traces(ctx, &got, &|x| orig.eval_local(x, 0, false), EV, &no_extra, "after a repeated insertion that failed the curve")?;
        }
        Ok(())
    }
    fn regressions() -> Vec<BadInsert> {
        let curve = CurveSpec { p: 2, u: vec![0., 0., 0., 1., 1., 1.], pts: vec![vec![1.], vec![2.], vec![4.]] };
        (0..3).map(|api| BadInsert { curve: curve.clone(), u: X(f64::NAN), times: 1, api }).collect()
    }
}

pub fn bad_param(s: &mut Src) -> f64 {
    match s.weighted(&[4, 1, 1]) {
        0 => s.pick(&[
            0.0,
            -0.0,
            1.0,
            f64::NAN,
            -f64::NAN,
            1.0 + f64::EPSILON,
            -5e-324,
            f64::INFINITY,
            f64::NEG_INFINITY,
            2.0,
            -1.0,
            f64::MAX,
        ]),
        1 => -s.unit() - 1e-18,
        _ => 1.0 + s.unit() + 1e-15,
    }
}

// ------------------------------------------------------------------------ C09

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct SplitCase {
    pub curve: CurveSpec,
    pub u: f64,
    /// Normalise the left and the right piece; `None` uses the plain call.
    pub flags: Option<(bool, bool)>,
    pub method: bool,
}

pub struct C09;
impl Prop for C09 {
    const ID: &'static str = "C09";
    const RULE: &'static str = "random curves (degree 1-12, repeated knots up to p+1) split at new parameters and at simple and repeated knots, through the method, the free function and all four normalisation choices; every polynomial piece of both halves is compared at p+2 places, plus ends, derivatives and knots; non-trivial: degree >= 2 and a split at a knot, or on a curve with internal knots on both sides";
    const QUICK: u64 = 50_000;
    const THOROUGH: u64 = 2_500_000;
    type Case = SplitCase;
    fn gen(s: &mut Src) -> SplitCase {
        let f = s.below(6);
        let mut curve = gen::curve(s, &Opts { tight: Some(1e-9), mult: 2, ..EDIT });
        let u = gen::inner_param_near(s, &curve, 1e-4, 1e-9);
        // there is no splitting where the curve jumps
        while curve.mult(u) > curve.p {
            let i = curve.u.iter().position(|x| *x == u).unwrap();
            curve.u.remove(i);
            curve.pts.remove(i - 1);
        }
        let flags = match f {
            0 | 1 => None,
            k => Some(((k - 2) & 1 == 0, (k - 2) & 2 == 0)),
        };
        SplitCase { curve, u, flags, method: f == 0 }
    }
    fn check(c: &SplitCase, ctx: &mut Ctx) -> Res {
        let b = c.curve.build();
        let orig = c.curve.reff();
        let before = snapshot(&b);
        let (p, u) = (c.curve.p, c.u);
        let mult = c.curve.mult(u);
        c.curve.classes(ctx);
        let sides = (c.curve.internal().iter().any(|x| *x < u), c.curve.internal().iter().any(|x| *x > u));
        ctx.label(format!("split at multiplicity {}", mult.min(3)));
        if p >= 2 && (mult > 0 || (sides.0 && sides.1)) {
            ctx.nontrivial();
        }
        let r = match c.flags {
            None if c.method => b.split(u),
            None => split(&b, u),
            Some(f) => split_and_normalize(&b, u, f),
        };
        let (left, right) = r.map_err(|e| format!("splitting at {u:?} (multiplicity {mult}, degree {p}) failed: {e:?}"))?;
        ensure!(snapshot(&b) == before, "splitting changed the original");
        let norm = c.flags.unwrap_or((true, true));
        let parts = [(&left, norm.0, 0.0, u, "left piece"), (&right, norm.1, u, 1.0, "right piece")];
        for (q, normed, lo, hi, name) in parts {
            ensure!(q.degree() == p && q.dimension() == orig.dim, "{name}: degree {} and dimension {}", q.degree(), q.dimension());
            consistent(ctx, q, normed || (lo == 0.0 && hi == 1.0), name)?;
            // knots: those of the original inside the piece, in its parameter
            let inner: Vec<f64> = c.curve.internal().iter().copied().filter(|x| *x > lo && *x < hi).collect();
            let kv = q.knots.vector();
            ensure!(kv.len() == inner.len() + 2 * (p + 1), "{name}: {} knots, expected {}", kv.len(), inner.len() + 2 * (p + 1));
            let map = |x: f64| if normed { (x - lo) / (hi - lo) } else { x };
            for i in 0..kv.len() {
                let want = if i <= p {
                    map(lo)
                } else if i < p + 1 + inner.len() {
                    map(inner[i - p - 1])
                } else {
                    map(hi)
                };
                ensure!(ctx.close(kv[i], want, if normed { 2e-15 } else { 0.0 } + TINY), "{name}: knot {i} is {:?}, expected {want:?}", kv[i]);
            }
            // geometry
            let g = RefCurve::of(q);
            let (dlo, dhi) = (Dd::from(lo), Dd::from(hi));
            let back = |t: Dd| if normed { dlo + (dhi - dlo) * t } else { t };
            // normalised knots are rounded: allow for the movement that causes
            let noise = |l: usize, d: usize| {
                if !normed {
                    return 0.0;
                }
                2e-15 * g.local_size(l, 1)[d]
            };
            traces(ctx, &g, &|t| orig.eval_local(back(t), 0, false), EV, &noise, name)?;
            // the piece evaluates as what its data say
            let (t0, t1) = if normed { (0.0, 1.0) } else { (lo, hi) };
            for f in [0.0, 0.31, 0.5, 0.77, 1.0] {
                let t = t0 + (t1 - t0) * f;
                for k in 0..=1.min(p) {
                    // the end of an unnormalised left piece has no piece to its right
                    if !normed && t >= t1 && t1 < 1.0 && k > 0 {
                        continue;
                    }
                    eval_matches(ctx, q, &g, t, k)?;
                }
            }
            // derivatives scale with the length of the piece
            let len = if normed { hi - lo } else { 1.0 };
            // the control points of a short piece are rounded like those of the curve
            let mut amp = g.clone();
            let big = orig.max();
            amp.pts.iter_mut().for_each(|q| q.iter_mut().zip(&big).for_each(|(x, m)| *x = Dd::from(*m)));
            for f in [0.13, 0.52, 0.9] {
                let t = t0 + (t1 - t0) * f;
                let x = back(Dd::from(t)).f();
                if !smooth_at(&c.curve, x) {
                    continue;
                }
                for k in 1..=p {
                    let got = q.evaluate_derivative(t, k).map_err(|e| format!("{e:?}"))?;
                    let w = orig.eval_local(back(Dd::from(t)), k, false);
                    let gm = amp.eval_local(Dd::from(t), k, false);
                    for d in 0..orig.dim {
                        let want = w[d].v.f() * len.powi(k as i32);
                        let tol = 4.0 * EV * (gm[d].m + w[d].m * len.powi(k as i32)) * knot_noise(&c.curve) / len.min(1.0) + TINY;
                        ensure!(ctx.close(got[d], want, tol), "{name}: derivative {k} at {t:?} is {:?}, expected {want:?}", got[d]);
                    }
                }
            }
        }
        // they meet where the curve was cut
        let (el, sr) = (RefCurve::of(&left), RefCurve::of(&right));
        let at = orig.eval_local(Dd::from(u), 0, false);
        for d in 0..orig.dim {
            let e = el.pts[el.n()][d].f();
            let s = sr.pts[0][d].f();
            let tol = EV * at[d].m + TINY;
            ensure!(
                ctx.close(e, at[d].v.f(), tol) && ctx.close(s, at[d].v.f(), tol),
                "the pieces end and start at {e:?} and {s:?}, the curve passes {:?}",
                at[d].v.f()
            );
        }
        Ok(())
    }
    fn regressions() -> Vec<SplitCase> {
        let curve = CurveSpec {
            p: 2,
            u: vec![0., 0., 0., 0.25, 0.25, 0.5, 1., 1., 1.],
            pts: vec![vec![1.], vec![-2.], vec![5.], vec![3.], vec![-4.], vec![0.5]],
        };
        [0.25, 0.5, 0.75, 0.1]
            .iter()
            .map(|u| SplitCase { curve: curve.clone(), u: *u, flags: Some((false, true)), method: false })
            .collect()
    }
}

// ------------------------------------------------------------------------ C10

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct BadSplit {
    pub curve: CurveSpec,
    pub u: X,
    pub flags: (bool, bool),
    pub api: usize,
}

pub struct C10;
impl Prop for C10 {
    const ID: &'static str = "C10";
    const RULE: &'static str = "random curves and splits that must be refused: parameters at, beyond or one step outside the ends, infinite or NaN, and knots of multiplicity p+1, next to splits that must be accepted: anywhere inside, at and right next to knots of multiplicity up to p, and at the closest valid parameters; non-trivial: NaN or a knot of multiplicity p or p+1";
    const QUICK: u64 = 250_000;
    const THOROUGH: u64 = 12_000_000;
    type Case = BadSplit;
    fn gen(s: &mut Src) -> BadSplit {
        let kind = s.weighted(&[4, 5, 2, 2]);
        let api = s.below(3);
        let flags = (s.chance(50), s.chance(50));
        let mut c = gen::curve(s, &Opts { mult: 2, max_int: 16, ..EDIT });
        let u = match kind {
            0 => bad_param(s),
            1 => {
                let u = gen::inner_param_near(s, &c, 1e-5, 0.0);
                let at = c.u.iter().rposition(|x| *x <= u).unwrap() + 1;
                let full = match s.weighted(&[5, 3, 2]) {
                    0 => c.p + 1,
                    1 => c.p,
                    _ => s.range(1, c.p),
                };
                while c.mult(u) < full {
                    c.u.insert(at, u);
                    let q = c.pts[s.below(c.pts.len())].clone();
                    c.pts.push(q);
                }
                u
            }
            2 => gen::inner_param_near(s, &c, 1e-5, 0.0),
            // valid, but close to something invalid
            _ => s.pick(&[1e-3, 1.0 - 1e-3, f64::EPSILON, 1.0 - f64::EPSILON]),
        };
        BadSplit { curve: c, u: X(u), flags, api }
    }
    fn check(c: &BadSplit, ctx: &mut Ctx) -> Res {
        let b = c.curve.build();
        let before = snapshot(&b);
        let p = c.curve.p;
        let u = c.u.0;
        let r = match c.api {
            0 => b.split(u),
            1 => split(&b, u),
            _ => split_and_normalize(&b, u, c.flags),
        };
        ctx.comparisons += 1;
        ensure!(snapshot(&b) == before, "splitting changed the original");
        let inside = u > 0.0 && u < 1.0;
        let mult = if inside { c.curve.mult(u) } else { 0 };
        if let Err(e) = &r {
            speaks(e)?;
        }
        match r {
            Ok((l, r)) => {
                ensure!(inside, "splitting at {u:?} was accepted");
                ensure!(mult <= p, "splitting at {u:?} of multiplicity {mult}, degree {p}, was accepted");
                ensure!(l.degree() == p && r.degree() == p, "pieces have the wrong degree");
                ensure!(
                    l.segments() + r.segments() + 2 == c.curve.n() + 1 + p + 1 - mult,
                    "pieces have {} and {} segments",
                    l.segments(),
                    r.segments()
                );
                ctx.label("accepted");
                if mult == p {
                    ctx.label("accepted at multiplicity p");
                    ctx.nontrivial();
                }
            }
            Err(SplitError::OutOfBounds { u: e, lower_bound, upper_bound }) => {
                ensure!(!inside, "splitting at {u:?} was refused as out of bounds");
                ensure!(
                    (e == u || (e.is_nan() && u.is_nan())) && lower_bound == 0.0 && upper_bound == 1.0,
                    "the error for {u:?} speaks of {e:?} and ({lower_bound:?}, {upper_bound:?})"
                );
                ctx.label("out of bounds");
                if u.is_nan() {
                    ctx.nontrivial();
                }
            }
            Err(SplitError::MultiplicityTooHigh { u: e, p: q, multiplicity }) => {
                ensure!(inside && mult > p, "splitting at {u:?} of multiplicity {mult}, degree {p}, was refused");
                ensure!(e == u && q == p && multiplicity == mult, "the error speaks of u={e:?}, p={q}, multiplicity {multiplicity}");
                ctx.label("saturated knot");
                ctx.nontrivial();
            }
            Err(e) => fail!("splitting at {u:?} failed with {e:?}"),
        }
        Ok(())
    }
    fn regressions() -> Vec<BadSplit> {
        let curve = CurveSpec { p: 2, u: vec![0., 0., 0., 1., 1., 1.], pts: vec![vec![1.], vec![2.], vec![4.]] };
        (0..3).map(|api| BadSplit { curve: curve.clone(), u: X(f64::NAN), flags: (true, true), api }).collect()
    }
}

// ------------------------------------------------------------------------ C11

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ReverseCase {
    pub curve: CurveSpec,
    pub us: Vec<f64>,
    pub api: usize,
}

pub struct C11;
impl Prop for C11 {
    const ID: &'static str = "C11";
    const RULE: &'static str = "random curves (degree 1-12, uneven and repeated knots) reversed through the method and both free functions; all derivative orders at random parameters, knots, the ends, and a second reversal; non-trivial: degree >= 2, an internal knot vector that is not symmetric, and control points that are not symmetric";
    const QUICK: u64 = 120_000;
    const THOROUGH: u64 = 6_000_000;
    type Case = ReverseCase;
    fn gen(s: &mut Src) -> ReverseCase {
        let api = s.below(3);
        let curve = gen::curve(s, &Opts { min_gap: 1e-5, tight: Some(1e-9), max_int: 60, ..WIDE });
        let m = s.range(3, 10);
        let us = (0..m).map(|_| gen::param(s, &curve)).collect();
        ReverseCase { curve, us, api }
    }
    fn check(c: &ReverseCase, ctx: &mut Ctx) -> Res {
        let mut b = c.curve.build();
        let orig = c.curve.reff();
        c.curve.classes(ctx);
        let p = c.curve.p;
        let before = snapshot(&b);
        let rev = match c.api {
            0 => {
                b.reverse();
                b
            }
            1 => {
                reverse(&mut b);
                b
            }
            _ => {
                let r = reversed(&b);
                ensure!(snapshot(&b) == before, "the copying reversal changed its argument");
                r
            }
        };
        let want = orig.reversed();
        if p >= 2 && want.u != orig.u && want.pts != orig.pts {
            ctx.nontrivial();
        }
        consistent_rev(ctx, &rev, &c.curve, "reversed curve")?;
        let g = RefCurve::of(&rev);
        ensure!(g.n() == orig.n() && g.p == p, "reversed curve has {} segments", g.n());
        for (i, (a, b)) in g.u.iter().zip(&want.u).enumerate() {
            ensure!(ctx.close(a.f(), b.f(), 2e-15), "knot {i} of the reversed curve is {:?}, expected {:?}", a.f(), b.f());
        }
        ensure!(g.pts == want.pts, "control points of the reversed curve are not those of the curve backwards");
        let noise = knot_noise(&c.curve);
        for u in c.us.iter().chain(&[0.0, 1.0]) {
            // the mirror image of a knot may be rounded to either side of it
            let x = Dd::from(1.0) - Dd::from(*u);
            let beside = |k: &&f64| (**k - x.f()).abs() < 1e-9;
            let near = c.curve.internal().iter().any(|k| beside(&k));
            let jump = c.curve.internal().iter().filter(beside).any(|k| c.curve.mult(*k) > p);
            for k in 0..=p + 1 {
                if near && k > 0 || jump {
                    continue;
                }
                let got = rev.evaluate_derivative(*u, k).map_err(|e| format!("derivative {k} at {u:?}: {e:?}"))?;
                let sgn = if k % 2 == 1 { -1.0 } else { 1.0 };
                for (d, w) in orig.eval_local(x, k, true).into_iter().enumerate() {
                    let slack = if near { 1e-15 * orig.eval_local(x, 1, true)[d].m } else { 0.0 };
                    ensure!(
                        ctx.close(got[d], sgn * w.v.f(), 4.0 * EV * w.m * noise + slack + TINY),
                        "derivative {k} of the reversed curve at {u:?} is {:?}, expected {:?}",
                        got[d],
                        sgn * w.v.f()
                    );
                }
            }
        }
        // twice is the identity
        let mut twice = rev.clone();
        twice.reverse();
        let t = RefCurve::of(&twice);
        ensure!(t.pts == orig.pts, "reversing twice changes the control points");
        for (i, (a, b)) in t.u.iter().zip(&orig.u).enumerate() {
            ensure!(ctx.close(a.f(), b.f(), 2e-15), "reversing twice changes knot {i} from {:?} to {:?}", b.f(), a.f());
        }
        consistent_rev(ctx, &twice, &c.curve, "curve reversed twice")?;
        Ok(())
    }
}

/// Like `consistent`; knots of a reversal are rounded once, which small gaps
/// magnify in the derivative data that were reversed rather than recomputed.
fn consistent_rev(ctx: &mut Ctx, c: &Curve, spec: &CurveSpec, what: &str) -> Res {
    let p = c.degree();
    let noise = knot_noise(spec);
    ensure!(c.max_derivative() == p && c.degree() == spec.p && c.segments() == spec.n(), "{what}: sizes differ");
    ensure!(is_sorted(&c.knots) && is_clamped(&c.knots) && is_normed(&c.knots), "{what}: knots are {:?}", c.knots.vector().as_slice());
    let r = RefCurve::of(c);
    let u = c.knots.vector();
    for k in 1..=p {
        let uk = c.knots.vector_derivative(k);
        ensure!(
            uk.len() == u.len() - 2 * k && (0..uk.len()).all(|i| uk[i] == u[i + k]),
            "{what}: knots of derivative {k} are {:?}",
            uk.as_slice()
        );
        let got = c.points.matrix_derivative(k);
        let want = r.deriv_points(k);
        ensure!(got.ncols() == want.len(), "{what}: {} control points of derivative {k}", got.ncols());
        for (i, w) in want.iter().enumerate() {
            for (d, x) in w.iter().enumerate() {
                ensure!(
                    ctx.close(got[(d, i)], x.v.f(), 4.0 * EV * x.m * noise + TINY),
                    "{what}: control point {i} of derivative {k} is {:?}, expected {:?}",
                    got[(d, i)],
                    x.v.f()
                );
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------------ C30

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct OrderCase {
    pub curve: CurveSpec,
    pub knots: Vec<f64>,
    /// Position in the other order of each insertion.
    pub perm: Vec<usize>,
}

pub struct C30;
impl Prop for C30 {
    const ID: &'static str = "C30";
    const RULE: &'static str = "random curves and two to five insertions done in two different orders, on the reversed curve, and on the pieces of a split, compared control point by control point; non-trivial: degree >= 2 and the orders differ";
    const QUICK: u64 = 26_000;
    const THOROUGH: u64 = 1_300_000;
    type Case = OrderCase;
    fn gen(s: &mut Src) -> OrderCase {
        let narrow = s.chance(30);
        let curve = if narrow {
            gen::curve(s, &Opts { min_gap: 1e-6, max_int: 24, ..WIDE })
        } else {
            gen::curve(s, &Opts { min_gap: 1e-3, tight: None, max_int: 24, ..WIDE })
        };
        let mut sim = curve.clone();
        let mut knots = vec![];
        for _ in 0..s.range(2, 5) {
            let u = if !knots.is_empty() && s.chance(25) {
                s.pick(&knots)
            } else if narrow && s.chance(40) {
                // into the narrowest gap
                let b = sim.breaks();
                let i = (0..b.len() - 1).min_by(|i, j| (b[i + 1] - b[*i]).total_cmp(&(b[j + 1] - b[*j]))).unwrap();
                b[i] + (b[i + 1] - b[i]) * s.pick(&[0.5, 0.25, 0.75])
            } else if narrow {
                gen::inner_param_near(s, &sim, 1e-6, 0.0)
            } else {
                gen::inner_param(s, &sim, 1e-3)
            };
            if !(u > 0.0 && u < 1.0) {
                continue;
            }
            if sim.mult(u) >= sim.p {
                continue;
            }
            knots.push(u);
            let at = sim.u.iter().rposition(|x| *x <= u).unwrap() + 1;
            sim.u.insert(at, u);
            sim.pts.push(vec![0.0; curve.dim()]);
        }
        let mut perm: Vec<usize> = (0..knots.len()).collect();
        for i in (1..perm.len()).rev() {
            let j = s.below(i + 1);
            perm.swap(i, i - j);
        }
        OrderCase { curve, knots, perm }
    }
    fn check(c: &OrderCase, ctx: &mut Ctx) -> Res {
        let p = c.curve.p;
        let a = {
            let mut b = c.curve.build();
            for u in &c.knots {
                b.insert(*u).map_err(|e| format!("inserting {u:?}: {e:?}"))?;
            }
            b
        };
        let b = {
            let mut b = c.curve.build();
            for i in &c.perm {
                b.insert(c.knots[*i]).map_err(|e| format!("inserting {:?}: {e:?}", c.knots[*i]))?;
            }
            b
        };
        if p >= 2 && c.perm.iter().enumerate().any(|(i, j)| c.knots[i] != c.knots[*j]) {
            ctx.nontrivial();
        }
        let big = c.curve.reff().max();
        same_data(ctx, &a, &b, &big, 0.0, 1e-13, "insertion in another order")?;
        // inserting 1-u into the reversed curve
        let mut all: Vec<f64> = a.knots.vector().iter().copied().collect();
        all.dedup();
        let gap = all.windows(2).map(|w| w[1] - w[0]).fold(1.0, f64::min);
        let exact = all.iter().all(|u| (u * 9007199254740992.0).fract() == 0.0);
        if gap < 9e-4 {
            ctx.label("knots closer than 1e-3");
        }
        // where mirroring rounds, that must not change the curve
        if exact || gap >= 9e-4 {
            let mut r = c.curve.build();
            r.reverse();
            let mut ok = true;
            for u in &c.knots {
                // hit the mirrored knot, as rounded
                let x = 1.0 - *u;
                let x = if exact { x } else { r.knots.vector().iter().copied().find(|k| (k - x).abs() < 1e-12).unwrap_or(x) };
                ok &= r.insert(x).is_ok();
            }
            ensure!(ok, "an insertion into the reversed curve was refused");
            r.reverse();
            same_data(ctx, &a, &r, &big, 1e-15, 1e-11, "insertion into the reversed curve")?;
        }
        // splitting before and after refinement
        if let Some(u) = c.knots.iter().copied().find(|u| a.knots.multiplicity(*u) <= p) {
            let (l1, r1) = split_and_normalize(&c.curve.build(), u, (false, false)).map_err(|e| format!("{e:?}"))?;
            let (l2, r2) = split_and_normalize(&a, u, (false, false)).map_err(|e| format!("{e:?}"))?;
            let (mut l1, mut r1) = (l1, r1);
            for x in &c.knots {
                if *x < u {
                    insert(&mut l1, *x).map_err(|e| format!("inserting {x:?} into the left piece: {e:?}"))?;
                } else if *x > u {
                    insert(&mut r1, *x).map_err(|e| format!("inserting {x:?} into the right piece: {e:?}"))?;
                }
            }
            same_data(ctx, &l1, &l2, &big, 0.0, 1e-13, "splitting a refined curve, left")?;
            same_data(ctx, &r1, &r2, &big, 0.0, 1e-13, "splitting a refined curve, right")?;
        }
        Ok(())
    }
}

/// Two curves have the same knots and control points.
pub fn same_data(ctx: &mut Ctx, a: &Curve, b: &Curve, big: &[f64], ktol: f64, rel: f64, what: &str) -> Res {
    let (x, y) = (RefCurve::of(a), RefCurve::of(b));
    ensure!(x.p == y.p && x.n() == y.n() && x.dim == y.dim, "{what}: degree or number of control points differ");
    for (i, (s, t)) in x.u.iter().zip(&y.u).enumerate() {
        ensure!(ctx.close(s.f(), t.f(), ktol + TINY), "{what}: knot {i} is {:?} or {:?}", s.f(), t.f());
    }
    for i in 0..=x.n() {
        for d in 0..x.dim {
            ensure!(
                ctx.close(x.pts[i][d].f(), y.pts[i][d].f(), rel * big[d] + TINY),
                "{what}: control point {i} is {:?} or {:?}",
                x.pts[i][d].f(),
                y.pts[i][d].f()
            );
        }
    }
    Ok(())
}
