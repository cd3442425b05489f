//! Evaluation: C01 to C06.
use bsplines::{
    curve::{basis::basis, points::Points, CurveError},
    manipulation::split::split_and_normalize,
};
use serde::{Deserialize, Serialize};

use super::*;
use crate::{
    engine::Prop,
    gen::{self, CurveSpec, Opts, WIDE, X},
    src::Src,
};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct AtParams {
    pub curve: CurveSpec,
    pub us: Vec<f64>,
}

fn gen_at(s: &mut Src, o: &Opts, max_us: usize) -> AtParams {
    let curve = gen::curve(s, o);
    let k = s.range(4, max_us);
    let mut us: Vec<f64> = (0..k).map(|_| gen::param(s, &curve)).collect();
    us.push(0.0);
    us.push(1.0);
    AtParams { curve, us }
}

fn at_nontrivial(c: &CurveSpec) -> bool {
    c.p >= 2 && c.n() > c.p && c.pts.iter().any(|q| *q != c.pts[0])
}

// ------------------------------------------------------------------------ C01

pub struct C01;
impl Prop for C01 {
    const ID: &'static str = "C01";
    const RULE: &'static str = "random clamped curves (degree 1-12, 0-400 internal knots, multiplicity up to p+1, dimension 1-40) evaluated at knots, their floating-point neighbours, midpoints, the ends and random parameters; non-trivial: degree >= 2, an internal knot, and control points that are not all equal";
    const QUICK: u64 = 80_000;
    const THOROUGH: u64 = 4_000_000;
    type Case = AtParams;
    fn gen(s: &mut Src) -> AtParams {
        gen_at(s, &Opts { mult: 2, ..WIDE }, 24)
    }
    fn check(c: &AtParams, ctx: &mut Ctx) -> Res {
        let b = c.curve.build();
        let r = c.curve.reff();
        c.curve.classes(ctx);
        if at_nontrivial(&c.curve) {
            ctx.nontrivial();
        }
        for u in &c.us {
            eval_matches(ctx, &b, &r, *u, 0)?;
            // the plain and the zeroth-derivative query are the same thing
            ensure!(b.evaluate(*u) == b.evaluate_derivative(*u, 0), "evaluate and derivative 0 differ at {u:?}");
            let v = b.evaluate(*u).map_err(|e| format!("refused u={u:?}: {e:?}"))?;
            for (d, w) in r.eval(Dd::from(*u), 0, false).into_iter().enumerate() {
                ensure!(ctx.close(v[d], w.v.f(), EV * w.m + TINY), "evaluate({u:?})[{d}] = {:?}, expected {:?}", v[d], w.v.f());
            }
        }
        Ok(())
    }
    fn regressions() -> Vec<AtParams> {
        vec![AtParams {
            curve: CurveSpec {
                p: 2,
                u: vec![0., 0., 0., 0.25, 0.25, 0.5, 1., 1., 1.],
                pts: vec![vec![1.], vec![-2.], vec![5.], vec![3.], vec![-4.], vec![0.5]],
            },
            us: vec![0.25, 0.3, 0.5, 0.6, 1.0],
        }]
    }
}

// ------------------------------------------------------------------------ C02

pub struct C02;
impl Prop for C02 {
    const ID: &'static str = "C02";
    const RULE: &'static str = "random curves as for evaluation (degree 1-12, multiplicity up to p+1); all derivative orders 0..p+2 at every parameter; non-trivial: degree >= 2, an internal knot, and control points that are not all equal";
    const QUICK: u64 = 150_000;
    const THOROUGH: u64 = 7_500_000;
    type Case = AtParams;
    fn gen(s: &mut Src) -> AtParams {
        gen_at(s, &Opts { mult: 2, max_int: 60, ..WIDE }, 10)
    }
    fn check(c: &AtParams, ctx: &mut Ctx) -> Res {
        let b = c.curve.build();
        let r = c.curve.reff();
        c.curve.classes(ctx);
        if at_nontrivial(&c.curve) {
            ctx.nontrivial();
        }
        ensure!(b.max_derivative() == c.curve.p, "highest derivative is {} for degree {}", b.max_derivative(), c.curve.p);
        for u in &c.us {
            for k in 0..=c.curve.p + 2 {
                eval_matches(ctx, &b, &r, *u, k)?;
                if k > c.curve.p {
                    let v = b.evaluate_derivative(*u, k).map_err(|e| format!("{e:?}"))?;
                    ensure!(v.iter().all(|x| *x == 0.0), "derivative {k} of a degree {} curve is {v:?}", c.curve.p);
                }
            }
            let far = b.evaluate_derivative(*u, 1000).map_err(|e| format!("order 1000 at {u:?}: {e:?}"))?;
            ensure!(far.len() == r.dim && far.iter().all(|x| *x == 0.0), "order 1000 is {far:?}");
        }
        Ok(())
    }
}

// ------------------------------------------------------------------------ C03

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct DerivCase {
    pub at: AtParams,
    pub k: usize,
    pub j: usize,
}

pub struct C03;
impl Prop for C03 {
    const ID: &'static str = "C03";
    const RULE: &'static str = "random curves, derivative curve of a random order 0..p, compared with the derivatives of the original at parameters and orders, taken again from the derivative curve, and reversed, refined and split; non-trivial: order between 1 and p-1 of a curve with an internal knot";
    const QUICK: u64 = 120_000;
    const THOROUGH: u64 = 6_000_000;
    type Case = DerivCase;
    fn gen(s: &mut Src) -> DerivCase {
        let k0 = s.unit();
        let j0 = s.unit();
        let at = gen_at(s, &Opts { max_int: 40, ..WIDE }, 8);
        let p = at.curve.p;
        let k = ((k0 * (p + 1) as f64) as usize).min(p);
        let j = ((j0 * (p - k + 1) as f64) as usize).min(p - k);
        DerivCase { at, k, j }
    }
    fn check(c: &DerivCase, ctx: &mut Ctx) -> Res {
        let spec = &c.at.curve;
        let b = spec.build();
        let before = snapshot(&b);
        let r = spec.reff();
        let (p, n, k) = (spec.p, spec.n(), c.k);
        spec.classes(ctx);
        if k > 0 && k < p && n > p {
            ctx.nontrivial();
        }
        let d = b.get_derivative_curve(k);
        ensure!(snapshot(&b) == before, "taking the derivative curve changed the original");
        ensure!(d.degree() == p - k && d.segments() == n - k && d.dimension() == r.dim, "derivative curve {k} has degree {}, {} segments", d.degree(), d.segments());
        ensure!(
            d.knots.vector().as_slice() == &spec.u[k..spec.u.len() - k],
            "knots of the derivative curve are {:?}",
            d.knots.vector().as_slice()
        );
        ensure!(d.max_derivative() == p - k, "derivative curve {k} of degree {p} offers {} derivatives", d.max_derivative());
        for u in &c.at.us {
            for j in 0..=p - k + 1 {
                let got = d.evaluate_derivative(*u, j).map_err(|e| format!("derivative {j} of derivative curve {k} at {u:?}: {e:?}"))?;
                for (i, w) in r.eval(Dd::from(*u), k + j, false).into_iter().enumerate() {
                    ensure!(
                        ctx.close(got[i], w.v.f(), EV * w.m + TINY),
                        "derivative {j} of derivative curve {k} at u={u:?} is {:?}, derivative {} of the curve is {:?}",
                        got[i],
                        k + j,
                        w.v.f()
                    );
                }
            }
        }
        // differentiating twice
        let dd = d.get_derivative_curve(c.j);
        ensure!(dd.degree() == p - k - c.j && dd.max_derivative() == p - k - c.j, "repeated derivative curve has degree {}", dd.degree());
        for u in &c.at.us {
            let got = dd.evaluate(*u).map_err(|e| format!("{e:?}"))?;
            for (i, w) in r.eval(Dd::from(*u), k + c.j, false).into_iter().enumerate() {
                ensure!(
                    ctx.close(got[i], w.v.f(), EV * w.m + TINY),
                    "derivative curve {} of derivative curve {k} at u={u:?} is {:?}, expected {:?}",
                    c.j,
                    got[i],
                    w.v.f()
                );
            }
        }
        // the derivative curve can be reversed like any other curve
        let mut rev = d.clone();
        rev.reverse();
        for t in [0.0, 1.0 / 3.0, 0.71, 1.0] {
            if spec.u.iter().any(|x| (x - (1.0 - t)).abs() < 1e-6 && *x > 0.0 && *x < 1.0) {
                continue;
            }
            for j in 0..=p - k {
                let got = rev.evaluate_derivative(t, j).map_err(|e| format!("{e:?}"))?;
                let sgn = if j % 2 == 1 { -1.0 } else { 1.0 };
                for (i, w) in r.eval_local(Dd::from(1.0) - Dd::from(t), k + j, true).into_iter().enumerate() {
                    let tol = 10.0 * EV * w.m * knot_noise(spec) + TINY;
                    ensure!(
                        ctx.close(got[i], sgn * w.v.f(), tol),
                        "derivative {j} of the reversed derivative curve {k} at {t} is {:?}, expected {:?}",
                        got[i],
                        sgn * w.v.f()
                    );
                }
            }
        }
        // ... and refined and split like any other curve
        let q = p - k;
        let free = |u: &&f64| **u > 1e-6 && **u < 1.0 - 1e-6 && spec.u.iter().all(|x| (x - **u).abs() > 1e-6);
        if let Some(u) = c.at.us.iter().find(free).filter(|_| q >= 1 && spec.max_mult() <= q) {
            let mut ins = d.clone();
            ins.insert(*u).map_err(|e| format!("inserting {u:?} into derivative curve {k}: {e:?}"))?;
            consistent(ctx, &ins, true, "refined derivative curve")?;
            let want = |t: Dd| r.eval_local(t, k, false);
            traces(ctx, &RefCurve::of(&ins), &want, EV, &no_extra, "the refined derivative curve")?;
            let (left, right) = split_and_normalize(&d, *u, (false, false)).map_err(|e| format!("splitting derivative curve {k} at {u:?}: {e:?}"))?;
            traces(ctx, &RefCurve::of(&left), &want, 4.0 * EV, &no_extra, "the left half of the derivative curve")?;
            traces(ctx, &RefCurve::of(&right), &want, 4.0 * EV, &no_extra, "the right half of the derivative curve")?;
            ctx.label("derivative curve refined and split");
        }
        Ok(())
    }
    fn regressions() -> Vec<DerivCase> {
        let curve = CurveSpec {
            p: 3,
            u: vec![0., 0., 0., 0., 0.5, 1., 1., 1., 1.],
            pts: vec![vec![0.], vec![1.], vec![5.], vec![3.], vec![7.]],
        };
        vec![
            DerivCase { at: AtParams { curve: curve.clone(), us: vec![0.0, 0.4, 0.5, 1.0] }, k: 1, j: 1 },
            DerivCase { at: AtParams { curve, us: vec![0.0, 0.4, 0.5, 1.0] }, k: 3, j: 0 },
        ]
    }
}

/// How much a knot that moves by half an ulp can matter, relative to plain
/// rounding: small gaps between knots magnify it.
pub fn knot_noise(c: &CurveSpec) -> f64 {
    let b = c.breaks();
    let g = (1..b.len()).map(|i| b[i] - b[i - 1]).fold(1.0, f64::min);
    1.0 + 1e-2 / g
}

// ------------------------------------------------------------------------ C04

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct GuardCase {
    pub curve: CurveSpec,
    pub us: Vec<X>,
    pub k: usize,
}

pub struct C04;
impl Prop for C04 {
    const ID: &'static str = "C04";
    const RULE: &'static str = "random curves and parameters inside, on, one floating-point step outside and far outside [0,1], infinite and NaN, for derivative orders 0..p+3; non-trivial: the case holds both an accepted and a rejected parameter";
    const QUICK: u64 = 600_000;
    const THOROUGH: u64 = 30_000_000;
    type Case = GuardCase;
    fn gen(s: &mut Src) -> GuardCase {
        let curve = gen::curve(s, &Opts { max_int: 40, ..WIDE });
        let k = s.range(0, curve.p + 3);
        let m = s.range(3, 10);
        let us = (0..m)
            .map(|_| {
                X(match s.weighted(&[3, 3, 2, 2]) {
                    0 => s.pick(&[
                        -0.0,
                        0.0,
                        1.0,
                        5e-324,
                        -5e-324,
                        1.0 + f64::EPSILON,
                        1.0 - f64::EPSILON / 2.0,
                        f64::NAN,
                        -f64::NAN,
                        f64::INFINITY,
                        f64::NEG_INFINITY,
                        f64::MAX,
                        f64::MIN,
                        -f64::MIN_POSITIVE,
                        1.0 + 1e-12,
                        -1e-12,
                        2.0,
                        -1.0,
                    ]),
                    1 => gen::param(s, &curve),
                    2 => -s.unit() * 10f64.powi(s.range(0, 20) as i32 - 18),
                    _ => 1.0 + s.unit() * 10f64.powi(s.range(0, 20) as i32 - 15),
                })
            })
            .collect();
        GuardCase { curve, us, k }
    }
    fn check(c: &GuardCase, ctx: &mut Ctx) -> Res {
        let b = c.curve.build();
        let (mut yes, mut no) = (false, false);
        for X(u) in &c.us {
            let inside = *u >= 0.0 && *u <= 1.0;
            for (name, got) in [("evaluate", b.evaluate(*u)), ("derivative", b.evaluate_derivative(*u, c.k))] {
                if let Err(e) = &got {
                    speaks(e)?;
                }
                match got {
                    Ok(v) => {
                        ensure!(inside, "{name} at u={u:?} (order {}) was accepted: {v:?}", c.k);
                        ensure!(v.len() == c.curve.dim(), "{name} at u={u:?} has {} coordinates", v.len());
                        ensure!(v.iter().all(|x| x.is_finite()), "{name} at u={u:?} is {v:?}");
                        yes = true;
                    }
                    Err(CurveError::ParameterOutOfBounds { u: e, lower_bound, upper_bound }) => {
                        ensure!(!inside, "{name} at u={u:?} (order {}) was refused", c.k);
                        ensure!(
                            (e == *u || (e.is_nan() && u.is_nan())) && lower_bound == 0.0 && upper_bound == 1.0,
                            "the error for u={u:?} speaks of {e:?} and [{lower_bound:?}, {upper_bound:?}]"
                        );
                        no = true;
                    }
                    Err(e) => fail!("{name} at u={u:?} failed with {e:?}"),
                }
            }
            ctx.comparisons += 2;
        }
        if yes && no {
            ctx.nontrivial();
        }
        Ok(())
    }
}

// ------------------------------------------------------------------------ C05

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct BasisCase {
    pub p: usize,
    pub u: Vec<f64>,
    pub us: Vec<f64>,
}

pub struct C05;
impl Prop for C05 {
    const ID: &'static str = "C05";
    const RULE: &'static str = "random clamped knot vectors (degree 1-12, repeated knots up to p+1) and, for every derivative order, all basis functions at knots, neighbours, midpoints and ends, against unit control points in the reference model; non-trivial: degree >= 2 and an internal knot";
    const QUICK: u64 = 160_000;
    const THOROUGH: u64 = 8_000_000;
    type Case = BasisCase;
    fn gen(s: &mut Src) -> BasisCase {
        let c = gen::curve(s, &Opts { max_int: 60, max_dim: 1, ..WIDE });
        let m = s.range(3, 8);
        let mut us: Vec<f64> = (0..m).map(|_| gen::param(s, &c)).collect();
        us.push(1.0);
        BasisCase { p: c.p, u: c.u, us }
    }
    fn check(c: &BasisCase, ctx: &mut Ctx) -> Res {
        let spec = CurveSpec { p: c.p, u: c.u.clone(), pts: vec![vec![0.0]; c.u.len() - c.p - 1] };
        let knots = spec.knots();
        let n = spec.n();
        spec.classes(ctx);
        if c.p >= 2 && n > c.p {
            ctx.nontrivial();
        }
        for k in 0..=c.p {
            let q = c.p - k;
            let uk = &c.u[k..c.u.len() - k];
            let ukv = knots.vector_derivative(k).clone();
            for u in &c.us {
                let want = RefCurve::basis_row(q, uk, *u, 0, false);
                let mut sum = 0.0;
                for i in 0..=n - k {
                    let got = knots.evaluate(k, i, c.p, *u);
                    ensure!(
                        ctx.close(got, want[i], EV),
                        "basis function {i} of degree {q} (order {k}) at u={u:?} is {got:?}, expected {:?}",
                        want[i]
                    );
                    let free = basis(&ukv, i, q, k, n, *u);
                    ensure!(ctx.close(free, want[i], EV), "free basis function {i} of order {k} at u={u:?} is {free:?}, expected {:?}", want[i]);
                    ensure!(got >= -1e-15, "basis function {i} is negative at u={u:?}: {got:?}");
                    let inside = uk[i] <= *u && (*u < uk[i + q + 1] || *u == 1.0);
                    ensure!(inside || got.abs() <= 1e-15, "basis function {i} of order {k} is {got:?} outside its support, u={u:?}");
                    sum += got;
                }
                ensure!(ctx.close(sum, 1.0, 1e-13 * (n + 1) as f64), "basis functions of order {k} sum to {sum:?} at u={u:?}");
            }
        }
        Ok(())
    }
}

// ------------------------------------------------------------------------ C06

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct HullCase {
    pub at: AtParams,
    pub moved: usize,
    pub by: Vec<f64>,
    pub dir: Vec<f64>,
}

pub struct C06;
impl Prop for C06 {
    const ID: &'static str = "C06";
    const RULE: &'static str = "random curves; coordinates and random projections of curve points against the range of the p+1 owning control points, ends against the end control points, and the effect of moving one control point against its basis function; non-trivial: degree >= 2, an internal knot, and parameters inside and outside the moved point's interval";
    const QUICK: u64 = 120_000;
    const THOROUGH: u64 = 6_200_000;
    type Case = HullCase;
    fn gen(s: &mut Src) -> HullCase {
        let mv = s.unit();
        let at = gen_at(s, &Opts { max_int: 60, ..WIDE }, 20);
        let n = at.curve.n();
        let dim = at.curve.dim();
        let moved = ((mv * (n + 1) as f64) as usize).min(n);
        let by = (0..dim).map(|_| s.range(0, 40) as f64 / 4.0 - 5.0).collect();
        let dir = (0..dim).map(|_| s.unit() * 2.0 - 1.0).collect();
        HullCase { at, moved, by, dir }
    }
    fn check(c: &HullCase, ctx: &mut Ctx) -> Res {
        let spec = &c.at.curve;
        let b = spec.build();
        let r = spec.reff();
        spec.classes(ctx);
        let (p, n) = (spec.p, spec.n());
        let mut spec2 = spec.clone();
        for (x, d) in spec2.pts[c.moved].iter_mut().zip(&c.by) {
            *x += d;
        }
        let b2 = spec2.build();
        let (mut inn, mut out) = (false, false);
        for u in &c.at.us {
            let v = b.evaluate(*u).map_err(|e| format!("{e:?}"))?;
            let l = r.span(Dd::from(*u), false);
            let own = &spec.pts[l - p..=l];
            for d in 0..r.dim {
                let lo = own.iter().map(|q| q[d]).fold(f64::INFINITY, f64::min);
                let hi = own.iter().map(|q| q[d]).fold(f64::NEG_INFINITY, f64::max);
                let slack = EV * lo.abs().max(hi.abs()) + TINY;
                ctx.comparisons += 1;
                ensure!(
                    v[d] >= lo - slack && v[d] <= hi + slack,
                    "coordinate {d} at u={u:?} is {:?}, outside the range [{lo:?}, {hi:?}] of control points {}..={l}",
                    v[d],
                    l - p
                );
            }
            let proj = |q: &[f64]| q.iter().zip(&c.dir).map(|(a, b)| a * b).sum::<f64>();
            let lo = own.iter().map(|q| proj(q)).fold(f64::INFINITY, f64::min);
            let hi = own.iter().map(|q| proj(q)).fold(f64::NEG_INFINITY, f64::max);
            let size = own.iter().flatten().fold(0.0f64, |m, x| m.max(x.abs())) * r.dim as f64;
            let pv = proj(v.as_slice());
            ensure!(
                pv >= lo - EV * size - TINY && pv <= hi + EV * size + TINY,
                "projection at u={u:?} is {pv:?}, outside [{lo:?}, {hi:?}]: not in the convex hull"
            );
            // moving one control point
            let v2 = b2.evaluate(*u).map_err(|e| format!("{e:?}"))?;
            let inside = spec.u[c.moved] <= *u && *u <= spec.u[c.moved + p + 1];
            let w = RefCurve::basis_row(p, &spec.u, *u, 0, false)[c.moved];
            for d in 0..r.dim {
                let m = own.iter().map(|q| q[d].abs()).fold(0.0, f64::max);
                if !inside {
                    out = true;
                    ensure!(
                        ctx.close(v2[d], v[d], EV * 1e-2 * m + TINY),
                        "moving control point {} changes the curve at u={u:?} from {:?} to {:?}",
                        c.moved,
                        v[d],
                        v2[d]
                    );
                } else {
                    inn = true;
                    let step = spec2.pts[c.moved][d] - spec.pts[c.moved][d];
                    ensure!(
                        ctx.close(v2[d] - v[d], w * step, 2.0 * EV * (m + c.by[d].abs()) + TINY),
                        "moving control point {} by {step:?} moves the curve at u={u:?} by {:?}, expected {:?}",
                        c.moved,
                        v2[d] - v[d],
                        w * step
                    );
                }
            }
        }
        for (u, q) in [(0.0, &spec.pts[0]), (1.0, &spec.pts[n])] {
            let v = b.evaluate(u).map_err(|e| format!("{e:?}"))?;
            for d in 0..r.dim {
                ensure!(ctx.close(v[d], q[d], 1e-14 * q[d].abs() + TINY), "the curve at {u} is {:?}, the control point {:?}", v[d], q[d]);
            }
        }
        // end tangents point along the first and last leg
        for d in 0..r.dim {
            let t0 = b.evaluate_derivative(0.0, 1).map_err(|e| format!("{e:?}"))?[d];
            let w0 = p as f64 / spec.u[p + 1] * (spec.pts[1][d] - spec.pts[0][d]);
            let m0 = p as f64 / spec.u[p + 1] * (spec.pts[1][d].abs() + spec.pts[0][d].abs());
            ensure!(ctx.close(t0, w0, EV * m0 + TINY), "start tangent is {t0:?}, expected {w0:?}");
            let t1 = b.evaluate_derivative(1.0, 1).map_err(|e| format!("{e:?}"))?[d];
            let h = 1.0 - spec.u[n];
            let w1 = p as f64 / h * (spec.pts[n][d] - spec.pts[n - 1][d]);
            let m1 = p as f64 / h * (spec.pts[n][d].abs() + spec.pts[n - 1][d].abs());
            ensure!(ctx.close(t1, w1, EV * m1 + TINY), "end tangent is {t1:?}, expected {w1:?}");
        }
        if p >= 2 && n > p && inn && out {
            ctx.nontrivial();
        }
        Ok(())
    }
}
