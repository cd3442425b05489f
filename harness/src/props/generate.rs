//! Generation of curves from data: C19 to C23, C28, C29.
use bsplines::curve::{
    generation::{generate, Generation},
    knots::{self, Knots},
    parameters::{self, Parameters},
    points::{
        methods::{
            fit::{self, FitError, Penalization},
            interpolation::interpolate,
        },
        ControlPoints, Points,
    },
    CurveError,
};
use nalgebra::{DMatrix, DVector};
use serde::{Deserialize, Serialize};

use super::*;
use crate::{
    engine::{Known, Prop},
    gen::{self, data_points, matrix, CurveSpec, Opts, WIDE},
    src::Src,
};

// ------------------------------------------------------------------ the request

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum ParamKind {
    Equal,
    Centripetal,
    Chord,
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum KnotKind {
    Uniform,
    Averaging,
    DeBoor,
}

impl ParamKind {
    pub fn method(self) -> parameters::Method {
        match self {
            ParamKind::Equal => parameters::Method::EquallySpaced,
            ParamKind::Centripetal => parameters::Method::Centripetal,
            ParamKind::Chord => parameters::Method::ChordLength,
        }
    }
}
impl KnotKind {
    pub fn method(self) -> knots::Method {
        match self {
            KnotKind::Uniform => knots::Method::Uniform,
            KnotKind::Averaging => knots::Method::Averaging,
            KnotKind::DeBoor => knots::Method::DeBoor,
        }
    }
}

/// How parameters and knots come about.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Route {
    /// `generate` with its built-in choice.
    Generate,
    /// The parts, put together by the caller.
    Parts(ParamKind, KnotKind),
    /// Parts with explicit parameters.
    Explicit(Vec<f64>, KnotKind),
    /// Parameters and knots of the caller.
    Given(Vec<f64>, Vec<f64>),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct FitCase {
    pub p: usize,
    /// Segments of the curve.
    pub n: usize,
    pub data: Vec<Vec<f64>>,
    pub route: Route,
    #[serde(default)]
    pub fixed: bool,
    /// `lambda`, `kappa`
    #[serde(default)]
    pub pen: Option<(f64, usize)>,
}

/// Data points, most of them distinct from their neighbours.
pub fn data(s: &mut Src, count: usize) -> Vec<Vec<f64>> {
    let dim = gen::dimension(s, 6);
    let mut pts = match s.weighted(&[3, 3, 2]) {
        // a walk
        0 => {
            let mut x = vec![0.0; dim];
            (0..count)
                .map(|_| {
                    for c in x.iter_mut() {
                        *c += s.range(0, 16) as f64 / 4.0 - 2.0;
                    }
                    x[0] += 0.125;
                    x.clone()
                })
                .collect()
        }
        1 => gen::points(s, count, dim, true),
        // a noisy function
        _ => (0..count)
            .map(|i| {
                let t = i as f64 / count as f64;
                (0..dim).map(|c| if c == 0 { t * 10.0 } else { (t * (5 + c) as f64).sin() * 3.0 + (s.unit() - 0.5) }).collect()
            })
            .collect(),
    };
    let scale = s.pick(&[1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1e3, 1e-3, 1e6, 1e-9, 1e9, 1e80]);
    let shift = s.pick(&[0.0, 0.0, 0.0, 5.0, -100.0]);
    let unit = if scale > 1e9 { scale } else { 1.0 };
    gen::tweak(s, &mut pts);
    pts.iter_mut().flatten().for_each(|x| *x = *x * scale + shift * unit);
    pts
}

/// Ascending parameters from zero to one with moderately varying gaps.
pub fn explicit_params(s: &mut Src, m: usize) -> Vec<f64> {
    let mut v = vec![0.0f64];
    let ratio = s.pick(&[1usize, 3, 10]);
    for g in 0..m {
        let step = s.range(1, ratio) as f64;
        v.push(v[g] + step);
    }
    let total = v[m];
    v.iter_mut().for_each(|x| *x /= total);
    v[m] = 1.0;
    v
}

fn count(s: &mut Src, lo: usize) -> usize {
    lo + match s.weighted(&[600, 400, 100, 1]) {
        0 => s.range(0, 6),
        1 => s.range(4, 20),
        2 => s.range(15, 60),
        // rare
        _ => s.range(60, 150),
    }
}

fn degree(s: &mut Src) -> usize {
    match s.weighted(&[60, 20, 1]) {
        0 => s.range(1, 4),
        1 => s.range(4, 7),
        _ => s.range(8, 10),
    }
}

fn route(s: &mut Src, m: usize, knots: &[KnotKind]) -> Route {
    match s.weighted(&[3, 5, 2]) {
        0 => Route::Generate,
        1 => Route::Parts(s.pick(&[ParamKind::Equal, ParamKind::Centripetal, ParamKind::Chord]), s.pick(knots)),
        _ => Route::Explicit(explicit_params(s, m), s.pick(knots)),
    }
}

/// Knots that no placement gives, and parameters that need not reach the ends
/// nor ascend, on a dyadic grid.
fn given(s: &mut Src, p: usize, n: usize, m: usize) -> Route {
    let grid = |steps: Vec<usize>, last: usize| -> Vec<f64> {
        let total: usize = steps.iter().sum::<usize>() + last;
        let den = total.next_power_of_two().max(1) as f64;
        steps
            .iter()
            .scan(0, |a, x| {
                *a += x;
                Some(*a as f64 / den)
            })
            .collect()
    };
    let most = s.pick(&[1usize, 3, 6]);
    let steps: Vec<usize> = (0..n - p).map(|_| s.range(1, most)).collect();
    let mut inner = grid(steps, 1);
    if s.chance(30) {
        for _ in 0..s.range(1, 3).min(n - p) {
            let i = s.below(n - p);
            if i > 0 && (i < p || inner[i - p] != inner[i - 1]) {
                inner[i] = inner[i - 1];
            }
        }
    }
    let u = [vec![0.0; p + 1], inner, vec![1.0; p + 1]].concat();
    let mut t: Vec<f64> = if m == n && s.chance(70) {
        // next to where the basis functions peak
        let shift = s.pick(&[0usize, 1, 4]);
        (0..=n)
            .map(|i| {
                let g = u[i + 1..=i + p].iter().sum::<f64>() / p as f64;
                let g = g + (u[i + p + 1] - u[i]) * (s.range(0, 2 * shift) as f64 - shift as f64) / 32.0;
                ((g * 65536.0).round() / 65536.0).clamp(0.0, 1.0)
            })
            .collect()
    } else {
        let most = s.pick(&[1usize, 3, 10]);
        let mut steps = vec![s.below(3)];
        steps.extend((0..m).map(|_| s.range(1, most)));
        let last = s.below(3);
        let mut t = grid(steps, last);
        if s.chance(50) {
            t[m] = 1.0;
        }
        t
    };
    if s.chance(20) {
        let (i, j) = (s.below(m + 1), s.below(m + 1));
        t.swap(i, j);
    }
    Route::Given(t, u)
}

/// The request taken apart: what the parameters and knots have to be.
pub struct Setup {
    pub params: Vec<f64>,
    pub knots: Vec<f64>,
    /// Basis function values at the parameters, by the reference.
    pub nmat: DMatrix<f64>,
}

impl FitCase {
    pub fn m(&self) -> usize {
        self.data.len() - 1
    }
    fn penalization(&self) -> Option<Penalization> {
        self.pen.map(|(lambda, kappa)| Penalization { lambda, kappa })
    }
    fn parts(&self) -> Result<(Knots, Parameters), String> {
        let d = data_points(&self.data);
        if let Route::Given(t, u) = &self.route {
            return Ok((Knots::new(self.p, DVector::from_vec(u.clone())), Parameters::new(DVector::from_vec(t.clone()), t.len() - 1)));
        }
        let (params, kk) = match &self.route {
            Route::Generate => (parameters::generate(&d, parameters::Method::EquallySpaced), KnotKind::Uniform),
            Route::Parts(pk, kk) => (parameters::generate(&d, pk.method()), *kk),
            Route::Explicit(v, kk) => (Parameters::new(DVector::from_vec(v.clone()), v.len() - 1), *kk),
            Route::Given(..) => unreachable!(),
        };
        let knots = knots::generate(self.p, self.n, &params, kk.method()).map_err(|e| format!("knots: {e:?}"))?;
        Ok((knots, params))
    }
    /// `None` if parameters or knots are degenerate.
    pub fn setup(&self) -> Result<Option<Setup>, String> {
        if let Route::Parts(pk, _) = &self.route {
            if super::knots::parametrise(*pk, &self.data).is_empty() {
                return Ok(None);
            }
        }
        let (k, pr) = self.parts()?;
        let params: Vec<f64> = pr.vector().iter().copied().collect();
        let kv: Vec<f64> = k.vector().iter().copied().collect();
        let sane = params.iter().all(|x| (0.0..=1.0).contains(x))
            && kv.iter().all(|x| (0.0..=1.0).contains(x))
            && kv.windows(2).all(|w| w[0] <= w[1])
            // a gap that is only rounding makes no sense of the basis
            && kv.windows(2).all(|w| w[0] == w[1] || w[1] - w[0] > 1e-7)
            && proper(self.p, &kv);
        if !sane {
            return Ok(None);
        }
        let rows: Vec<Vec<f64>> = params.iter().map(|x| RefCurve::basis_row(self.p, &kv, *x, 0, false)).collect();
        let nmat = DMatrix::from_fn(rows.len(), self.n + 1, |g, i| rows[g][i]);
        // the code under test sees the same functions
        for (g, x) in params.iter().enumerate() {
            for i in 0..=self.n {
                let v = k.evaluate(0, i, self.p, *x);
                ensure!((v - nmat[(g, i)]).abs() <= 1e-10, "basis function {i} at {x:?} is {v:?}, expected {:?}", nmat[(g, i)]);
            }
        }
        Ok(Some(Setup { params, knots: kv, nmat }))
    }
    fn labels(&self, ctx: &mut Ctx) {
        ctx.label(format!("degree {}", self.p));
        ctx.label(match &self.route {
            Route::Generate => "built-in parameters and knots".to_string(),
            Route::Parts(a, b) => format!("{a:?} parameters, {b:?} knots"),
            Route::Explicit(_, b) => format!("explicit parameters, {b:?} knots"),
            Route::Given(..) => "explicit parameters and knots".to_string(),
        });
        ctx.label(match self.n {
            0..=3 => "segments: 1-3",
            4..=9 => "segments: 4-9",
            10..=24 => "segments: 10-24",
            _ => "segments: >24",
        });
    }
}

/// No inner knot coincides with an end or appears more than `p` times.
pub fn proper(p: usize, u: &[f64]) -> bool {
    let inner = &u[p + 1..u.len() - p - 1];
    inner.iter().all(|x| *x > 0.0 && *x < 1.0) && inner.windows(p + 1).all(|w| w[0] < w[p])
}

/// The result must have the knots asked for and the right sizes.
fn frame(ctx: &mut Ctx, c: &FitCase, curve: &Curve, knots: &[f64]) -> Res {
    consistent(ctx, curve, true, "generated curve")?;
    ensure!(
        curve.degree() == c.p && curve.segments() == c.n && curve.dimension() == c.data[0].len(),
        "asked for degree {}, {} segments and dimension {}, got {}, {} and {}",
        c.p,
        c.n,
        c.data[0].len(),
        curve.degree(),
        curve.segments(),
        curve.dimension()
    );
    for (i, x) in curve.knots.vector().iter().enumerate() {
        ensure!(ctx.close(*x, knots[i], 1e-14), "knot {i} is {x:?}, expected {:?}", knots[i]);
    }
    Ok(())
}

fn data_max(data: &[Vec<f64>], c: usize) -> f64 {
    data.iter().fold(0.0, |m, q| f64::max(m, q[c].abs()))
}
fn row_max(m: &DMatrix<f64>, r: usize) -> f64 {
    m.row(r).iter().fold(0.0, |a, x| f64::max(a, x.abs()))
}

// ------------------------------------------------------------------------ C19

pub fn run_interpolation(c: &FitCase) -> Result<Curve, String> {
    let d = data_points(&c.data);
    match &c.route {
        Route::Generate => generate(Generation::Interpolation { degree: c.p, points: &d }).map_err(|e| format!("interpolation failed: {e:?}")),
        _ => {
            let (k, pr) = c.parts()?;
            let pts = interpolate(&k, &d, &pr);
            Curve::new(k, ControlPoints::new(pts)).map_err(|e| format!("curve: {e:?}"))
        }
    }
}

/// A lower bound of the smallest singular value of a square matrix.
pub fn smallest(n: &DMatrix<f64>) -> f64 {
    match n.clone().lu().try_inverse() {
        Some(i) => {
            let f = i.norm();
            if f.is_finite() {
                1.0 / f
            } else {
                0.0
            }
        }
        None => 0.0,
    }
}

pub fn interpolation_case(s: &mut Src) -> FitCase {
    let p = degree(s);
    let n = count(s, p);
    let data = data(s, n + 1);
    let route = if s.chance(12) { given(s, p, n, n) } else { route(s, n, &[KnotKind::Averaging, KnotKind::Averaging, KnotKind::DeBoor, KnotKind::Uniform]) };
    FitCase { p, n, data, route, fixed: false, pen: None }
}

fn check_interpolation(c: &FitCase, ctx: &mut Ctx, everything: bool) -> Res {
    c.labels(ctx);
    let Some(st) = c.setup()? else {
        ctx.exclude("degenerate parameters or knots");
        return Ok(());
    };
    let sm = smallest(&st.nmat);
    if !everything && sm < 1e-6 {
        ctx.exclude(if sm < 1e-9 { "singular system" } else { "nearly singular system" });
        return Ok(());
    }
    if c.n > c.p && c.p >= 2 {
        ctx.nontrivial();
    }
    let curve = run_interpolation(c)?;
    frame(ctx, c, &curve, &st.knots)?;
    let r = RefCurve::of(&curve);
    for (g, u) in st.params.iter().enumerate() {
        let w = r.eval(Dd::from(*u), 0, false);
        let v = curve.evaluate(*u).map_err(|e| format!("{e:?}"))?;
        for d in 0..r.dim {
            let tol = 1e-11 * (row_max(curve.points.matrix(), d) + data_max(&c.data, d)) + TINY;
            let x = c.data[g][d];
            ensure!(ctx.close(w[d].v.f(), x, tol), "the curve misses data point {g} (u={u:?}): coordinate {d} is {:?}, expected {x:?}", w[d].v.f());
            ensure!(ctx.close(v[d], x, tol), "the curve evaluates to {:?} at data point {g} (u={u:?}), coordinate {d}, expected {x:?}", v[d]);
        }
    }
    Ok(())
}

/// Zig-zag data, for the recorded findings.
pub fn zigzag(n: usize) -> Vec<Vec<f64>> {
    (0..=n).map(|i| vec![i as f64, if i % 2 == 0 { 1.0 } else { -1.0 }]).collect()
}

pub struct C19;
impl Prop for C19 {
    const ID: &'static str = "C19";
    const RULE: &'static str = "random data (2-68 points, 1-6 coordinates), degree 1-7, the built-in interpolation and every combination of parametrisation and knot placement (n = m); the curve must have the expected knots and pass through every data point, by the library's own evaluation and by the reference; inputs whose collocation matrix has a singular value below 1e-6 are excluded and counted; non-trivial: degree >= 2 with internal knots";
    const QUICK: u64 = 120_000;
    const THOROUGH: u64 = 6_000_000;
    type Case = InterpolationCase;
    fn gen(s: &mut Src) -> InterpolationCase {
        InterpolationCase { fit: interpolation_case(s), everything: false }
    }
    fn check(c: &InterpolationCase, ctx: &mut Ctx) -> Res {
        check_interpolation(&c.fit, ctx, c.everything)
    }
    fn known() -> Vec<Known<InterpolationCase>> {
        let at = |sig, p, n| Known {
            sig,
            says: "the curve misses data point",
            case: InterpolationCase {
                fit: FitCase { p, n, data: zigzag(n), route: Route::Generate, fixed: false, pen: None },
                everything: true,
            },
        };
        vec![
            at("built-in interpolation of 151 zig-zag points (i, +-1) with degree 3 misses the data", 3, 150),
            at("built-in interpolation of 61 zig-zag points (i, +-1) with degree 4 misses the data", 4, 60),
            at("built-in interpolation of 41 zig-zag points (i, +-1) with degree 5 misses the data", 5, 40),
            at("built-in interpolation of 31 zig-zag points (i, +-1) with degree 7 misses the data", 7, 30),
        ]
    }
    fn assumptions() -> Vec<String> {
        vec!["parameters and knots leave the collocation matrix numerically regular (smallest singular value at least 1e-6)".into()]
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct InterpolationCase {
    pub fit: FitCase,
    /// Check even if the system is nearly singular (recorded findings).
    #[serde(default)]
    pub everything: bool,
}

// ------------------------------------------------------------- C20, C21, C22

pub fn run_fit(c: &FitCase) -> Result<Curve, String> {
    let d = data_points(&c.data);
    match &c.route {
        Route::Generate => generate(Generation::LeastSquaresFit {
            degree: c.p,
            points: &d,
            intended_segments: c.n,
            method: if c.fixed { fit::Method::FixedEnds } else { fit::Method::LooseEnds },
            penalization: c.penalization(),
        })
        .map_err(|e| format!("fit failed: {e:?}")),
        _ => {
            let (k, pr) = c.parts()?;
            let f = if c.fixed { fit::fixed::fit } else { fit::loose::fit };
            let pts = f(&k, &d, &pr, c.penalization()).map_err(|e| format!("fit failed: {e:?}"))?;
            Curve::new(k, ControlPoints::new(pts)).map_err(|e| format!("curve: {e:?}"))
        }
    }
}

/// `kappa`-th forward differences of `cols` values.
fn differences(cols: usize, kappa: usize) -> DMatrix<f64> {
    let mut binom = vec![1.0f64];
    for _ in 0..kappa {
        let mut next = vec![1.0];
        for w in binom.windows(2) {
            next.push(w[0] + w[1]);
        }
        next.push(1.0);
        binom = next;
    }
    DMatrix::from_fn(cols - kappa, cols, |i, j| {
        if j >= i && j <= i + kappa {
            let sign = if (kappa - (j - i)) % 2 == 0 { 1.0 } else { -1.0 };
            sign * binom[j - i]
        } else {
            0.0
        }
    })
}

pub struct Normal {
    /// Normal matrix of the free control points.
    pub mat: DMatrix<f64>,
    pub nfree: DMatrix<f64>,
    pub first: usize,
}

pub fn normal(c: &FitCase, st: &Setup) -> Normal {
    let (m, n) = (c.m(), c.n);
    let (rows, cols, first) = if c.fixed { (m.saturating_sub(1), n - 1, 1) } else { (m + 1, n + 1, 0) };
    let nfree = st.nmat.view((first, first), (rows, cols)).clone_owned();
    let mut mat = nfree.transpose() * &nfree;
    if let Some((lambda, kappa)) = c.pen {
        if cols > kappa {
            let d = differences(cols, kappa);
            mat += lambda * (d.transpose() * d);
        }
    }
    Normal { mat, nfree, first }
}

/// Is the solution of the normal equations known in doubles? Either regular,
/// or with eigenvalues that are zero for all purposes.
pub fn regular(mat: &DMatrix<f64>) -> Option<bool> {
    if mat.is_empty() {
        return Some(true);
    }
    let ev = mat.clone().symmetric_eigenvalues();
    let big = ev.amax();
    let eps = 1e-13 * big.max(1.0);
    let mut full = true;
    for e in ev.iter() {
        if *e < 1e-6 {
            if *e > eps || eps > 1e-10 {
                return None;
            }
            full = false;
        }
    }
    Some(full)
}

/// Stationarity of the objective at the resulting control points.
fn stationary(ctx: &mut Ctx, c: &FitCase, st: &Setup, no: &Normal, pts: &DMatrix<f64>, rel: f64) -> Res {
    let (m, n) = (c.m(), c.n);
    let cols = no.mat.ncols();
    let dd = |x: f64| Dd::from(x);
    let size = no.mat.iter().fold(0.0, |a: f64, x| a.max(x.abs()));
    for d in 0..pts.nrows() {
        // residuals at the fitted samples, in double-double
        let g0 = no.first;
        let res: Vec<Dd> = (0..no.nfree.nrows())
            .map(|g| {
                let mut v = dd(c.data[g + g0][d]);
                for i in 0..=n {
                    let w = st.nmat[(g + g0, i)];
                    if w != 0.0 {
                        v = v - dd(w) * dd(pts[(d, i)]);
                    }
                }
                v
            })
            .collect();
        let mut grad: Vec<Dd> = (0..cols)
            .map(|i| (0..res.len()).fold(dd(0.0), |a, g| a + dd(no.nfree[(g, i)]) * res[g]))
            .collect();
        if let Some((lambda, kappa)) = c.pen {
            let delta = differences(cols, kappa);
            let free: Vec<Dd> = (0..cols).map(|i| dd(pts[(d, i + g0)])).collect();
            let diff: Vec<Dd> = (0..delta.nrows()).map(|r| (0..cols).fold(dd(0.0), |a, j| a + dd(delta[(r, j)]) * free[j])).collect();
            for (i, x) in grad.iter_mut().enumerate() {
                for (r, y) in diff.iter().enumerate() {
                    *x = *x - dd(lambda) * dd(delta[(r, i)]) * *y;
                }
            }
        }
        let scale = row_max(pts, d) * size.max(1.0) * (n + 1) as f64 + data_max(&c.data, d) * (m + 1) as f64;
        let tol = rel * scale + TINY;
        for (i, x) in grad.iter().enumerate() {
            ensure!(
                ctx.close(x.f(), 0.0, tol),
                "coordinate {d} of control point {} is not optimal: the objective has slope {:?} there (tolerance {tol:.1e})",
                i + g0,
                x.f()
            );
        }
    }
    Ok(())
}

pub fn fit_case(s: &mut Src, fixed: bool, pen: bool) -> FitCase {
    let p = degree(s);
    let n = match s.weighted(&[500, 300, 100, 1]) {
        0 => p + s.range(0, 5),
        1 => p + s.range(3, 15),
        _ if p > 7 => p + s.range(3, 15),
        2 => p + s.range(10, 30),
        // rare
        _ => p + s.range(30, 80),
    };
    let n = if pen { n.max(if fixed { 3 } else { 2 }) } else { n };
    let m = n + match s.weighted(&[200, 500, 300, 1]) {
        0 => 0,
        1 => s.range(1, 12),
        _ if p > 7 => s.range(1, 12),
        2 => s.range(5, 60),
        // rare
        _ => s.range(60, 150),
    };
    let data = data(s, m + 1);
    let uniform_only = pen && !s.chance(15);
    let mut route = if uniform_only {
        route(s, m, &[KnotKind::Uniform])
    } else {
        let mut ks = vec![KnotKind::DeBoor, KnotKind::DeBoor, KnotKind::Uniform];
        if n == m {
            ks.push(KnotKind::Averaging);
        }
        if s.chance(15) {
            given(s, p, n, m)
        } else {
            route(s, m, &ks)
        }
    };
    // repeated and unevenly spread parameters are fine for a fit
    if let Route::Explicit(v, _) = &mut route {
        if s.chance(30) {
            let g = s.range(1, m.max(2) - 1).min(m - 1);
            if g >= 1 {
                v[g] = if s.chance(50) { v[g - 1] } else { v[g + 1] };
            }
        }
    }
    let pen = pen.then(|| {
        let kappa = match s.weighted(&[12, 2, 1]) {
            0 => s.range(1, 4),
            1 => s.range(5, 8),
            _ => s.range(9, n.max(9)),
        };
        let kappa = kappa.min(if fixed { n - 2 } else { n - 1 });
        let nonuniform = matches!(&route, Route::Parts(_, k) | Route::Explicit(_, k) if *k != KnotKind::Uniform) || matches!(&route, Route::Given(..));
        let lambda = if nonuniform {
            0.0
        } else {
            match s.weighted(&[3, 4, 1, 2]) {
                0 => s.pick(&[1.0, 0.5, 10.0]),
                1 => 10f64.powf(s.unit() * 9.0 - 5.0),
                3 => 10f64.powf(s.unit() * 20.0 - 10.0),
                _ => 0.0,
            }
        };
        // the squared coefficients add up to about 4^kappa
        let lambda = if kappa > 8 { lambda.min(100.0) / 4f64.powi(kappa as i32) } else { lambda };
        (lambda, kappa)
    });
    FitCase { p, n, data, route, fixed, pen }
}

fn check_fit(c: &FitCase, ctx: &mut Ctx) -> Result<Option<(Curve, Setup)>, String> {
    c.labels(ctx);
    let Some(st) = c.setup()? else {
        ctx.exclude("degenerate parameters or knots");
        return Ok(None);
    };
    let no = normal(c, &st);
    let Some(full) = regular(&no.mat) else {
        ctx.exclude("nearly singular normal equations");
        return Ok(None);
    };
    ctx.label(if full { "regular normal equations" } else { "singular normal equations" });
    let curve = run_fit(c)?;
    frame(ctx, c, &curve, &st.knots)?;
    // what counts as zero in a singular system is only known roughly
    stationary(ctx, c, &st, &no, curve.points.matrix(), if full { 1e-12 } else { 1e-7 })?;
    Ok(Some((curve, st)))
}

pub struct C20;
impl Prop for C20 {
    const ID: &'static str = "C20";
    const RULE: &'static str = "random data (2-98 points, 1-6 coordinates), degree 1-7, n <= m segments, built-in generation or explicit parametrisation and knots (placed, or anywhere with parameters that need not reach the ends nor ascend); the gradient of the sum of squared distances at the parameters must vanish for every control point; non-trivial: fewer segments than data, so that the fit approximates";
    const QUICK: u64 = 130_000;
    const THOROUGH: u64 = 6_600_000;
    type Case = FitCase;
    fn gen(s: &mut Src) -> FitCase {
        fit_case(s, false, false)
    }
    fn check(c: &FitCase, ctx: &mut Ctx) -> Res {
        if check_fit(c, ctx)?.is_some() && c.n < c.m() && c.p >= 2 {
            ctx.nontrivial();
        }
        Ok(())
    }
    fn assumptions() -> Vec<String> {
        vec!["no eigenvalue of the normal equations lies between zero and 1e-6".into()]
    }
}

pub struct C21;
impl Prop for C21 {
    const ID: &'static str = "C21";
    const RULE: &'static str = "as C20 with fixed ends: first and last control point are the first and last data point exactly, the curve starts and ends there, and the gradient of the squared distances of the inner data vanishes for every inner control point; non-trivial: at least one inner control point and n < m";
    const QUICK: u64 = 120_000;
    const THOROUGH: u64 = 6_000_000;
    type Case = FitCase;
    fn gen(s: &mut Src) -> FitCase {
        let mut c = fit_case(s, true, false);
        if s.chance(5) {
            // the single-segment line
            c.p = 1;
            c.n = 1;
            if let Route::Given(_, u) = &mut c.route {
                *u = vec![0.0, 0.0, 1.0, 1.0];
            }
        }
        c
    }
    fn check(c: &FitCase, ctx: &mut Ctx) -> Res {
        let Some((curve, _)) = check_fit(c, ctx)? else { return Ok(()) };
        if c.n < c.m() && c.n > 1 {
            ctx.nontrivial();
        }
        ends(c, &curve)
    }
    fn regressions() -> Vec<FitCase> {
        vec![
            FitCase { p: 1, n: 1, data: vec![vec![0.0], vec![5.0], vec![2.0]], route: Route::Generate, fixed: true, pen: None },
            FitCase { p: 1, n: 1, data: vec![vec![0.0], vec![5.0]], route: Route::Generate, fixed: true, pen: None },
        ]
    }
    fn assumptions() -> Vec<String> {
        C20::assumptions()
    }
}

fn ends(c: &FitCase, curve: &Curve) -> Res {
    let pts = curve.points.matrix();
    let (s, e) = (curve.evaluate(0.0).map_err(|e| format!("{e:?}"))?, curve.evaluate(1.0).map_err(|e| format!("{e:?}"))?);
    for d in 0..pts.nrows() {
        let (a, b) = (c.data[0][d], c.data[c.m()][d]);
        ensure!(pts[(d, 0)] == a && pts[(d, c.n)] == b, "end control points are {:?} and {:?}, the data end at {a:?} and {b:?}", pts[(d, 0)], pts[(d, c.n)]);
        ensure!((s[d] - a).abs() <= 1e-14 * a.abs() && (e[d] - b).abs() <= 1e-14 * b.abs(), "the curve runs from {:?} to {:?}, the data from {a:?} to {b:?}", s[d], e[d]);
    }
    Ok(())
}

pub struct C22;
impl Prop for C22 {
    const ID: &'static str = "C22";
    const RULE: &'static str = "loose and fixed-ends fits with a difference penalty, order 1-8 (some up to the number of segments), weight 0 or 1e-10 to 1e10, uniform knots (others with weight 0); the gradient of squared distances plus weight times squared differences of the free control points must vanish, weight 0 must give the unpenalised fit; non-trivial: positive weight and n < m";
    const QUICK: u64 = 100_000;
    const THOROUGH: u64 = 5_000_000;
    type Case = FitCase;
    fn gen(s: &mut Src) -> FitCase {
        let fixed = s.chance(50);
        fit_case(s, fixed, true)
    }
    fn check(c: &FitCase, ctx: &mut Ctx) -> Res {
        let (lambda, kappa) = c.pen.expect("penalized");
        ctx.label(if c.fixed { "fixed ends" } else { "loose ends" });
        ctx.label(format!("difference order {kappa}"));
        let Some((curve, st)) = check_fit(c, ctx)? else { return Ok(()) };
        if lambda > 0.0 && c.n < c.m() {
            ctx.nontrivial();
        }
        if c.fixed {
            ends(c, &curve)?;
        }
        if lambda == 0.0 {
            ctx.label("weight zero");
            let plain = FitCase { pen: None, ..c.clone() };
            if regular(&normal(&plain, &st).mat) == Some(true) {
                let q = run_fit(&plain)?;
                let (a, b) = (curve.points.matrix(), q.points.matrix());
                for d in 0..a.nrows() {
                    let tol = 1e-9 * row_max(b, d) + TINY;
                    for i in 0..a.ncols() {
                        ensure!(ctx.close(a[(d, i)], b[(d, i)], tol), "a weight of zero changes control point {i}: {:?} instead of {:?}", a[(d, i)], b[(d, i)]);
                    }
                }
            }
        }
        Ok(())
    }
    fn assumptions() -> Vec<String> {
        C20::assumptions()
    }
}

// ------------------------------------------------------------------------ C23

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct RequestCase {
    /// 0 interpolation, 1 fit via `generate`, 2 fit directly, 3 manual, 4 knot methods, 5 `Curve::new`
    pub what: usize,
    pub p: usize,
    pub n: usize,
    /// Number of data points minus one, and segments of the parameters.
    pub m: usize,
    pub mp: usize,
    pub fixed: bool,
    pub lambda: Option<gen::X>,
    pub kappa: usize,
    /// The knots of a direct fit.
    pub uniform: bool,
    pub seed: u32,
}

fn simple_data(count: usize, seed: u32) -> Vec<Vec<f64>> {
    (0..count).map(|i| vec![i as f64, ((i as u32 * 7 + seed) % 11) as f64]).collect()
}

pub struct C23;
impl Prop for C23 {
    const ID: &'static str = "C23";
    const RULE: &'static str = "requests with small random sizes around every limit (degree 0-6, some up to 10, segments, data, parameters, penalty order and weight of either sign): requests outside the limits must be refused with an error naming a violated limit and its values, requests inside must give a curve of the requested size, nothing may panic; non-trivial: some limit is violated or met exactly";
    const QUICK: u64 = 1_500_000;
    const THOROUGH: u64 = 30_000_000;
    type Case = RequestCase;
    fn gen(s: &mut Src) -> RequestCase {
        let what = s.weighted(&[6, 8, 8, 4, 4, 4]);
        let p = if s.below(60) == 59 { s.range(7, 10) } else { s.range(0, 6) };
        let n = (p + s.range(0, 6)).saturating_sub(if s.chance(30) { 2 } else { 0 }).max(1);
        let m = (n + s.range(0, 6)).saturating_sub(if s.chance(30) { 3 } else { 0 }).max(1);
        let mp = if s.chance(20) { (m + s.range(0, 4)).saturating_sub(2).max(1) } else { m };
        let fixed = s.chance(50);
        let lambda = s.chance(60).then(|| gen::X(s.pick(&[1.0, 0.0, 0.5, -1.0, -1e-9, 1e3, 1e-300, -0.0, f64::NEG_INFINITY, f64::INFINITY, f64::NAN, 1e100, 1e300, f64::MAX])));
        let kappa = match s.below(3) {
            0 => s.range(1, 3),
            1 => (n + s.range(0, 3)).saturating_sub(2).max(1),
            _ => s.range(1, 12),
        };
        if s.below(400) == 399 {
            // differences of high order
            let n = s.range(p.max(3), 70);
            let m = n + s.range(0, 3);
            let kappa = s.range(n / 2, n);
            return RequestCase { what: s.range(1, 2), p, n, m, mp: m, fixed, lambda, kappa, uniform: s.chance(90), seed: s.below(1000) as u32 };
        }
        RequestCase { what, p, n, m, mp, fixed, lambda, kappa, uniform: s.chance(60), seed: s.below(1000) as u32 }
    }
    fn check(c: &RequestCase, ctx: &mut Ctx) -> Res {
        let (p, n, m) = (c.p, c.n, c.m);
        let points = data_points(&simple_data(m + 1, c.seed));
        let pen = || c.lambda.map(|l| Penalization { lambda: l.0, kappa: c.kappa });
        let mut wrong: Vec<CurveError> = vec![];
        let shape = |n: usize, wrong: &mut Vec<CurveError>| {
            if p == 0 {
                wrong.push(CurveError::DegreeTooLow { p: 0, limit: 0 });
            }
            if p > n {
                wrong.push(CurveError::DegreeAndSegmentsMismatch { p, n });
            }
        };
        let fits = |uniform: bool, mp: usize, wrong: &mut Vec<CurveError>| {
            let mut add = |err| wrong.push(CurveError::FitError { err });
            if n > m {
                add(FitError::RequestedPolynomialSegmentAndDataSegementMismatch { n, m });
            }
            if mp != m {
                add(FitError::DataSegmentsAndParameterSegmentsMismatch { m, mp });
            }
            if let Some(l) = c.lambda {
                let limit = if c.fixed { n as i64 - 2 } else { n as i64 - 1 };
                if c.kappa as i64 > limit {
                    add(FitError::RequestedPolynomialSegmentAndPenalizationKappaMismatch { n, kappa: c.kappa });
                }
                // the weighted differences have to be numbers as well
                let free = (n + 1).saturating_sub(2 * c.fixed as usize);
                let most = if c.kappa < free {
                    let d = differences(free, c.kappa);
                    (d.transpose() * d).amax()
                } else {
                    1.0
                };
                if !(l.0 >= 0.0 && l.0 * most < f64::INFINITY) {
                    add(FitError::NegativeLambda { lambda: l.0 });
                }
                if l.0 > 0.0 && !uniform {
                    add(FitError::NonUniformKnots);
                }
            }
        };
        let size = |c: &Curve| (c.degree(), c.segments());
        let (got, want): (Result<(usize, usize), CurveError>, (usize, usize)) = match c.what {
            0 => {
                shape(m, &mut wrong);
                (generate(Generation::Interpolation { degree: p, points: &points }).map(|c| size(&c)), (p, m))
            }
            1 => {
                shape(n, &mut wrong);
                fits(true, m, &mut wrong);
                let method = if c.fixed { fit::Method::FixedEnds } else { fit::Method::LooseEnds };
                (
                    generate(Generation::LeastSquaresFit { degree: p, points: &points, intended_segments: n, method, penalization: pen() })
                        .map(|c| size(&c)),
                    (p, n),
                )
            }
            2 => {
                if p == 0 || n + 1 < p {
                    // a direct call needs knots that can be built
                    ctx.exclude("direct fit without valid knots");
                    return Ok(());
                }
                let mut k = if n < p {
                    wrong.push(CurveError::FitError { err: FitError::RequestedPolynomialSegmentAndSplineDegreeMismatch { n, p } });
                    Knots::new(p, nalgebra::DVector::from_fn(n + p + 2, |i, _| if i <= p { 0.0 } else { 1.0 }))
                } else {
                    knots::methods::uniform(p, n).map_err(|e| format!("{e:?}"))?
                };
                let mut uniform = c.uniform;
                if !uniform {
                    if n > p {
                        let mut v = k.vector().clone();
                        v[p + 1] *= 0.75;
                        k = Knots::new(p, v);
                    } else {
                        uniform = true;
                    }
                }
                fits(uniform, c.mp, &mut wrong);
                let params = parameters::methods::equally_spaced(c.mp);
                let f = if c.fixed { fit::fixed::fit } else { fit::loose::fit };
                (
                    f(&k, &points, &params, pen()).map(|x| (x.nrows(), x.ncols())).map_err(|err| CurveError::FitError { err }),
                    (2, n + 1),
                )
            }
            3 => {
                shape(n, &mut wrong);
                let pts = ControlPoints::new(matrix(&simple_data(n + 1, c.seed)));
                (generate(Generation::Manual { degree: p, points: pts, knots: knots::Generation::Uniform }).map(|c| size(&c)), (p, n))
            }
            5 => {
                let Ok(k) = knots::methods::uniform(p, n.max(p)) else {
                    ctx.exclude("no knots of degree zero");
                    return Ok(());
                };
                shape(n, &mut wrong);
                (Curve::new(k, ControlPoints::new(matrix(&simple_data(n + 1, c.seed)))).map(|c| size(&c)), (p, n))
            }
            _ => {
                shape(n, &mut wrong);
                let params = parameters::methods::equally_spaced(n);
                let r = match c.seed % 3 {
                    0 => knots::generate(p, n, &params, knots::Method::Uniform),
                    1 => knots::generate(p, n, &params, knots::Method::Averaging),
                    _ => knots::generate(p, n, &params, knots::Method::DeBoor),
                };
                (r.map(|k| (k.degree(), k.segments())), (p, n))
            }
        };
        if !wrong.is_empty() || p == n || n == m || (c.lambda.is_some() && c.kappa + 1 + c.fixed as usize == n) {
            ctx.nontrivial();
        }
        ctx.label(["interpolation", "generated fit", "direct fit", "manual", "knot placement", "assembled"][c.what]);
        match got {
            Ok(s) => {
                ctx.label("accepted");
                ensure!(wrong.is_empty(), "accepted although {wrong:?} applies");
                ensure!(s == want, "result has size {s:?}, expected {want:?}");
            }
            Err(e) => {
                ctx.label("refused");
                speaks(&e)?;
                // NaN in an error makes it differ from itself
                let text = format!("{e:?}");
                ensure!(!wrong.is_empty(), "refused with {text} although nothing is wrong");
                ensure!(wrong.iter().any(|w| format!("{w:?}") == text), "refused with {text}, but the reason is {wrong:?}");
            }
        }
        Ok(())
    }
    fn regressions() -> Vec<RequestCase> {
        let base = RequestCase { what: 1, p: 2, n: 4, m: 8, mp: 8, fixed: true, lambda: None, kappa: 1, uniform: true, seed: 0 };
        vec![
            RequestCase { lambda: Some(gen::X(1.0)), kappa: 3, ..base.clone() },
            RequestCase { lambda: Some(gen::X(f64::MAX)), fixed: false, ..base.clone() },
            RequestCase { n: 60, m: 60, mp: 60, lambda: Some(gen::X(1.0)), kappa: 40, ..base.clone() },
            RequestCase { p: 1, n: 1, m: 3, mp: 3, ..base.clone() },
            RequestCase { p: 1, n: 1, m: 3, mp: 3, lambda: Some(gen::X(1.0)), ..base.clone() },
        ]
    }
}

// ------------------------------------------------------------------------ C28

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ManualCase {
    pub curve: CurveSpec,
    /// `None` passes the knots of the curve.
    pub route: Option<(ParamKind, KnotKind)>,
    pub uniform: bool,
}

pub struct C28;
impl Prop for C28 {
    const ID: &'static str = "C28";
    const RULE: &'static str = "random control points with given, uniform or computed knots (every parametrisation and knot placement; those given also of another range than [0,1]): the curve must have exactly these control points and the knots of the placement, and agree with assembling it by hand; non-trivial: computed or given non-uniform knots with at least two internal knots";
    const QUICK: u64 = 400_000;
    const THOROUGH: u64 = 20_000_000;
    type Case = ManualCase;
    fn gen(s: &mut Src) -> ManualCase {
        let route = s.chance(60).then(|| {
            (
                s.pick(&[ParamKind::Equal, ParamKind::Centripetal, ParamKind::Chord]),
                s.pick(&[KnotKind::Uniform, KnotKind::Averaging, KnotKind::DeBoor]),
            )
        });
        let uniform = s.chance(30);
        let curve = if route.is_some() {
            let p = degree(s);
            let n = count(s, p);
            CurveSpec { p, u: knots::methods::uniform(p, n).unwrap().vector().iter().copied().collect(), pts: data(s, n + 1) }
        } else {
            let mut c = gen::curve(s, &Opts { max_int: 60, ..WIDE });
            if s.chance(20) {
                // knots are kept whatever their range
                let (f, g) = s.pick(&[(2.0, 0.0), (0.5, 0.0), (1.0, 1.0), (0.25, 0.5), (8.0, -4.0)]);
                c.u.iter_mut().for_each(|x| *x = *x * f + g);
            }
            c
        };
        ManualCase { curve, route, uniform }
    }
    fn check(c: &ManualCase, ctx: &mut Ctx) -> Res {
        let cv = &c.curve;
        let (p, n) = (cv.p, cv.n());
        let points = matrix(&cv.pts);
        let given = || match c.route {
            Some((a, b)) => knots::Generation::Method { parameter_method: a.method(), knot_method: b.method() },
            None if c.uniform => knots::Generation::Uniform,
            None => knots::Generation::Manual { knots: cv.knots() },
        };
        let want: Vec<f64> = match c.route {
            Some((a, b)) => {
                let params = super::knots::parametrise(a, &cv.pts);
                if params.is_empty() {
                    ctx.exclude("coincident data");
                    return Ok(());
                }
                super::knots::place(b, p, n, &params).unwrap()
            }
            None if c.uniform => super::knots::place(KnotKind::Uniform, p, n, &[]).unwrap(),
            None => cv.u.clone(),
        };
        if n >= p + 2 && (c.route.is_some() || !c.uniform) {
            ctx.nontrivial();
        }
        ctx.label(match c.route {
            Some((a, b)) => format!("{a:?} parameters, {b:?} knots"),
            None => if c.uniform { "uniform knots" } else { "given knots" }.to_string(),
        });
        let curve = generate(Generation::Manual { degree: p, points: ControlPoints::new(points.clone()), knots: given() })
            .map_err(|e| format!("manual generation failed: {e:?}"))?;
        ensure!(*curve.points.matrix() == points, "the control points were changed");
        let kv = curve.knots.vector();
        ensure!(curve.degree() == p && kv.len() == want.len(), "degree {} with {} knots", curve.degree(), kv.len());
        for i in 0..want.len() {
            let exact = c.route.is_none() && !c.uniform;
            ensure!(ctx.close(kv[i], want[i], if exact { 0.0 } else { 1e-13 }), "knot {i} is {:?}, expected {:?}", kv[i], want[i]);
        }
        if kv[0] != 0.0 || kv[kv.len() - 1] != 1.0 {
            ctx.label("knots of another range");
            return consistent(ctx, &curve, false, "manually generated curve");
        }
        if c.route.is_some() && !proper(p, kv.as_slice()) {
            ctx.exclude("data repeat so often that a knot repeats too often: only knots and points checked");
            return Ok(());
        }
        if kv.as_slice().windows(2).all(|w| w[0] <= w[1]) {
            // computed knots that are equal up to rounding leave the
            // derivatives to rounding, too
            if kv.as_slice().windows(2).all(|w| w[0] == w[1] || w[1] - w[0] > 1e-9) {
                consistent(ctx, &curve, true, "manually generated curve")?;
                let r = RefCurve::of(&curve);
                for u in [0.0, 1.0, 0.3, 0.5, want[n]] {
                    eval_matches(ctx, &curve, &r, u, 0)?;
                    eval_matches(ctx, &curve, &r, u, 1)?;
                }
            } else {
                ctx.exclude("computed knots equal up to rounding: derivatives not checked");
            }
        }
        Ok(())
    }
}

// ------------------------------------------------------------------------ C29

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct MirrorCase {
    pub fit: FitCase,
    pub interpolate: bool,
}

/// Condition number of the linear system, if below 1e5.
pub fn condition(f: &FitCase, st: &Setup, interpolate: bool) -> Option<f64> {
    let cond = if interpolate {
        1.0 / smallest(&st.nmat)
    } else {
        let no = normal(f, st);
        if regular(&no.mat) != Some(true) {
            return None;
        }
        if no.mat.is_empty() {
            1.0
        } else {
            let ev = no.mat.symmetric_eigenvalues();
            ev.max() / ev.min()
        }
    };
    (cond < 1e5).then_some(cond)
}

pub struct C29;
impl Prop for C29 {
    const ID: &'static str = "C29";
    const RULE: &'static str = "interpolations and fits (loose, fixed, penalised; every parametrisation with uniform or averaged knots) of random data and of the reversed data: the second curve must be the reverse of the first; non-trivial: degree >= 2, more segments than the degree and data that are not symmetric";
    const QUICK: u64 = 100_000;
    const THOROUGH: u64 = 5_000_000;
    type Case = MirrorCase;
    fn gen(s: &mut Src) -> MirrorCase {
        let interpolate = s.chance(40);
        let mut fit = if interpolate {
            interpolation_case(s)
        } else {
            let fixed = s.chance(50);
            let pen = s.chance(40);
            fit_case(s, fixed, pen)
        };
        // de Boor's placement is not symmetric
        let kk = if fit.n == fit.m() && fit.pen.is_none() { KnotKind::Averaging } else { KnotKind::Uniform };
        if let Route::Parts(_, k) | Route::Explicit(_, k) = &mut fit.route {
            if *k == KnotKind::DeBoor {
                *k = kk;
            }
        }
        MirrorCase { fit, interpolate }
    }
    fn check(c: &MirrorCase, ctx: &mut Ctx) -> Res {
        let f = &c.fit;
        f.labels(ctx);
        let Some(st) = f.setup()? else {
            ctx.exclude("degenerate parameters or knots");
            return Ok(());
        };
        let Some(cond) = condition(f, &st, c.interpolate) else {
            ctx.exclude("badly conditioned");
            return Ok(());
        };
        let mut back = f.clone();
        back.data.reverse();
        if let Route::Explicit(v, _) = &mut back.route {
            *v = v.iter().rev().map(|x| 1.0 - x).collect();
        }
        if let Route::Given(t, u) = &mut back.route {
            [t, u].into_iter().for_each(|v| *v = v.iter().rev().map(|x| 1.0 - x).collect());
        }
        let run = if c.interpolate { run_interpolation } else { run_fit };
        let (a, b) = (run(f)?, run(&back)?);
        if f.p >= 2 && f.n > f.p && f.data != back.data {
            ctx.nontrivial();
        }
        ctx.label(if c.interpolate { "interpolation" } else if f.fixed { "fixed-ends fit" } else { "loose fit" });
        let (ka, kb) = (a.knots.vector(), b.knots.vector());
        let l = ka.len();
        ensure!(l == kb.len(), "different numbers of knots");
        for i in 0..l {
            ensure!(ctx.close(kb[i], 1.0 - ka[l - 1 - i], 1e-13), "knot {i} of the mirrored curve is {:?}, expected {:?}", kb[i], 1.0 - ka[l - 1 - i]);
        }
        let (pa, pb) = (a.points.matrix(), b.points.matrix());
        for d in 0..pa.nrows() {
            let tol = (1e-12 * cond + 1e-11) * (row_max(pa, d) + data_max(&f.data, d)) + TINY;
            for i in 0..=f.n {
                ensure!(ctx.close(pb[(d, i)], pa[(d, f.n - i)], tol), "control point {i} of the mirrored curve is {:?}, expected {:?} (tolerance {tol:.1e})", pb[(d, i)], pa[(d, f.n - i)]);
            }
        }
        Ok(())
    }
    fn assumptions() -> Vec<String> {
        vec!["condition number of the linear system below 1e5".into()]
    }
}
