//! Data that are reproduced, edited and reassembled curves, and independence of
//! what ran before: C31 to C33.
use bsplines::{
    curve::{
        knots::Knots,
        points::{methods::interpolation::interpolate, ControlPoints, Points},
    },
    manipulation::{
        merge::{merge, merge_from, merge_to},
        reverse::reversed,
    },
};
use nalgebra::DVector;
use serde::{Deserialize, Serialize};

use super::{
    generate::{self, FitCase, Route},
    *,
};
use crate::{
    engine::Prop,
    gen::{self, columns, matrix, CurveSpec, Opts, WIDE},
    src::Src,
};

// ------------------------------------------------------------------------ C31

/// The data are taken from the curve with these control points.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Reproduce {
    /// The data are ignored but for their number.
    pub fit: FitCase,
    pub interpolate: bool,
    pub pts: Vec<Vec<f64>>,
}

pub struct C31;
impl Prop for C31 {
    const ID: &'static str = "C31";
    const RULE: &'static str = "random curves (degree 1-7, 1-6 coordinates) sampled, in double-double arithmetic, at the parameters of a random request; interpolating or fitting (loose, fixed ends, with penalties that do not see the control points) the samples must return their control points; requests whose linear system has a condition number above 1e5 are excluded and counted; non-trivial: degree >= 2 with internal knots";
    const QUICK: u64 = 100_000;
    const THOROUGH: u64 = 5_000_000;
    type Case = Reproduce;
    fn gen(s: &mut Src) -> Reproduce {
        let kind = s.weighted(&[4, 3, 3, 3]);
        let mut fit = match kind {
            0 => generate::interpolation_case(s),
            k => {
                let fixed = s.chance(50);
                generate::fit_case(s, fixed, k == 3)
            }
        };
        // parameters that depend on the data cannot be chosen beforehand
        if let Route::Parts(_, k) = fit.route {
            fit.route = Route::Explicit(generate::explicit_params(s, fit.data.len() - 1), k);
        }
        let dim = fit.data[0].len();
        let mut pts = gen::points(s, fit.n + 1, dim, true);
        match fit.pen {
            Some((lambda, kappa)) if lambda > 0.0 => {
                // what the penalty does not see: values of a polynomial in the index
                let (first, last) = if fit.fixed { (1, fit.n - 1) } else { (0, fit.n) };
                let deg = s.below(kappa.min(5));
                for d in 0..dim {
                    let co: Vec<f64> = (0..=deg).map(|_| s.range(0, 8) as f64 - 4.0).collect();
                    for i in first..=last {
                        let t = (i as f64 - fit.n as f64 / 2.0) / 8.0;
                        pts[i][d] = co.iter().rev().fold(0.0, |a, c| a * t + c);
                    }
                }
            }
            _ => {}
        }
        fit.data = vec![vec![0.0; dim]; fit.data.len()];
        Reproduce { fit, interpolate: kind == 0, pts }
    }
    fn check(c: &Reproduce, ctx: &mut Ctx) -> Res {
        let what = if c.interpolate {
            "interpolation"
        } else if c.fit.fixed {
            "fixed-ends fit"
        } else {
            "loose fit"
        };
        ctx.label(what);
        if c.fit.pen.is_some_and(|(l, _)| l > 0.0) {
            ctx.label("penalised");
        }
        let Some(st) = c.fit.setup()? else {
            ctx.exclude("degenerate parameters or knots");
            return Ok(());
        };
        let Some(cond) = generate::condition(&c.fit, &st, c.interpolate) else {
            ctx.exclude("badly conditioned");
            return Ok(());
        };
        if c.fit.p >= 2 && c.fit.n > c.fit.p {
            ctx.nontrivial();
        }
        let r = RefCurve::new(c.fit.p, &st.knots, &c.pts);
        let mut data: Vec<Vec<f64>> = st.params.iter().map(|u| r.eval(Dd::from(*u), 0, false).iter().map(|v| v.v.f()).collect()).collect();
        if c.fit.fixed {
            let m = c.fit.m();
            data[0] = c.pts[0].clone();
            data[m] = c.pts[c.fit.n].clone();
        }
        let f = FitCase { data, ..c.fit.clone() };
        let got = if c.interpolate { generate::run_interpolation(&f)? } else { generate::run_fit(&f)? };
        ensure!(got.points.count() == c.pts.len(), "{what}: {} control points instead of {}", got.points.count(), c.pts.len());
        let big = r.max();
        for (i, q) in columns(got.points.matrix()).iter().enumerate() {
            for d in 0..big.len() {
                let tol = (1e-13 * cond + 1e-12) * big[d] * (1.0 + c.fit.pen.map_or(0.0, |(_, k)| k as f64)) + TINY;
                ensure!(
                    ctx.close(q[d], c.pts[i][d], tol),
                    "{what}: control point {i} is {:?}, the data are from a curve where it is {:?} (coordinate {d})",
                    q[d],
                    c.pts[i][d]
                );
            }
        }
        Ok(())
    }
    fn assumptions() -> Vec<String> {
        vec!["condition number of the linear systems below 1e5".into()]
    }
}

// ------------------------------------------------------------------------ C32

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Edit {
    /// One control point through `get_mut`.
    Point { i: usize, to: Vec<f64> },
    /// The matrix of the control points, through `matrix_mut`.
    Points { pts: Vec<Vec<f64>> },
    /// All knots through `vector_mut`, of the same number or with new control points.
    Knots { u: Vec<f64>, pts: Option<Vec<Vec<f64>>> },
    /// Rubbish in the derivative data.
    Spoil { k: usize, x: f64 },
    /// The parts of another curve, with its derivative data: its knots, its
    /// control points, or both.
    Parts { other: CurveSpec, knots: bool, points: bool },
    Reverse,
    Insert(f64),
    Derivative(usize),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct EditCase {
    pub curve: CurveSpec,
    pub edits: Vec<Edit>,
    /// How the curve is put together after the edits: refreshed in place, or
    /// from its parts.
    pub rebuild: bool,
}

const PLAIN: Opts = Opts { max_p: 9, max_int: 20, min_gap: 1e-4, max_dim: 4, tight: None, ..WIDE };

/// Control points and knots of a curve, without the derivative data.
fn bare(c: &Curve) -> CurveSpec {
    CurveSpec { p: c.degree(), u: c.knots.vector().iter().copied().collect(), pts: columns(c.points.matrix()) }
}

fn refresh(c: &mut Curve) {
    c.knots.derive();
    let Curve { knots, points } = c;
    points.derive(knots);
}

pub struct C32;
impl Prop for C32 {
    const ID: &'static str = "C32";
    const RULE: &'static str = "random curves whose control points, knots and derivative data are overwritten through the public accessors or exchanged with those of other curves (other degree, other number of control points, same sizes), in sequences of 1-5 edits, then refreshed in place or assembled from their parts; the result must be bit-for-bit the curve built from the same knots and control points, and stay so under evaluation, insertion, splitting and reversal; the model tracks the control points written; non-trivial: degree >= 2 and an edit that keeps all sizes";
    const QUICK: u64 = 60_000;
    const THOROUGH: u64 = 3_000_000;
    type Case = EditCase;
    fn gen(s: &mut Src) -> EditCase {
        let rebuild = s.chance(40);
        let curve = gen::curve(s, &PLAIN);
        let mut sim = curve.clone();
        let mut edits = vec![];
        for _ in 0..s.range(1, 5) {
            let (p, dim) = (sim.p, sim.dim());
            match s.weighted(&[4, 3, 4, 2, 4, 2, 2, 1]) {
                0 => {
                    let i = s.below(sim.pts.len());
                    let to: Vec<f64> = (0..dim).map(|_| s.range(0, 40) as f64 / 4.0 - 5.0).collect();
                    sim.pts[i] = to.clone();
                    edits.push(Edit::Point { i, to });
                }
                1 => {
                    let d = if s.chance(30) { gen::dimension(s, 4) } else { dim };
                    sim.pts = gen::points(s, sim.pts.len(), d, true);
                    edits.push(Edit::Points { pts: sim.pts.clone() });
                }
                2 => {
                    if s.chance(60) && sim.n() > p {
                        // other knots, as many of them
                        let n = sim.n();
                        let k = n - p;
                        for i in 0..k {
                            sim.u[p + 1 + i] = (i as f64 + s.range(1, 9) as f64 / 10.0) / k as f64;
                        }
                        edits.push(Edit::Knots { u: sim.u.clone(), pts: None });
                    } else {
                        let c = gen::curve_of(s, p, dim, &PLAIN);
                        edits.push(Edit::Knots { u: c.u.clone(), pts: Some(c.pts.clone()) });
                        sim = c;
                    }
                }
                3 => edits.push(Edit::Spoil { k: s.range(1, p), x: s.pick(&[1.0, f64::NAN, 0.0]) }),
                4 => {
                    let which = s.below(3);
                    let mut other = if which == 0 { gen::curve(s, &PLAIN) } else { sim.clone() };
                    if which > 0 {
                        // same sizes
                        other.pts = gen::points(s, sim.pts.len(), dim, true);
                        let k = sim.n() - p;
                        for i in 0..k {
                            other.u[p + 1 + i] = (i as f64 + s.range(1, 9) as f64 / 10.0) / k as f64;
                        }
                    }
                    let (knots, points) = match which {
                        0 => (true, true),
                        1 => (false, true),
                        _ => (true, s.chance(20)),
                    };
                    if knots {
                        sim.p = other.p;
                        sim.u = other.u.clone();
                    }
                    if points {
                        sim.pts = other.pts.clone();
                    }
                    edits.push(Edit::Parts { other, knots, points });
                }
                5 => {
                    sim.pts.reverse();
                    sim.u = sim.u.iter().rev().map(|x| -(x - 1.0)).collect();
                    edits.push(Edit::Reverse);
                }
                6 => {
                    let u = gen::inner_param(s, &sim, 1e-4);
                    if sim.mult(u) <= sim.p {
                        let at = sim.u.iter().rposition(|x| *x <= u).unwrap() + 1;
                        sim.u.insert(at, u);
                        // the sizes are all that matters here
                        let q = sim.pts[0].clone();
                        sim.pts.push(q);
                        edits.push(Edit::Insert(u));
                    }
                }
                _ => {
                    // the limits of a derivative curve stay clamped; its degree drops
                    if p >= 2 && sim.max_mult() < p {
                        let k = s.range(1, p - 1);
                        if sim.max_mult() <= p - k {
                            sim.p = p - k;
                            sim.u = sim.u[k..sim.u.len() - k].to_vec();
                            sim.pts.truncate(sim.pts.len() - k);
                            edits.push(Edit::Derivative(k));
                        }
                    }
                }
            }
        }
        EditCase { curve, edits, rebuild }
    }
    fn check(c: &EditCase, ctx: &mut Ctx) -> Res {
        let mut b = c.curve.build();
        // the control points as they were written last
        let mut written: Option<Vec<Vec<f64>>> = Some(c.curve.pts.clone());
        for e in &c.edits {
            match e {
                Edit::Point { i, to } => {
                    b.points.get_mut(*i).copy_from_slice(to);
                    if let Some(w) = &mut written {
                        w[*i] = to.clone();
                    }
                    ctx.label("control point");
                }
                Edit::Points { pts } => {
                    *b.points.matrix_mut() = matrix(pts);
                    written = Some(pts.clone());
                    ctx.label("all control points");
                }
                Edit::Knots { u, pts } => {
                    *b.knots.vector_mut() = DVector::from_vec(u.clone());
                    if let Some(pts) = pts {
                        *b.points.matrix_mut() = matrix(pts);
                        written = Some(pts.clone());
                    }
                    ensure!(b.knots.vector().as_slice() == &u[..], "knots do not keep what was written");
                    ctx.label("knots");
                }
                Edit::Spoil { k, x } => {
                    if *k <= b.max_derivative() {
                        b.points.matrix_derivative_mut(*k).fill(*x);
                        b.knots.vector_derivative_mut(*k).fill(*x);
                    }
                    ctx.label("derivative data");
                }
                Edit::Parts { other, knots, points } => {
                    let o = other.build();
                    if *knots {
                        b.knots = o.knots;
                    }
                    if *points {
                        b.points = o.points;
                        written = Some(other.pts.clone());
                    }
                    ctx.label("parts of another curve");
                }
                Edit::Reverse => {
                    refresh(&mut b);
                    b.reverse();
                    if let Some(w) = &mut written {
                        w.reverse();
                    }
                }
                Edit::Insert(u) => {
                    refresh(&mut b);
                    b.insert(*u).map_err(|e| format!("{e:?}"))?;
                    written = None;
                }
                Edit::Derivative(k) => {
                    refresh(&mut b);
                    b = b.get_derivative_curve(*k);
                    written = None;
                }
            }
            if b.degree() >= 2 && matches!(e, Edit::Point { .. } | Edit::Points { .. } | Edit::Knots { pts: None, .. } | Edit::Parts { knots: false, .. }) {
                ctx.nontrivial();
            }
        }
        let want = bare(&b);
        if let Some(w) = &written {
            ensure!(want.pts == *w, "control points are {:?}, written were {w:?}", want.pts);
        }
        let fresh = want.build();
        let mut got = if c.rebuild {
            ctx.label("assembled");
            Curve::new(b.knots, b.points).map_err(|e| format!("{e:?}"))?
        } else {
            ctx.label("refreshed");
            refresh(&mut b);
            b
        };
        ensure!(snapshot(&got) == snapshot(&fresh), "the curve differs from one built from the same knots and control points");
        containers(&want)?;
        let (p, n) = (want.p, want.n());
        for u in [0.0, 0.3, 0.5, 0.9, 1.0] {
            for k in 0..=p {
                ensure!(
                    bits(&got.evaluate_derivative(u, k)) == bits(&fresh.evaluate_derivative(u, k)),
                    "derivative {k} at {u} differs from that of a curve built from the same data"
                );
            }
            for i in 0..=n {
                ensure!(
                    got.knots.evaluate(0, i, p, u).to_bits() == fresh.knots.evaluate(0, i, p, u).to_bits(),
                    "basis function {i} at {u} differs from that of a curve built from the same data"
                );
            }
        }
        let mut fresh = fresh;
        if got.knots.multiplicity(0.5) <= p {
            let (a, b) = (got.split(0.5), fresh.split(0.5));
            ensure!(a.is_ok() && b.is_ok(), "splitting failed");
            let ((a, b), (x, y)) = (a.unwrap(), b.unwrap());
            ensure!(snapshot(&a) == snapshot(&x) && snapshot(&b) == snapshot(&y), "the pieces differ from those of a curve built from the same data");
            ensure!(got.insert(0.5).is_ok() && fresh.insert(0.5).is_ok(), "insertion failed");
            ensure!(snapshot(&got) == snapshot(&fresh), "after insertion, the curve differs from one built from the same data");
        }
        got.reverse();
        fresh.reverse();
        ensure!(snapshot(&got) == snapshot(&fresh), "after reversal, the curve differs from one built from the same data");
        Ok(())
    }
}

/// Point sets report what was put into them.
fn containers(c: &CurveSpec) -> Res {
    let mut d = gen::data_points(&c.pts);
    let q = ControlPoints::new(matrix(&c.pts));
    let cnt = c.pts.len();
    ensure!(
        d.count() == cnt && d.segments() == cnt - 1 && d.dimension() == c.dim() && !d.is_empty(),
        "data points report {} points, {} segments, dimension {}",
        d.count(),
        d.segments(),
        d.dimension()
    );
    ensure!(
        Points::count(&q) == cnt && q.count() == cnt && q.segments() == cnt - 1 && q.dimension() == c.dim() && !q.is_empty() && q.count_derivative(0) == cnt,
        "control points report {} points, {} segments, dimension {}",
        q.count(),
        q.segments(),
        q.dimension()
    );
    for i in 0..cnt {
        ensure!(d.get(i).iter().eq(c.pts[i].iter()) && q.get(i).iter().eq(c.pts[i].iter()), "point {i} is {:?}, put in was {:?}", d.get(i), c.pts[i]);
    }
    d.reverse();
    for i in 0..cnt {
        ensure!(d.get(cnt - 1 - i).iter().eq(c.pts[i].iter()), "reversed data points do not have point {i} of {cnt} at the mirrored place");
    }
    Ok(())
}

fn bits<E: std::fmt::Debug>(r: &Result<DVector<f64>, E>) -> Vec<u64> {
    match r {
        Ok(v) => v.iter().map(|x| x.to_bits()).collect(),
        Err(_) => vec![u64::MAX],
    }
}

// ------------------------------------------------------------------------ C33

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Act {
    Evaluate(f64, usize),
    Basis(f64, usize, usize),
    Insert(f64),
    Reverse,
    /// Continue with the left or the right piece.
    Split(f64, bool),
    Derivative(usize),
    /// Merge with the mirror image; only the result is noted.
    Merge(usize),
    /// Interpolate the control points; only the result is noted.
    Interpolate,
    /// A fit through the control points; only the result is noted.
    Fit(bool),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Script {
    pub curve: CurveSpec,
    pub acts: Vec<Act>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Independent {
    pub scripts: Vec<Script>,
    /// Whose turn it is when they run by turns.
    pub turns: Vec<usize>,
}

fn act(c: &mut Curve, a: &Act) -> Vec<u64> {
    let note = |r: &Curve| snapshot(r);
    match a {
        Act::Evaluate(u, k) => bits(&c.evaluate_derivative(*u, *k)),
        Act::Basis(u, i, k) => {
            let (p, n) = (c.degree(), c.segments());
            let k = (*k).min(p);
            vec![c.knots.evaluate(k, (*i).min(n - k), p, *u).to_bits()]
        }
        Act::Insert(u) => {
            let ok = c.insert(*u).is_ok() as u64;
            let mut v = note(c);
            v.push(ok);
            v
        }
        Act::Reverse => {
            c.reverse();
            note(c)
        }
        Act::Split(u, left) => {
            if let Ok((l, r)) = c.split(*u) {
                *c = if *left { l } else { r };
            }
            note(c)
        }
        Act::Derivative(k) => {
            if *k < c.degree() {
                *c = c.get_derivative_curve(*k);
            }
            note(c)
        }
        Act::Merge(how) => {
            let other = reversed(c);
            let r = match how {
                0 => merge(c, &other),
                1 => merge_from(c, &other),
                _ => merge_to(c, &other),
            };
            r.as_ref().map_or(vec![1], note)
        }
        Act::Interpolate => {
            let d = bsplines::curve::points::DataPoints::new(c.points.matrix().clone());
            let pr = bsplines::curve::parameters::methods::equally_spaced(d.segments());
            let Ok(k) = bsplines::curve::knots::methods::averaging(c.degree(), d.segments(), &pr) else { return vec![2] };
            interpolate(&k, &d, &pr).iter().map(|x| x.to_bits()).collect()
        }
        Act::Fit(fixed) => {
            use bsplines::curve::points::methods::fit;
            let d = bsplines::curve::points::DataPoints::new(c.points.matrix().clone());
            let pr = bsplines::curve::parameters::methods::equally_spaced(d.segments());
            let n = c.degree().max(d.segments().saturating_sub(2));
            let Ok(k) = bsplines::curve::knots::methods::uniform(c.degree(), n) else { return vec![3] };
            let r = if *fixed { fit::fixed::fit(&k, &d, &pr, None) } else { fit::loose::fit(&k, &d, &pr, None) };
            r.map_or(vec![4], |m| m.iter().map(|x| x.to_bits()).collect())
        }
    }
}

fn play(s: &Script) -> Vec<Vec<u64>> {
    let mut c = s.curve.build();
    s.acts.iter().map(|a| act(&mut c, a)).collect()
}

pub struct C33;
impl Prop for C33 {
    const ID: &'static str = "C33";
    const RULE: &'static str = "2-4 random curves, often of equal sizes or with equal knots, each with a random script of 3-10 operations; every script is run alone on a new thread, by turns with the others, all at once on their own threads, and once more alone; in addition curves are shared between threads for evaluation; all results must be bit-for-bit the same; non-trivial: at least two curves of equal degree and size";
    const THREADS: bool = true;
    const QUICK: u64 = 14_000;
    const THOROUGH: u64 = 700_000;
    type Case = Independent;
    fn gen(s: &mut Src) -> Independent {
        let count = s.range(2, 4);
        let first = gen::curve(s, &Opts { max_p: 5, max_int: 10, mult: 1, ..PLAIN });
        let mut scripts = vec![];
        for i in 0..count {
            let curve = match s.weighted(&[3, 3, 2]) {
                _ if i == 0 => first.clone(),
                // same knots, other points
                0 => CurveSpec { pts: gen::points(s, first.pts.len(), first.dim(), true), ..first.clone() },
                // other knots of the same number
                1 => {
                    let mut c = first.clone();
                    let k = c.n() - c.p;
                    for i in 0..k {
                        c.u[c.p + 1 + i] = (i as f64 + s.range(1, 9) as f64 / 10.0) / k as f64;
                    }
                    c
                }
                _ => gen::curve(s, &Opts { max_p: 5, max_int: 10, mult: 1, ..PLAIN }),
            };
            let acts = (0..s.range(3, 10))
                .map(|_| {
                    let u = if s.chance(50) { gen::param(s, &curve) } else { s.range(0, 16) as f64 / 16.0 };
                    match s.weighted(&[6, 3, 3, 2, 2, 1, 2, 1, 1]) {
                        0 => Act::Evaluate(u, s.range(0, curve.p)),
                        1 => Act::Basis(u, s.below(curve.pts.len()), s.range(0, curve.p)),
                        2 => Act::Insert(u),
                        3 => Act::Reverse,
                        4 => Act::Split((u * 32.0).round() / 32.0, s.chance(50)),
                        5 => Act::Derivative(s.range(1, 2)),
                        6 => Act::Merge(s.below(3)),
                        7 => Act::Interpolate,
                        _ => Act::Fit(s.chance(50)),
                    }
                })
                .collect();
            scripts.push(Script { curve, acts });
        }
        let total: usize = scripts.iter().map(|x| x.acts.len()).sum();
        let turns = (0..total).map(|_| s.below(count)).collect();
        Independent { scripts, turns }
    }
    fn check(c: &Independent, ctx: &mut Ctx) -> Res {
        let sc = &c.scripts;
        ctx.label(format!("{} curves", sc.len()));
        if sc.iter().enumerate().any(|(i, a)| sc[..i].iter().any(|b| a.curve.p == b.curve.p && a.curve.n() == b.curve.n())) {
            ctx.nontrivial();
        }
        let join = |h: std::thread::ScopedJoinHandle<Vec<Vec<u64>>>| h.join().map_err(|_| "a script panicked".to_string());
        // one after the other, each on a thread of its own
        let mut alone = vec![];
        for s in sc {
            alone.push(std::thread::scope(|t| join(t.spawn(|| play(s))))?);
        }
        let same = |got: &[Vec<u64>], i: usize, how: &str| -> Res {
            for (j, (a, b)) in alone[i].iter().zip(got).enumerate() {
                ensure!(a == b, "{how}: step {j} of script {i} ({:?}) gives another result than alone", sc[i].acts[j]);
            }
            ensure!(got.len() == alone[i].len(), "{how}: {} steps", got.len());
            Ok(())
        };
        // by turns
        let mut cs: Vec<Curve> = sc.iter().map(|s| s.curve.build()).collect();
        let mut got: Vec<Vec<Vec<u64>>> = vec![vec![]; sc.len()];
        for t in c.turns.iter().copied().chain((0..sc.len()).cycle().take(sc.len() * 12)) {
            if let Some(a) = sc[t].acts.get(got[t].len()) {
                let r = act(&mut cs[t], a);
                got[t].push(r);
            }
        }
        for i in 0..sc.len() {
            same(&got[i], i, "by turns")?;
        }
        // at once
        let at_once: Vec<_> = std::thread::scope(|t| {
            let hs: Vec<_> = sc.iter().map(|s| t.spawn(|| play(s))).collect();
            hs.into_iter().map(join).collect()
        });
        for (i, g) in at_once.into_iter().enumerate() {
            same(&g?, i, "at once")?;
        }
        // one curve, many threads
        let shared = &sc[0].curve.build();
        let look = |seed: usize| -> Vec<Vec<u64>> {
            (0..12)
                .map(|i| (i * 5 + seed) % 12)
                .map(|i| (i, bits(&shared.evaluate_derivative(i as f64 / 11.0, i % (shared.degree() + 1)))))
                .map(|(i, mut v)| {
                    v.push(i as u64);
                    v
                })
                .collect()
        };
        let mut views: Vec<Vec<Vec<u64>>> = std::thread::scope(|t| {
            let hs: Vec<_> = (0..3).map(|s| t.spawn(move || look(s))).collect();
            hs.into_iter().map(join).collect::<Result<_, _>>()
        })?;
        views.push(look(4));
        for v in views.iter_mut() {
            v.sort_by_key(|x| *x.last().unwrap());
            ensure!(v.len() == 12, "an evaluation is missing");
        }
        ensure!(views.iter().all(|v| *v == views[0]), "a shared curve evaluates differently on different threads");
        ensure!(snapshot(shared) == snapshot(&sc[0].curve.build()), "evaluation changed a shared curve");
        // and again
        for i in 0..sc.len() {
            same(&play(&sc[i]), i, "again")?;
        }
        ctx.comparisons += alone.iter().flatten().map(|v| v.len() as u64).sum::<u64>();
        Ok(())
    }
}

#[allow(unused)]
fn shareable() {
    fn f<T: Send + Sync>() {}
    f::<Curve>();
    f::<Knots>();
}
