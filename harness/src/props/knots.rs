//! Knots and parameters: C17, C18, C25, C26.
use bsplines::curve::{
    knots::{self, is_uniform, methods, DomainKnotComparatorType as Cmp, Knots},
    parameters::{self, Parameters},
    CurveError,
};
use nalgebra::DVector;
use serde::{Deserialize, Serialize};

use super::{
    generate::{data, explicit_params, KnotKind, ParamKind},
    *,
};
use crate::{
    engine::Prop,
    gen::{self, data_points, Opts, WIDE, X},
    src::Src,
};

fn sqrt(x: Dd) -> Dd {
    if x.f() <= 0.0 {
        return Dd::from(0.0);
    }
    let s = Dd::from(x.f().sqrt());
    // one Newton step
    s + (x - s * s) / (Dd::from(2.0) * s)
}

/// Parameters of the data by the textbook formulas; empty if all points coincide.
pub fn parametrise(kind: ParamKind, pts: &[Vec<f64>]) -> Vec<f64> {
    let m = pts.len() - 1;
    let mut cum = vec![Dd::from(0.0)];
    for g in 1..=m {
        let step = match kind {
            ParamKind::Equal => Dd::from(1.0),
            _ => {
                let sq = (0..pts[0].len()).fold(Dd::from(0.0), |a, c| {
                    let d = Dd::from(pts[g][c]) - Dd::from(pts[g - 1][c]);
                    a + d * d
                });
                let len = sqrt(sq);
                if kind == ParamKind::Centripetal {
                    sqrt(len)
                } else {
                    len
                }
            }
        };
        let last = *cum.last().unwrap();
        cum.push(last + step);
    }
    let total = *cum.last().unwrap();
    if total.f() == 0.0 {
        return vec![];
    }
    cum.into_iter().map(|x| (x / total).f()).collect()
}

/// Knots by the textbook formulas (Piegl and Tiller, eqs. 9.7, 9.8, 9.68, 9.69).
pub fn place(kind: KnotKind, p: usize, n: usize, params: &[f64]) -> Option<Vec<f64>> {
    if kind != KnotKind::Uniform && params.is_empty() {
        return None;
    }
    let mut u = vec![0.0; p + 1];
    for j in 1..=n - p {
        u.push(match kind {
            KnotKind::Uniform => (Dd::from(j as f64) / Dd::from((n - p + 1) as f64)).f(),
            KnotKind::Averaging => (params[j..j + p].iter().fold(Dd::from(0.0), |a, x| a + Dd::from(*x)) / Dd::from(p as f64)).f(),
            KnotKind::DeBoor => {
                let (num, den) = (j * params.len(), n - p + 1);
                let i = num / den;
                let alpha = Dd::from((num % den) as f64) / Dd::from(den as f64);
                let hi = if num % den == 0 { 0.0 } else { params[i] };
                ((Dd::from(1.0) - alpha) * Dd::from(params[i - 1]) + alpha * Dd::from(hi)).f()
            }
        });
    }
    u.extend(vec![1.0; p + 1]);
    Some(u)
}

// ------------------------------------------------------------------------ C17

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct PlacementCase {
    pub kind: KnotKind,
    pub p: usize,
    pub n: usize,
    pub params: Vec<f64>,
}

pub struct C17;
impl Prop for C17 {
    const ID: &'static str = "C17";
    const RULE: &'static str = "degree 1-10, up to 130 segments, ascending parameters that are equally spaced, irregular, repeated or derived from random data; de Boor's placement also with more parameters than control points; knots against the textbook formulas, clamped, ascending, each span holding a parameter (de Boor), interlaced with the parameters (averaging); non-trivial: at least two internal knots and parameters that are not equally spaced";
    const QUICK: u64 = 1_500_000;
    const THOROUGH: u64 = 30_000_000;
    type Case = PlacementCase;
    fn gen(s: &mut Src) -> PlacementCase {
        let kind = s.pick(&[KnotKind::Averaging, KnotKind::DeBoor, KnotKind::DeBoor, KnotKind::Uniform]);
        let p = match s.weighted(&[5, 1]) {
            0 => s.range(1, 5),
            _ => s.range(5, 10),
        };
        let n = p + match s.weighted(&[4, 4, 1]) {
            0 => s.range(0, 4),
            1 => s.range(2, 20),
            _ => s.range(20, 120),
        };
        let m = if kind == KnotKind::DeBoor { n + s.pick(&[0, 0, 1, 2, 5, 10, 37, 150]) } else { n };
        let mut params = match s.weighted(&[1, 3, 2, 1]) {
            0 => (0..=m).map(|g| g as f64 / m as f64).collect::<Vec<_>>(),
            1 => explicit_params(s, m.min(160)),
            2 => {
                let k = s.pick(&[ParamKind::Centripetal, ParamKind::Chord]);
                parametrise(k, &data(s, m.min(160) + 1))
            }
            _ => {
                let mut v: Vec<f64> = (0..=m).map(|_| s.unit53()).collect();
                v.sort_by(|a, b| a.partial_cmp(b).unwrap());
                v[0] = 0.0;
                v[m] = 1.0;
                v
            }
        };
        if params.len() != m + 1 {
            params = (0..=m).map(|g| g as f64 / m as f64).collect();
        }
        if s.chance(20) {
            for _ in 0..s.range(1, 3) {
                let g = s.range(1, m);
                params[g - 1] = params[g];
            }
            params[0] = 0.0;
            for g in 1..=m {
                params[g] = params[g].max(params[g - 1]);
            }
            params[m] = 1.0;
        }
        PlacementCase { kind, p, n, params }
    }
    fn check(c: &PlacementCase, ctx: &mut Ctx) -> Res {
        let (p, n, m) = (c.p, c.n, c.params.len() - 1);
        let params = Parameters::new(DVector::from_vec(c.params.clone()), m);
        let direct = match c.kind {
            KnotKind::Uniform => methods::uniform(p, n),
            KnotKind::Averaging => methods::averaging(p, n, &params),
            KnotKind::DeBoor => methods::de_boor(p, n, &params),
        };
        let k = knots::generate(p, n, &params, c.kind.method()).map_err(|e| format!("refused: {e:?}"))?;
        let direct = direct.map_err(|e| format!("refused: {e:?}"))?;
        ensure!(k.vector() == direct.vector(), "the dispatching function and the method differ");
        ctx.label(format!("{:?}", c.kind));
        if c.kind == KnotKind::DeBoor && m > n {
            ctx.label("more parameters than control points");
        }
        let equal = (0..=m).all(|g| (c.params[g] - g as f64 / m as f64).abs() < 1e-12);
        if n >= p + 2 && !equal {
            ctx.nontrivial();
        }
        let u: Vec<f64> = k.vector().iter().copied().collect();
        ensure!(k.degree() == p && k.segments() == n && u.len() == n + p + 2, "{} knots for degree {p} and {n} segments", u.len());
        ensure!(
            (0..=p).all(|i| u[i] == 0.0 && u[n + 1 + i] == 1.0) && is_clamped(&k) && is_normed(&k),
            "not clamped to 0 and 1: {u:?}"
        );
        for i in 1..u.len() {
            ensure!(u[i] >= u[i - 1] - 1e-15, "knots {} and {i} are not ascending: {:?}, {:?}", i - 1, u[i - 1], u[i]);
        }
        for (kk, w) in (0..=p).map(|kk| (kk, k.vector_derivative(kk))) {
            ensure!(w.as_slice() == &u[kk..u.len() - kk], "knots of derivative {kk} do not belong to the knots");
        }
        let want = place(c.kind, p, n, &c.params).unwrap();
        for i in 0..u.len() {
            ensure!(ctx.close(u[i], want[i], 2e-14), "knot {i} is {:?}, expected {:?}", u[i], want[i]);
        }
        match c.kind {
            KnotKind::Uniform => {
                ensure!(is_uniform(&k) == Ok(true), "uniform knots are not recognised as uniform");
            }
            KnotKind::DeBoor => {
                for l in p..=n {
                    ensure!(
                        c.params.iter().any(|x| *x >= u[l] - 1e-12 && *x <= u[l + 1] + 1e-12),
                        "no parameter lies in the knot span [{:?}, {:?}]",
                        u[l],
                        u[l + 1]
                    );
                }
            }
            KnotKind::Averaging => {
                // Schoenberg-Whitney
                for i in 1..n {
                    ensure!(u[i] <= c.params[i] + 1e-14 && c.params[i] <= u[i + p + 1] + 1e-14, "parameter {i} is outside the support of basis function {i}");
                }
            }
        }
        if c.kind != KnotKind::Uniform && (p + 1..=n).any(|i| (u[i] - (i - p) as f64 / (n - p + 1) as f64).abs() > 1e-9) {
            ensure!(is_uniform(&k) == Ok(false), "knots are taken for uniform: {u:?}");
        }
        // limits
        if n == p {
            for bad in [0, n + 1] {
                let e = if bad == 0 { CurveError::DegreeTooLow { p: 0, limit: 0 } } else { CurveError::DegreeAndSegmentsMismatch { p: bad, n } };
                let r = knots::generate(bad, n, &params, c.kind.method()).map(|k| k.degree());
                ensure!(r == Err(e), "degree {bad} with {n} segments gives {r:?}");
            }
        }
        Ok(())
    }
}

// ------------------------------------------------------------------------ C18

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ParamCase {
    pub kind: ParamKind,
    pub pts: Vec<Vec<f64>>,
}

pub struct C18;
impl Prop for C18 {
    const ID: &'static str = "C18";
    const RULE: &'static str = "2-160 data points in 1-12 dimensions, scaled from 1e-100 to 1e100 (centripetal: from 1e-12), with repeated neighbours, all three parametrisations; parameters against the textbook formulas in extended precision, starting at 0, ending at 1, never descending or leaving the interval, mirrored for mirrored data; non-trivial: at least three points that are not equally spaced";
    const QUICK: u64 = 1_500_000;
    const THOROUGH: u64 = 30_000_000;
    type Case = ParamCase;
    fn gen(s: &mut Src) -> ParamCase {
        let kind = s.pick(&[ParamKind::Centripetal, ParamKind::Chord, ParamKind::Equal]);
        let m = match s.weighted(&[4, 3, 1]) {
            0 => s.range(1, 8),
            1 => s.range(5, 40),
            _ => s.range(30, 160),
        };
        let mut pts = if s.chance(60) {
            let dim = gen::dimension(s, 12);
            gen::points(s, m + 1, dim, false)
        } else {
            data(s, m + 1)
        };
        if s.chance(30) {
            for _ in 0..s.range(1, 4) {
                let g = s.range(1, m);
                pts[g] = pts[g - 1].clone();
            }
        }
        // tiny distances are refused by an assertion of the centripetal method
        let size = |a: &Vec<f64>, b: &Vec<f64>| a.iter().zip(b).fold(0.0, |m: f64, (x, y)| m.max((x - y).abs()));
        let far = pts.windows(2).fold(0.0, |m: f64, w| m.max(size(&w[0], &w[1])));
        if kind == ParamKind::Centripetal && far > 0.0 && far < 1e-12 {
            pts.iter_mut().flatten().for_each(|x| *x /= far);
        }
        ParamCase { kind, pts }
    }
    fn check(c: &ParamCase, ctx: &mut Ctx) -> Res {
        let m = c.pts.len() - 1;
        let want = parametrise(c.kind, &c.pts);
        if want.is_empty() {
            ctx.exclude("all points coincide");
            return Ok(());
        }
        ctx.label(format!("{:?}", c.kind));
        if (0..=m).any(|g| (want[g] - g as f64 / m as f64).abs() > 1e-9) {
            ctx.nontrivial();
        }
        if want.windows(2).any(|w| w[0] == w[1]) {
            ctx.label("repeated parameters");
        }
        let mut d = data_points(&c.pts);
        let got = parameters::generate(&d, c.kind.method());
        let direct = match c.kind {
            ParamKind::Equal => parameters::methods::equally_spaced(m),
            ParamKind::Centripetal => parameters::methods::centripetal(&d),
            ParamKind::Chord => parameters::methods::chord_length(&d),
        };
        let v: Vec<f64> = got.vector().iter().copied().collect();
        ensure!(got.vector() == direct.vector(), "the dispatching function and the method differ");
        ensure!(v.len() == m + 1 && got.segments() == m, "{} parameters and {} segments for {} points", v.len(), got.segments(), m + 1);
        ensure!(v[0] == 0.0 && v[m] == 1.0, "parameters run from {:?} to {:?}", v[0], v[m]);
        for g in 1..=m {
            ensure!(v[g] >= v[g - 1] && v[g] <= 1.0, "parameter {g} is {:?} after {:?}", v[g], v[g - 1]);
        }
        for g in 0..=m {
            ensure!(ctx.close(v[g], want[g], 4e-16 * (m + 8) as f64), "parameter {g} is {:?}, expected {:?}", v[g], want[g]);
        }
        d.reverse();
        let back = parameters::generate(&d, c.kind.method());
        for g in 0..=m {
            let x = back.vector()[m - g];
            ensure!(ctx.close(1.0 - x, v[g], 8e-16 * (m + 8) as f64), "parameter {} of the reversed data is {x:?}, expected {:?}", m - g, 1.0 - v[g]);
        }
        Ok(())
    }
}

// ------------------------------------------------------------------------ C25

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct QueryCase {
    pub p: usize,
    pub u: Vec<f64>,
    pub at: Vec<X>,
}

/// Ascending knots that may start and end anywhere, clamped or not.
fn any_knots(s: &mut Src) -> (usize, Vec<f64>) {
    let o = Opts { mult: 2, max_int: 30, ..WIDE };
    let p = match s.weighted(&[5, 1]) {
        0 => s.range(1, 4),
        _ => s.range(4, 9),
    };
    let mut u = gen::knots(s, p, &o);
    if s.chance(35) {
        // unclamped, with repetitions
        let n = u.len();
        let mut x = s.range(0, 8) as f64 - 4.0;
        for v in u.iter_mut() {
            *v = x;
            if !s.chance(25) {
                x += s.range(1, 8) as f64 / 8.0;
            }
        }
        if u[0] == u[n - 1] {
            u[n - 1] += 1.0;
        }
    } else if s.chance(30) {
        let (lo, len) = (s.range(0, 20) as f64 - 10.0, s.pick(&[1.0, 2.0, 0.5, 10.0, 1000.0]));
        u.iter_mut().for_each(|x| *x = lo + *x * len);
    }
    (p, u)
}

pub struct C25;
impl Prop for C25 {
    const ID: &'static str = "C25";
    const RULE: &'static str = "clamped and unclamped knot vectors (degree 1-9, repetitions, any range), parameters at knots, next to them, between and outside; all four neighbour searches for every derivative order against a linear scan, multiplicities, domain, internal knots and counts against their definitions; non-trivial: repeated knots inside or next to the searched parameter";
    const QUICK: u64 = 1_500_000;
    const THOROUGH: u64 = 30_000_000;
    type Case = QueryCase;
    fn gen(s: &mut Src) -> QueryCase {
        let (p, u) = any_knots(s);
        let at = (0..s.range(1, 8))
            .map(|_| {
                let k = u[s.below(u.len())];
                X(match s.weighted(&[4, 2, 2, 1, 1]) {
                    0 => k,
                    1 => {
                        let i = s.range(1, u.len() - 1);
                        u[i - 1] + (u[i] - u[i - 1]) * s.unit()
                    }
                    2 => if s.chance(50) { k.next_up() } else { k.next_down() },
                    3 => s.pick(&[f64::NEG_INFINITY, f64::INFINITY, -1e300, 1e300]),
                    _ => s.unit() * 4.0 - 2.0,
                })
            })
            .collect();
        QueryCase { p, u, at }
    }
    fn check(c: &QueryCase, ctx: &mut Ctx) -> Res {
        let p = c.p;
        let k = Knots::new(p, DVector::from_vec(c.u.clone()));
        let n = c.u.len() - p - 2;
        let dom = &c.u[p..=n + 1];
        ensure!(k.degree() == p && k.max_derivative() == p, "degree {} with {} derivatives", k.degree(), k.max_derivative());
        ensure!(k.vector().as_slice() == &c.u[..], "the knots were changed");
        ensure!(k.segments() == n, "{} segments, expected {n}", k.segments());
        ensure!(k.internal_count() == n - p && k.internal().iter().copied().eq(c.u[p + 1..=n].iter().copied()), "internal knots: {:?}", k.internal());
        ensure!(k.domain_count() == n - p + 2 && k.domain().iter().copied().eq(dom.iter().copied()), "domain knots: {:?}", k.domain());
        for i in 0..n - p {
            ensure!(k.internal_knot(i) == c.u[p + 1 + i], "internal knot {i} is {:?}", k.internal_knot(i));
        }
        for (i, x) in dom.iter().enumerate() {
            ensure!(k.domain_knot(i) == *x, "domain knot {i} is {:?}", k.domain_knot(i));
        }
        for d in 0..=p {
            let w = &c.u[d..c.u.len() - d];
            ensure!(k.len(d) == w.len() && k.vector_derivative(d).as_slice() == w, "knots of derivative {d}: {:?}", k.vector_derivative(d).as_slice());
            ensure!(k.segments_derivative(d) == n, "{} segments for derivative {d}", k.segments_derivative(d));
            ensure!(k.domain_derivative(d).iter().copied().eq(dom.iter().copied()), "domain of derivative {d} differs");
        }
        ctx.label(if (0..=p).all(|i| c.u[i] == c.u[0] && c.u[n + 1 + i] == c.u[n + 1]) { "clamped" } else { "unclamped" });
        for x in &c.at {
            let x = x.0;
            let mult = dom.iter().filter(|y| **y == x).count();
            ensure!(k.multiplicity(x) == mult, "multiplicity of {x:?} is {}, expected {mult}", k.multiplicity(x));
            let (lo, hi) = (dom[0], dom[dom.len() - 1]);
            ctx.label(if x < lo || x > hi { "outside the domain" } else if mult > 0 { "at a knot" } else { "between knots" });
            if dom.windows(2).any(|w| w[0] == w[1]) && x >= lo && x <= hi {
                ctx.nontrivial();
            }
            for d in 0..=p {
                let w = &c.u[d..c.u.len() - d];
                let (first, last) = (p - d, n + 1 - d);
                let at = |cmp, name: &str, a: usize, b: usize| -> Result<f64, String> {
                    let i = k.find_idx(x, d, cmp);
                    ensure!(i >= a && i <= b, "{name} of {x:?} for derivative {d} is index {i}, outside {a}..={b}");
                    Ok(w[i])
                };
                // neighbours to the left never are the end of the domain and vice versa
                let inner = &w[first..last];
                let left = inner.iter().rev().find(|y| **y < x).copied().unwrap_or(w[first]);
                let left_eq = inner.iter().rev().find(|y| **y <= x).copied().unwrap_or(w[first]);
                let right = w[first + 1..=last].iter().find(|y| **y > x).copied().unwrap_or(w[last]);
                let right_eq = w[first..=last].iter().find(|y| **y >= x).copied().unwrap_or(w[last]);
                let got = at(Cmp::Left, "the knot before", first, last - 1)?;
                ensure!(got == left, "the knot before {x:?} is {got:?}, expected {left:?} (derivative {d})");
                let got = at(Cmp::LeftOrEqual, "the knot at or before", first, last - 1)?;
                ensure!(got == left_eq, "the knot at or before {x:?} is {got:?}, expected {left_eq:?} (derivative {d})");
                let got = at(Cmp::Right, "the knot after", first + 1, last)?;
                ensure!(got == right, "the knot after {x:?} is {got:?}, expected {right:?} (derivative {d})");
                let got = at(Cmp::RightOrEqual, "the knot at or after", first, last)?;
                ensure!(got == right_eq, "the knot at or after {x:?} is {got:?}, expected {right_eq:?} (derivative {d})");
            }
        }
        Ok(())
    }
}

// ------------------------------------------------------------------------ C26

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct RescaleCase {
    pub p: usize,
    pub u: Vec<f64>,
    pub to: (f64, f64),
    /// Changes a knot, to see whether the predicates notice.
    pub dent: Option<(usize, f64)>,
}

pub struct C26;
impl Prop for C26 {
    const ID: &'static str = "C26";
    const RULE: &'static str = "clamped and unclamped knot vectors of any range, normalised and rescaled to random intervals and back: the map must be affine, exact at the ends and order-preserving, for all derivatives alike; clamped, normed, sorted and uniform predicates against their definitions, also after changing one knot by a rounding error or more; non-trivial: knots that are not normed already";
    const QUICK: u64 = 1_500_000;
    const THOROUGH: u64 = 30_000_000;
    type Case = RescaleCase;
    fn gen(s: &mut Src) -> RescaleCase {
        let (p, mut u) = any_knots(s);
        if s.chance(20) {
            let n = u.len() - p - 2;
            u = place(KnotKind::Uniform, p, n, &[]).unwrap();
        }
        let a = s.range(0, 16) as f64 - 8.0;
        let to = (a, a + s.pick(&[1.0, 0.5, 3.0, 1e-3, 1e3]));
        let dent = s.chance(50).then(|| {
            let i = s.below(u.len());
            (i, match s.below(4) {
                0 => u[i].next_up(),
                1 => u[i].next_down(),
                2 => u[i] + 0.01,
                _ => s.unit() * 2.0 - 0.5,
            })
        });
        RescaleCase { p, u, to, dent }
    }
    fn check(c: &RescaleCase, ctx: &mut Ctx) -> Res {
        let p = c.p;
        let (lo, hi) = (c.u[0], *c.u.last().unwrap());
        let size = lo.abs().max(hi.abs()) / (hi - lo) + 1.0;
        if lo != 0.0 || hi != 1.0 {
            ctx.nontrivial();
        }
        ctx.label(if (0..=p).all(|i| c.u[i] == lo && c.u[c.u.len() - 1 - i] == hi) { "clamped" } else { "unclamped" });
        let build = || Knots::new(p, DVector::from_vec(c.u.clone()));
        let derivs = |k: &Knots, what: &str| -> Res {
            let u = k.vector().as_slice();
            for d in 0..=p {
                let w = k.vector_derivative(d);
                ensure!(w.as_slice() == &u[d..u.len() - d], "{what}: knots of derivative {d} are {:?}, the knots {u:?}", w.as_slice());
            }
            ensure!(u.windows(2).all(|w| w[0] <= w[1]) && is_sorted(k), "{what}: not ascending: {u:?}");
            for i in 1..u.len() {
                ensure!(c.u[i] != c.u[i - 1] || u[i] == u[i - 1], "{what}: equal knots became different");
            }
            Ok(())
        };

        // normalising
        let mut k = build();
        k.normalize();
        derivs(&k, "normalised")?;
        let u = k.vector();
        ensure!(u[0] == 0.0 && u[u.len() - 1] == 1.0 && is_normed(&k), "normalised knots run from {:?} to {:?}", u[0], u[u.len() - 1]);
        for (i, x) in c.u.iter().enumerate() {
            let w = ((Dd::from(*x) - Dd::from(lo)) / (Dd::from(hi) - Dd::from(lo))).f();
            ensure!(ctx.close(u[i], w, 1e-15 * size), "normalised knot {i} is {:?}, expected {w:?}", u[i]);
        }
        let once = u.clone();
        k.normalize();
        ensure!(*k.vector() == once, "normalising twice changes the knots");
        let mut v = DVector::from_vec(c.u.clone());
        let w = knots::normalized(&mut v);
        ensure!(w == once && v.as_slice() == &c.u[..], "normalising a copy differs");
        knots::normalize(&mut v);
        ensure!(v == once, "normalising a vector differs");

        // rescaling
        let mut k = build();
        k.rescale((lo, hi), c.to);
        derivs(&k, "rescaled")?;
        let ext = c.to.0.abs().max(c.to.1.abs()) + (c.to.1 - c.to.0) * size;
        for (i, x) in c.u.iter().enumerate() {
            let t = (Dd::from(*x) - Dd::from(lo)) / (Dd::from(hi) - Dd::from(lo));
            let w = (Dd::from(c.to.0) + t * (Dd::from(c.to.1) - Dd::from(c.to.0))).f();
            ensure!(ctx.close(k.vector()[i], w, 1e-15 * ext), "rescaled knot {i} is {:?}, expected {w:?}", k.vector()[i]);
        }
        k.rescale(c.to, (lo, hi));
        let back = (hi - lo) / (c.to.1 - c.to.0) * ext + lo.abs().max(hi.abs());
        for (i, x) in c.u.iter().enumerate() {
            ensure!(ctx.close(k.vector()[i], *x, 4e-15 * back), "knot {i} is {:?} after rescaling there and back, it was {x:?}", k.vector()[i]);
        }

        // predicates
        let mut u = c.u.clone();
        if let Some((i, x)) = c.dent {
            u[i] = x;
        }
        let k = Knots::new(p, DVector::from_vec(u.clone()));
        let l = u.len();
        let min = u.iter().fold(f64::INFINITY, |a, x| a.min(*x));
        let max = u.iter().fold(f64::NEG_INFINITY, |a, x| a.max(*x));
        let clamped = (0..=p).all(|i| u[i] == 0.0 && u[l - 1 - i] == 1.0);
        let normed = min == 0.0 && max == 1.0;
        let sorted = u.windows(2).all(|w| w[0] <= w[1]);
        ensure!(is_clamped(&k) == clamped, "clamped is {}, expected {clamped}", is_clamped(&k));
        ensure!(is_normed(&k) == normed, "normed is {}, expected {normed}", is_normed(&k));
        ensure!(is_sorted(&k) == sorted, "sorted is {}, expected {sorted}", is_sorted(&k));
        // only one of the limits fits
        let (e, g) = (min + 0.25 * (max - min), max - 0.25 * (max - min));
        for (a, b) in [(e, max), (min, g), (e, g)] {
            let v: Vec<f64> = u.iter().map(|x| x.clamp(a, b)).collect();
            let want = a == 0.0 && b == 1.0;
            ensure!(is_normed(&Knots::new(p, DVector::from_vec(v))) == want, "knots between {a:?} and {b:?}: normed should be {want}");
        }
        let n = l - p - 2;
        let ideal = place(KnotKind::Uniform, p, n, &[]).unwrap();
        let off = (0..l).fold(0.0f64, |a, i| a.max((u[i] - ideal[i]).abs()));
        let got = is_uniform(&k).map_err(|e| format!("uniform predicate failed: {e:?}"))?;
        if clamped && off == 0.0 {
            ctx.label("uniform");
            ensure!(got, "uniform knots are not recognised");
        } else if off > 1e-9 {
            ensure!(!got, "knots are taken for uniform: {u:?}");
        }
        for (name, x) in [("clamped", clamped), ("normed", normed), ("sorted", sorted)] {
            if !x {
                ctx.label(format!("not {name}"));
            }
        }
        Ok(())
    }
}
