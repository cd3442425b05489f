//! Structured generators: curves, knot vectors, point sets and parameters.
use bsplines::curve::{
    knots::Knots,
    points::{ControlPoints, DataPoints},
    Curve,
};
use nalgebra::{DMatrix, DVector};
use serde::{Deserialize, Deserializer, Serialize, Serializer};

use crate::{refm::RefCurve, src::Src};

/// A float that survives JSON even if it is not finite.
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct X(pub f64);
impl Serialize for X {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        if self.0.is_finite() && !(self.0 == 0.0 && self.0.is_sign_negative()) {
            s.serialize_f64(self.0)
        } else {
            s.serialize_str(&format!("{:?}", self.0))
        }
    }
}
impl<'de> Deserialize<'de> for X {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<X, D::Error> {
        #[derive(Deserialize)]
        #[serde(untagged)]
        enum E {
            F(f64),
            S(String),
        }
        Ok(match E::deserialize(d)? {
            E::F(x) => X(x),
            E::S(s) => X(s.parse().map_err(serde::de::Error::custom)?),
        })
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct CurveSpec {
    pub p: usize,
    pub u: Vec<f64>,
    /// Control points, each with its coordinates.
    pub pts: Vec<Vec<f64>>,
}

pub fn matrix(pts: &[Vec<f64>]) -> DMatrix<f64> {
    let dim = pts.first().map_or(1, |q| q.len());
    DMatrix::from_fn(dim, pts.len(), |r, c| pts[c][r])
}
pub fn columns(m: &DMatrix<f64>) -> Vec<Vec<f64>> {
    (0..m.ncols()).map(|j| m.column(j).iter().copied().collect()).collect()
}
pub fn data_points(pts: &[Vec<f64>]) -> DataPoints {
    DataPoints::new(matrix(pts))
}

impl CurveSpec {
    pub fn n(&self) -> usize {
        self.pts.len() - 1
    }
    pub fn dim(&self) -> usize {
        self.pts[0].len()
    }
    pub fn knots(&self) -> Knots {
        Knots::new(self.p, DVector::from_vec(self.u.clone()))
    }
    pub fn build(&self) -> Curve {
        Curve::new(self.knots(), ControlPoints::new(matrix(&self.pts))).expect("valid curve")
    }
    pub fn reff(&self) -> RefCurve {
        RefCurve::new(self.p, &self.u, &self.pts)
    }
    pub fn internal(&self) -> &[f64] {
        &self.u[self.p + 1..self.n() + 1]
    }
    pub fn mult(&self, x: f64) -> usize {
        self.internal().iter().filter(|k| **k == x).count()
    }
    /// Distinct domain knots.
    pub fn breaks(&self) -> Vec<f64> {
        let mut v: Vec<f64> = self.u[self.p..=self.n() + 1].to_vec();
        v.dedup();
        v
    }
    pub fn max_mult(&self) -> usize {
        self.internal().iter().map(|x| self.mult(*x)).max().unwrap_or(0)
    }
    /// Labels that say which shapes of curve were generated.
    pub fn classes(&self, ctx: &mut crate::engine::Ctx) {
        ctx.label(format!("degree {}", self.p));
        ctx.label(match self.n() - self.p {
            0 => "internal knots: none",
            1..=4 => "internal knots: 1-4",
            5..=20 => "internal knots: 5-20",
            21..=120 => "internal knots: 21-120",
            _ => "internal knots: >120",
        });
        let mm = self.max_mult();
        if mm > 1 {
            ctx.label(if mm > self.p { "knot of multiplicity p+1" } else if mm == self.p { "knot of multiplicity p" } else { "repeated knots" });
        }
        ctx.label(match self.dim() {
            1 => "dimension 1",
            2 | 3 => "dimension 2-3",
            4..=12 => "dimension 4-12",
            _ => "dimension >12",
        });
    }
}

#[derive(Clone, Copy, Debug)]
pub struct Opts {
    pub min_p: usize,
    pub max_p: usize,
    pub max_int: usize,
    /// Highest multiplicity of an internal knot, relative to the degree:
    /// `0` = simple knots only, `1` = up to p, `2` = up to p+1.
    pub mult: usize,
    /// Smallest gap between distinct knots.
    pub min_gap: f64,
    pub max_dim: usize,
    /// Coordinates stay within a few orders of magnitude of one.
    pub tame: bool,
    /// Smallest distance of knots that are placed next to others, if any.
    pub tight: Option<f64>,
}

pub const WIDE: Opts = Opts { min_p: 1, max_p: 10, max_int: 120, mult: 2, min_gap: 1e-6, max_dim: 12, tame: false, tight: Some(0.0) };

fn degree(s: &mut Src, o: &Opts) -> usize {
    let p = match s.weighted(&[560, 140, 70, 1]) {
        0 => s.range(1, 5),
        1 => s.range(5, 7),
        2 => s.range(7, 10),
        // rare: the crate's recursions take 2^p steps
        _ => {
            let p = s.range(11, 12);
            return if o.max_p >= 10 { p } else { o.max_p };
        }
    };
    p.clamp(o.min_p, o.max_p)
}

fn internal_count(s: &mut Src, p: usize, o: &Opts) -> usize {
    let k = match s.weighted(&[600, 2400, 900, 300, 5]) {
        0 => 0,
        1 => s.range(1, 6),
        2 => s.range(5, 24),
        3 => s.range(20, 120),
        _ if p <= 3 && o.max_int >= 120 => return s.range(120, 400),
        _ => s.range(20, 120),
    };
    let cap = if p > 10 { 3 } else if p >= 9 { 12 } else if p >= 7 { 24 } else { 120 };
    k.min(cap).min(o.max_int)
}

/// A clamped knot vector on `[0,1]`.
pub fn knots(s: &mut Src, p: usize, o: &Opts) -> Vec<f64> {
    let want = internal_count(s, p, o);
    let cap = match o.mult {
        0 => 1,
        1 => p,
        _ => p + 1,
    };
    let mut distinct: Vec<f64> = vec![];
    let style = s.weighted(&[3, 3, 3, 2, 2, 1]);
    match style {
        // equally spaced
        0 => {
            for i in 1..=want {
                distinct.push(i as f64 / (want + 1) as f64);
            }
        }
        // on a dyadic grid
        1 => {
            let bits = s.range(2, 8);
            let den = 1usize << bits;
            for _ in 0..want {
                distinct.push(s.range(1, den - 1) as f64 / den as f64);
            }
        }
        // anywhere
        2 => {
            for _ in 0..want {
                distinct.push(if want <= 30 { s.unit53() } else { s.unit() });
            }
        }
        // clusters
        3 => {
            let centre = s.range(1, 15) as f64 / 16.0;
            let e = s.range(2, 6) as i32;
            for _ in 0..want {
                if s.chance(60) {
                    distinct.push(centre + (s.unit() - 0.5) * 10f64.powi(-e));
                } else {
                    distinct.push(s.unit());
                }
            }
        }
        // on a grid of tenths: values that are not representable exactly
        4 => {
            let den = s.pick(&[10usize, 3, 7, 20, 100]);
            for _ in 0..want {
                distinct.push(s.range(1, den - 1) as f64 / den as f64);
            }
        }
        // towards one of the ends
        _ => {
            let r = s.pick(&[0.5, 0.25, 0.7]);
            let front = s.chance(50);
            let mut x = 1.0;
            for _ in 0..want {
                x *= r;
                distinct.push(if front { x } else { 1.0 - x });
            }
        }
    }
    distinct.sort_by(|a, b| a.partial_cmp(b).unwrap());
    let mut out: Vec<f64> = vec![];
    let mut prev = 0.0;
    for x in distinct {
        if x == prev && !out.is_empty() {
            if out.iter().filter(|y| **y == x).count() < cap {
                out.push(x);
            }
        } else if x - prev >= o.min_gap && 1.0 - x >= o.min_gap && x > 0.0 && x < 1.0 {
            out.push(x);
            prev = x;
        }
    }
    // repeat some knots
    if cap > 1 && !out.is_empty() && s.chance(35) {
        for _ in 0..s.range(1, 3) {
            let x = out[s.below(out.len())];
            let times = s.range(1, cap);
            let have = out.iter().filter(|y| **y == x).count();
            let at = out.iter().position(|y| *y == x).unwrap();
            for _ in have..times.max(have) {
                if out.len() < o.max_int.max(cap) {
                    out.insert(at, x);
                }
            }
        }
    }
    // knots right next to others, or to the ends
    if let Some(least) = o.tight {
        if s.chance(10) {
            for _ in 0..s.range(1, 2) {
                let x = match s.below(4) {
                    0 => 0.0,
                    1 => 1.0,
                    _ if out.is_empty() => 0.0,
                    _ => out[s.below(out.len())],
                };
                let y = near(s, x, least);
                if y > 1e-16 && y < 1.0 && !out.contains(&y) && [0.0, 1.0].iter().chain(&out).all(|k| (k - y).abs() >= 0.9 * least) {
                    let at = out.iter().position(|k| *k > y).unwrap_or(out.len());
                    out.insert(at, y);
                }
            }
        }
    }
    let mut u = vec![0.0; p + 1];
    u.extend(out);
    u.extend(vec![1.0; p + 1]);
    u
}

/// A number next to `x`, at least `least` away from it (one floating-point step if zero).
pub fn near(s: &mut Src, x: f64, least: f64) -> f64 {
    let d = s.pick(&[0.0f64, 1e-15, 3e-14, 1e-12, 1e-10, 1e-9, 1e-8, 1e-7, 1e-6]).max(least);
    let up = s.chance(50);
    let y = if up { x + d } else { x - d };
    if y != x {
        y
    } else if up {
        x.next_up()
    } else {
        x.next_down()
    }
}

fn expand(seed: &mut u64) -> f64 {
    *seed = seed.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
    let z = *seed ^ (*seed >> 29);
    (z >> 11) as f64 / 9007199254740992.0
}

/// `count` points with `dim` coordinates.
pub fn points(s: &mut Src, count: usize, dim: usize, tame: bool) -> Vec<Vec<f64>> {
    let style = s.weighted(&[5, 3, 4, 1, 1, 1, 1]);
    let scale = if tame {
        s.pick(&[1.0, 10.0, 0.1, 100.0])
    } else {
        s.pick(&[1.0, 1.0, 10.0, 0.01, 1e3, 1e6, 1e-6, 1e9, 1e-12, 1e-100, 1e100])
    };
    let many = count * dim > 240;
    let mut seed = if many { s.raw() as u64 | 1 } else { 0 };
    let mut pts = vec![vec![0.0; dim]; count];
    let mut unit = |s: &mut Src| if many { expand(&mut seed) } else { s.unit() };
    match style {
        0 => pts.iter_mut().flatten().for_each(|x| *x = (unit(s) * 21.0).floor() - 10.0),
        1 => pts.iter_mut().flatten().for_each(|x| *x = ((unit(s) * 81.0).floor() - 40.0) / 4.0),
        2 => pts.iter_mut().flatten().for_each(|x| *x = (unit(s) * 2.0 - 1.0) * scale),
        // all equal
        3 => {
            let q: Vec<f64> = (0..dim).map(|_| (unit(s) * 21.0).floor() - 10.0).collect();
            pts.iter_mut().for_each(|x| *x = q.clone());
        }
        // on a line
        4 => {
            let d: Vec<f64> = (0..dim).map(|_| (unit(s) * 9.0).floor() - 4.0).collect();
            for (i, q) in pts.iter_mut().enumerate() {
                for c in 0..dim {
                    q[c] = d[c] * i as f64 + c as f64;
                }
            }
        }
        // one point off the origin
        5 => {
            let at = s.below(count);
            for c in 0..dim {
                pts[at][c] = 1.0 + c as f64;
            }
        }
        // coordinates of different size, or an offset
        _ => {
            for q in pts.iter_mut() {
                for (c, x) in q.iter_mut().enumerate() {
                    let e = if tame { (c % 3) as i32 - 1 } else { (c % 5) as i32 * 3 - 6 };
                    *x = (unit(s) * 2.0 - 1.0) * 10f64.powi(e) + if c % 2 == 1 { 100.0 } else { 0.0 };
                }
            }
        }
    }
    tweak(s, &mut pts);
    pts
}

/// Now and then: closed, symmetric or stalling sequences of points, flat coordinates, negative zeros.
pub fn tweak(s: &mut Src, pts: &mut [Vec<f64>]) {
    if !s.chance(12) {
        return;
    }
    let (n, dim) = (pts.len() - 1, pts[0].len());
    match s.below(7) {
        0 => pts[n] = pts[0].clone(),
        1 => (0..=n / 2).for_each(|i| pts[n - i] = pts[i].clone()),
        2 => {
            // a point several times in a row
            let i = s.below(n + 1);
            for j in i..(i + s.range(1, 3)).min(n) {
                pts[j + 1] = pts[j].clone();
            }
        }
        3 => {
            let (i, j) = (s.below(n + 1), s.below(n + 1));
            pts[i] = pts[j].clone();
        }
        4 => {
            let (c, x) = (s.below(dim), s.pick(&[0.0, 1.0, -0.0]));
            pts.iter_mut().for_each(|q| q[c] = x);
        }
        5 => {
            let i = s.below(n + 1);
            pts[i].fill(s.pick(&[0.0, -0.0]));
        }
        _ => {
            // two coordinates alike
            let (c, d) = (s.below(dim), s.below(dim));
            pts.iter_mut().for_each(|q| q[c] = q[d]);
        }
    }
}

pub fn dimension(s: &mut Src, max: usize) -> usize {
    (match s.weighted(&[240, 400, 240, 80, 1]) {
        0 => 1,
        1 => s.range(2, 3),
        2 => s.range(1, 5),
        3 => s.range(4, 12),
        // rare
        _ if max >= 12 => return s.range(13, 40),
        _ => s.range(4, 12),
    })
    .min(max)
}

pub fn curve(s: &mut Src, o: &Opts) -> CurveSpec {
    let p = degree(s, o);
    curve_of_degree(s, p, o)
}

pub fn curve_of_degree(s: &mut Src, p: usize, o: &Opts) -> CurveSpec {
    let dim = dimension(s, o.max_dim);
    curve_of(s, p, dim, o)
}

pub fn curve_of(s: &mut Src, p: usize, dim: usize, o: &Opts) -> CurveSpec {
    let u = knots(s, p, o);
    let n = u.len() - p - 2;
    CurveSpec { p, pts: points(s, n + 1, dim, o.tame), u }
}

pub fn next_up(x: f64) -> f64 {
    x.next_up()
}
pub fn next_down(x: f64) -> f64 {
    x.next_down()
}

/// Parameters in `[0,1]`: knots, their neighbours, midpoints and others.
pub fn param(s: &mut Src, c: &CurveSpec) -> f64 {
    let b = c.breaks();
    let x = match s.weighted(&[4, 3, 2, 1, 1, 3, 1, 1, 1]) {
        8 => {
            let k = s.pick(&b);
            near(s, k, 0.0)
        }
        0 => s.unit(),
        1 => s.pick(&b),
        2 => {
            let i = s.below(b.len() - 1);
            b[i] + (b[i + 1] - b[i]) * 0.5
        }
        3 => next_up(s.pick(&b)),
        4 => next_down(s.pick(&b)),
        5 => {
            let i = s.below(b.len() - 1);
            b[i] + (b[i + 1] - b[i]) * s.unit53()
        }
        6 => s.pick(&[0.0, 1.0]),
        _ => s.pick(&[f64::MIN_POSITIVE, 5e-324, 1e-300, 1e-17, 1.0 - f64::EPSILON / 2.0, 1.0 - 1e-12, 0.5, 1.0 / 3.0]),
    };
    x.clamp(0.0, 1.0)
}

/// Parameters in `(0,1)` for knot insertion and splitting; away from existing
/// knots by `gap` unless equal to one.
pub fn inner_param(s: &mut Src, c: &CurveSpec, gap: f64) -> f64 {
    let b = c.breaks();
    let x = match s.weighted(&[4, 5, 3, 3]) {
        0 => s.range(1, 31) as f64 / 32.0,
        1 if b.len() > 2 => b[s.range(1, b.len() - 2)],
        2 => {
            let i = s.below(b.len() - 1);
            b[i] + (b[i + 1] - b[i]) * s.pick(&[0.5, 0.25, 0.9, 0.1, 1.0 / 3.0])
        }
        _ => s.unit53(),
    };
    snap(&b, x, gap)
}

/// As `inner_param`, now and then right next to an existing knot or an end.
pub fn inner_param_near(s: &mut Src, c: &CurveSpec, gap: f64, least: f64) -> f64 {
    if s.chance(12) {
        let b = c.breaks();
        let k = s.pick(&b);
        let x = near(s, k, least);
        if x > 1e-16 && x < 1.0 && b.iter().all(|k| x == *k || (x - k).abs() >= least) {
            return x;
        }
    }
    inner_param(s, c, gap)
}

/// Moves a parameter that is closer than `gap` to a break, but at none, onto
/// one, and off the ends.
pub fn snap(b: &[f64], x: f64, gap: f64) -> f64 {
    let mut x = x;
    let at_knot = b.contains(&x);
    for k in b {
        if !at_knot && (x - k).abs() < gap {
            x = *k;
        }
    }
    if x <= 0.0 || x >= 1.0 {
        // middle of the first piece
        x = b[1] * 0.5;
    }
    x
}
