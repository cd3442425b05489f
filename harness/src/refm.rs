//! The reference model: B-spline curves evaluated by de Boor's algorithm on
//! local control points, in double-double arithmetic. It shares neither code
//! nor formulas (Cox-de Boor sums over basis functions, cached derivative
//! control points) with the crate under test.
use bsplines::curve::{
    points::{Points},
    Curve,
};

use crate::dd::{Dd, ONE, ZERO};

/// A value together with the size of the terms it was computed from: rounding
/// in any sane `f64` evaluation is a small multiple of `m * f64::EPSILON`.
#[derive(Clone, Copy, Debug)]
pub struct Val {
    pub v: Dd,
    pub m: f64,
}

#[derive(Clone, Debug)]
pub struct RefCurve {
    pub p: usize,
    pub u: Vec<Dd>,
    /// Control points; each has `dim` coordinates.
    pub pts: Vec<Vec<Dd>>,
    pub dim: usize,
}

impl RefCurve {
    pub fn new(p: usize, u: &[f64], pts: &[Vec<f64>]) -> Self {
        RefCurve {
            p,
            u: u.iter().map(|x| Dd::from(*x)).collect(),
            dim: pts.first().map_or(0, |q| q.len()),
            pts: pts.iter().map(|q| q.iter().map(|x| Dd::from(*x)).collect()).collect(),
        }
    }
    /// Reads the public knots and control points of a curve.
    pub fn of(c: &Curve) -> Self {
        let m = c.points.matrix();
        let pts: Vec<Vec<f64>> = (0..m.ncols()).map(|j| m.column(j).iter().copied().collect()).collect();
        let mut r = Self::new(c.degree(), c.knots.vector().as_slice(), &pts);
        r.dim = m.nrows();
        r
    }
    pub fn n(&self) -> usize {
        self.pts.len() - 1
    }
    pub fn lo(&self) -> Dd {
        self.u[self.p]
    }
    pub fn hi(&self) -> Dd {
        self.u[self.n() + 1]
    }
    /// Index of the polynomial piece that owns `u`: pieces are closed on the
    /// left, the last one on both sides. With `left`, closed on the right.
    pub fn span(&self, u: Dd, left: bool) -> usize {
        let n = self.n();
        let mut best = None;
        let mut last = None;
        let mut first = None;
        for l in self.p..=n {
            if self.u[l] < self.u[l + 1] {
                if first.is_none() {
                    first = Some(l);
                }
                last = Some(l);
                if (!left && self.u[l] <= u) || (left && self.u[l] < u) {
                    best = Some(l);
                }
            }
        }
        if u >= self.hi() {
            return last.expect("non-empty domain");
        }
        best.or(first).expect("non-empty domain")
    }
    /// `k`-th derivative at `u`.
    pub fn eval(&self, u: Dd, k: usize, left: bool) -> Vec<Val> {
        if k > self.p {
            return vec![Val { v: ZERO, m: 0.0 }; self.dim];
        }
        self.eval_piece(self.span(u, left), u, k)
    }
    /// `k`-th derivative at `u`; as size, the largest of the (derivative)
    /// control points it depends on.
    pub fn eval_local(&self, u: Dd, k: usize, left: bool) -> Vec<Val> {
        if k > self.p {
            return self.eval(u, k, left);
        }
        let l = self.span(u, left);
        let m = self.local_size(l, k);
        self.eval_piece(l, u, k).into_iter().zip(m).map(|(x, m)| Val { v: x.v, m }).collect()
    }
    /// Size of the derivative control points of a piece, per coordinate.
    pub fn local_size(&self, l: usize, k: usize) -> Vec<f64> {
        let p = self.p;
        (0..self.dim)
            .map(|c| {
                let mut d: Vec<f64> = (0..=p).map(|j| self.pts[l - p + j][c].f().abs()).collect();
                for r in 1..=k {
                    for j in 0..=p - r {
                        let f = (p - r + 1) as f64 / (self.u[l + 1 + j] - self.u[l - p + j + r]).f();
                        d[j] = f.abs() * (d[j + 1] + d[j]);
                    }
                }
                d[..=p - k].iter().fold(0.0, |m, x| f64::max(m, *x))
            })
            .collect()
    }
    /// `k`-th derivative at `u` of the polynomial piece over `[u_l, u_{l+1}]`.
    pub fn eval_piece(&self, l: usize, u: Dd, k: usize) -> Vec<Val> {
        let p = self.p;
        let q = p - k;
        let w = self.weights(l, u, q);
        (0..self.dim)
            .map(|c| {
                let mut d: Vec<(Dd, f64)> = (0..=p)
                    .map(|j| {
                        let x = self.pts[l - p + j][c];
                        (x, x.f().abs())
                    })
                    .collect();
                for r in 1..=k {
                    for j in 0..=p - r {
                        let f = Dd::from((p - r + 1) as f64) / (self.u[l + 1 + j] - self.u[l - p + j + r]);
                        d[j] = (f * (d[j + 1].0 - d[j].0), f.f().abs() * (d[j + 1].1 + d[j].1));
                    }
                }
                let mut at = 0;
                for r in 1..=q {
                    for j in (r..=q).rev() {
                        let a = w[at];
                        at += 1;
                        let b = ONE - a;
                        d[j] = (
                            b * d[j - 1].0 + a * d[j].0,
                            b.f().abs() * d[j - 1].1 + a.f().abs() * d[j].1,
                        );
                    }
                }
                Val { v: d[q].0, m: d[q].1 }
            })
            .collect()
    }
    fn weights(&self, l: usize, u: Dd, q: usize) -> Vec<Dd> {
        let mut w = vec![];
        for r in 1..=q {
            for j in (r..=q).rev() {
                let lo = self.u[l - q + j];
                w.push((u - lo) / (self.u[l + 1 + j - r] - lo));
            }
        }
        w
    }
    /// Largest absolute local control point coordinate of a piece, per coordinate.
    pub fn local_max(&self, l: usize) -> Vec<f64> {
        (0..self.dim)
            .map(|c| (0..=self.p).fold(0.0f64, |m, j| m.max(self.pts[l - self.p + j][c].f().abs())))
            .collect()
    }
    /// Largest absolute coordinate of all control points, per coordinate.
    pub fn max(&self) -> Vec<f64> {
        (0..self.dim).map(|c| self.pts.iter().fold(0.0f64, |m, q| m.max(q[c].f().abs()))).collect()
    }
    pub fn scale(&self) -> f64 {
        self.max().into_iter().fold(0.0, f64::max)
    }
    /// Non-empty pieces.
    pub fn pieces(&self) -> Vec<usize> {
        (self.p..=self.n()).filter(|l| self.u[*l] < self.u[l + 1]).collect()
    }
    pub fn min_gap(&self) -> f64 {
        self.pieces().iter().map(|l| (self.u[l + 1] - self.u[*l]).f()).fold(f64::INFINITY, f64::min)
    }
    /// Control points of the `k`-th derivative, with the size of their terms.
    pub fn deriv_points(&self, k: usize) -> Vec<Vec<Val>> {
        let (p, n) = (self.p, self.n());
        let mut d: Vec<Vec<Val>> =
            self.pts.iter().map(|q| q.iter().map(|x| Val { v: *x, m: x.f().abs() }).collect()).collect();
        for r in 1..=k {
            let mut e = vec![];
            for i in 0..=n - r {
                let den = self.u[i + p + 1] - self.u[i + r];
                e.push(
                    (0..self.dim)
                        .map(|c| {
                            if den.f() == 0.0 {
                                Val { v: ZERO, m: 0.0 }
                            } else {
                                let f = Dd::from((p - r + 1) as f64) / den;
                                Val {
                                    v: f * (d[i + 1][c].v - d[i][c].v),
                                    m: f.f().abs() * (d[i + 1][c].m + d[i][c].m),
                                }
                            }
                        })
                        .collect(),
                );
            }
            d = e;
        }
        d
    }
    /// All basis function values `N_i^{(k)}(u)`, `i = 0..=n` (for `k > 0`, the
    /// derivatives of the degree-`p` functions).
    pub fn basis_row(p: usize, u: &[f64], x: f64, k: usize, left: bool) -> Vec<f64> {
        let n = u.len() - p - 2;
        let probe = RefCurve {
            p,
            u: u.iter().map(|t| Dd::from(*t)).collect(),
            dim: 0,
            pts: vec![vec![]; n + 1],
        };
        let l = probe.span(Dd::from(x), left);
        let mut row = vec![0.0; n + 1];
        if k > p {
            return row;
        }
        let local = RefCurve {
            p,
            u: probe.u,
            dim: p + 1,
            pts: (0..=n)
                .map(|i| (0..=p).map(|c| if i + p == l + c { ONE } else { ZERO }).collect())
                .collect(),
        };
        for (c, v) in local.eval_piece(l, Dd::from(x), k).into_iter().enumerate() {
            row[l - p + c] = v.v.f();
        }
        row
    }
    pub fn reversed(&self) -> RefCurve {
        let (lo, hi) = (self.u[0], self.u[self.u.len() - 1]);
        RefCurve {
            p: self.p,
            u: self.u.iter().rev().map(|x| lo + hi - *x).collect(),
            pts: self.pts.iter().rev().cloned().collect(),
            dim: self.dim,
        }
    }
}

/// `lo + (hi-lo)*num/den`, in double-double.
pub fn lerp(lo: Dd, hi: Dd, t: f64) -> Dd {
    lo + (hi - lo) * Dd::from(t)
}

/// The smallest change of the control points next to the joint that makes two
/// curves join with `p-1` continuous derivatives and keeps the constrained
/// points in place.
pub struct MergeRef {
    pub a: RefCurve,
    pub b: RefCurve,
    /// Condition number and smallest singular value of the linear system.
    pub cond: f64,
    pub smallest: f64,
    /// Largest coordinate of all control points before and after.
    pub scale: f64,
}

pub fn merge_ref(a: &RefCurve, b: &RefCurve, ca: &[f64], cb: &[f64]) -> Option<MergeRef> {
    use nalgebra::DMatrix;
    let p = a.p;
    let (m, o) = (a.n(), b.n());
    let af: Vec<f64> = a.u.iter().map(|x| x.f()).collect();
    let bf: Vec<f64> = b.u.iter().map(|x| x.f()).collect();
    let mut rows: Vec<Vec<Dd>> = vec![];
    let mut rhs: Vec<Vec<Dd>> = vec![];
    let unit = |c: &RefCurve, lo: usize| RefCurve {
        p,
        u: c.u.clone(),
        dim: p,
        pts: (0..=c.n()).map(|i| (0..p).map(|j| if i == lo + j { ONE } else { ZERO }).collect()).collect(),
    };
    let (ua, ub) = (unit(a, m - p + 1), unit(b, 0));
    let _ = o;
    for k in 0..p {
        let mut row: Vec<Dd> = ua.eval(ONE, k, true).into_iter().map(|v| v.v).collect();
        row.extend(ub.eval(ZERO, k, false).into_iter().map(|v| -v.v));
        rows.push(row);
        let ea = a.eval(ONE, k, true);
        let eb = b.eval(ZERO, k, false);
        rhs.push(ea.iter().zip(&eb).map(|(x, y)| y.v - x.v).collect());
    }
    let mut add = |row: Vec<Dd>| {
        let zero = row.iter().all(|x| x.f() == 0.0);
        if !zero && !rows.contains(&row) {
            rows.push(row);
            rhs.push(vec![ZERO; a.dim]);
        }
    };
    for g in ca {
        let w = RefCurve::basis_row(p, &af, *g, 0, false);
        let mut row: Vec<Dd> = w[m - p + 1..].iter().map(|x| Dd::from(*x)).collect();
        row.extend(vec![ZERO; p]);
        add(row);
    }
    for h in cb {
        let w = RefCurve::basis_row(p, &bf, *h, 0, false);
        let mut row = vec![ZERO; p];
        row.extend(w[..p].iter().map(|x| Dd::from(*x)));
        add(row);
    }
    // conditioning of the system with Lagrange multipliers, unscaled
    let c = rows.len();
    let mut kkt = DMatrix::<f64>::zeros(2 * p + c, 2 * p + c);
    for i in 0..2 * p {
        kkt[(i, i)] = 1.0;
    }
    for (i, r) in rows.iter().enumerate() {
        for (j, x) in r.iter().enumerate() {
            kkt[(2 * p + i, j)] = x.f();
            kkt[(j, 2 * p + i)] = 0.5 * x.f();
        }
    }
    if kkt.iter().any(|x| !x.is_finite()) {
        return None;
    }
    let sv = kkt.singular_values();
    let (smax, smin) = (sv.max(), sv.min());
    // x = A^T (A A^T)^-1 r with scaled rows
    for (row, r) in rows.iter_mut().zip(rhs.iter_mut()) {
        let s = row.iter().fold(0.0f64, |m, x| m.max(x.f().abs()));
        let e = Dd::from(2f64.powi(-(s.log2().round() as i32)));
        row.iter_mut().chain(r.iter_mut()).for_each(|x| *x = *x * e);
    }
    let dot = |x: &[Dd], y: &[Dd]| x.iter().zip(y).fold(ZERO, |s, (a, b)| s + *a * *b);
    let gram: Vec<Vec<Dd>> = rows.iter().map(|r| rows.iter().map(|q| dot(r, q)).collect()).collect();
    let (lam, _) = crate::dd::solve(gram, rhs)?;
    let (mut at, mut bt) = (a.clone(), b.clone());
    let mut scale = a.scale().max(b.scale());
    for j in 0..2 * p {
        for d in 0..a.dim {
            let mut x = ZERO;
            for i in 0..c {
                x = x + rows[i][j] * lam[i][d];
            }
            if j < p {
                at.pts[m - p + 1 + j][d] = at.pts[m - p + 1 + j][d] + x;
            } else {
                bt.pts[j - p][d] = bt.pts[j - p][d] + x;
            }
        }
    }
    scale = scale.max(at.scale()).max(bt.scale());
    Some(MergeRef { a: at, b: bt, cond: smax / smin, smallest: smin, scale })
}
