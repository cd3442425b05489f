//! Double-double arithmetic (about 106 significant bits). The reference model
//! is evaluated in it so that its own rounding is negligible next to `f64`.
use std::ops::{Add, Div, Mul, Neg, Sub};

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Dd(pub f64, pub f64);

fn two_sum(a: f64, b: f64) -> (f64, f64) {
    let s = a + b;
    let bb = s - a;
    (s, (a - (s - bb)) + (b - bb))
}
fn quick_two_sum(a: f64, b: f64) -> (f64, f64) {
    let s = a + b;
    (s, b - (s - a))
}
fn two_prod(a: f64, b: f64) -> (f64, f64) {
    let p = a * b;
    (p, a.mul_add(b, -p))
}

pub const ZERO: Dd = Dd(0.0, 0.0);
pub const ONE: Dd = Dd(1.0, 0.0);

impl Dd {
    pub fn f(self) -> f64 {
        self.0 + self.1
    }
    pub fn abs(self) -> Dd {
        if self.0 < 0.0 || (self.0 == 0.0 && self.1 < 0.0) {
            -self
        } else {
            self
        }
    }
}
impl From<f64> for Dd {
    fn from(x: f64) -> Dd {
        Dd(x, 0.0)
    }
}
impl PartialOrd for Dd {
    fn partial_cmp(&self, o: &Dd) -> Option<std::cmp::Ordering> {
        match self.0.partial_cmp(&o.0) {
            Some(std::cmp::Ordering::Equal) => self.1.partial_cmp(&o.1),
            r => r,
        }
    }
}
impl Neg for Dd {
    type Output = Dd;
    fn neg(self) -> Dd {
        Dd(-self.0, -self.1)
    }
}
impl Add for Dd {
    type Output = Dd;
    fn add(self, b: Dd) -> Dd {
        let (s, e) = two_sum(self.0, b.0);
        let (t, f) = two_sum(self.1, b.1);
        let (s, e) = quick_two_sum(s, e + t);
        let (s, e) = quick_two_sum(s, e + f);
        Dd(s, e)
    }
}
impl Sub for Dd {
    type Output = Dd;
    fn sub(self, b: Dd) -> Dd {
        self + (-b)
    }
}
impl Mul for Dd {
    type Output = Dd;
    fn mul(self, b: Dd) -> Dd {
        let (p, e) = two_prod(self.0, b.0);
        let (p, e) = quick_two_sum(p, e + (self.0 * b.1 + self.1 * b.0));
        Dd(p, e)
    }
}
impl Div for Dd {
    type Output = Dd;
    fn div(self, b: Dd) -> Dd {
        let q1 = self.0 / b.0;
        let r = self - b * Dd::from(q1);
        let q2 = r.0 / b.0;
        let r = r - b * Dd::from(q2);
        let q3 = r.0 / b.0;
        let (q1, q2) = quick_two_sum(q1, q2);
        Dd(q1, q2) + Dd::from(q3)
    }
}

/// Solves `A X = B` by Gaussian elimination with partial pivoting.
/// Returns the solution and the smallest pivot relative to its row scale.
pub fn solve(mut a: Vec<Vec<Dd>>, mut b: Vec<Vec<Dd>>) -> Option<(Vec<Vec<Dd>>, f64)> {
    let n = a.len();
    let scale = a.iter().flatten().fold(0.0f64, |m, x| m.max(x.f().abs()));
    let mut minpiv = f64::INFINITY;
    for c in 0..n {
        let (mut best, mut bv) = (c, a[c][c].abs());
        for r in c + 1..n {
            if a[r][c].abs() > bv {
                best = r;
                bv = a[r][c].abs();
            }
        }
        if bv.f() == 0.0 {
            return None;
        }
        minpiv = minpiv.min(bv.f() / scale);
        a.swap(c, best);
        b.swap(c, best);
        for r in c + 1..n {
            let f = a[r][c] / a[c][c];
            if f.f() == 0.0 {
                continue;
            }
            for k in c..n {
                let t = a[c][k];
                a[r][k] = a[r][k] - f * t;
            }
            for k in 0..b[r].len() {
                let t = b[c][k];
                b[r][k] = b[r][k] - f * t;
            }
        }
    }
    for c in (0..n).rev() {
        for k in 0..b[c].len() {
            let mut s = b[c][k];
            for j in c + 1..n {
                s = s - a[c][j] * b[j][k];
            }
            b[c][k] = s / a[c][c];
        }
    }
    Some((b, minpiv))
}
