//! Merging: C12 to C16.
use bsplines::manipulation::{
    merge::{merge, merge_from, merge_to, Constraints, MergeError},
    reverse::reversed,
};
use serde::{Deserialize, Serialize};

use super::*;
use crate::{
    engine::Prop,
    gen::{self, CurveSpec, Opts, WIDE},
    refm::{merge_ref, MergeRef},
    src::Src,
};

pub const JOIN: Opts = Opts { max_p: 10, max_int: 40, mult: 1, min_gap: 0.02, max_dim: 5, tame: true, tight: None, ..WIDE };

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct MergeCase {
    pub a: CurveSpec,
    pub b: CurveSpec,
    /// Constrained parameters of `a` and `b`.
    #[serde(default)]
    pub ca: Vec<f64>,
    #[serde(default)]
    pub cb: Vec<f64>,
    #[serde(default)]
    pub api: usize,
}

pub fn pair(s: &mut Src, o: &Opts) -> (CurveSpec, CurveSpec) {
    let p = match s.weighted(&[120, 120, 30, 5]) {
        0 => s.range(1, 3),
        1 => s.range(2, 5),
        2 => s.range(4, 7),
        _ => s.range(8, 10),
    }
    .clamp(o.min_p, o.max_p);
    let mut a = gen::curve_of_degree(s, p, o);
    let mut b = gen::curve_of(s, p, a.dim(), o);
    if s.chance(60) {
        // bring the start of b near the end of a
        let end = a.pts[a.n()].clone();
        let start = b.pts[0].clone();
        let gap = if s.chance(50) { 0.0 } else { 1.0 };
        for q in b.pts.iter_mut() {
            for d in 0..q.len() {
                q[d] += end[d] - start[d] + gap;
            }
        }
    }
    if s.chance(8) {
        // they join smoothly, but for a small error
        let r = merge_ref(&a.reff(), &b.reff(), &[], &[]);
        if let Some(r) = r.filter(tame) {
            let pts = |c: &crate::refm::RefCurve| -> Vec<Vec<f64>> { c.pts.iter().map(|q| q.iter().map(|x| x.f()).collect()).collect() };
            (a.pts, b.pts) = (pts(&r.a), pts(&r.b));
            let e = r.scale * 10f64.powi(-(s.range(3, 12) as i32));
            for _ in 0..s.range(0, 2) {
                let (c, first) = if s.chance(50) { (&mut a, 0) } else { (&mut b, 1) };
                let i = s.below(p);
                let at = if first == 1 { i } else { c.pts.len() - 1 - i };
                let d = s.below(c.pts[at].len());
                c.pts[at][d] += e * (s.range(1, 16) as f64 / 8.0 - 1.0);
            }
        }
    }
    if s.chance(6) {
        // a coordinate in which nothing happens
        let (d, x) = (s.below(a.dim()), s.pick(&[0.0, 1.0, -3.0]));
        a.pts.iter_mut().chain(b.pts.iter_mut()).for_each(|q| q[d] = x);
    }
    if s.chance(12) {
        let f = s.pick(&[1e-9, 1e9, 1e-6, 1e6, 1e-3, 1e-12, 1e-80, 1e80]);
        a.pts.iter_mut().chain(b.pts.iter_mut()).flatten().for_each(|x| *x *= f);
    }
    (a, b)
}

pub fn call(c: &MergeCase) -> Result<Curve, String> {
    let (a, b) = (c.a.build(), c.b.build());
    let (sa, sb) = (snapshot(&a), snapshot(&b));
    let plain = c.ca.is_empty() && c.cb.is_empty();
    let ka = || Constraints { params: c.ca.clone() };
    let kb = || Constraints { params: c.cb.clone() };
    let r = match (c.api, plain) {
        (0, true) => merge(&a, &b).map_err(|e| format!("merge failed: {e:?}"))?,
        (1, true) => {
            let mut x = a.clone();
            x.append(&b);
            x
        }
        (2, true) => {
            let mut x = b.clone();
            x.prepend(&a);
            x
        }
        (k, _) if k % 2 == 0 => {
            let mut x = a.clone();
            x.append_constrained(ka(), &b, kb());
            x
        }
        _ => {
            let mut x = b.clone();
            x.prepend_constrained(kb(), &a, ka());
            x
        }
    };
    ensure!(snapshot(&a) == sa && snapshot(&b) == sb, "merging changed an argument");
    Ok(r)
}

/// Knots, sizes and the control points that must stay.
fn structure(ctx: &mut Ctx, c: &MergeCase, g: &Curve) -> Res {
    let (p, m, o) = (c.a.p, c.a.n(), c.b.n());
    ensure!(g.degree() == p && g.dimension() == c.a.dim(), "merged curve has degree {} and dimension {}", g.degree(), g.dimension());
    ensure!(g.points.count() == m + o + 2 - p, "merged curve has {} control points, expected {}", g.points.count(), m + o + 2 - p);
    consistent(ctx, g, true, "merged curve")?;
    let kv = g.knots.vector();
    let mut want: Vec<f64> = c.a.u[..m + 2].iter().map(|x| x / 2.0).collect();
    want.extend(c.b.u[p + 1..].iter().map(|x| (1.0 + x) / 2.0));
    ensure!(kv.len() == want.len(), "merged curve has {} knots", kv.len());
    for i in 0..want.len() {
        ensure!(ctx.close(kv[i], want[i], 2e-15), "knot {i} of the merged curve is {:?}, expected {:?}", kv[i], want[i]);
    }
    ensure!(g.knots.multiplicity(0.5) == 1, "the joint has multiplicity {}", g.knots.multiplicity(0.5));
    let pts = g.points.matrix();
    let n = pts.ncols() - 1;
    for d in 0..c.a.dim() {
        for i in 0..=m - p {
            let x = c.a.pts[i][d];
            ensure!(ctx.close(pts[(d, i)], x, 1e-14 * x.abs() + TINY), "control point {i} of the first curve moved from {x:?} to {:?}", pts[(d, i)]);
        }
        for i in p..=o {
            let x = c.b.pts[i][d];
            let at = n - (o - i);
            ensure!(ctx.close(pts[(d, at)], x, 1e-14 * x.abs() + TINY), "control point {i} of the second curve moved from {x:?} to {:?}", pts[(d, at)]);
        }
    }
    Ok(())
}

/// Is the linear system tame enough for its solution to be known in doubles?
pub fn tame(r: &MergeRef) -> bool {
    r.smallest >= 1e-5 && r.cond <= 1e12
}

/// Rounding of a joint, relative to the size of the curves.
pub fn precision(r: &MergeRef) -> f64 {
    1e-15 * r.cond + 1e-12
}
pub fn allowance(r: &MergeRef) -> f64 {
    precision(r) * r.scale
}

/// The merged curve is the one with the smallest change.
fn fidelity(ctx: &mut Ctx, c: &MergeCase, g: &Curve, r: &MergeRef) -> Res {
    let got = RefCurve::of(g);
    let half = Dd::from(0.5);
    let two = Dd::from(2.0);
    let one = Dd::from(1.0);
    let tol = allowance(r);
    let want = |u: Dd| {
        if u < half {
            r.a.eval_local(u * two, 0, false)
        } else {
            r.b.eval_local(u * two - one, 0, false)
        }
    };
    // rounding of the merged knots, for short pieces
    let noise = |l: usize, d: usize| tol + 2e-15 * got.local_size(l, 1)[d];
    traces(ctx, &got, &want, 1e-12, &noise, "merged curve")?;
    let _ = c;
    Ok(())
}

fn classes(c: &MergeCase, ctx: &mut Ctx) {
    c.a.classes(ctx);
    ctx.label(match c.a.n().cmp(&c.b.n()) {
        std::cmp::Ordering::Less => "first curve has fewer segments",
        std::cmp::Ordering::Equal => "equal numbers of segments",
        std::cmp::Ordering::Greater => "first curve has more segments",
    });
}

fn regressions() -> Vec<MergeCase> {
    let a = CurveSpec {
        p: 3,
        u: vec![0., 0., 0., 0., 0.5, 1., 1., 1., 1.],
        pts: vec![vec![0.], vec![1.], vec![5.], vec![3.], vec![7.]],
    };
    let b = CurveSpec { p: 3, u: vec![0., 0., 0., 0., 1., 1., 1., 1.], pts: vec![vec![9.], vec![-1.], vec![2.], vec![4.]] };
    vec![
        MergeCase { a: a.clone(), b: b.clone(), ca: vec![], cb: vec![], api: 0 },
        MergeCase { a: b.clone(), b: a.clone(), ca: vec![], cb: vec![], api: 0 },
        MergeCase { a: a.clone(), b: b.clone(), ca: vec![1.0], cb: vec![0.5], api: 1 },
        MergeCase { a: b, b: a, ca: vec![0.5], cb: vec![0.0], api: 0 },
    ]
}

/// Adds knots right next to others, away from the joint.
fn crowd(s: &mut Src, c: &mut CurveSpec, first: bool) {
    for _ in 0..s.range(1, 2) {
        let (p, n) = (c.p, c.n());
        let far: Vec<f64> = if first { c.u[1..=n - p].to_vec() } else { c.u[2 * p + 1..n + p + 1].to_vec() };
        let far: Vec<f64> = far.into_iter().filter(|x| *x > 0.0 && *x < 1.0).collect();
        if far.is_empty() {
            return;
        }
        let x = s.pick(&far);
        let d = s.pick(&[1e-12, 1e-11, 1e-10, 1e-9, 1e-8, 1e-7, 1e-6]);
        let y = if first { x - d } else { x + d };
        if c.u.iter().any(|k| (k - y).abs() < 0.9e-12) || !(y > 0.0 && y < 1.0) {
            continue;
        }
        let at = c.u.iter().position(|k| *k > y).unwrap();
        c.u.insert(at, y);
        let q: Vec<f64> = (0..c.dim()).map(|_| s.range(0, 20) as f64 - 10.0).collect();
        let at = if first { 0 } else { c.pts.len() };
        c.pts.insert(at, q);
    }
}

// ------------------------------------------------------------------------ C12

pub struct C12;
impl Prop for C12 {
    const ID: &'static str = "C12";
    const RULE: &'static str = "pairs of random curves of one degree (1-10) and dimension, with different numbers of segments and uneven or repeated knots (some nearly joined, some scaled by up to 1e80 either way), merged through the free functions, append or prepend, with or without constraints; knots, sizes, untouched control points, and one-sided derivatives at the joint; non-trivial: degree >= 2 and the curves do not already join smoothly";
    const QUICK: u64 = 200_000;
    const THOROUGH: u64 = 10_000_000;
    type Case = MergeCase;
    fn gen(s: &mut Src) -> MergeCase {
        let api = s.below(3);
        let cons = s.chance(30);
        let (mut a, mut b) = pair(s, &JOIN);
        if s.chance(25) {
            crowd(s, &mut a, true);
            crowd(s, &mut b, false);
        }
        let (ca, cb) = if cons { constraints(s, &a, &b) } else { (vec![], vec![]) };
        MergeCase { a, b, ca, cb, api }
    }
    fn check(c: &MergeCase, ctx: &mut Ctx) -> Res {
        classes(c, ctx);
        if [&c.a, &c.b].iter().any(|x| x.breaks().windows(2).any(|w| w[1] - w[0] < 1e-5)) {
            ctx.label("knots closer than 1e-5 away from the joint");
        }
        let g = call(c)?;
        structure(ctx, c, &g)?;
        let p = c.a.p;
        let (ra, rb) = (c.a.reff(), c.b.reff());
        let one = Dd::from(1.0);
        let zero = Dd::from(0.0);
        let joined = (0..p).all(|k| {
            ra.eval(one, k, true).iter().zip(&rb.eval(zero, k, false)).all(|(x, y)| (x.v.f() - y.v.f()).abs() <= 1e-9 * (x.m + y.m))
        });
        if p >= 2 && !joined {
            ctx.nontrivial();
        }
        // as the crate evaluates it: no jump in any derivative below the degree
        let lim = 0.5f64.next_down();
        let rg = RefCurve::of(&g);
        let half = Dd::from(0.5);
        for k in 0..p {
            let r = g.evaluate_derivative(0.5, k).map_err(|e| format!("{e:?}"))?;
            let l = g.evaluate_derivative(lim, k).map_err(|e| format!("{e:?}"))?;
            let left = rg.span(half, true);
            let right = rg.span(half, false);
            let next = rg.local_size(left, k + 1);
            let (sl, sr) = (rg.local_size(left, k), rg.local_size(right, k));
            for d in 0..c.a.dim() {
                let tol = 1e-15 * next[d] + 4.0 * EV * (sl[d] + sr[d]) + TINY;
                ensure!(ctx.close(l[d], r[d], tol), "derivative {k} jumps from {:?} to {:?} at the joint", l[d], r[d]);
            }
        }
        // away from the joint both curves are what they were
        let (m, o) = (c.a.n(), c.b.n());
        let free_a = c.a.u[m - p + 1];
        let free_b = c.b.u[p];
        let _ = free_b;
        for f in [0.0, 0.21, 0.63, 0.97] {
            let t = free_a * f;
            if free_a > 0.0 {
                close_to(ctx, &g, t / 2.0, &ra, t, "first")?;
            }
            let from = c.b.u[o.min(2 * p).min(c.b.u.len() - 1)];
            let start = c.b.u[p + p.min(o + 1 - p)].max(from);
            let start = if o + 1 >= 2 * p { c.b.u[2 * p] } else { start };
            if o >= 2 * p && start < 1.0 {
                let t = start + (1.0 - start) * (1.0 - f);
                close_to(ctx, &g, 0.5 + t / 2.0, &rb, t, "second")?;
            }
        }
        Ok(())
    }
    fn regressions() -> Vec<MergeCase> {
        regressions()
    }
}

fn close_to(ctx: &mut Ctx, g: &Curve, u: f64, r: &RefCurve, t: f64, which: &str) -> Res {
    let got = g.evaluate(u).map_err(|e| format!("{e:?}"))?;
    let x = Dd::from(t);
    let w = r.eval_local(x, 0, false);
    // the merged parameter is rounded
    let s = r.local_size(r.span(x, false), 1);
    for d in 0..r.dim {
        ensure!(
            ctx.close(got[d], w[d].v.f(), EV * w[d].m + 2e-15 * s[d] + TINY),
            "far from the joint the merged curve is {:?} at {u:?}, the {which} curve {:?} at {t:?}",
            got[d],
            w[d].v.f()
        );
    }
    Ok(())
}

/// Up to p-1 constrained parameters, not at the joint on both sides.
fn constraints(s: &mut Src, a: &CurveSpec, b: &CurveSpec) -> (Vec<f64>, Vec<f64>) {
    let p = a.p;
    if p < 2 {
        return (vec![], vec![]);
    }
    let total = s.range(1, p - 1);
    let (mut ca, mut cb) = (vec![], vec![]);
    let joint_side = s.below(2);
    for _ in 0..total {
        let on_a = s.chance(50);
        let c = if on_a { a } else { b };
        let x = match s.weighted(&[3, 4, 2]) {
            0 => {
                if on_a {
                    1.0
                } else {
                    0.0
                }
            }
            1 => {
                let t = if s.chance(70) { s.range(0, 32) as f64 / 32.0 } else { s.unit53() };
                // mostly where the change is
                let t = if s.chance(50) { t * t } else { t };
                if on_a {
                    1.0 - t
                } else {
                    t
                }
            }
            _ => s.pick(&c.breaks()),
        };
        // both sides of the joint at once are contradictory
        let at_joint = x == if on_a { 1.0 } else { 0.0 };
        if at_joint && (joint_side == 0) != on_a {
            continue;
        }
        if on_a {
            ca.push(x);
        } else {
            cb.push(x);
        }
    }
    (ca, cb)
}

// ------------------------------------------------------------------------ C13

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Fidelity {
    Pair(MergeCase),
    /// Split at the middle and merged again.
    Split(CurveSpec, usize),
}

pub struct C13;
impl Prop for C13 {
    const ID: &'static str = "C13";
    const RULE: &'static str = "pairs of random curves (degree 1-10, condition number of the joint system at most 1e12) merged and compared piece by piece with an independent double-double solution of the minimal-change problem, nearly joined pairs and scales of 1e-80 to 1e80 included, and curves that were split at their middle and merged again; non-trivial: degree >= 2 and a joint that needs a change, or a split curve with internal knots";
    const QUICK: u64 = 140_000;
    const THOROUGH: u64 = 7_200_000;
    type Case = Fidelity;
    fn gen(s: &mut Src) -> Fidelity {
        let api = s.below(3);
        if s.chance(30) {
            let mut c = gen::curve(s, &Opts { max_int: 24, ..JOIN });
            // the middle may carry one knot, not more; and nothing close to it
            let keep: Vec<f64> = {
                let mut seen = false;
                c.internal()
                    .iter()
                    .copied()
                    .filter(|x| {
                        if *x == 0.5 {
                            let first = !seen;
                            seen = true;
                            first
                        } else {
                            (*x - 0.5).abs() >= 0.02
                        }
                    })
                    .collect()
            };
            let p = c.p;
            c.pts.truncate(keep.len() + p + 1);
            c.u = [vec![0.0; p + 1], keep, vec![1.0; p + 1]].concat();
            return Fidelity::Split(c, api);
        }
        let (a, b) = pair(s, &JOIN);
        Fidelity::Pair(MergeCase { a, b, ca: vec![], cb: vec![], api })
    }
    fn check(c: &Fidelity, ctx: &mut Ctx) -> Res {
        match c {
            Fidelity::Pair(c) => {
                classes(c, ctx);
                let (ra, rb) = (c.a.reff(), c.b.reff());
                let Some(r) = merge_ref(&ra, &rb, &c.ca, &c.cb) else {
                    ctx.exclude("singular joint");
                    return Ok(());
                };
                if !tame(&r) {
                    ctx.exclude("ill-conditioned joint");
                    return Ok(());
                }
                let moved = (0..=ra.n()).any(|i| (0..ra.dim).any(|d| (ra.pts[i][d] - r.a.pts[i][d]).f().abs() > 1e-6 * r.scale));
                if c.a.p >= 2 && moved {
                    ctx.nontrivial();
                }
                let g = call(c)?;
                fidelity(ctx, c, &g, &r)
            }
            Fidelity::Split(spec, api) => {
                let orig = spec.build();
                let (l, r) = orig.split(0.5).map_err(|e| format!("split: {e:?}"))?;
                let of = |c: &Curve| {
                    let x = RefCurve::of(c);
                    CurveSpec {
                        p: x.p,
                        u: x.u.iter().map(|t| t.f()).collect(),
                        pts: x.pts.iter().map(|q| q.iter().map(|t| t.f()).collect()).collect(),
                    }
                };
                let m = MergeCase { a: of(&l), b: of(&r), ca: vec![], cb: vec![], api: *api };
                let Some(mr) = merge_ref(&m.a.reff(), &m.b.reff(), &[], &[]) else {
                    ctx.exclude("singular joint");
                    return Ok(());
                };
                if !tame(&mr) {
                    ctx.exclude("ill-conditioned joint");
                    return Ok(());
                }
                ctx.label("split and merged again");
                if spec.p >= 2 && spec.n() > spec.p {
                    ctx.nontrivial();
                }
                let back = call(&m)?;
                let mut want = spec.build();
                if spec.mult(0.5) == 0 {
                    want.insert(0.5).map_err(|e| format!("{e:?}"))?;
                }
                // extrapolated control points next to the joint
                let noise = precision(&mr);
                let big: Vec<f64> = spec.reff().max().iter().map(|_| mr.scale).collect();
                super::edit::same_data(ctx, &back, &want, &big, 2e-15, noise, "split and merged again")
            }
        }
    }
    fn regressions() -> Vec<Fidelity> {
        regressions().into_iter().map(Fidelity::Pair).collect()
    }
}

// ------------------------------------------------------------------------ C14

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ConsCase {
    pub m: MergeCase,
    /// 0, 1: append / prepend with constraints; 2: `merge_from`; 3: `merge_to`.
    pub how: usize,
}

pub struct C14;
impl Prop for C14 {
    const ID: &'static str = "C14";
    const RULE: &'static str = "pairs of random curves (degree 2-10) merged with one to p-1 constrained parameters at the joint, inside and at knots of either curve, through append and prepend with constraints and through the fixed-end functions; constrained points, smoothness and the minimal change under the constraints; non-trivial: the unconstrained merge would move a constrained point";
    const QUICK: u64 = 140_000;
    const THOROUGH: u64 = 7_200_000;
    type Case = ConsCase;
    fn gen(s: &mut Src) -> ConsCase {
        let how = s.below(4);
        let (a, b) = pair(s, &Opts { min_p: 2, ..JOIN });
        let (ca, cb) = match how {
            2 => (vec![1.0], vec![]),
            3 => (vec![], vec![0.0]),
            _ => constraints(s, &a, &b),
        };
        ConsCase { m: MergeCase { a, b, ca, cb, api: how }, how }
    }
    fn check(c: &ConsCase, ctx: &mut Ctx) -> Res {
        let m = &c.m;
        classes(m, ctx);
        let (ra, rb) = (m.a.reff(), m.b.reff());
        let Some(r) = merge_ref(&ra, &rb, &m.ca, &m.cb) else {
            ctx.exclude("singular joint");
            return Ok(());
        };
        if !tame(&r) {
            ctx.exclude("ill-conditioned joint");
            return Ok(());
        }
        let g = match c.how {
            2 => merge_from(&m.a.build(), &m.b.build()).map_err(|e| format!("{e:?}"))?,
            3 => merge_to(&m.a.build(), &m.b.build()).map_err(|e| format!("{e:?}"))?,
            _ => call(m)?,
        };
        ctx.label(["append", "prepend", "keep the end of the first", "keep the start of the second"][c.how]);
        structure(ctx, m, &g)?;
        let tol = allowance(&r);
        let free = merge_ref(&ra, &rb, &[], &[]);
        let all = m.ca.iter().map(|x| (x, true)).chain(m.cb.iter().map(|x| (x, false)));
        for (x, first) in all {
            let (curve, u) = if first { (&ra, x / 2.0) } else { (&rb, 0.5 + x / 2.0) };
            let got = g.evaluate(u).map_err(|e| format!("{e:?}"))?;
            let w = curve.eval_local(Dd::from(*x), 0, false);
            // the merged parameter is rounded
            let s = RefCurve::of(&g);
            let s = s.local_size(s.span(Dd::from(u), false), 1);
            for d in 0..curve.dim {
                ensure!(
                    ctx.close(got[d], w[d].v.f(), tol + 1e-12 * w[d].m + 2e-15 * s[d]),
                    "the constrained point at {x:?} of the {} curve moved from {:?} to {:?} (tolerance {tol:.1e})",
                    if first { "first" } else { "second" },
                    w[d].v.f(),
                    got[d]
                );
                if let Some(f) = &free {
                    let y = if first { &f.a } else { &f.b }.eval(Dd::from(*x), 0, false)[d].v.f();
                    if (y - w[d].v.f()).abs() > 100.0 * tol {
                        ctx.nontrivial();
                    }
                }
            }
        }
        fidelity(ctx, m, &g, &r)
    }
    fn regressions() -> Vec<ConsCase> {
        let mut v = vec![];
        for m in regressions() {
            for how in 0..4 {
                let mut m = m.clone();
                match how {
                    2 => (m.ca, m.cb) = (vec![1.0], vec![]),
                    3 => (m.ca, m.cb) = (vec![], vec![0.0]),
                    _ => {}
                }
                m.api = how;
                v.push(ConsCase { m, how });
            }
        }
        v
    }
}

// ------------------------------------------------------------------------ C15

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct RejectCase {
    pub a: CurveSpec,
    pub b: CurveSpec,
    /// `merge`, `merge_from`, `merge_to`, append or prepend with constraints
    pub how: usize,
    #[serde(default)]
    pub ca: Vec<f64>,
    #[serde(default)]
    pub cb: Vec<f64>,
}

pub struct C15;
impl Prop for C15 {
    const ID: &'static str = "C15";
    const RULE: &'static str = "pairs of curves that differ in degree or dimension, are unclamped or span another interval, have too many constraints, next to valid pairs (among them knots so close that derivatives overflow), given to the three merge functions and the methods with constraints; the error must name the offence and its numbers, and neither curve may change; non-trivial: an invalid pair";
    const QUICK: u64 = 1_000_000;
    const THOROUGH: u64 = 30_000_000;
    type Case = RejectCase;
    fn gen(s: &mut Src) -> RejectCase {
        let mut how = s.below(3);
        let kind = s.weighted(&[2, 3, 3, 3, 3, 2, 1, 3]);
        let o = Opts { max_int: 6, max_p: if s.chance(5) { 10 } else { 5 }, ..JOIN };
        let (mut a, mut b) = pair(s, &o);
        let (mut ca, mut cb) = (vec![], vec![]);
        match kind {
            1 => {
                let p = (a.p + s.range(1, 4) - 1) % 5 + 1;
                let dim = if s.chance(70) { a.dim() } else { gen::dimension(s, 5) };
                b = gen::curve_of(s, p, dim, &o);
            }
            2 => {
                let dim = (a.dim() + s.range(1, 4) - 1) % 5 + 1;
                b = gen::curve_of(s, a.p, dim, &o);
            }
            3 => {
                // spoil a clamp
                let c = if s.chance(50) { &mut a } else { &mut b };
                let last = c.u.len() - 1;
                if s.chance(25) {
                    // clamped all the same, but a knot lies beyond the limits
                    let x = s.pick(&[1.5, -0.5, 1.0f64.next_up(), -5e-324]);
                    if last > 2 * c.p + 1 {
                        let i = s.range(c.p + 1, last - c.p - 1);
                        c.u[i] = x;
                    }
                } else if s.chance(40) {
                    // the innermost knots of a clamp; the limits stay
                    let (p, k) = (c.p, s.range(1, c.p));
                    let f = s.pick(&[0.5, 1e-9, 1.0]);
                    if s.chance(50) {
                        let x = c.u[p + 1] * f;
                        c.u[p + 1 - k..=p].fill(x);
                    } else {
                        let x = 1.0 - (1.0 - c.u[last - p - 1]) * f;
                        c.u[last - p..last - p + k].fill(x);
                    }
                } else if s.chance(50) {
                    c.u[0] = -0.5;
                } else {
                    c.u[last] = 1.5;
                }
                if s.chance(30) {
                    c.u[0] = -0.25;
                }
            }
            4 => {
                // another interval
                let (f, g) = s.pick(&[(2.0, 0.0), (0.5, 0.0), (1.0, 1.0), (0.5, 0.25), (1.0, -1.0)]);
                let c = if s.chance(50) { &mut a } else { &mut b };
                c.u.iter_mut().for_each(|x| *x = *x * f + g);
            }
            5 => {
                a = gen::curve_of(s, 1, 2, &o);
                b = gen::curve_of(s, 1, 2, &o);
            }
            6 => {
                // a gap whose powers overflow
                let x = s.pick(&[5e-324, 1e-308, 1e-300, 1e-150, 1e-80, 1e-50]);
                let o = Opts { max_int: 2, ..o };
                b = gen::curve_of(s, a.p, a.dim(), &o);
                let k = if s.chance(30) { b.p } else { 1 };
                for _ in 0..k {
                    let q = b.pts[0].clone();
                    b.pts.push(q);
                    b.u.insert(b.p + 1, x);
                }
                if s.chance(50) {
                    std::mem::swap(&mut a, &mut b);
                }
            }
            7 => {
                // constraints in any number, for both
                how = s.range(3, 4);
                let (k, l) = (s.range(0, a.p + 1), s.range(0, a.p + 1));
                let l = if k > 1 && s.chance(60) { a.p.saturating_sub(k) + s.below(2) } else { l };
                ca = (0..k).map(|_| s.range(0, 15) as f64 / 16.0).collect();
                cb = (0..l).map(|_| s.range(1, 16) as f64 / 16.0).collect();
            }
            _ => {}
        }
        RejectCase { a, b, how, ca, cb }
    }
    fn check(c: &RejectCase, ctx: &mut Ctx) -> Res {
        let (a, b) = (c.a.build(), c.b.build());
        let (sa, sb) = (snapshot(&a), snapshot(&b));
        let got = match c.how {
            0 => merge(&a, &b),
            1 => merge_from(&a, &b),
            2 => merge_to(&a, &b),
            _ => {
                // the methods have no way to return an error
                let cons = |v: &[f64]| Constraints { params: v.to_vec() };
                let mut x = if c.how == 3 { a.clone() } else { b.clone() };
                let before = snapshot(&x);
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                    if c.how == 3 {
                        x.append_constrained(cons(&c.ca), &b, cons(&c.cb));
                    } else {
                        x.prepend_constrained(cons(&c.cb), &a, cons(&c.ca));
                    }
                }));
                let total = c.ca.len() + c.cb.len();
                ensure!(snapshot(&a) == sa && snapshot(&b) == sb, "merging changed an argument");
                if total >= c.a.p {
                    ctx.nontrivial();
                    ctx.label("too many constraints");
                    ensure!(r.is_err(), "merged although {total} constraints are too many for degree {}", c.a.p);
                    ensure!(snapshot(&x) == before, "a refused merge changed the curve");
                } else {
                    ctx.label("several constraints");
                    ensure!(r.is_ok(), "{total} constraints for degree {} were refused", c.a.p);
                }
                return Ok(());
            }
        };
        ctx.comparisons += 1;
        ensure!(snapshot(&a) == sa && snapshot(&b) == sb, "merging changed an argument");
        let clamped = |c: &CurveSpec| (0..=c.p).all(|i| c.u[i] == 0.0 && c.u[c.u.len() - 1 - i] == 1.0);
        let normed = |c: &CurveSpec| c.u.iter().copied().fold(f64::INFINITY, f64::min) == 0.0 && c.u.iter().copied().fold(f64::NEG_INFINITY, f64::max) == 1.0;
        let cons = (c.how > 0) as usize;
        let mut faults = vec![];
        if c.a.p != c.b.p {
            faults.push(MergeError::DegreeMismatch { left: c.a.p, right: c.b.p });
        }
        if c.a.dim() != c.b.dim() {
            faults.push(MergeError::DimensionMismatch { left: c.a.dim(), right: c.b.dim() });
        }
        if !clamped(&c.a) || !clamped(&c.b) {
            faults.push(MergeError::UnclampedCurve);
        }
        if !normed(&c.a) || !normed(&c.b) {
            faults.push(MergeError::UnnormedCurve);
        }
        if cons >= c.a.p {
            faults.push(MergeError::TooManyConstraints { totalConstraints: cons, degree: c.a.p });
        }
        if cons >= c.b.p {
            faults.push(MergeError::TooManyConstraints { totalConstraints: cons, degree: c.b.p });
        }
        if !faults.is_empty() {
            ctx.nontrivial();
            ctx.label(format!("{:?}", faults[0]).split(' ').next().unwrap().to_string());
        }
        match got {
            Ok(_) => ensure!(faults.is_empty(), "merged although {faults:?}"),
            Err(e) => {
                speaks(&e)?;
                ensure!(faults.contains(&e), "failed with {e:?}, faults are {faults:?}");
            }
        }
        Ok(())
    }
}

// ------------------------------------------------------------------------ C16

pub struct C16;
impl Prop for C16 {
    const ID: &'static str = "C16";
    const RULE: &'static str = "pairs of random curves (degree 1-10, with or without constraints) through append, prepend and the free functions, and the same pair reversed and swapped; the results must describe the same curve; non-trivial: degree >= 2 and curves with different knots";
    const QUICK: u64 = 87_000;
    const THOROUGH: u64 = 4_300_000;
    type Case = MergeCase;
    fn gen(s: &mut Src) -> MergeCase {
        let cons = s.chance(50);
        let (a, b) = pair(s, &JOIN);
        let (ca, cb) = if cons { constraints(s, &a, &b) } else { (vec![], vec![]) };
        MergeCase { a, b, ca, cb, api: 0 }
    }
    fn check(c: &MergeCase, ctx: &mut Ctx) -> Res {
        classes(c, ctx);
        let Some(r) = merge_ref(&c.a.reff(), &c.b.reff(), &c.ca, &c.cb) else {
            ctx.exclude("singular joint");
            return Ok(());
        };
        if !tame(&r) {
            ctx.exclude("ill-conditioned joint");
            return Ok(());
        }
        if c.a.p >= 2 && c.a.u != c.b.u {
            ctx.nontrivial();
        }
        let rel = precision(&r);
        let forward = call(&MergeCase { api: 1, ..c.clone() })?;
        let other = call(&MergeCase { api: 2, ..c.clone() })?;
        let size = RefCurve::of(&forward).scale().max(r.scale);
        let big = vec![size; c.a.dim()];
        super::edit::same_data(ctx, &forward, &other, &big, 2e-15, rel, "append and prepend")?;
        let plain = call(&MergeCase { api: 0, ..c.clone() })?;
        super::edit::same_data(ctx, &forward, &plain, &big, 2e-15, rel, "append and merge")?;
        // constraints as the fixed-end functions set them
        if c.cb.is_empty() && c.ca == [1.0] {
            let f = merge_from(&c.a.build(), &c.b.build()).map_err(|e| format!("{e:?}"))?;
            super::edit::same_data(ctx, &forward, &f, &big, 2e-15, rel, "append with the end fixed")?;
        }
        if c.ca.is_empty() && c.cb == [0.0] {
            let f = merge_to(&c.a.build(), &c.b.build()).map_err(|e| format!("{e:?}"))?;
            super::edit::same_data(ctx, &forward, &f, &big, 2e-15, rel, "append with the start fixed")?;
        }
        // the mirror image
        let (ra, rb) = (reversed(&c.a.build()), reversed(&c.b.build()));
        let mut m = rb.clone();
        let mir = |v: &[f64]| Constraints { params: v.iter().map(|x| 1.0 - x).collect() };
        if c.ca.is_empty() && c.cb.is_empty() {
            m.append(&ra);
        } else {
            m.append_constrained(mir(&c.cb), &ra, mir(&c.ca));
        }
        m.reverse();
        let x = RefCurve::of(&m);
        let y = RefCurve::of(&forward);
        let noise = |l: usize, d: usize| 10.0 * allowance(&r) + 1e-14 * x.local_size(l, 1)[d];
        traces(ctx, &x, &|u| y.eval_local(u, 0, false), 1e-11, &noise, "merging the reversed curves")
    }
    fn regressions() -> Vec<MergeCase> {
        regressions()
    }
}
