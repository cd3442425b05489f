//! Every operation commutes with affine maps of space: C27.
use bsplines::{curve::points::Points, manipulation::split::split_and_normalize};
use nalgebra::DMatrix;
use serde::{Deserialize, Serialize};

use super::{
    generate::{self, FitCase, ParamKind, Route},
    merge::{call, pair, precision, tame, MergeCase, JOIN},
    *,
};
use crate::{
    engine::Prop,
    gen::{self, CurveSpec, Opts, WIDE},
    refm::merge_ref,
    src::Src,
};

/// `x -> m x + t`, with small dyadic entries.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Affine {
    pub m: Vec<Vec<f64>>,
    pub t: Vec<f64>,
}

impl Affine {
    fn point(&self, q: &[f64]) -> Vec<f64> {
        self.m.iter().zip(&self.t).map(|(r, t)| r.iter().zip(q).map(|(a, b)| a * b).sum::<f64>() + t).collect()
    }
    fn points(&self, q: &[Vec<f64>]) -> Vec<Vec<f64>> {
        q.iter().map(|q| self.point(q)).collect()
    }
    fn spec(&self, c: &CurveSpec) -> CurveSpec {
        CurveSpec { p: c.p, u: c.u.clone(), pts: self.points(&c.pts) }
    }
    /// Largest size of the summed terms, per image coordinate, for points of
    /// this size.
    fn size(&self, big: &[f64], shift: bool) -> Vec<f64> {
        self.m
            .iter()
            .zip(&self.t)
            .map(|(r, t)| r.iter().zip(big).map(|(a, b)| (a * b).abs()).sum::<f64>() + if shift { t.abs() } else { 0.0 })
            .collect()
    }
}

/// `large`: only maps that do not make things smaller.
fn affine(s: &mut Src, dim: usize, rigid: bool, large: bool) -> Affine {
    let mut a = moderate(s, dim, rigid);
    if s.chance(20) {
        // far beyond the scales of everyday life; no rounding
        let k = s.pick(&[60, 240, 20, -60, -240, -20]);
        let f = 2f64.powi(if large { i32::abs(k) } else { k });
        a.m.iter_mut().flatten().chain(a.t.iter_mut()).for_each(|x| *x *= f);
    }
    a
}

fn moderate(s: &mut Src, dim: usize, rigid: bool) -> Affine {
    if rigid {
        // a permutation with signs, and a power of four
        let mut perm: Vec<usize> = (0..dim).collect();
        for i in (1..dim).rev() {
            let j = s.below(i + 1);
            perm.swap(i, j);
        }
        let f = s.pick(&[1.0, 4.0, 0.25, 64.0]);
        let mut m = vec![vec![0.0; dim]; dim];
        for (i, r) in m.iter_mut().enumerate() {
            r[perm[i]] = if s.chance(40) { -f } else { f };
        }
        return Affine { m, t: vec![0.0; dim] };
    }
    let rows = s.range(1, 4);
    let style = s.weighted(&[4, 2, 2]);
    let m = (0..rows)
        .map(|i| {
            (0..dim)
                .map(|j| match style {
                    0 => s.range(0, 8) as f64 - 4.0,
                    // one coordinate alone
                    1 => ((i + 1) % dim == j) as usize as f64,
                    _ => (s.range(0, 16) as f64 - 8.0) / 8.0,
                })
                .collect()
        })
        .collect();
    let shift = s.pick(&[0.0, 1.0, 10.0, 1000.0]);
    let t = (0..rows).map(|_| (s.range(0, 8) as f64 - 4.0) * shift).collect();
    Affine { m, t }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum What {
    Curve { curve: CurveSpec, at: Vec<f64>, knots: Vec<f64>, split: f64 },
    Merge(MergeCase),
    Generate { fit: FitCase, interpolate: bool },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct AffineCase {
    pub map: Affine,
    pub what: What,
}

/// The second curve is the image of the first.
fn image(ctx: &mut Ctx, map: &Affine, a: &Curve, b: &Curve, size: &[f64], rel: f64, ktol: f64, what: &str) -> Res {
    ensure!(a.degree() == b.degree() && a.points.count() == b.points.count(), "{what}: sizes differ");
    let (ka, kb) = (a.knots.vector(), b.knots.vector());
    ensure!(ka.len() == kb.len(), "{what}: numbers of knots differ");
    for i in 0..ka.len() {
        ensure!(ctx.close(ka[i], kb[i], ktol + TINY), "{what}: knot {i} is {:?}, of the mapped curve {:?}", ka[i], kb[i]);
    }
    let (pa, pb) = (gen::columns(a.points.matrix()), gen::columns(b.points.matrix()));
    for (i, (x, y)) in pa.iter().zip(&pb).enumerate() {
        let w = map.point(x);
        ensure!(w.len() == y.len(), "{what}: dimension of the mapped curve is {}", y.len());
        for d in 0..w.len() {
            ensure!(
                ctx.close(y[d], w[d], rel * size[d] + TINY),
                "{what}: control point {i} of the mapped curve is {:?}, the image of the original's is {:?} (coordinate {d})",
                y[d],
                w[d]
            );
        }
    }
    Ok(())
}

fn max_of(pts: &DMatrix<f64>) -> Vec<f64> {
    (0..pts.nrows()).map(|r| pts.row(r).iter().fold(0.0, |m, x| f64::max(m, x.abs()))).collect()
}
fn max2(a: Vec<f64>, b: &[f64]) -> Vec<f64> {
    a.iter().zip(b).map(|(x, y)| x.max(*y)).collect()
}

/// The maps bring extreme scales; the points do not.
fn tame_size(pts: &mut [&mut Vec<Vec<f64>>]) {
    let big = pts.iter().flat_map(|p| p.iter().flatten()).fold(0.0, |m: f64, x| m.max(x.abs()));
    if big > 1e8 || (big > 0.0 && big < 1e-4) {
        let f = big.log2().floor().exp2();
        pts.iter_mut().for_each(|p| p.iter_mut().flatten().for_each(|x| *x /= f));
    }
}

pub struct C27;
impl Prop for C27 {
    const ID: &'static str = "C27";
    const RULE: &'static str = "random curves, merges, interpolations and fits, done before and after a random affine map of space (other dimension, projection to one coordinate, shear, scaling by up to 2^240, shift; signed permutations and scalings where parameters depend on distances); all results must be images of each other; non-trivial: a map that is not the identity applied to a curve of degree >= 2 with internal knots or to a joint that needs a change";
    const QUICK: u64 = 42_000;
    const THOROUGH: u64 = 2_100_000;
    type Case = AffineCase;
    fn gen(s: &mut Src) -> AffineCase {
        match s.weighted(&[3, 3, 4]) {
            0 => {
                let curve = gen::curve(s, &Opts { tame: true, max_dim: 5, max_int: 40, min_gap: 1e-4, tight: None, ..WIDE });
                let at = (0..s.range(2, 8)).map(|_| gen::param(s, &curve)).collect();
                let knots = (0..s.range(0, 3))
                    .map(|_| gen::inner_param(s, &curve, 1e-3))
                    .filter(|u| curve.mult(*u) < curve.p)
                    .collect();
                let split = gen::inner_param(s, &curve, 1e-3);
                AffineCase { map: affine(s, curve.dim(), false, false), what: What::Curve { curve, at, knots, split } }
            }
            1 => {
                let api = s.below(3);
                let cons = s.chance(40);
                let (mut a, mut b) = pair(s, &Opts { max_dim: 4, ..JOIN });
                tame_size(&mut [&mut a.pts, &mut b.pts]);
                let (ca, cb) = if cons && a.p >= 2 {
                    if s.chance(50) {
                        (vec![1.0 - s.range(0, 4) as f64 / 8.0], vec![])
                    } else {
                        (vec![], vec![s.range(0, 4) as f64 / 8.0])
                    }
                } else {
                    (vec![], vec![])
                };
                AffineCase { map: affine(s, a.dim(), false, false), what: What::Merge(MergeCase { a, b, ca, cb, api }) }
            }
            _ => {
                let interpolate = s.chance(40);
                let mut fit = if interpolate {
                    generate::interpolation_case(s)
                } else {
                    let (fixed, pen) = (s.chance(50), s.chance(40));
                    generate::fit_case(s, fixed, pen)
                };
                tame_size(&mut [&mut fit.data]);
                let rigid = matches!(fit.route, Route::Parts(k, _) if k != ParamKind::Equal);
                // the library refuses to place parameters centripetally for tiny data
                let large = matches!(fit.route, Route::Parts(ParamKind::Centripetal, _));
                AffineCase { map: affine(s, fit.data[0].len(), rigid, large), what: What::Generate { fit, interpolate } }
            }
        }
    }
    fn check(c: &AffineCase, ctx: &mut Ctx) -> Res {
        let map = &c.map;
        let plain = map.t.iter().all(|x| *x == 0.0)
            && map.m.len() == map.m[0].len()
            && map.m.iter().enumerate().all(|(i, r)| r.iter().enumerate().all(|(j, x)| *x == (i == j) as usize as f64));
        if map.m.iter().flatten().any(|x| *x != 0.0 && !(1e-4..1e5).contains(&x.abs())) {
            ctx.label("extreme scale");
        }
        ctx.label(if plain {
            "identity"
        } else if map.m.len() == map.m[0].len() {
            "same dimension"
        } else {
            "other dimension"
        });
        match &c.what {
            What::Curve { curve, at, knots, split } => {
                ctx.label("curve operations");
                let (p, n) = (curve.p, curve.n());
                if !plain && p >= 2 && n > p {
                    ctx.nontrivial();
                }
                let (mut a, mut b) = (curve.build(), map.spec(curve).build());
                let r = curve.reff();
                let size = map.size(&r.max(), true);
                image(ctx, map, &a, &b, &size, 1e-15, 0.0, "construction")?;
                for u in at {
                    for k in 0..=p {
                        let x = a.evaluate_derivative(*u, k).map_err(|e| format!("{e:?}"))?;
                        let y = b.evaluate_derivative(*u, k).map_err(|e| format!("{e:?}"))?;
                        let l = r.span(Dd::from(*u), false);
                        let big = r.local_size(l, k);
                        // rounding of the shift counts like a control point
                        let one = RefCurve { dim: 1, pts: vec![vec![Dd::from(1.0)]; n + 1], ..r.clone() };
                        let unit = one.local_size(l, k)[0];
                        let tol = map.size(&big, false);
                        for d in 0..map.t.len() {
                            let mut w = map.m[d].iter().zip(x.iter()).map(|(m, v)| m * v).sum::<f64>();
                            if k == 0 {
                                w += map.t[d];
                            }
                            let tol = EV * (tol[d] + map.t[d].abs() * unit) + TINY;
                            ensure!(
                                ctx.close(y[d], w, tol),
                                "derivative {k} of the mapped curve at {u:?} is {:?}, the image of the original's is {w:?} (coordinate {d})",
                                y[d]
                            );
                        }
                    }
                }
                for u in knots {
                    if a.knots.multiplicity(*u) >= p {
                        continue;
                    }
                    a.insert(*u).map_err(|e| format!("{e:?}"))?;
                    b.insert(*u).map_err(|e| format!("{e:?}"))?;
                }
                image(ctx, map, &a, &b, &size, 1e-13, 0.0, "insertion")?;
                if a.knots.multiplicity(*split) <= p {
                    let (l, r) = a.split(*split).map_err(|e| format!("{e:?}"))?;
                    let (x, y) = b.split(*split).map_err(|e| format!("{e:?}"))?;
                    image(ctx, map, &l, &x, &size, 1e-13, 0.0, "split, left")?;
                    image(ctx, map, &r, &y, &size, 1e-13, 0.0, "split, right")?;
                    let (l, _) = split_and_normalize(&a, *split, (false, false)).map_err(|e| format!("{e:?}"))?;
                    let (x, _) = split_and_normalize(&b, *split, (false, false)).map_err(|e| format!("{e:?}"))?;
                    image(ctx, map, &l, &x, &size, 1e-13, 0.0, "split without normalising")?;
                }
                a.reverse();
                b.reverse();
                image(ctx, map, &a, &b, &size, 1e-13, 0.0, "reversal")
            }
            What::Merge(m) => {
                ctx.label("merge");
                let Some(r) = merge_ref(&m.a.reff(), &m.b.reff(), &m.ca, &m.cb) else {
                    ctx.exclude("singular joint");
                    return Ok(());
                };
                if !tame(&r) {
                    ctx.exclude("ill-conditioned joint");
                    return Ok(());
                }
                let moved = r.a.pts.iter().zip(&m.a.reff().pts).any(|(x, y)| x.iter().zip(y).any(|(x, y)| (*x - *y).f().abs() > 1e-6 * r.scale));
                if !plain && moved && m.a.p >= 2 {
                    ctx.nontrivial();
                }
                let a = call(m)?;
                let b = call(&MergeCase { a: map.spec(&m.a), b: map.spec(&m.b), ..m.clone() })?;
                let big = vec![r.scale; m.a.dim()];
                let rel = 4.0 * precision(&r);
                image(ctx, map, &a, &b, &map.size(&big, true), rel, 0.0, "merge")
            }
            What::Generate { fit, interpolate } => {
                ctx.label(if *interpolate {
                    "interpolation"
                } else if fit.fixed {
                    "fixed-ends fit"
                } else {
                    "loose fit"
                });
                let Some(st) = fit.setup()? else {
                    ctx.exclude("degenerate parameters or knots");
                    return Ok(());
                };
                let Some(cond) = generate::condition(fit, &st, *interpolate) else {
                    ctx.exclude("badly conditioned");
                    return Ok(());
                };
                if !plain && fit.p >= 2 && fit.n > fit.p {
                    ctx.nontrivial();
                }
                let run = if *interpolate { generate::run_interpolation } else { generate::run_fit };
                let a = run(fit)?;
                let b = run(&FitCase { data: map.points(&fit.data), ..fit.clone() })?;
                let big = max2(max_of(a.points.matrix()), &max_of(&gen::matrix(&fit.data)));
                let rigid = matches!(fit.route, Route::Parts(k, _) if k != ParamKind::Equal);
                let ktol = if rigid { 1e-13 } else { 0.0 };
                image(ctx, map, &a, &b, &map.size(&big, true), 1e-12 * cond + 1e-11, ktol, "generation")
            }
        }
    }
    fn assumptions() -> Vec<String> {
        vec!["condition number of the linear systems below 1e5 (generation) and 1e8 (joints)".into()]
    }
}
