//! The properties. Every module holds the generators and oracles of a group.
use bsplines::curve::{
    knots::{is_clamped, is_normed, is_sorted},
    points::Points,
    Curve,
};

use crate::{
    dd::Dd,
    engine::{Ctx, Res},
    ensure, fail,
    refm::{lerp, RefCurve, Val},
};

pub mod edit;
pub mod eval;
pub mod extra;
pub mod generate;
pub mod history;
pub mod knots;
pub mod merge;
pub mod meta;

/// Rounding allowance, relative to the size of the summed terms.
pub const EV: f64 = 2e-13;
/// Absolute floor (denormals).
pub const TINY: f64 = 1e-290;

/// Fractions used to sample the inside of a polynomial piece; any `p+1` of them
/// determine a polynomial of degree `p`.
pub fn fractions(p: usize) -> Vec<f64> {
    let m = p + 2;
    (0..m).map(|i| (2 * i + 1) as f64 / (2 * m) as f64).collect()
}

/// `c.evaluate_derivative(u, k)` against the reference.
pub fn eval_matches(ctx: &mut Ctx, c: &Curve, r: &RefCurve, u: f64, k: usize) -> Res {
    let got = match c.evaluate_derivative(u, k) {
        Ok(v) => v,
        Err(e) => fail!("derivative {k} at u={u:?} was refused: {e:?}"),
    };
    ensure!(got.len() == r.dim, "derivative {k} at u={u:?} has {} coordinates, the curve {}", got.len(), r.dim);
    for (i, w) in r.eval(Dd::from(u), k, false).into_iter().enumerate() {
        ensure!(
            ctx.close(got[i], w.v.f(), EV * w.m + TINY),
            "derivative {k} at u={u:?}, coordinate {i}: got {:?}, expected {:?} (tolerance {:.1e})",
            got[i],
            w.v.f(),
            EV * w.m + TINY
        );
    }
    Ok(())
}

/// The shape every curve must have, and cached derivative data that belong to
/// the current knots and control points.
pub fn consistent(ctx: &mut Ctx, c: &Curve, normed: bool, what: &str) -> Res {
    let p = c.degree();
    let u = c.knots.vector();
    let pts = c.points.matrix();
    ensure!(pts.ncols() >= p + 1, "{what}: {} control points for degree {p}", pts.ncols());
    let n = pts.ncols() - 1;
    ensure!(u.len() == n + p + 2, "{what}: {} knots for degree {p} and {} control points", u.len(), n + 1);
    ensure!(
        c.segments() == n && c.knots.segments() == n && c.dimension() == pts.nrows(),
        "{what}: reported sizes do not belong to the curve"
    );
    ensure!((1..u.len()).all(|i| u[i - 1] <= u[i]), "{what}: knots are not ascending: {u:?}");
    ensure!(is_sorted(&c.knots), "{what}: knots are reported as unsorted");
    if normed {
        ensure!(
            (0..=p).all(|i| u[i] == 0.0 && u[u.len() - 1 - i] == 1.0),
            "{what}: knots are not clamped to 0 and 1: {:?}",
            u.as_slice()
        );
        ensure!(is_clamped(&c.knots) && is_normed(&c.knots), "{what}: knots are reported as unclamped or unnormed");
    } else {
        ensure!(
            (0..=p).all(|i| u[i] == u[0] && u[u.len() - 1 - i] == u[u.len() - 1]),
            "{what}: ends are not clamped: {:?}",
            u.as_slice()
        );
    }
    ensure!(pts.iter().all(|x| x.is_finite()), "{what}: a control point is not finite");
    ensure!(c.knots.max_derivative() == p && c.points.max_derivative() == p, "{what}: derivative data are missing");
    ensure!(c.max_derivative() == p, "{what}: highest derivative is reported as {}", c.max_derivative());
    let r = RefCurve::of(c);
    for k in 1..=p {
        let uk = c.knots.vector_derivative(k);
        ensure!(
            uk.len() == u.len() - 2 * k && (0..uk.len()).all(|i| uk[i] == u[i + k]),
            "{what}: knots of derivative {k} are stale: {:?}",
            uk.as_slice()
        );
        let got = c.points.matrix_derivative(k);
        let want = r.deriv_points(k);
        ensure!(
            got.ncols() == n + 1 - k && got.nrows() == pts.nrows(),
            "{what}: derivative {k} has {}x{} control points",
            got.nrows(),
            got.ncols()
        );
        for (i, w) in want.iter().enumerate() {
            for (d, x) in w.iter().enumerate() {
                ensure!(
                    ctx.close(got[(d, i)], x.v.f(), EV * x.m + TINY),
                    "{what}: control point {i} of derivative {k} is {:?}, expected {:?}",
                    got[(d, i)],
                    x.v.f()
                );
            }
        }
    }
    Ok(())
}

/// Compares the curve that `got` describes with `want`, piece by piece, at
/// enough places to determine each polynomial piece. `want` maps a parameter of
/// `got` to the expected value; `extra` is the allowance per coordinate on top
/// of rounding relative to the sizes involved.
pub fn traces(
    ctx: &mut Ctx,
    got: &RefCurve,
    want: &dyn Fn(Dd) -> Vec<Val>,
    rel: f64,
    extra: &dyn Fn(usize, usize) -> f64,
    what: &str,
) -> Res {
    let fr = fractions(got.p);
    for l in got.pieces() {
        let mags = got.local_max(l);
        for t in &fr {
            let u = lerp(got.u[l], got.u[l + 1], *t);
            let g = got.eval_piece(l, u, 0);
            let w = want(u);
            for d in 0..got.dim {
                let tol = rel * (mags[d] + w[d].m) + extra(l, d) + TINY;
                ensure!(
                    ctx.close(g[d].v.f(), w[d].v.f(), tol),
                    "{what}: at u={:?} coordinate {d} is {:?}, expected {:?} (tolerance {tol:.1e})",
                    u.f(),
                    g[d].v.f(),
                    w[d].v.f()
                );
            }
        }
    }
    Ok(())
}

pub fn no_extra(_: usize, _: usize) -> f64 {
    0.0
}

/// Bit-for-bit picture of a curve with its caches.
pub fn snapshot(c: &Curve) -> Vec<u64> {
    let mut v = vec![c.degree() as u64, c.knots.max_derivative() as u64, c.points.max_derivative() as u64];
    for k in 0..=c.knots.max_derivative() {
        v.push(c.knots.vector_derivative(k).len() as u64);
        v.extend(c.knots.vector_derivative(k).iter().map(|x| x.to_bits()));
    }
    for k in 0..=c.points.max_derivative() {
        let m = c.points.matrix_derivative(k);
        v.push(m.ncols() as u64);
        v.extend(m.iter().map(|x| x.to_bits()));
    }
    v
}

fn numbers(text: &str) -> Vec<f64> {
    text.split(|c: char| !(c.is_alphanumeric() || "+-._".contains(c)))
        .map(|t| t.trim_matches('.'))
        .filter(|t| t.starts_with(|c: char| c.is_ascii_digit() || c == '-') || ["NaN", "inf"].contains(t))
        .filter_map(|t| t.parse().ok())
        .collect()
}

/// The text of an error names all values that it carries.
pub fn speaks<E: std::error::Error + std::fmt::Debug>(e: &E) -> Res {
    let text = e.to_string();
    let told = numbers(&text);
    for x in numbers(&format!("{e:?}")) {
        ensure!(told.iter().any(|y| *y == x || (x.is_nan() && y.is_nan())), "the message of {e:?} does not name {x:?}: {text}");
    }
    Ok(())
}
