//! C07 constructors, C08 composition/inversion, C09 interval-valued geometry
use super::p_interval::member;
use super::p_linear::to_ref;
use super::{Iv, LF};
use crate::fw::{Ctx, Rng, Section};
use crate::num::*;
use crate::refs::*;
use scarlet::geometry::ray::Ray;
use scarlet::math::interval::Interval;
use scarlet::math::transform::{Invertible, Matrix4x4, Transform, TransformMap};
use scarlet::math::vector::{GenericVector, InnerProduct, Norm, Normal3, Point3, Vector3};

pub fn p3<F: LF>(a: V3) -> Point3<F> {
    Point3::from(a.map(F::of))
}
pub fn v3<F: LF>(a: V3) -> Vector3<F> {
    Vector3::from(a.map(F::of))
}
pub fn n3<F: LF>(a: V3) -> Normal3<F> {
    Normal3::from(a.map(F::of))
}
pub fn d3<F: LF, U>(a: GenericVector<F, 3, U>) -> V3 {
    a.vec.map(|x| x.d())
}
pub fn round<F: LF>(a: V3) -> V3 {
    a.map(|x| F::of(x).d())
}

/// an elementary affine transform: library value, reference matrix, reference inverse, name, relative error factor
pub struct El<F: LF> {
    pub t: Transform<F>,
    pub m: M4,
    pub mi: M4,
    pub name: String,
}
pub fn elem<F: LF>(r: &mut Rng) -> El<F> {
    match r.below(9) {
        0 => {
            let v = round::<F>(r.modr3());
            El { t: Transform::translate(v3(v)), m: translate(v), mi: translate(mul(v, -1.0)), name: format!("translate({v:?})") }
        }
        1 | 2 => {
            let v = round::<F>(match r.below(3) {
                0 => [r.pos(); 3],
                1 => [r.pos() * r.sign(), r.pos() * r.sign(), r.pos() * r.sign()],
                _ => [r.pos(), r.pos(), r.pos()],
            });
            El { t: Transform::scale(v3(v)), m: scale(v), mi: scale([1.0 / v[0], 1.0 / v[1], 1.0 / v[2]]), name: format!("scale({v:?})") }
        }
        k @ 3..=5 => {
            let a = F::of(r.angle());
            let mut ax = [0.0; 3];
            ax[k as usize - 3] = 1.0;
            let t = match k {
                3 => Transform::rotate_x(a),
                4 => Transform::rotate_y(a),
                _ => Transform::rotate_z(a),
            };
            El { t, m: rotate(ax, a.d()), mi: rotate(ax, -a.d()), name: format!("rotate_{}({a:?})", ["x", "y", "z"][k as usize - 3]) }
        }
        6 | 7 => {
            let a = F::of(r.angle());
            let ax = round::<F>(mul(r.dir(), r.log(1e-2, 1e2)));
            El { t: Transform::rotate(v3(ax), a), m: rotate(ax, a.d()), mi: rotate(ax, -a.d()), name: format!("rotate({ax:?},{a:?})") }
        }
        _ => {
            let (p, t, u) = look_params::<F>(r);
            let m = look_at(p, t, u);
            El { t: Transform::look_at(p3(p), p3(t), v3(u)), m, mi: inv(&m).unwrap(), name: format!("look_at({p:?},{t:?},{u:?})") }
        }
    }
}
pub fn look_params<F: LF>(r: &mut Rng) -> (V3, V3, V3) {
    loop {
        let p = round::<F>(r.modr3());
        let d = mul(r.dir(), r.log(0.1, 50.0));
        let t = round::<F>(add(p, d));
        let u = round::<F>(mul(r.dir(), r.log(1e-2, 1e2)));
        let z = sub(p, t);
        if norm(z) > 0.05 && norm(cross(unit(u), unit(z))) > 0.1 {
            return (p, t, u);
        }
    }
}

// ---------------------------------------------------------------- C07
fn act<F: LF>(cx: &mut Ctx, what: &'static str, name: &str, t: &Transform<F>, m: &M4, mi: &M4, rel: f64) {
    // rel: relative accuracy of the matrix entries, in units of the largest entry
    let p = round::<F>(cx.rng.modr3());
    let n = 1.0 + norm(p);
    let (em, ei) = (rel * fro(m) * n, rel * fro(mi) * n);
    let sh = |o: &str, g: V3, w: V3| format!("{} {name}.{o}({p:?}) = {g:?}, expected {w:?}", F::NAME);
    let (g, w) = (d3(t.map(p3::<F>(p))), mp(m, p));
    cx.check(what, close3(g, w, em), || sh("map(point)", g, w));
    let (g, w) = (d3(t.map(v3::<F>(p))), mv(m, p));
    cx.check(what, close3(g, w, em), || sh("map(vector)", g, w));
    let (g, w) = (d3(t.map_inverse(p3::<F>(p))), mp(mi, p));
    cx.check("inverse-undoes", close3(g, w, ei), || sh("map_inverse(point)", g, w));
    let (g, w) = (d3(t.map_inverse(v3::<F>(p))), mv(mi, p));
    cx.check("inverse-undoes", close3(g, w, ei), || sh("map_inverse(vector)", g, w));
    let back = d3(t.map_inverse(t.map(p3::<F>(p))));
    cx.check("inverse-undoes", close3(back, p, 2.0 * (fro(mi) * em + rel * fro(mi) * (1.0 + norm(mp(m, p))))), || sh("roundtrip", back, p));
}
fn construct<F: LF>(cx: &mut Ctx) {
    let kf = if F::EPS > 1e-10 { 1.0 } else { 3.0 };
    let e = elem::<F>(&mut cx.rng);
    cx.sample(|| format!("{} {}", F::NAME, e.name));
    let (what, rel): (&'static str, f64) = match e.name.as_bytes()[0] {
        b't' => ("translate", 4.0),
        b's' => ("scale", 4.0),
        b'l' => ("look_at", 400.0),
        _ if e.name.starts_with("rotate_") => ("rotate-axis", 6.0),
        _ => ("rotate", 16.0),
    };
    act(cx, what, &e.name, &e.t, &e.m, &e.mi, rel * kf * F::EPS);
    if what == "translate" {
        // exact statements
        let v = round::<F>(cx.rng.modr3());
        let g = d3(e.t.map(v3::<F>(v)));
        cx.check("translate-vector", g == v, || format!("{} {} moved a vector {v:?} to {g:?}", F::NAME, e.name));
    }
}
fn look<F: LF>(cx: &mut Ctx) {
    let (p, t, u) = look_params::<F>(&mut cx.rng);
    let tr = Transform::<F>::look_at(p3(p), p3(t), v3(u));
    let tol = 400.0 * F::EPS * (1.0 + norm(p) + norm(t));
    cx.sample(|| format!("{} look_at({p:?},{t:?},{u:?})", F::NAME));
    let sh = |o: &str, g: V3| format!("{} look_at({p:?},{t:?},{u:?}): {o} {g:?}", F::NAME);
    let g = d3(tr.map(p3::<F>(p)));
    cx.check("eye-at-origin", close3(g, [0.0; 3], tol), || sh("eye at", g));
    let g = d3(tr.map(p3::<F>(t)));
    cx.check("target-on-neg-z", close3(g, [0.0, 0.0, -dist(p, t)], tol), || sh("target at", g));
    let g = d3(tr.map(v3::<F>(u)));
    cx.check("up-in-yz", g[0].abs() <= tol * (1.0 + norm(u)) && g[1] > 0.0, || sh("up", g));
    let (a, b) = (round::<F>(cx.rng.modr3()), round::<F>(cx.rng.modr3()));
    let (ma, mb) = (d3(tr.map(v3::<F>(a))), d3(tr.map(v3::<F>(b))));
    let k = 400.0 * F::EPS * (1.0 + norm(a)) * (1.0 + norm(b));
    cx.check("isometry", (dot(ma, mb) - dot(a, b)).abs() <= k, || sh("isometry", ma));
    let h = dot(cross(ma, mb), d3(tr.map(v3::<F>(cross(a, b)))));
    let w = dot(cross(a, b), cross(a, b));
    cx.check("right-handed", (h - w).abs() <= 2000.0 * F::EPS * (1.0 + norm(a).powi(2)) * (1.0 + norm(b).powi(2)) + 1e-3 * w, || sh("handedness", ma));
    let g = d3(tr.map_inverse(Point3::<F>::from([F::of(0.0); 3])));
    cx.check("origin-to-eye", close3(g, p, tol), || sh("origin to", g));
}
fn persp<F: LF>(cx: &mut Ctx) {
    let r = &mut cx.rng;
    let fov = F::of(match r.below(3) {
        0 => r.pick(&[0.5, 1.0, std::f64::consts::FRAC_PI_2, 2.0, 2.5]),
        1 => r.pick(&[0.001, 0.01, 0.05, 3.0, 3.05, 3.1]),
        _ => r.uni(0.05, 3.0),
    });
    let near = F::of(if r.chance(1, 4) { r.log(1e-6, 1e6) } else { r.log(1e-3, 1e3) });
    let far = F::of(near.d() * if r.chance(1, 2) { r.log(1.2, 200.0) } else { r.log(200.0, 1e6) });
    let t = Transform::<F>::perspective(fov, near, far);
    let tan = (fov.d() / 2.0).tan();
    let (n, f) = (near.d(), far.d());
    let d = match r.below(5) {
        0 => n,
        1 => f,
        2 => n * r.log(1.0, f / n),
        _ => r.uni(n, f),
    };
    let (a, b) = match r.below(3) {
        0 => (r.sign(), r.sign()),
        1 => (0.0, r.uni(-1.0, 1.0)),
        _ => (r.uni(-1.0, 1.0), r.uni(-1.0, 1.0)),
    };
    let p = round::<F>([a * d * tan, b * d * tan, -d]);
    let (a, b, d) = (p[0] / (-p[2] * tan), p[1] / (-p[2] * tan), -p[2]);
    let z = f / (f - n) * (1.0 - n / d);
    cx.sample(|| format!("{} perspective({fov:?},{near:?},{far:?}) at {p:?}", F::NAME));
    let kk = f / (f - n);
    let tol = 64.0 * F::EPS * kk;
    let txy = 64.0 * F::EPS;
    let g = d3(t.map(p3::<F>(p)));
    cx.check("frustum", (g[0] - a).abs() <= txy * a.abs() && (g[1] - b).abs() <= txy * b.abs() && (g[2] - z).abs() <= tol, || format!("{} perspective({fov:?},{near:?},{far:?}) maps {p:?} to {g:?}, expected {:?}", F::NAME, [a, b, z]));
    // back: depth sensitivity d^2/(kk n)
    let q = round::<F>([a, b, z]);
    let amp = d * d / (kk * n) + d;
    let back = d3(t.map_inverse(p3::<F>(q)));
    let tol = 512.0 * F::EPS * amp * (1.0 + kk) * (1.0 + tan);
    if tol < 0.05 * d {
        cx.check("unproject", close3(back, p, tol), || format!("{} perspective({fov:?},{near:?},{far:?}) unprojects {q:?} to {back:?}, expected {p:?} +- {tol:e}", F::NAME));
        let back = d3(t.inverse().map(p3::<F>(q)));
        cx.check("unproject", close3(back, p, tol), || format!("{} perspective({fov:?},{near:?},{far:?}).inverse() maps {q:?} to {back:?}, expected {p:?} +- {tol:e}", F::NAME));
    } else {
        cx.und("unproject-ill-conditioned");
    }
}
/// parameters far from 1: tiny and huge scales, translations, axes, angles, eye distances, nearly parallel up vectors
pub fn far3(r: &mut Rng, lim: f64) -> V3 {
    std::array::from_fn(|_| match r.below(16) {
        0 | 1 => 0.0,
        2 => r.log(1e-4 / lim, 1.0 / lim) * r.sign(),
        3 => r.log(lim, 1e3 * lim) * r.sign(),
        _ => r.log(1.0 / lim, lim) * r.sign(),
    })
}
fn near_comp(g: V3, w: V3, tol: V3) -> bool {
    (0..3).all(|i| (g[i] - w[i]).abs() <= tol[i] + 1e-36)
}
fn extreme<F: LF>(cx: &mut Ctx) {
    let kf = if F::EPS > 1e-10 { 1.0 } else { 3.0 };
    let e = kf * F::EPS;
    let big = if F::EPS > 1e-10 { 1e14 } else { 1e60 };
    match cx.rng.below(5) {
        0 | 1 => {
            let uniform = cx.rng.chance(1, 4);
            let s0 = cx.rng.log(1.0 / big, big);
            let s: V3 = std::array::from_fn(|_| if uniform { s0 } else if cx.rng.chance(1, 6) { 1.0 } else { cx.rng.log(1.0 / big, big) * cx.rng.sign() });
            let s = round::<F>(s);
            let p = round::<F>(far3(&mut cx.rng, 1e6));
            let t = Transform::<F>::scale(v3(s));
            let up: V3 = std::array::from_fn(|i| p[i] * s[i]);
            let dn: V3 = std::array::from_fn(|i| p[i] / s[i]);
            cx.sample(|| format!("{} scale({s:?}) of {p:?}", F::NAME));
            for (o, g, w) in [
                ("map(point)", d3(t.map(p3::<F>(p))), up),
                ("map(vector)", d3(t.map(v3::<F>(p))), up),
                ("map_inverse(point)", d3(t.map_inverse(p3::<F>(p))), dn),
                ("map_inverse(vector)", d3(t.map_inverse(v3::<F>(p))), dn),
                ("inverse().map(point)", d3(t.inverse().map(p3::<F>(p))), dn),
            ] {
                cx.check("scale", near_comp(g, w, w.map(|x| 4.0 * e * x.abs())), || format!("{} scale({s:?}).{o} of {p:?} = {g:?}, expected {w:?}", F::NAME));
            }
            let back = d3(t.map_inverse(t.map(p3::<F>(p))));
            cx.check("inverse-undoes", near_comp(back, p, p.map(|x| 8.0 * e * x.abs())), || format!("{} scale({s:?}) roundtrip of {p:?} = {back:?}", F::NAME));
        }
        2 => {
            let v = round::<F>(far3(&mut cx.rng, big));
            let p = round::<F>(far3(&mut cx.rng, big));
            let t = Transform::<F>::translate(v3(v));
            cx.sample(|| format!("{} translate({v:?}) of {p:?}", F::NAME));
            let (g, h) = (d3(t.map(p3::<F>(p))), d3(t.map_inverse(p3::<F>(p))));
            let tol: V3 = std::array::from_fn(|i| 4.0 * e * (p[i].abs() + v[i].abs()));
            cx.check("translate", near_comp(g, add(p, v), tol), || format!("{} translate({v:?}) of {p:?} = {g:?}", F::NAME));
            cx.check("inverse-undoes", near_comp(h, sub(p, v), tol), || format!("{} translate({v:?}) back of {p:?} = {h:?}", F::NAME));
            let (g, h) = (d3(t.map(v3::<F>(p))), d3(t.map_inverse(v3::<F>(p))));
            cx.check("translate-vector", g == p && h == p, || format!("{} translate({v:?}) moved vector {p:?} to {g:?} / {h:?}", F::NAME));
        }
        3 => {
            let ax = round::<F>(mul(cx.rng.dir(), cx.rng.log(1e-12, 1e12)));
            let a = F::of(match cx.rng.below(3) {
                0 => cx.rng.angle(),
                1 => cx.rng.log(1e-9, 1e9) * cx.rng.sign(),
                _ => cx.rng.uni(-1000.0, 1000.0),
            });
            let k = cx.rng.us(4);
            let (t, ax, name): (Transform<F>, V3, _) = match k {
                0 => (Transform::rotate_x(a), [1., 0., 0.], "x"),
                1 => (Transform::rotate_y(a), [0., 1., 0.], "y"),
                2 => (Transform::rotate_z(a), [0., 0., 1.], "z"),
                _ => (Transform::rotate(v3(ax), a), ax, "axis"),
            };
            let p = round::<F>(mul(cx.rng.dir(), cx.rng.log(1e-8, 1e8)));
            let (m, mi) = (rotate(ax, a.d()), rotate(ax, -a.d()));
            cx.sample(|| format!("{} rotate {ax:?} {a:?} of {p:?}", F::NAME));
            let tol = 16.0 * e * norm(p) + 1e-36;
            for (o, g, w) in [("map(point)", d3(t.map(p3::<F>(p))), mp(&m, p)), ("map(vector)", d3(t.map(v3::<F>(p))), mp(&m, p)), ("map_inverse(point)", d3(t.map_inverse(p3::<F>(p))), mp(&mi, p)), ("map_inverse(vector)", d3(t.map_inverse(v3::<F>(p))), mp(&mi, p))] {
                cx.check("rotate", close3(g, w, tol), || format!("{} rotation {name} {ax:?} by {a:?}, {o} of {p:?} = {g:?}, expected {w:?}", F::NAME));
            }
        }
        _ => {
            let p = round::<F>(mul(cx.rng.modr3(), cx.rng.pick(&[1e-4, 1.0, 1.0, 1e4])));
            let dir = cx.rng.dir();
            let t = round::<F>(add(p, mul(dir, cx.rng.log(1e-5, 1e6))));
            let z = sub(p, t);
            if norm(z) < 1e-6 {
                return cx.und("eye-is-target");
            }
            let side = mul(unit(cross(z, add(unit(z), cx.rng.dir().map(|x| x + 0.1)))), cx.rng.log(1e-3, 10.0));
            let s = cx.rng.sign();
            let u = round::<F>(mul(add(mul(unit(z), s), side), cx.rng.log(1e-12, 1e12)));
            let sn = norm(cross(unit(u), unit(z)));
            if !(sn > 5e-4) {
                return cx.und("up-parallel");
            }
            let m = look_at(p, t, u);
            let mi = inv(&m).unwrap();
            let tr = Transform::<F>::look_at(p3(p), p3(t), v3(u));
            let q = round::<F>(mul(cx.rng.modr3(), cx.rng.pick(&[1e-4, 1.0, 1e4])));
            cx.sample(|| format!("{} look_at({p:?},{t:?},{u:?}) of {q:?}", F::NAME));
            let rel = (16.0 + 24.0 / sn) * e;
            let sh = |o: &str, g: V3, w: V3| format!("{} look_at({p:?},{t:?},{u:?}).{o} of {q:?} = {g:?}, expected {w:?}", F::NAME);
            let (g, w) = (d3(tr.map(p3::<F>(q))), mp(&m, q));
            cx.check("look_at", close3(g, w, rel * (norm(p) + norm(q))), || sh("map(point)", g, w));
            let (g, w) = (d3(tr.map(v3::<F>(q))), mv(&m, q));
            cx.check("look_at", close3(g, w, rel * norm(q)), || sh("map(vector)", g, w));
            let (g, w) = (d3(tr.map_inverse(p3::<F>(q))), mp(&mi, q));
            cx.check("inverse-undoes", close3(g, w, rel * (norm(p) + norm(q))), || sh("map_inverse(point)", g, w));
            let (g, w) = (d3(tr.map_inverse(v3::<F>(q))), mv(&mi, q));
            cx.check("inverse-undoes", close3(g, w, rel * norm(q)), || sh("map_inverse(vector)", g, w));
        }
    }
}

// ---------------------------------------------------------------- C08
/// every map against the transform's own published matrices, component by component, at any magnitude
pub fn elem_far<F: LF>(r: &mut Rng) -> Transform<F> {
    match r.below(5) {
        0 => {
            let k = if r.chance(1, 5) { 1e8 } else { 1e5 };
            Transform::scale(v3(std::array::from_fn(|_| r.log(1.0 / k, k) * r.sign())))
        }
        1 => Transform::translate(v3(far3(r, 1e5))),
        2 => {
            let a: V3 = std::array::from_fn(|_| r.log(1e-3, 1e3));
            Transform::scale(v3(a))
        }
        _ => elem::<F>(r).t,
    }
}
fn own<F: LF>(cx: &mut Ctx) {
    let e = 12.0 * F::EPS;
    let n = 1 + cx.rng.us(3);
    let mut t = elem_far::<F>(&mut cx.rng);
    for _ in 1..n {
        let mut b = elem_far::<F>(&mut cx.rng);
        if cx.rng.chance(1, 2) {
            std::mem::swap(&mut t, &mut b);
        }
        let c = t * b;
        for (g, x, y, o) in [(c.matrix(), t.matrix(), b.matrix(), "matrix"), (c.inverse_matrix(), b.inverse_matrix(), t.inverse_matrix(), "inverse matrix")] {
            let (x, y, g) = (to_ref(&x.data), to_ref(&y.data), to_ref(&g.data));
            let (w, k) = (mm(&x, &y), mm_abs(&x, &y));
            let ok = (0..4).all(|i| (0..4).all(|j| (g[i][j] - w[i][j]).abs() <= e * k[i][j] + 1e-36));
            cx.check("product-matrix", ok, || format!("{} {o} of a product: {g:?}, expected {w:?}", F::NAME));
        }
        t = c;
    }
    if cx.rng.chance(1, 3) {
        let u = t.inverse();
        cx.check("inverse-swaps", u.matrix() == t.inverse_matrix() && u.inverse_matrix() == t.matrix(), || format!("{} inverse of {t:?} is {u:?}", F::NAME));
        t = u;
    }
    let (m, mi) = (to_ref(&t.matrix().data), to_ref(&t.inverse_matrix().data));
    if m[3] != [0., 0., 0., 1.] || mi[3] != [0., 0., 0., 1.] {
        cx.fail("affine-row", format!("{} last rows {:?} {:?}", F::NAME, m[3], mi[3]));
        return;
    }
    let p = round::<F>(far3(&mut cx.rng, 1e4));
    let q = round::<F>(far3(&mut cx.rng, 1e4));
    cx.sample(|| format!("{} {m:?} of {p:?} {q:?}", F::NAME));
    let lin = |m: &M4, v: V3, w: f64| -> (V3, V3) {
        let g = std::array::from_fn(|i| m[i][0] * v[0] + m[i][1] * v[1] + m[i][2] * v[2] + w * m[i][3]);
        let k = std::array::from_fn(|i| e * ((m[i][0] * v[0]).abs() + (m[i][1] * v[1]).abs() + (m[i][2] * v[2]).abs() + w * m[i][3].abs()));
        (g, k)
    };
    let tm = match cx.rng.below(4) {
        0 => F::infinity(),
        1 => F::of(0.0),
        2 => F::highest(),
        _ => F::of(cx.rng.log(1e-10, 1e10)),
    };
    let r = Ray::new(p3::<F>(p), v3::<F>(q), tm);
    let ti = t.inverse();
    let (rm, ri, rj) = (t.map(r), t.map_inverse(r), ti.map(r));
    cx.check("ray-limit", rm.tmax == tm && ri.tmax == tm && rj.tmax == tm, || format!("{} limit {tm:?} became {:?} / {:?} / {:?}", F::NAME, rm.tmax, ri.tmax, rj.tmax));
    let (mt, mit) = (tr(&m), tr(&mi));
    let cases: [(&'static str, V3, (V3, V3)); 16] = [
        ("map-point", d3(t.map(p3::<F>(p))), lin(&m, p, 1.0)),
        ("unmap-point", d3(t.map_inverse(p3::<F>(p))), lin(&mi, p, 1.0)),
        ("map-vector", d3(t.map(v3::<F>(q))), lin(&m, q, 0.0)),
        ("unmap-vector", d3(t.map_inverse(v3::<F>(q))), lin(&mi, q, 0.0)),
        ("map-normal", d3(t.map(n3::<F>(q))), lin(&mit, q, 0.0)),
        ("unmap-normal", d3(t.map_inverse(n3::<F>(q))), lin(&mt, q, 0.0)),
        ("ray-origin", d3(rm.origin), lin(&m, p, 1.0)),
        ("ray-direction", d3(rm.direction), lin(&m, q, 0.0)),
        ("ray-origin", d3(ri.origin), lin(&mi, p, 1.0)),
        ("ray-direction", d3(ri.direction), lin(&mi, q, 0.0)),
        ("ray-origin", d3(rj.origin), lin(&mi, p, 1.0)),
        ("ray-direction", d3(rj.direction), lin(&mi, q, 0.0)),
        ("inverted", d3(ti.map(p3::<F>(p))), lin(&mi, p, 1.0)),
        ("inverted", d3(ti.map(v3::<F>(q))), lin(&mi, q, 0.0)),
        ("inverted", d3(ti.map(n3::<F>(q))), lin(&mt, q, 0.0)),
        ("inverted", d3(ti.map_inverse(n3::<F>(q))), lin(&mit, q, 0.0)),
    ];
    for (o, g, (w, k)) in cases {
        cx.check(o, near_comp(g, w, k), || format!("{} {o} by {m:?} / {mi:?} of {p:?} {q:?} = {g:?}, expected {w:?} +- {k:?}", F::NAME));
    }
    // evaluation of a ray at far parameters
    let s = F::of(cx.rng.log(1e-6, 1e6) * cx.rng.pick(&[0.0, 1.0, 1.0, -1.0]));
    let g = d3(r.eval(s));
    let w = add(p, mul(q, s.d()));
    let k = std::array::from_fn(|i| e * (p[i].abs() + (q[i] * s.d()).abs()));
    cx.check("ray-eval", near_comp(g, w, k), || format!("{} ray {p:?}+{s:?}*{q:?} = {g:?}, expected {w:?}", F::NAME));
}
fn hom(m: &M4, p: V3) -> (V3, f64) {
    let f = |i: usize| m[i][0] * p[0] + m[i][1] * p[1] + m[i][2] * p[2] + m[i][3];
    ([f(0), f(1), f(2)], f(3))
}
/// the product of a chain under a random bracketing
fn bracketed<F: LF>(r: &mut Rng, ts: &[Transform<F>]) -> Transform<F> {
    match ts {
        [t] => *t,
        _ => {
            let k = 1 + r.us(ts.len() - 1);
            bracketed(r, &ts[..k]) * bracketed(r, &ts[k..])
        }
    }
}
/// A user-defined mappable object that relies on the trait's default backward map.
#[derive(Clone, Copy)]
struct Seg<F: LF>(Point3<F>, Vector3<F>);
impl<F: LF> TransformMap<Seg<F>> for Transform<F> {
    type Output = Seg<F>;
    fn map(&self, s: Seg<F>) -> Seg<F> {
        Seg(self.map(s.0), self.map(s.1))
    }
}
fn chain<F: LF>(cx: &mut Ctx) {
    let n = 1 + cx.rng.us(6);
    let mut lib = Transform::<F>::identity();
    let (mut m, mut mi) = (I4, I4);
    let (mut nm, mut ni) = (1.0, 1.0);
    let mut parts = vec![];
    let mut names = vec![];
    let inverted = cx.rng.below(3);
    for k in 0..n {
        let mut e = elem::<F>(&mut cx.rng);
        if inverted == 1 || (inverted == 2 && cx.rng.chance(1, 2)) {
            e.t = e.t.inverse();
            std::mem::swap(&mut e.m, &mut e.mi);
            e.name = format!("inv {}", e.name);
        }
        nm *= fro(&e.m);
        ni *= fro(&e.mi);
        lib = if k == 0 { e.t } else { lib * e.t };
        m = mm(&m, &e.m);
        mi = mm(&e.mi, &mi);
        parts.push(e.t);
        names.push(e.name);
    }
    if n > 1 && cx.rng.chance(1, 2) {
        lib = bracketed(&mut cx.rng, &parts);
        cx.ev("bracketed");
    }
    let kf = if F::EPS > 1e-10 { 1.0 } else { 3.0 };
    // look_at entries are accurate to a few hundred eps in the worst conditioned case (see C07), others to 16
    let per = if names.iter().any(|s| s.contains("look")) { 300.0 } else { 32.0 };
    let (em, ei) = (per * n as f64 * kf * F::EPS * nm, per * n as f64 * kf * F::EPS * ni);
    if em > 0.05 * fro(&m).min(1.0) || ei > 0.05 * fro(&mi).min(1.0) {
        return cx.und("too-ill-conditioned");
    }
    let p = round::<F>(cx.rng.modr3());
    let q = round::<F>(cx.rng.modr3());
    let (s1, s2) = (F::of(cx.rng.modr()).d(), F::of(cx.rng.modr()).d());
    cx.sample(|| format!("{} {names:?} on {p:?}", F::NAME));
    let np = 1.0 + norm(p);
    let nq = 1.0 + norm(q);
    let sh = |o: &str, g: V3, w: V3, t: f64| format!("{} {names:?} {o}: point/vector {p:?} {q:?} -> {g:?}, expected {w:?} +- {t:e}", F::NAME);
    let linv = lib.inverse();
    macro_rules! expect {
        ($ev:expr,$o:expr,$g:expr,$w:expr,$t:expr) => {{
            let (g, w, t) = ($g, $w, $t);
            cx.check($ev, close3(g, w, t), || sh($o, g, w, t));
        }};
    }
    expect!("map-point", "map(point)", d3(lib.map(p3::<F>(p))), mp(&m, p), em * np);
    expect!("map-vector", "map(vector)", d3(lib.map(v3::<F>(p))), mv(&m, p), em * np);
    expect!("map-normal", "map(normal)", d3(lib.map(n3::<F>(p))), mvt(&mi, p), ei * np);
    expect!("unmap-point", "map_inverse(point)", d3(lib.map_inverse(p3::<F>(p))), mp(&mi, p), ei * np);
    expect!("unmap-vector", "map_inverse(vector)", d3(lib.map_inverse(v3::<F>(p))), mv(&mi, p), ei * np);
    expect!("unmap-normal", "map_inverse(normal)", d3(lib.map_inverse(n3::<F>(p))), mvt(&m, p), em * np);
    expect!("inverted", "inverse().map(point)", d3(linv.map(p3::<F>(p))), mp(&mi, p), ei * np);
    expect!("inverted", "inverse().map(vector)", d3(linv.map(v3::<F>(p))), mv(&mi, p), ei * np);
    expect!("inverted", "inverse().map(normal)", d3(linv.map(n3::<F>(p))), mvt(&m, p), em * np);
    expect!("inverted", "inverse().map_inverse(point)", d3(linv.map_inverse(p3::<F>(p))), mp(&m, p), em * np);
    expect!("inverted", "inverse().map_inverse(vector)", d3(linv.map_inverse(v3::<F>(p))), mv(&m, p), em * np);
    expect!("inverted", "inverse().map_inverse(normal)", d3(linv.map_inverse(n3::<F>(p))), mvt(&mi, p), ei * np);
    let seg = Seg(p3::<F>(p), v3::<F>(p));
    let (fw, bw) = (lib.map(seg), lib.map_inverse(seg));
    expect!("user-object", "map(user object).point", d3(fw.0), mp(&m, p), em * np);
    expect!("user-object", "map_inverse(user object).point", d3(bw.0), mp(&mi, p), ei * np);
    expect!("user-object", "map_inverse(user object).vector", d3(bw.1), mv(&mi, p), ei * np);
    // one factor at a time
    let (mut sp, mut sv, mut sn) = (p3::<F>(p), v3::<F>(p), n3::<F>(p));
    for t in parts.iter().rev() {
        sp = t.map(sp);
        sv = t.map(sv);
        sn = t.map(sn);
    }
    expect!("factors", "factor by factor, point", d3(sp), mp(&m, p), em * np);
    expect!("factors", "factor by factor, vector", d3(sv), mv(&m, p), em * np);
    expect!("factors", "factor by factor, normal", d3(sn), mvt(&mi, p), ei * np);
    let rt = 2.0 * (ei * (1.0 + norm(mp(&m, p))) + fro(&mi) * em * np);
    expect!("roundtrip", "map_inverse(map(point))", d3(lib.map_inverse(lib.map(p3::<F>(p)))), p, rt);
    expect!("roundtrip", "map_inverse(map(vector))", d3(lib.map_inverse(lib.map(v3::<F>(p)))), p, rt);
    let rtn = 2.0 * (em * (1.0 + norm(mvt(&mi, p))) + fro(&m) * ei * np);
    expect!("roundtrip", "map_inverse(map(normal))", d3(lib.map_inverse(lib.map(n3::<F>(p)))), p, rtn);
    // product with the inverse is the identity
    let id = lib * linv;
    expect!("roundtrip", "(t*inverse)(point)", d3(id.map(p3::<F>(p))), p, 2.0 * (em * ni + ei * nm) * np);
    // linear on vectors and normals
    let comb = add(mul(p, s1), mul(q, s2));
    let cn = (np * s1.abs() + nq * s2.abs() + 1.0) * 4.0;
    let lin = lib.map(v3::<F>(p)) * F::of(s1) + lib.map(v3::<F>(q)) * F::of(s2);
    expect!("linear", "linearity on vectors", d3(lin), d3(lib.map(v3::<F>(comb))), 2.0 * em * cn);
    let lin = lib.map(n3::<F>(p)) * F::of(s1) + lib.map(n3::<F>(q)) * F::of(s2);
    expect!("linear", "linearity on normals", d3(lin), d3(lib.map(n3::<F>(comb))), 2.0 * ei * cn);
    // differences of points
    let df = lib.map(p3::<F>(p)) - lib.map(p3::<F>(q));
    expect!("difference", "difference of mapped points", d3(df), mv(&m, sub(p, q)), 2.0 * em * (np + nq));
    // normals stay perpendicular and keep their side
    let (mn, mt) = (d3(lib.map(n3::<F>(p))), d3(lib.map(v3::<F>(q))));
    let tol = 4.0 * (ei * np * (norm(mt) + 1.0) + em * nq * (norm(mn) + 1.0) + 16.0 * F::EPS * np * nq);
    cx.check("normal-side", (dot(mn, mt) - dot(p, q)).abs() <= tol, || sh("normal.vector", mn, mt, tol));
    // rays keep their parameter
    let tm = match cx.rng.below(4) {
        0 => F::of(f64::INFINITY),
        1 => F::highest(),
        _ => F::of(cx.rng.pos()),
    };
    let ray = Ray::new(p3::<F>(p), v3::<F>(q), tm);
    let tt = F::of(cx.rng.uni(0.0, 5.0));
    for (o, r2, mt, e) in [("map(ray)", lib.map(ray), &m, em), ("map_inverse(ray)", lib.map_inverse(ray), &mi, ei)] {
        cx.check("ray-limit", r2.tmax == tm, || format!("{} {names:?} {o} changed the limit {tm:?} to {:?}", F::NAME, r2.tmax));
        expect!("ray-origin", o, d3(r2.origin), mp(mt, p), e * np);
        expect!("ray-direction", o, d3(r2.direction), mv(mt, q), e * nq);
        let at = add(p, mul(q, tt.d()));
        expect!("ray-param", o, d3(r2.eval(tt)), mp(mt, at), 2.0 * e * (np + nq * (1.0 + tt.d())));
    }
    let at = d3(ray.eval(tt));
    let w = add(p, mul(q, tt.d()));
    expect!("ray-eval", "eval", at, w, 4.0 * kf * F::EPS * (np + nq * (1.0 + tt.d())));
}
/// chains with a projection, points only
fn proj_chain<F: LF>(cx: &mut Ctx) {
    let (a, b) = (elem::<F>(&mut cx.rng), elem::<F>(&mut cx.rng));
    if a.name.starts_with("scale") || b.name.starts_with("look") {
        return cx.und("skipped");
    }
    let fov = F::of(cx.rng.uni(0.5, 2.0));
    let near = F::of(cx.rng.log(0.1, 3.0));
    let far = F::of(near.d() * cx.rng.log(2.0, 50.0));
    let t = Transform::<F>::perspective(fov, near, far);
    let e = 1.0 / (fov.d() / 2.0).tan();
    let (n, f) = (near.d(), far.d());
    let pm: M4 = [[-e, 0., 0., 0.], [0., -e, 0., 0.], [0., 0., f / (f - n), f * n / (f - n)], [0., 0., 1., 0.]];
    let p = round::<F>(cx.rng.modr3());
    let m = mm(&a.m, &mm(&pm, &b.m));
    let (h, w) = hom(&m, p);
    let mag = 200.0 * F::EPS * fro(&a.m) * fro(&pm) * fro(&b.m) * (1.0 + norm(p));
    if w.abs() < 1e3 * mag || w.abs() < 0.05 {
        return cx.und("near-the-camera-plane");
    }
    let want = mul(h, 1.0 / w);
    let tol = mag * (2.0 + norm(want)) / w.abs();
    cx.sample(|| format!("{} {}*perspective*{} on {p:?}", F::NAME, a.name, b.name));
    let lib = if cx.rng.chance(1, 2) { a.t * t * b.t } else { a.t * (t * b.t) };
    let g = d3(lib.map(p3::<F>(p)));
    cx.check("projective-product", close3(g, want, tol), || format!("{} {}*perspective({fov:?},{near:?},{far:?})*{} maps {p:?} to {g:?}, expected {want:?}", F::NAME, a.name, b.name));
    let s = d3(a.t.map(t.map(b.t.map(p3::<F>(p)))));
    cx.check("projective-factors", close3(s, want, 3.0 * tol * (1.0 + fro(&a.m))), || format!("{} {}*perspective({fov:?},{near:?},{far:?})*{} factor by factor maps {p:?} to {s:?}, expected {want:?}", F::NAME, a.name, b.name));
    // and back
    let pmi: M4 = [[-1.0 / e, 0., 0., 0.], [0., -1.0 / e, 0., 0.], [0., 0., 0., 1.], [0., 0., (f - n) / (f * n), -1.0 / n]];
    let mi = mm(&b.mi, &mm(&pmi, &a.mi));
    let q = round::<F>(want);
    let (h, w) = hom(&mi, q);
    let mag = 200.0 * F::EPS * fro(&a.mi) * fro(&pmi) * fro(&b.mi) * (1.0 + norm(q));
    if w.abs() < 1e3 * mag {
        return cx.und("back-near-the-camera-plane");
    }
    let want = mul(h, 1.0 / w);
    let tol = mag * (2.0 + norm(want)) / w.abs();
    for (o, g) in [("map_inverse", d3(lib.map_inverse(p3::<F>(q)))), ("inverse().map", d3(lib.inverse().map(p3::<F>(q))))] {
        cx.check("projective-back", close3(g, want, tol), || format!("{} {}*perspective({fov:?},{near:?},{far:?})*{} {o} takes {q:?} to {g:?}, expected {want:?} +- {tol:e}", F::NAME, a.name, b.name));
    }
    let s = d3(b.t.map_inverse(t.map_inverse(a.t.map_inverse(p3::<F>(q)))));
    cx.check("projective-back", close3(s, want, 3.0 * tol * (1.0 + fro(&b.mi))), || format!("{} {}*perspective({fov:?},{near:?},{far:?})*{} undone factor by factor takes {q:?} to {s:?}, expected {want:?}", F::NAME, a.name, b.name));
}
/// transforms whose arithmetic is exact: results must be exact
fn exact<F: LF>(cx: &mut Ctx) {
    let mut parts = vec![];
    let (mut m, mut mi) = (I4, I4);
    // chains without translations may scale by anything
    let lin = cx.rng.chance(1, 4);
    let n = 1 + cx.rng.us(if lin { 2 } else { 4 });
    for _ in 0..n {
        let (e, f) = match cx.rng.below(3) {
            0 if !lin => {
                let v = [cx.rng.int(-8, 8) as f64, cx.rng.int(-8, 8) as f64, cx.rng.int(-8, 8) as f64];
                parts.push(Transform::<F>::translate(v3(v)));
                (translate(v), translate(mul(v, -1.0)))
            }
            1 => {
                let far = if lin { 40 } else { 2 };
                let v: V3 = std::array::from_fn(|_| 2f64.powi(cx.rng.int(-far, far) as i32) * cx.rng.sign());
                parts.push(Transform::scale(v3(v)));
                (scale(v), scale(v.map(|x| 1.0 / x)))
            }
            _ => {
                let mut p = [0, 1, 2];
                cx.rng.shuffle(&mut p);
                let mut e = [[0.0; 4]; 4];
                e[3][3] = 1.0;
                for i in 0..3 {
                    e[i][p[i]] = cx.rng.sign();
                }
                let f = tr(&e);
                parts.push(Transform::new(Matrix4x4::from(e.map(|r| r.map(F::of))), Matrix4x4::from(f.map(|r| r.map(F::of)))));
                (e, f)
            }
        };
        m = mm(&m, &e);
        mi = mm(&f, &mi);
    }
    let t = if cx.rng.chance(1, 2) { parts.iter().fold(Transform::<F>::identity(), |t, e| t * *e) } else { bracketed(&mut cx.rng, &parts) };
    let p: V3 = std::array::from_fn(|_| cx.rng.int(-16, 16) as f64 / 4.0);
    cx.sample(|| format!("{} exact chain {m:?} on {p:?}", F::NAME));
    let got = [d3(t.map(p3::<F>(p))), d3(t.map(v3::<F>(p))), d3(t.map(n3::<F>(p))), d3(t.map_inverse(p3::<F>(p))), d3(t.map_inverse(v3::<F>(p))), d3(t.map_inverse(n3::<F>(p)))];
    let want = [mp(&m, p), mv(&m, p), mvt(&mi, p), mp(&mi, p), mv(&mi, p), mvt(&m, p)];
    cx.check("exact", got == want, || format!("{} {m:?} on {p:?}: {got:?}, expected {want:?}", F::NAME));
    cx.check("accessors", to_ref(&t.matrix().data) == m && to_ref(&t.inverse_matrix().data) == mi && to_ref(&t.inverse().matrix().data) == mi && to_ref(&t.inverse().inverse_matrix().data) == m, || {
        format!("{} matrices {:?} {:?}", F::NAME, t.matrix(), t.inverse_matrix())
    });
    // identity changes nothing at all
    let id = Transform::<F>::identity();
    let h: [F; 3] = [F::of(cx.rng.modr()), F::of(cx.rng.modr()), cx.rng.hostile::<f32>().d().clamp(-1e30, 1e30).pipe(F::of)];
    let ok = [id, id.inverse(), id * id].iter().all(|i| {
        i.map(Point3::from(h)).vec == h && i.map(Vector3::from(h)).vec == h && i.map(Normal3::from(h)).vec == h && i.map_inverse(Point3::from(h)).vec == h && i.map_inverse(Vector3::from(h)).vec == h && i.map_inverse(Normal3::from(h)).vec == h
    });
    cx.check("identity", ok, || format!("{} identity changed {h:?}", F::NAME));
    let (it, ti) = ((id * t), (t * id));
    cx.check("identity", it == t && ti == t && (it == id) == (t == id), || format!("{} identity product changed {t:?}", F::NAME));
    // the trait forms agree with the inherent ones
    let (x, y) = (TransformMap::map(&t, p3::<F>(p)), TransformMap::map_inverse(&t, p3::<F>(p)));
    cx.check("trait-map", d3(x) == want[0] && d3(y) == want[3], || format!("{} trait map {x:?} {y:?}", F::NAME));
}
trait Pipe: Sized {
    fn pipe<R>(self, f: impl FnOnce(Self) -> R) -> R {
        f(self)
    }
}
impl Pipe for f64 {}

// ---------------------------------------------------------------- C09
pub fn wide<F: LF>(r: &mut Rng, c: f64) -> (Iv<F>, f64) {
    let w = match r.below(5) {
        0 => 0.0,
        1 => 1e-6 * (1.0 + c.abs()),
        2 => 1e-3,
        3 => r.uni(0.0, 0.5),
        _ => r.uni(0.0, 4.0),
    };
    let (lo, hi) = (F::of(c - w * r.unit()), F::of(c + w * r.unit()));
    let (lo, hi) = if lo <= hi { (lo, hi) } else { (hi, lo) };
    (Interval::new(lo, hi), member(r, lo, hi).d())
}
fn wide3<F: LF>(r: &mut Rng, c: V3) -> ([Iv<F>; 3], V3) {
    let mut i = [Iv::<F>::from(F::of(0.0)); 3];
    let mut m = [0.0; 3];
    for k in 0..3 {
        let (a, b) = wide::<F>(r, c[k]);
        i[k] = a;
        m[k] = b;
    }
    (i, m)
}
fn has<F: LF>(x: Iv<F>, v: f64, tol: f64) -> bool {
    x.inf <= x.sup && x.inf.d() <= v + tol && x.sup.d() >= v - tol
}
fn has3<F: LF, U>(x: GenericVector<Iv<F>, 3, U>, v: V3, tol: f64) -> bool {
    (0..3).all(|i| has(x[i], v[i], tol))
}
fn rt<F: Fl>() -> f64 {
    // accuracy of the double reference relative to intermediate magnitudes
    2e-15
}
fn iv_vectors<F: LF>(cx: &mut Ctx) {
    let (ca, cb, cs) = (cx.rng.modr3(), cx.rng.modr3(), cx.rng.modr());
    let (a, x) = wide3::<F>(&mut cx.rng, ca);
    let (b, y) = wide3::<F>(&mut cx.rng, cb);
    let (s, z) = wide::<F>(&mut cx.rng, cs);
    let f = F::of(cx.rng.modr());
    cx.sample(|| format!("{} a={a:?} b={b:?}", F::NAME));
    let (va, vb) = (Vector3::from(a), Vector3::from(b));
    let (pa, pb) = (Point3::from(a), Point3::from(b));
    let na = Normal3::from(a);
    let mag = 1.0 + norm(x) + norm(y);
    let t1 = rt::<F>() * mag;
    let t2 = rt::<F>() * mag * mag;
    let sh = |o: &str| format!("{} {o} of {a:?} {b:?} {s:?} {f:?} misses members {x:?} {y:?} {z}", F::NAME);
    macro_rules! c3 {
        ($o:expr,$g:expr,$w:expr,$t:expr) => {{
            let (g, w) = ($g, $w);
            cx.check("vector-op", has3(g, w, $t), || format!("{}: {g:?} vs {w:?}", sh($o)));
        }};
    }
    macro_rules! c1 {
        ($ev:expr,$o:expr,$g:expr,$w:expr,$t:expr) => {{
            let (g, w) = ($g, $w);
            cx.check($ev, has(g, w, $t), || format!("{}: {g:?} vs {w:?}", sh($o)));
        }};
    }
    c3!("v+v", va + vb, add(x, y), t1);
    c3!("v-v", va - vb, sub(x, y), t1);
    c3!("p-p", pa - pb, sub(x, y), t1);
    c3!("p+v", pa + vb, add(x, y), t1);
    c3!("p-v", pa - vb, sub(x, y), t1);
    c3!("-v", -va, mul(x, -1.0), t1);
    c3!("v*v", va * vb, [x[0] * y[0], x[1] * y[1], x[2] * y[2]], t2);
    c3!("v*interval", va * s, mul(x, z), rt::<F>() * mag * (1.0 + z.abs()));
    c3!("v*scalar", va * f, mul(x, f.d()), rt::<F>() * mag * (1.0 + f.d().abs()));
    if f.d() != 0.0 {
        c3!("n/scalar", na / f, mul(x, 1.0 / f.d()), rt::<F>() * mag * (1.0 + 1.0 / f.d().abs()));
    }
    if !s.contains(F::of(0.0)) {
        c3!("v/interval", va / s, mul(x, 1.0 / z), rt::<F>() * mag * (1.0 + 1.0 / z.abs()));
    }
    c3!("cross", va.cross(vb), cross(x, y), t2);
    c3!("min", va.min(vb), [x[0].min(y[0]), x[1].min(y[1]), x[2].min(y[2])], t1);
    c3!("max", va.max(vb), [x[0].max(y[0]), x[1].max(y[1]), x[2].max(y[2])], t1);
    c1!("dot", "dot", va.dot(vb), dot(x, y), t2);
    c1!("dot", "point.normal", pa.dot(na), dot(x, x), t2);
    c1!("norm", "square_norm", va.square_norm(), dot(x, x), t2);
    c1!("norm", "norm", va.norm(), norm(x), t1);
    c1!("norm", "norm of normal", <Normal3<Iv<F>> as Norm>::norm(na), norm(x), t1);
    c1!("distance", "square_distance", va.square_distance(vb), dot(sub(x, y), sub(x, y)), t2);
    c1!("distance", "distance", va.distance(vb), dist(x, y), t1);
    c1!("dot", "trait dot", <Vector3<Iv<F>> as InnerProduct<Point3<Iv<F>>>>::dot(va, pb), dot(x, y), t2);
    let n = va.norm();
    if n.inf.d() > 0.0 {
        let u = va.normalize();
        let w = unit(x);
        cx.check("normalize", has3(u, w, 1e-14), || format!("{}: {u:?} vs {w:?}", sh("normalize")));
        let u = na.normalize();
        cx.check("normalize", has3(u, w, 1e-14), || format!("{}: {u:?} vs {w:?}", sh("normalize normal")));
    }
    // ray evaluation
    let ray = Ray::new(pa, vb, Iv::<F>::from(F::of(1.0)));
    let g = ray.eval(s);
    let w = add(x, mul(y, z));
    cx.check("ray-eval", has3(g, w, rt::<F>() * mag * (1.0 + z.abs())), || format!("{}: {g:?} vs {w:?}", sh("ray.eval")));
    // conversions
    let plain = v3::<F>(x);
    let up: Vector3<Iv<F>> = plain.into();
    let up2: Point3<Iv<F>> = p3::<F>(x).into();
    cx.check("to-interval", (0..3).all(|i| has(up[i], plain[i].d(), 0.0) && up[i].is_exact() && has(up2[i], plain[i].d(), 0.0)), || sh("conversion to interval"));
    let down: Vector3<F> = va.into();
    let down2: Point3<F> = pa.into();
    let down3: Normal3<F> = na.into();
    let mid: V3 = std::array::from_fn(|i| (a[i].inf.d() + a[i].sup.d()) / 2.0);
    let tl = 2.0 * F::EPS * mag;
    let inside = (0..3).all(|i| down[i] >= a[i].inf && down[i] <= a[i].sup);
    cx.check("to-midpoint", inside && close3(d3(down), mid, tl) && close3(d3(down2), mid, tl) && close3(d3(down3), mid, tl), || format!("{}: {down:?}", sh("conversion to midpoint")));
}
fn iv_map<F: LF>(cx: &mut Ctx) {
    // scalar transform applied to interval geometry, against the transform's own matrices
    let mut t = elem::<F>(&mut cx.rng).t;
    for _ in 0..cx.rng.us(3) {
        t = t * elem::<F>(&mut cx.rng).t;
    }
    let (m, mi) = (to_ref(&t.matrix().data), to_ref(&t.inverse_matrix().data));
    let (ca, cb) = (cx.rng.modr3(), cx.rng.modr3());
    let (a, x) = wide3::<F>(&mut cx.rng, ca);
    let (b, y) = wide3::<F>(&mut cx.rng, cb);
    cx.sample(|| format!("{} {m:?} on {a:?}", F::NAME));
    let tm = 4.0 * rt::<F>() * fro(&m) * (1.0 + norm(x));
    let ti = 4.0 * rt::<F>() * fro(&mi) * (1.0 + norm(x));
    let k = 1.0 + norm(y);
    let sh = |o: &str| format!("{} {o} by {m:?} / {mi:?} of {a:?} {b:?} misses the image of {x:?} {y:?}", F::NAME);
    macro_rules! c3 {
        ($ev:expr,$o:expr,$g:expr,$w:expr,$t:expr) => {{
            let (g, w) = ($g, $w);
            cx.check($ev, has3(g, w, $t), || format!("{}: {g:?} vs {w:?}", sh($o)));
        }};
    }
    c3!("map-point", "map(point)", t.map(Point3::from(a)), mp(&m, x), tm);
    c3!("map-vector", "map(vector)", t.map(Vector3::from(a)), mv(&m, x), tm);
    c3!("map-normal", "map(normal)", t.map(Normal3::from(a)), mvt(&mi, x), ti);
    c3!("unmap-point", "map_inverse(point)", t.map_inverse(Point3::from(a)), mp(&mi, x), ti);
    c3!("unmap-vector", "map_inverse(vector)", t.map_inverse(Vector3::from(a)), mv(&mi, x), ti);
    c3!("unmap-normal", "map_inverse(normal)", t.map_inverse(Normal3::from(a)), mvt(&m, x), tm);
    let lim = Iv::<F>::from(F::of(2.5));
    let r = Ray::new(Point3::from(a), Vector3::from(b), lim);
    let g = t.map(r);
    c3!("map-ray", "map(ray).origin", g.origin, mp(&m, x), tm * k);
    c3!("map-ray", "map(ray).direction", g.direction, mv(&m, y), tm * k);
    cx.check("map-ray", g.tmax.is_same(lim), || sh("map(ray).tmax"));
    let g = t.map_inverse(r);
    c3!("map-ray", "map_inverse(ray).origin", g.origin, mp(&mi, x), ti * k);
    c3!("map-ray", "map_inverse(ray).direction", g.direction, mv(&mi, y), ti * k);
}
fn small<F: LF>(r: &mut Rng, c: f64) -> (Iv<F>, f64) {
    let w = r.pick(&[0.0, 1e-6, 1e-4, 1e-2]);
    let (lo, hi) = (F::of(c - w * r.unit()), F::of(c + w * r.unit()));
    let (lo, hi) = if lo <= hi { (lo, hi) } else { (hi, lo) };
    (Interval::new(lo, hi), member(r, lo, hi).d())
}
fn small3<F: LF>(r: &mut Rng, c: V3) -> ([Iv<F>; 3], V3) {
    let mut i = [Iv::<F>::from(F::of(0.0)); 3];
    let mut m = [0.0; 3];
    for k in 0..3 {
        let (a, b) = small::<F>(r, c[k]);
        i[k] = a;
        m[k] = b;
    }
    (i, m)
}
fn iv_construct<F: LF>(cx: &mut Ctx) {
    let kind = cx.rng.below(8);
    let (t, m, mi, name): (Transform<Iv<F>>, M4, M4, &'static str) = match kind {
        0 => {
            let c = cx.rng.modr3();
            let (v, x) = small3::<F>(&mut cx.rng, c);
            (Transform::translate(Vector3::from(v)), translate(x), translate(mul(x, -1.0)), "translate")
        }
        1 => {
            let c = [0, 1, 2].map(|_| (cx.rng.pos() + 0.1) * cx.rng.sign());
            let (v, x) = small3::<F>(&mut cx.rng, c);
            (Transform::scale(Vector3::from(v)), scale(x), scale(x.map(|q| 1.0 / q)), "scale")
        }
        2..=4 => {
            let c = cx.rng.angle();
            let (a, x) = if cx.rng.chance(1, 3) { wide::<F>(&mut cx.rng, c) } else { small::<F>(&mut cx.rng, c) };
            let mut ax = [0.0; 3];
            ax[kind as usize - 2] = 1.0;
            let t = match kind {
                2 => Transform::rotate_x(a),
                3 => Transform::rotate_y(a),
                _ => Transform::rotate_z(a),
            };
            (t, rotate(ax, x), rotate(ax, -x), "rotate-axis")
        }
        5 => {
            let c = cx.rng.angle();
            let d = mul(cx.rng.dir(), 2.0);
            let (a, x) = small::<F>(&mut cx.rng, c);
            let (v, y) = small3::<F>(&mut cx.rng, d);
            if !(Vector3::from(v).norm().inf.d() > 0.0) {
                return cx.und("zero-axis");
            }
            (Transform::rotate(Vector3::from(v), a), rotate(y, x), rotate(y, -x), "rotate")
        }
        6 => {
            let (p, q, u) = look_params::<f64>(&mut cx.rng);
            if norm(sub(p, q)) < 0.5 || norm(u) < 0.5 {
                return cx.und("small-frame");
            }
            let (pi, p) = small3::<F>(&mut cx.rng, p);
            let (qi, q) = small3::<F>(&mut cx.rng, q);
            let (ui, u) = small3::<F>(&mut cx.rng, u);
            let m = look_at(p, q, u);
            (Transform::look_at(Point3::from(pi), Point3::from(qi), Vector3::from(ui)), m, inv(&m).unwrap(), "look_at")
        }
        _ => {
            let (f, x) = (cx.rng.uni(0.5, 2.0), cx.rng.uni(0.5, 2.0));
            let (fi, fov) = small::<F>(&mut cx.rng, f);
            let (ni, n) = small::<F>(&mut cx.rng, x);
            let (qi, q) = small::<F>(&mut cx.rng, x * 8.0);
            let e = 1.0 / (fov / 2.0).tan();
            let m = [[-e, 0., 0., 0.], [0., -e, 0., 0.], [0., 0., q / (q - n), q * n / (q - n)], [0., 0., 1., 0.]];
            (Transform::perspective(fi, ni, qi), m, inv(&m).unwrap(), "perspective")
        }
    };
    cx.sample(|| format!("{} {name} {m:?}", F::NAME));
    let tol = 1e-13 * (1.0 + max_m(&m));
    let toli = 1e-13 * (1.0 + max_m(&mi));
    for i in 0..4 {
        for j in 0..4 {
            let (g, h) = (t.matrix().data[i][j], t.inverse_matrix().data[i][j]);
            cx.check("construct", has(g, m[i][j], tol), || format!("{} {name}: entry ({i},{j}) {g:?} misses {}", F::NAME, m[i][j]));
            // (an inverse computed through a determinant interval containing zero may be the whole line)
            cx.check("construct-inverse", has(h, mi[i][j], toli), || format!("{} {name}: inverse entry ({i},{j}) {h:?} misses {}", F::NAME, mi[i][j]));
        }
    }
    if name == "perspective" {
        return;
    }
    // interval transform applied to interval geometry, and products of interval transforms
    let c = cx.rng.modr3();
    let (a, x) = small3::<F>(&mut cx.rng, c);
    let k = 1e-13 * (1.0 + fro(&m)) * (1.0 + norm(x));
    let ki = 1e-13 * (1.0 + fro(&mi)) * (1.0 + norm(x));
    let mut c3 = |o: &'static str, g: [Iv<F>; 3], w: V3, t: f64| {
        cx.check("construct-map", (0..3).all(|i| has(g[i], w[i], t)), || format!("{} {name} {o} of {a:?} = {g:?} misses {w:?}", F::NAME));
    };
    c3("map(point)", t.map(Point3::from(a)).vec, mp(&m, x), k);
    c3("map(vector)", t.map(Vector3::from(a)).vec, mv(&m, x), k);
    c3("map(normal)", t.map(Normal3::from(a)).vec, mvt(&mi, x), ki);
    c3("map_inverse(point)", t.map_inverse(Point3::from(a)).vec, mp(&mi, x), ki);
    c3("map_inverse(vector)", t.map_inverse(Vector3::from(a)).vec, mv(&mi, x), ki);
    let s = t * t;
    c3("(t*t).map(point)", s.map(Point3::from(a)).vec, mp(&mm(&m, &m), x), k * (1.0 + fro(&m)));
    let s = t.inverse();
    c3("inverse().map(point)", s.map(Point3::from(a)).vec, mp(&mi, x), ki);
}

const OWN: &[&str] = &["product-matrix", "inverse-swaps", "ray-limit", "map-point", "unmap-point", "map-vector", "unmap-vector", "map-normal", "unmap-normal", "ray-origin", "ray-direction", "inverted", "ray-eval"];
pub fn sections() -> Vec<(&'static str, Vec<Section>)> {
    let n8: &[&str] = &["map-point", "map-vector", "map-normal", "unmap-point", "unmap-vector", "unmap-normal", "inverted", "factors", "roundtrip", "linear", "difference", "normal-side", "ray-limit", "ray-param", "user-object", "bracketed"];
    let n9: &[&str] = &["map-point", "map-vector", "map-normal", "unmap-point", "unmap-vector", "unmap-normal", "map-ray"];
    vec![
        (
            "C07",
            vec![
                Section { name: "construct-f32", rule: "random translation/scale/axis rotation/axis-angle rotation/look-at; action and inverse action on points and vectors against independently built double matrices", quick: 500_000, thorough: 25_000_000, exhaustive: false, need: &["translate", "scale", "rotate-axis", "rotate", "look_at", "inverse-undoes", "translate-vector"], run: construct::<f32> },
                Section { name: "construct-f64", rule: "as construct-f32 over f64", quick: 400_000, thorough: 20_000_000, exhaustive: false, need: &["translate", "scale", "rotate-axis", "rotate", "look_at", "inverse-undoes", "translate-vector"], run: construct::<f64> },
                Section { name: "look-f32", rule: "look-at: eye, target, up, isometry, handedness", quick: 300_000, thorough: 15_000_000, exhaustive: false, need: &["eye-at-origin", "target-on-neg-z", "up-in-yz", "isometry", "right-handed", "origin-to-eye"], run: look::<f32> },
                Section { name: "look-f64", rule: "as look-f32 over f64", quick: 200_000, thorough: 10_000_000, exhaustive: false, need: &["eye-at-origin", "target-on-neg-z", "up-in-yz", "isometry", "right-handed", "origin-to-eye"], run: look::<f64> },
                Section { name: "extreme-f32", rule: "scales 1e-14..1e14, translations likewise, axis lengths 1e-12..1e12, angles to 1e6, look-at distances 1e-5..1e6 with up vectors down to 5e-4 rad from the view direction; component-wise relative bounds", quick: 400_000, thorough: 20_000_000, exhaustive: false, need: &["translate", "scale", "rotate", "look_at", "inverse-undoes", "translate-vector"], run: extreme::<f32> },
                Section { name: "extreme-f64", rule: "as extreme-f32 over f64 (magnitudes to 1e60)", quick: 300_000, thorough: 15_000_000, exhaustive: false, need: &["translate", "scale", "rotate", "look_at", "inverse-undoes", "translate-vector"], run: extreme::<f64> },
                Section { name: "perspective-f32", rule: "frustum points incl. corners and both clip planes, and unprojection", quick: 400_000, thorough: 20_000_000, exhaustive: false, need: &["frustum", "unproject"], run: persp::<f32> },
                Section { name: "perspective-f64", rule: "as perspective-f32 over f64", quick: 300_000, thorough: 15_000_000, exhaustive: false, need: &["frustum", "unproject"], run: persp::<f64> },
            ],
        ),
        (
            "C08",
            vec![
                Section { name: "chain-f32", rule: "chains of 1-6 elementary transforms, some inverted, built by library products; points, vectors, normals, rays forwards and back against double matrices with forward error bounds", quick: 600_000, thorough: 30_000_000, exhaustive: false, need: n8, run: chain::<f32> },
                Section { name: "chain-f64", rule: "as chain-f32 over f64", quick: 500_000, thorough: 25_000_000, exhaustive: false, need: n8, run: chain::<f64> },
                Section { name: "own-f32", rule: "chains of far-scaled factors: product matrices, and every map (points, vectors, normals, rays, both directions, inverted transform) against the published matrices with component-wise rounding bounds", quick: 400_000, thorough: 20_000_000, exhaustive: false, need: OWN, run: own::<f32> },
                Section { name: "own-f64", rule: "as own-f32 over f64", quick: 300_000, thorough: 15_000_000, exhaustive: false, need: OWN, run: own::<f64> },
                Section { name: "exact-f32", rule: "integer translations, power-of-two scales, signed permutations: results must be exactly right; identity exactly neutral", quick: 300_000, thorough: 15_000_000, exhaustive: false, need: &["exact", "accessors", "identity", "trait-map"], run: exact::<f32> },
                Section { name: "exact-f64", rule: "as exact-f32 over f64", quick: 200_000, thorough: 10_000_000, exhaustive: false, need: &["exact", "accessors", "identity", "trait-map"], run: exact::<f64> },
                Section { name: "projective-f32", rule: "affine*perspective*affine on points, product against homogeneous double arithmetic and factor by factor", quick: 300_000, thorough: 15_000_000, exhaustive: false, need: &["projective-product", "projective-factors", "projective-back"], run: proj_chain::<f32> },
                Section { name: "projective-f64", rule: "as projective-f32 over f64", quick: 200_000, thorough: 10_000_000, exhaustive: false, need: &["projective-product", "projective-factors", "projective-back"], run: proj_chain::<f64> },
            ],
        ),
        (
            "C09",
            vec![
                Section { name: "vectors-f32", rule: "interval vectors/points/normals of widths 0..4 with sampled members: arithmetic, dot, cross, norms, distances, normalise, ray evaluation, conversions", quick: 400_000, thorough: 20_000_000, exhaustive: false, need: &["vector-op", "dot", "norm", "distance", "normalize", "ray-eval", "to-interval", "to-midpoint"], run: iv_vectors::<f32> },
                Section { name: "vectors-f64", rule: "as vectors-f32 over f64", quick: 300_000, thorough: 15_000_000, exhaustive: false, need: &["vector-op", "dot", "norm", "distance", "normalize", "ray-eval", "to-interval", "to-midpoint"], run: iv_vectors::<f64> },
                Section { name: "map-f32", rule: "scalar affine chains mapping interval points, vectors, normals, rays, forwards and back, against the transform's own matrices", quick: 400_000, thorough: 20_000_000, exhaustive: false, need: n9, run: iv_map::<f32> },
                Section { name: "map-f64", rule: "as map-f32 over f64", quick: 300_000, thorough: 15_000_000, exhaustive: false, need: n9, run: iv_map::<f64> },
                Section { name: "construct-f32", rule: "transforms built from interval parameters contain the transform of a sampled member, and map interval geometry soundly", quick: 300_000, thorough: 15_000_000, exhaustive: false, need: &["construct", "construct-inverse", "construct-map"], run: iv_construct::<f32> },
                Section { name: "construct-f64", rule: "as construct-f32 over f64", quick: 200_000, thorough: 10_000_000, exhaustive: false, need: &["construct", "construct-inverse", "construct-map"], run: iv_construct::<f64> },
            ],
        ),
    ]
}
