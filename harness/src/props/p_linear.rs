//! C05 vector algebra, C06 matrix algebra and inversion
use super::{Iv, LF};
use crate::fw::{Ctx, Rng, Section};
use crate::num::*;
use crate::refs::*;
use scarlet::math::interval::Interval;
use scarlet::math::scalar::{Scalar, SignedScalar};
use scarlet::math::transform::{Invertible, Matrix4x4};
use scarlet::math::vector::*;
use std::fmt::Debug;

pub fn same<T: PartialEq>(a: T, b: T) -> bool {
    // equal, or both NaN
    #[allow(clippy::eq_op)]
    {
        a == b || (a != a && b != b)
    }
}
/// the same number including the sign of zero, or both NaN
pub fn same_bits<T: Scalar>(a: T, b: T) -> bool {
    fn bytes<T>(x: &T) -> &[u8] {
        // T is a plain number here: no padding
        unsafe { std::slice::from_raw_parts(x as *const T as *const u8, std::mem::size_of::<T>()) }
    }
    #[allow(clippy::eq_op)]
    {
        bytes(&a) == bytes(&b) || (a != a && b != b)
    }
}
fn arr<T: Copy, const N: usize>(f: impl FnMut(usize) -> T) -> [T; N] {
    std::array::from_fn(f)
}

/// operations every kind has
fn common<T: Scalar + Debug, const N: usize, U: Debug>(cx: &mut Ctx, a: [T; N], b: [T; N], s: T, kind: &str)
where
    GenericVector<T, N, U>: Copy,
{
    let va = GenericVector::<T, N, U>::from(a);
    let vb = GenericVector::<T, N, U>::from(b);
    let sh = |o: &str, r: [T; N]| format!("{kind}{N} {o}: a={a:?} b={b:?} s={s:?} -> {r:?}");
    let mut chk = |o: &'static str, r: [T; N], w: [T; N]| {
        // which of two equal zeros a minimum or maximum returns is left open
        let ok = (0..N).all(|i| if o == "min" || o == "max" { same(r[i], w[i]) } else { same_bits(r[i], w[i]) });
        cx.check("componentwise", ok, || format!("{} expected {w:?}", sh(o, r)));
    };
    chk("from", va.vec, a);
    chk("add", (va + vb).vec, arr(|i| a[i] + b[i]));
    let mut t = va;
    t += vb;
    chk("add_assign", t.vec, arr(|i| a[i] + b[i]));
    chk("mul", (va * vb).vec, arr(|i| a[i] * b[i]));
    if (0..N).all(|i| b[i] != T::zero()) {
        chk("div", (va / vb).vec, arr(|i| a[i] / b[i]));
    }
    chk("mul-scalar", (va * s).vec, arr(|i| a[i] * s));
    if s != T::zero() {
        chk("div-scalar", (va / s).vec, arr(|i| a[i] / s));
    }
    let mn = |x: T, y: T| if x < y { x } else { y };
    let mx = |x: T, y: T| if x > y { x } else { y };
    chk("min", va.min(vb).vec, arr(|i| mn(a[i], b[i])));
    chk("max", va.max(vb).vec, arr(|i| mx(a[i], b[i])));
    chk("default", GenericVector::<T, N, U>::default().vec, arr(|_| T::zero()));
    chk("clone", Clone::clone(&va).vec, a);
    // element access and mutation
    let i = cx.rng.us(N);
    let mut m = va;
    m[i] = s;
    let mut w = a;
    w[i] = s;
    let ok = m.vec == w && (0..N).all(|k| same(va[k], a[k]));
    cx.check("index", ok, || format!("{kind}{N} index {i}: {a:?} s={s:?} -> {:?}", m.vec));
    let mut named = vec![va.x(), va.y()];
    let mut m = va;
    *m.x_mut() = b[0];
    *m.y_mut() = b[1];
    if N > 2 {
        named.push(va.z());
        *m.z_mut() = b[2];
    }
    if N > 3 {
        named.push(va.w());
        *m.w_mut() = b[3];
    }
    cx.check("named", (0..N.min(4)).all(|k| same(named[k], a[k]) && same(m[k], b[k])) && (4..N).all(|k| same(m[k], a[k])), || format!("{kind}{N} named access {a:?} {b:?} -> {named:?} {:?}", m.vec));
    let mut m = va;
    let k = cx.rng.us(N.min(4));
    match k {
        0 => *m.x_mut() = s,
        1 => *m.y_mut() = s,
        2 => *m.z_mut() = s,
        _ => *m.w_mut() = s,
    }
    let mut w = a;
    w[k] = s;
    cx.check("named", m.vec == w, || format!("{kind}{N} named mutation {k}: {a:?} -> {:?}", m.vec));
    // equality is component-wise
    let eq = (0..N).all(|k| a[k] == b[k]);
    cx.check("equality", (va == vb) == eq && (va != vb) != eq && va == va, || format!("{kind}{N} {a:?} == {b:?}"));
    let mut c = a;
    c[i] = b[i];
    let vc = GenericVector::<T, N, U>::from(c);
    cx.check("equality", (va == vc) == (a[i] == b[i]), || format!("{kind}{N} {a:?} == {c:?}"));
}
fn signed<T: SignedScalar + Debug, const N: usize, U: Debug>(cx: &mut Ctx, a: [T; N], kind: &str) {
    let va = GenericVector::<T, N, U>::from(a);
    let n = -va;
    cx.check("neg", (0..N).all(|i| same_bits(n[i], -a[i])), || format!("{kind}{N} -{a:?} = {:?}", n.vec));
}
fn kinds<T: Scalar + Debug, const N: usize>(cx: &mut Ctx, a: [T; N], b: [T; N]) {
    let (va, vb) = (Vector::<T, N>::from(a), Vector::<T, N>::from(b));
    let (pa, pb) = (Point::<T, N>::from(a), Point::<T, N>::from(b));
    let mut chk = |o: &'static str, r: [T; N], w: [T; N]| {
        cx.check("affine", (0..N).all(|i| same_bits(r[i], w[i])), || format!("{o}{N}: a={a:?} b={b:?} -> {r:?} expected {w:?}"));
    };
    let d: [T; N] = arr(|i| a[i] - b[i]);
    let s: [T; N] = arr(|i| a[i] + b[i]);
    let v: Vector<T, N> = pa - pb;
    chk("point-point", v.vec, d);
    let p: Point<T, N> = pa + vb;
    chk("point+vector", p.vec, s);
    let p: Point<T, N> = va + pb;
    chk("vector+point", p.vec, s);
    let p: Point<T, N> = pa - vb;
    chk("point-vector", p.vec, d);
    chk("vector-vector", (va - vb).vec, d);
    let mut t = va;
    t -= vb;
    chk("sub_assign", t.vec, d);
    let n = Normal::<T, N>::from(va);
    chk("vector->normal", n.vec, a);
    chk("normal->vector", Vector::<T, N>::from(n).vec, a);
    chk("vector->point", Point::<T, N>::from(va).vec, a);
    chk("point->vector", Vector::<T, N>::from(pa).vec, a);
    cx.check("dim", <Vector<T, N> as Dimension>::DIM == N && <Point<T, N> as Dimension>::DIM == N, || format!("DIM {N}"));
}
fn all_kinds<T: Scalar + Debug>(cx: &mut Ctx, a: [T; 4], b: [T; 4], s: T) {
    let (a2, b2) = ([a[0], a[1]], [b[0], b[1]]);
    let (a3, b3) = ([a[0], a[1], a[2]], [b[0], b[1], b[2]]);
    common::<T, 2, VectorMarker>(cx, a2, b2, s, "Vector");
    common::<T, 3, VectorMarker>(cx, a3, b3, s, "Vector");
    common::<T, 4, VectorMarker>(cx, a, b, s, "Vector");
    common::<T, 2, PointMarker>(cx, a2, b2, s, "Point");
    common::<T, 3, PointMarker>(cx, a3, b3, s, "Point");
    common::<T, 3, NormalMarker>(cx, a3, b3, s, "Normal");
    kinds(cx, a2, b2);
    kinds(cx, a3, b3);
    kinds(cx, a, b);
    // the generic vector has no upper dimension
    let (a7, b7) = ([a[0], a[1], a[2], a[3], b[3], a[2], a[1]], [b[0], b[1], b[2], b[3], b[3], b[2], b[1]]);
    common::<T, 7, VectorMarker>(cx, a7, b7, s, "Vector");
    kinds(cx, a7, b7);
    let (a5, b5) = ([a[3], a[1], a[2], a[0], a[3]], [b[3], b[1], b[2], b[0], b[3]]);
    common::<T, 5, PointMarker>(cx, a5, b5, s, "Point");
    let ok = Vector2::new(a[0], a[1]).vec == a2 && Vector3::new(a[0], a[1], a[2]).vec == a3 && Vector4::new(a[0], a[1], a[2], a[3]).vec == a && Point2::new(a[0], a[1]).vec == a2 && Point3::new(a[0], a[1], a[2]).vec == a3 && Normal3::new(a[0], a[1], a[2]).vec == a3;
    cx.check("new", ok, || format!("constructors of {a:?}"));
}
fn all_signed<T: SignedScalar + Debug>(cx: &mut Ctx, a: [T; 4]) {
    signed::<T, 2, VectorMarker>(cx, [a[0], a[1]], "Vector");
    signed::<T, 3, VectorMarker>(cx, [a[0], a[1], a[2]], "Vector");
    signed::<T, 4, VectorMarker>(cx, a, "Vector");
    signed::<T, 6, VectorMarker>(cx, [a[0], a[1], a[2], a[3], a[1], a[0]], "Vector");
    signed::<T, 3, PointMarker>(cx, [a[0], a[1], a[2]], "Point");
    signed::<T, 3, NormalMarker>(cx, [a[0], a[1], a[2]], "Normal");
}

fn vec_int(cx: &mut Ctx) {
    let g = |cx: &mut Ctx, m: i64| -> [i64; 4] { arr(|_| cx.rng.int(-m, m)) };
    let (a, mut b) = (g(cx, 100), g(cx, 100));
    let s = cx.rng.int(-20, 20);
    if cx.rng.chance(1, 3) {
        b = a;
        b[cx.rng.us(4)] += cx.rng.int(0, 1);
    }
    cx.sample(|| format!("{a:?} {b:?} {s}"));
    let (a32, b32) = (a.map(|x| x as i32), b.map(|x| x as i32));
    all_kinds(cx, a32, b32, s as i32);
    all_signed(cx, a32);
    let big: [i64; 4] = a.map(|x| x * 10_000_000);
    let bb: [i64; 4] = b.map(|x| x * 10_000_000);
    all_kinds(cx, big, bb, s);
    all_signed(cx, big);
    // unsigned: keep differences non-negative
    let ub: [u32; 4] = b.map(|x| x.unsigned_abs() as u32);
    let ua: [u32; 4] = arr(|i| ub[i] + a[i].unsigned_abs() as u32);
    all_kinds(cx, ua, ub, s.unsigned_abs() as u32);
    let (a8, b8): ([i8; 4], [i8; 4]) = (a.map(|x| (x % 6) as i8), b.map(|x| (x % 6) as i8));
    all_kinds(cx, a8, b8, (s % 5) as i8);
    all_signed(cx, a8);
    // exact products
    let dot3 = |x: [i64; 3], y: [i64; 3]| x[0] * y[0] + x[1] * y[1] + x[2] * y[2];
    let (a3, b3) = ([a[0], a[1], a[2]], [b[0], b[1], b[2]]);
    let (v, w) = (Vector3::from(a3), Vector3::from(b3));
    let c = [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]];
    let d4: i64 = (0..4).map(|i| a[i] * b[i]).sum();
    let sq: i64 = (0..4).map(|i| a[i] * a[i]).sum();
    let sd = (0..3).map(|i| (a[i] - b[i]) * (a[i] - b[i])).sum::<i64>();
    let vi = Vector3::from(a32.first_chunk::<3>().copied().unwrap());
    let wi = Vector3::from(b32.first_chunk::<3>().copied().unwrap());
    let ok = v.dot(w) == dot3(a3, b3)
        && v.cross(w).vec == c
        && v.cross(w).dot(v) == 0
        && v.cross(w).dot(w) == 0
        && Vector4::from(a).dot(Vector4::from(b)) == d4
        && Vector2::new(a[0], a[1]).dot(Vector2::new(b[0], b[1])) == a[0] * b[0] + a[1] * b[1]
        && Vector4::from(a).square_norm() == sq
        && Point3::from(a3).square_norm() == dot3(a3, a3)
        && Normal3::from(a3).dot(v) == dot3(a3, a3)
        && v.dot(Point3::from(b3)) == dot3(a3, b3)
        && v.square_distance(w) == sd
        && vi.dot(wi) as i64 == dot3(a3, b3)
        && vi.cross(wi).vec.map(|x| x as i64) == c
        && <Vector3<i64> as InnerProduct<Vector3<i64>>>::dot(v, w) == dot3(a3, b3)
        && <Vector3<i64> as Norm>::square_norm(v) == dot3(a3, a3);
    cx.check("int-products", ok, || format!("integer products of {a:?} {b:?}: dot={} cross={:?} sq={} sd={}", v.dot(w), v.cross(w).vec, v.square_norm(), v.square_distance(w)));
}
fn vec_float<F: LF>(cx: &mut Ctx) {
    let wild = cx.rng.chance(1, 4);
    let g = |r: &mut Rng| -> F {
        if wild {
            r.hostile()
        } else {
            F::of(r.modr())
        }
    };
    let a: [F; 4] = arr(|_| g(&mut cx.rng));
    let mut b: [F; 4] = arr(|_| g(&mut cx.rng));
    if cx.rng.chance(1, 4) {
        b = a;
        let i = cx.rng.us(4);
        b[i] = b[i].up();
    }
    let s = g(&mut cx.rng);
    cx.sample(|| format!("{} {a:?} {b:?} {s:?}", F::NAME));
    all_kinds(cx, a, b, s);
    all_signed(cx, a);
}
/// products and norms of floats to rounding
/// A user-defined vector: only the inner product is given, the metric comes from the trait.
#[derive(Clone, Copy)]
struct Own<F>(F, F);
impl<F> InnerScalar for Own<F> {
    type ScalarType = F;
}
impl<F: LF> InnerProduct<Own<F>> for Own<F> {
    fn dot(self, o: Own<F>) -> F {
        self.0 * o.0 + self.1 * o.1
    }
}
impl<F: LF> std::ops::Sub for Own<F> {
    type Output = Own<F>;
    fn sub(self, o: Own<F>) -> Own<F> {
        Own(self.0 - o.0, self.1 - o.1)
    }
}
impl<F: LF> std::ops::Div<F> for Own<F> {
    type Output = Own<F>;
    fn div(self, s: F) -> Own<F> {
        Own(self.0 / s, self.1 / s)
    }
}
impl<F: LF> Norm for Own<F> {}
fn metric<F: LF>(cx: &mut Ctx) {
    let k = cx.rng.int(-30, 30) as i32;
    let k2 = cx.rng.int(-30, 30) as i32;
    let sc = 2f64.powi(if cx.rng.chance(1, 2) { 0 } else { k });
    let sc2 = 2f64.powi(if cx.rng.chance(1, 2) { 0 } else { k2 });
    let a: [F; 4] = arr(|_| F::of(cx.rng.modr() * sc));
    let mut b: [F; 4] = arr(|_| F::of(cx.rng.modr() * sc2));
    if cx.rng.chance(1, 5) {
        // nearly parallel or equal
        for i in 0..4 {
            b[i] = if cx.rng.chance(1, 2) { a[i] } else { F::of(a[i].d() * (1.0 + 1e-3 * cx.rng.uni(-1.0, 1.0))) };
        }
    }
    let (ad, bd) = (a.map(|x| x.d()), b.map(|x| x.d()));
    cx.sample(|| format!("{} {a:?} {b:?}", F::NAME));
    let e = F::EPS;
    // for f64 the reference itself is f64: allow both roundings
    let kf = if F::EPS > 1e-10 { 1.0 } else { 2.0 };
    fn dt(x: &[f64], y: &[f64]) -> (f64, f64) {
        (x.iter().zip(y).map(|(p, q)| p * q).sum(), x.iter().zip(y).map(|(p, q)| (p * q).abs()).sum())
    }
    macro_rules! dots {
        ($k:expr, $a:expr, $b:expr, $ad:expr, $bd:expr) => {{
            let (a, b, ad, bd) = ($a, $b, $ad, $bd);
            let (x, y): ([F; $k], [F; $k]) = (*a.first_chunk().unwrap(), *b.first_chunk().unwrap());
            let (w, m) = dt(&ad[..$k], &bd[..$k]);
            let tol = kf * ($k as f64 + 2.0) * e * m + 1e-40;
            let (v, u) = (Vector::<F, $k>::from(x), Vector::<F, $k>::from(y));
            let (p, q) = (Point::<F, $k>::from(x), Normal::<F, $k>::from(y));
            for r in [v.dot(u), p.dot(u), v.dot(q), p.dot(q), u.dot(v), <Vector<F, $k> as InnerProduct<Vector<F, $k>>>::dot(v, u)] {
                cx.check("dot", (r.d() - w).abs() <= tol, || format!("{} dot{} {x:?} {y:?} = {r:?}, expected {w}", F::NAME, $k));
            }
            let (w, _) = dt(&ad[..$k], &ad[..$k]);
            for r in [v.square_norm(), p.square_norm(), Normal::<F, $k>::from(x).square_norm(), <Vector<F, $k> as Norm>::square_norm(v)] {
                cx.check("square_norm", (r.d() - w).abs() <= kf * ($k as f64 + 2.0) * e * w + 1e-40, || format!("{} square_norm{} {x:?} = {r:?}, expected {w}", F::NAME, $k));
            }
            let n = w.sqrt();
            for r in [v.norm(), p.norm(), Normal::<F, $k>::from(x).norm(), <Vector<F, $k> as Norm>::norm(v)] {
                cx.check("norm", (r.d() - n).abs() <= kf * ($k as f64 + 4.0) * e * n + 1e-20, || format!("{} norm{} {x:?} = {r:?}, expected {n}", F::NAME, $k));
            }
            // distance
            let df: Vec<f64> = (0..$k).map(|i| ad[i] - bd[i]).collect();
            let (w, _) = dt(&df, &df);
            // each difference is rounded once
            let tol = kf * ($k as f64 + 6.0) * e * w + 1e-40;
            let r = v.square_distance(u);
            cx.check("square_distance", (r.d() - w).abs() <= tol, || format!("{} square_distance{} {x:?} {y:?} = {r:?}, expected {w}", F::NAME, $k));
            for r in [v.distance(u), u.distance(v), <Vector<F, $k> as Norm>::distance(v, u)] {
                cx.check("distance", (r.d() - w.sqrt()).abs() <= kf * ($k as f64 + 6.0) * e * w.sqrt() + 1e-20, || format!("{} distance{} {x:?} {y:?} = {r:?}, expected {}", F::NAME, $k, w.sqrt()));
            }
            if n > 1e-9 {
                for r in [v.normalize().vec, p.normalize().vec, Normal::<F, $k>::from(x).normalize().vec, <Vector<F, $k> as Norm>::normalize(v).vec] {
                    let ok = (0..$k).all(|i| (r[i].d() - ad[i] / n).abs() <= kf * ($k as f64 + 6.0) * e * (ad[i] / n).abs() + 1e-36);
                    cx.check("normalize", ok, || format!("{} normalize{} {x:?} = {r:?}", F::NAME, $k));
                }
            }
        }};
    }
    dots!(2, a, b, ad, bd);
    dots!(3, a, b, ad, bd);
    dots!(4, a, b, ad, bd);
    {
        // higher dimensions repeat components
        let a: [F; 6] = [a[0], a[1], a[2], a[3], b[0], b[1]];
        let b: [F; 6] = [b[0], b[1], b[2], b[3], a[2], a[3]];
        let (ad, bd) = (a.map(|x| x.d()), b.map(|x| x.d()));
        dots!(5, a, b, ad, bd);
        dots!(6, a, b, ad, bd);
    }
    {
        let (v, u) = (Own(a[0], a[1]), Own(b[0], b[1]));
        let q = ad[0] * ad[0] + ad[1] * ad[1];
        let (n, d2) = (q.sqrt(), (ad[0] - bd[0]).powi(2) + (ad[1] - bd[1]).powi(2));
        let near = |g: F, w: f64| (g.d() - w).abs() <= kf * 9.0 * e * w + 1e-20;
        let mut ok = (v.square_norm().d() - q).abs() <= kf * 9.0 * e * q + 1e-40 && near(v.norm(), n) && near(v.distance(u), d2.sqrt());
        ok &= (v.square_distance(u).d() - d2).abs() <= kf * 9.0 * e * d2 + 1e-40;
        if n > 1e-9 {
            let w = v.normalize();
            ok &= (w.0.d() - ad[0] / n).abs() <= kf * 9.0 * e && (w.1.d() - ad[1] / n).abs() <= kf * 9.0 * e;
        }
        cx.check("user-vector", ok, || format!("{} metric of a user vector ({:?},{:?}) ({:?},{:?})", F::NAME, a[0], a[1], b[0], b[1]));
    }
    // cross product
    let (x, y): ([F; 3], [F; 3]) = (*a.first_chunk().unwrap(), *b.first_chunk().unwrap());
    let (p, q) = ([ad[0], ad[1], ad[2]], [bd[0], bd[1], bd[2]]);
    let w = cross(p, q);
    let m = [(p[1] * q[2]).abs() + (p[2] * q[1]).abs(), (p[2] * q[0]).abs() + (p[0] * q[2]).abs(), (p[0] * q[1]).abs() + (p[1] * q[0]).abs()];
    for r in [Vector3::from(x).cross(Vector3::from(y)).vec, Normal3::from(x).cross(Normal3::from(y)).vec, (-Vector3::from(y).cross(Vector3::from(x))).vec] {
        let ok = (0..3).all(|i| (r[i].d() - w[i]).abs() <= kf * 3.0 * e * m[i] + 1e-40);
        cx.check("cross", ok, || format!("{} {x:?} x {y:?} = {r:?}, expected {w:?}", F::NAME));
    }
}

// ---------------------------------------------------------------- C06
pub fn to_ref<F: Fl>(m: &[[F; 4]; 4]) -> M4 {
    m.map(|r| r.map(|x| x.d()))
}
fn mat_struct<T: Scalar + Debug>(cx: &mut Ctx, d: [[T; 4]; 4], e: [[T; 4]; 4], s: T) {
    let m = Matrix4x4::from(d);
    let n = Matrix4x4::from(e);
    let sh = |o: &str| format!("{o}: {d:?} / {e:?} / {s:?}");
    let (i, j) = (cx.rng.us(4), cx.rng.us(4));
    let mut ok_t = true;
    let mut ok_a = true;
    let t = m.transpose();
    let sm = m * s;
    let mut ok_s = true;
    let z = Matrix4x4::<T>::zero();
    let id = [Matrix4x4::<T>::identity(), Matrix4x4::<T>::new(), Matrix4x4::<T>::default()];
    let mut ok_i = true;
    for r in 0..4 {
        for c in 0..4 {
            ok_t &= same(t.data[r][c], d[c][r]);
            ok_a &= same(m[(r, c)], d[r][c]) && same(m[r][c], d[r][c]) && same(m.row(r)[c], d[r][c]) && same(m.col(c)[r], d[r][c]) && same(m.row_vec(r)[c], d[r][c]) && same(m.col_vec(c)[r], d[r][c]) && same(m.data[r][c], d[r][c]);
            ok_s &= same(sm.data[r][c], d[r][c] * s);
            ok_i &= z.data[r][c] == T::zero() && id.iter().all(|m| m.data[r][c] == if r == c { T::one() } else { T::zero() });
        }
    }
    cx.check("transpose", ok_t && t.transpose().data == d, || sh("transpose"));
    cx.check("access", ok_a, || sh("access"));
    cx.check("mul-scalar", ok_s, || sh("mul-scalar"));
    cx.check("identity-zero", ok_i, || sh("identity/zero"));
    let mut p = m;
    p[(i, j)] = s;
    let mut q = m;
    q[i][j] = s;
    let mut w = d;
    w[i][j] = s;
    cx.check("assign", p.data == w && q.data == w, || format!("{} at ({i},{j})", sh("assign")));
    let eq = d == e;
    cx.check("equality", (m == n) == eq && (m == p) == (d[i][j] == s) && m == m, || sh("equality"));
}
fn mat_int(cx: &mut Ctx) {
    let g = |cx: &mut Ctx, m: i64| -> [[i64; 4]; 4] { arr(|_| arr(|_| cx.rng.int(-m, m))) };
    let mag = cx.rng.pick(&[2, 9, 1000]);
    let d = g(cx, mag);
    let mut e = g(cx, mag);
    if cx.rng.chance(1, 4) {
        e = d;
        if cx.rng.chance(1, 2) {
            e[cx.rng.us(4)][cx.rng.us(4)] += 1;
        }
    }
    let s = cx.rng.int(-9, 9);
    cx.sample(|| format!("{d:?} * {e:?}"));
    mat_struct(cx, d, e, s);
    let d32 = d.map(|r| r.map(|x| x as i32));
    let e32 = e.map(|r| r.map(|x| x as i32));
    mat_struct(cx, d32, e32, s as i32);
    let p = Matrix4x4::from(d) * Matrix4x4::from(e);
    let p32 = Matrix4x4::from(d32) * Matrix4x4::from(e32);
    let mut ok = true;
    for i in 0..4 {
        for j in 0..4 {
            let w: i64 = (0..4).map(|k| d[i][k] * e[k][j]).sum();
            ok &= p.data[i][j] == w && p32.data[i][j] as i64 == w;
        }
    }
    cx.check("int-product", ok, || format!("{d:?} * {e:?} = {:?}", p.data));
}
/// plain, wide-ranged, sparse and affine matrices
fn gen_any<F: LF>(r: &mut Rng) -> [[F; 4]; 4] {
    let kind = r.below(6);
    let scale = if r.chance(1, 4) { 2f64.powi(r.int(-40, 40) as i32) } else { 1.0 };
    let mut m: [[F; 4]; 4] = arr(|_| {
        arr(|_| {
            F::of(match kind {
                0 => r.log(1e-12, 1e12) * r.sign(),
                1 if r.chance(1, 3) => r.log(1e-9, 1e9) * r.sign(),
                2 if r.chance(1, 2) => 0.0,
                2 => r.pick(&[1.0, -1.0, 2.0, 0.5, 3.0]),
                3 if r.chance(1, 2) => 0.0,
                _ => r.modr() * scale,
            })
        })
    });
    if r.chance(1, 3) {
        m[3] = [F::of(0.0), F::of(0.0), F::of(0.0), F::of(1.0)];
    }
    m
}
fn mat_float<F: LF>(cx: &mut Ctx) {
    let d: [[F; 4]; 4] = gen_any(&mut cx.rng);
    let mut e: [[F; 4]; 4] = gen_any(&mut cx.rng);
    if cx.rng.chance(1, 4) {
        e = d;
        if cx.rng.chance(1, 2) {
            let (i, j) = (cx.rng.us(4), cx.rng.us(4));
            e[i][j] = e[i][j].up();
        }
    }
    let s = F::of(cx.rng.modr());
    cx.sample(|| format!("{} {d:?} * {e:?}", F::NAME));
    mat_struct(cx, d, e, s);
    let p = Matrix4x4::from(d) * Matrix4x4::from(e);
    let (dr, er) = (to_ref(&d), to_ref(&e));
    let (w, m) = (mm(&dr, &er), mm_abs(&dr, &er));
    let kf = if F::EPS > 1e-10 { 6.0 } else { 12.0 };
    let ok = (0..4).all(|i| (0..4).all(|j| (p.data[i][j].d() - w[i][j]).abs() <= kf * F::EPS * m[i][j] + 1e-40));
    cx.check("product", ok, || format!("{} {d:?} * {e:?} = {:?}", F::NAME, p.data));
    let id = Matrix4x4::<F>::identity();
    cx.check("product-identity", (id * Matrix4x4::from(d)).data == d && (Matrix4x4::from(d) * id).data == d, || format!("{} {d:?} * I", F::NAME));
}
/// matrices with a bounded condition number
pub fn gen_inv(r: &mut Rng) -> M4 {
    let mut m = match r.below(9) {
        6 => {
            // symmetric or skew about it, often with ones or zeros on the diagonal
            let mut m = [[0.0; 4]; 4];
            let (dg, sg) = (r.pick(&[1.0, 1.0, 0.0, 2.0, -1.0, 5.0]), r.sign());
            for i in 0..4 {
                for j in 0..i {
                    let v = if r.chance(1, 3) { r.int(-3, 3) as f64 } else { r.uni(-2.0, 2.0) };
                    m[i][j] = v;
                    m[j][i] = v * sg;
                }
                m[i][i] = if r.chance(1, 6) { r.modr() } else { dg };
            }
            m
        }
        7 => {
            // identity plus a rank-one part; Householder reflections among them
            let u: [f64; 4] = std::array::from_fn(|_| r.uni(-2.0, 2.0));
            let v: [f64; 4] = if r.chance(1, 2) { u } else { std::array::from_fn(|_| r.uni(-2.0, 2.0)) };
            let k = if r.chance(1, 2) { -2.0 / u.iter().map(|x| x * x).sum::<f64>().max(0.1) } else { r.uni(-1.0, 1.0) };
            std::array::from_fn(|i| std::array::from_fn(|j| I4[i][j] + k * u[i] * v[j]))
        }
        8 => {
            // sparse: projections, blocks, zeros on the diagonal
            let keep = 2 + r.below(4);
            std::array::from_fn(|_| std::array::from_fn(|_| if r.below(6) < keep { r.int(-3, 3) as f64 } else { 0.0 }))
        }
        0 => {
            // permutation with signs and scales
            let mut p = [0, 1, 2, 3];
            r.shuffle(&mut p);
            let mut m = [[0.0; 4]; 4];
            for i in 0..4 {
                m[i][p[i]] = r.pos() * r.sign();
            }
            m
        }
        1 => {
            let mut m = translate([r.modr(), r.modr(), r.modr()]);
            m = mm(&m, &rotate(r.dir(), r.angle()));
            m = mm(&m, &scale([r.pos(), r.pos(), r.pos()]));
            m
        }
        2 => {
            // upper or lower triangular
            let mut m = [[0.0; 4]; 4];
            let up = r.chance(1, 2);
            for i in 0..4 {
                for j in 0..4 {
                    if i == j {
                        m[i][j] = r.pos() * r.sign();
                    } else if (i < j) == up {
                        m[i][j] = r.uni(-2.0, 2.0);
                    }
                }
            }
            m
        }
        3 => std::array::from_fn(|_| std::array::from_fn(|_| r.int(-5, 5) as f64)),
        4 => std::array::from_fn(|_| std::array::from_fn(|_| r.modr())),
        _ => std::array::from_fn(|_| std::array::from_fn(|_| r.uni(-3.0, 3.0))),
    };
    if r.chance(1, 6) {
        let s = 2f64.powi(r.int(-20, 20) as i32);
        m = m.map(|row| row.map(|x| x * s));
    }
    m.map(|row| row.map(|x| x as f32 as f64))
}
fn inverse<F: LF>(cx: &mut Ctx) {
    let m = gen_inv(&mut cx.rng);
    let Some(w) = inv(&m) else {
        return cx.und("singular");
    };
    let cond = fro(&m) * fro(&w);
    if !(cond < if F::EPS > 1e-10 { 1e3 } else { 1e6 }) {
        return cx.und("ill-conditioned");
    }
    let d = m.map(|r| r.map(F::of));
    let r = Matrix4x4::from(d).inverse();
    let rr = to_ref(&r.data);
    // cofactor expansion: entries are sums of products of three entries; error of det and cofactors relative to
    // |m|^3 and |m|^4, amplified by 1/det. Bounded by C*eps*cond^3*|inv|; also covers elimination (cond)
    let nm = fro(&m);
    let det_inv_abs = 1.0 / det_abs(&m);
    let tol = F::EPS * (300.0 * fro(&w) * cond + 64.0 * (nm.powi(3) + fro(&w) * nm.powi(4)) * det_inv_abs) + 1e-30;
    cx.sample(|| format!("{} {m:?} cond {cond:.1}", F::NAME));
    if tol > 0.02 * fro(&w) {
        return cx.und("tolerance-too-wide");
    }
    let ok = (0..4).all(|i| (0..4).all(|j| (rr[i][j] - w[i][j]).abs() <= tol));
    cx.check("inverse", ok, || format!("{} inverse of {m:?} = {rr:?}, expected {w:?} +- {tol:e}", F::NAME));
    for (o, p) in [("m*inv", mm(&m, &rr)), ("inv*m", mm(&rr, &m))] {
        let ok = (0..4).all(|i| (0..4).all(|j| (p[i][j] - I4[i][j]).abs() <= 4.0 * tol * nm));
        cx.check("inverse-identity", ok, || format!("{} {o} of {m:?} = {p:?}", F::NAME));
    }
    // the library's own product
    let p = to_ref(&(Matrix4x4::from(d) * r).data);
    let ok = (0..4).all(|i| (0..4).all(|j| (p[i][j] - I4[i][j]).abs() <= 4.0 * tol * nm + 64.0 * F::EPS * cond));
    cx.check("inverse-identity", ok, || format!("{} m*inverse of {m:?} = {p:?}", F::NAME));
}
pub fn det_abs(m: &M4) -> f64 {
    // from LU with partial pivoting
    let mut a = *m;
    let mut d = 1.0;
    for c in 0..4 {
        let mut b = c;
        for r in c..4 {
            if a[r][c].abs() > a[b][c].abs() {
                b = r;
            }
        }
        a.swap(c, b);
        if a[c][c] == 0.0 {
            return 0.0;
        }
        d *= a[c][c];
        for r in c + 1..4 {
            let f = a[r][c] / a[c][c];
            for k in c..4 {
                a[r][k] -= f * a[c][k];
            }
        }
    }
    d.abs()
}
fn inverse_exact(cx: &mut Ctx) {
    // signed permutations with power-of-two scales: the inverse is exactly representable
    let mut p = [0, 1, 2, 3];
    cx.rng.shuffle(&mut p);
    let mut m = [[0.0f64; 4]; 4];
    let mut w = [[0.0f64; 4]; 4];
    for i in 0..4 {
        let v = 2f64.powi(cx.rng.int(-6, 6) as i32) * cx.rng.sign();
        m[i][p[i]] = v;
        w[p[i]][i] = 1.0 / v;
    }
    cx.sample(|| format!("{m:?}"));
    let a = Matrix4x4::from(m.map(|r| r.map(|x| x as f32))).inverse();
    let b = Matrix4x4::from(m).inverse();
    cx.check("inverse-exact", to_ref(&a.data) == w && to_ref(&b.data) == w, || format!("inverse of {m:?} = {b:?}"));
    // unimodular integer matrices: products of elementary shears; inverse is an integer matrix
    let mut m = I4;
    let mut w = I4;
    for _ in 0..cx.rng.us(6) + 1 {
        let i = cx.rng.us(4);
        let j = (i + 1 + cx.rng.us(3)) % 4;
        let k = cx.rng.int(-2, 2) as f64;
        let mut e = I4;
        e[i][j] = k;
        let mut f = I4;
        f[i][j] = -k;
        m = mm(&m, &e);
        w = mm(&f, &w);
    }
    let b = Matrix4x4::from(m).inverse();
    let tol = 1e-12 * fro(&w) * fro(&w) * fro(&m);
    let ok = (0..4).all(|i| (0..4).all(|j| (b.data[i][j] - w[i][j]).abs() <= tol));
    cx.check("inverse-unimodular", ok, || format!("inverse of {m:?} = {b:?}, expected {w:?}"));
}
fn inverse_iv<F: LF>(cx: &mut Ctx) {
    let m = gen_inv(&mut cx.rng);
    let Some(w0) = inv(&m) else {
        return cx.und("singular");
    };
    if fro(&m) * fro(&w0) > 1e3 {
        return cx.und("ill-conditioned");
    }
    let wd = match cx.rng.below(3) {
        0 => 0.0,
        1 => 1e-6,
        _ => 1e-3,
    };
    let mut iv = [[Iv::<F>::from(F::of(0.0)); 4]; 4];
    let mut mem = m;
    for i in 0..4 {
        for j in 0..4 {
            let (lo, hi) = (F::of(m[i][j] - wd * cx.rng.unit()), F::of(m[i][j] + wd * cx.rng.unit()));
            iv[i][j] = Interval::new(lo, hi);
            mem[i][j] = super::p_interval::member(&mut cx.rng, lo, hi).d();
        }
    }
    let r = Matrix4x4::from(iv).inverse();
    let Some(w) = inv(&mem) else {
        return cx.und("singular");
    };
    let cond = fro(&mem) * fro(&w);
    if !(cond < 1e9) {
        // the reference inverse of this member is itself not trustworthy
        return cx.und("member-nearly-singular");
    }
    let tol = 1e-14 * fro(&w) * cond * 10.0;
    cx.sample(|| format!("{} {m:?} width {wd}", F::NAME));
    let mut ok = true;
    let mut fin = 0;
    for i in 0..4 {
        for j in 0..4 {
            let x = r.data[i][j];
            if x.inf.isnan() || x.sup.isnan() {
                // 0 * whole line while the determinant is not certainly non-zero
                cx.und("determinant-may-vanish");
                return;
            }
            ok &= x.inf.d() <= w[i][j] + tol && x.sup.d() >= w[i][j] - tol;
            fin += (x.inf.d().is_finite() && x.sup.d().is_finite()) as u64;
        }
    }
    if fin == 0 {
        cx.und("whole-line");
    }
    cx.check(if fin > 0 { "interval-inverse" } else { "interval-inverse-unbounded" }, ok, || format!("{} interval inverse of {iv:?} = {:?} misses {w:?}", F::NAME, r.data));
}
// debug builds assert on 0 * whole line; that is only reachable when the determinant interval contains zero
fn inverse_iv_guard<F: LF>(cx: &mut Ctx) {
    inverse_iv::<F>(cx)
}

pub fn sections() -> Vec<(&'static str, Vec<Section>)> {
    let need5: &[&str] = &["componentwise", "index", "named", "equality", "affine", "neg", "new"];
    vec![
        (
            "C05",
            vec![
                Section { name: "ints", rule: "i8/i32/i64/u32 vectors, points, normals of dimension 2-4: every operator against per-component scalar operations and exact integer products", quick: 150_000, thorough: 6_000_000, exhaustive: false, need: &["componentwise", "index", "named", "equality", "affine", "neg", "new", "int-products"], run: vec_int },
                Section { name: "ops-f32", rule: "f32 ordinary (3/4) and hostile (1/4) components, every operator bit-for-bit against per-component scalar operations", quick: 400_000, thorough: 20_000_000, exhaustive: false, need: need5, run: vec_float::<f32> },
                Section { name: "ops-f64", rule: "as ops-f32 over f64", quick: 300_000, thorough: 15_000_000, exhaustive: false, need: need5, run: vec_float::<f64> },
                Section { name: "metric-f32", rule: "dot, norms, distances, cross, normalise of all kinds and dimensions against double precision with forward error bounds; scales 2^-30..2^30; near-parallel pairs", quick: 400_000, thorough: 20_000_000, exhaustive: false, need: &["dot", "square_norm", "norm", "square_distance", "distance", "normalize", "cross"], run: metric::<f32> },
                Section { name: "metric-f64", rule: "as metric-f32 over f64", quick: 300_000, thorough: 15_000_000, exhaustive: false, need: &["dot", "square_norm", "norm", "square_distance", "distance", "normalize", "cross"], run: metric::<f64> },
            ],
        ),
        (
            "C06",
            vec![
                Section { name: "ints", rule: "i32/i64 matrices: product exactly, transpose, access, assignment, equality", quick: 300_000, thorough: 15_000_000, exhaustive: false, need: &["int-product", "transpose", "access", "assign", "equality"], run: mat_int },
                Section { name: "product-f32", rule: "f32 matrices: product with forward error bound, identity exact, structure ops bit-for-bit", quick: 400_000, thorough: 20_000_000, exhaustive: false, need: &["product", "transpose", "access", "assign", "equality"], run: mat_float::<f32> },
                Section { name: "product-f64", rule: "as product-f32 over f64", quick: 300_000, thorough: 15_000_000, exhaustive: false, need: &["product", "transpose", "access", "assign", "equality"], run: mat_float::<f64> },
                Section { name: "inverse-f32", rule: "permutations, affine, triangular, integer, dense matrices with condition number below 1000 against full-pivot elimination in double precision", quick: 600_000, thorough: 30_000_000, exhaustive: false, need: &["inverse", "inverse-identity"], run: inverse::<f32> },
                Section { name: "inverse-f64", rule: "as inverse-f32 over f64", quick: 500_000, thorough: 25_000_000, exhaustive: false, need: &["inverse", "inverse-identity"], run: inverse::<f64> },
                Section { name: "inverse-exact", rule: "signed power-of-two permutations (exact) and unimodular integer matrices", quick: 200_000, thorough: 5_000_000, exhaustive: false, need: &["inverse-exact", "inverse-unimodular"], run: inverse_exact },
                Section { name: "interval-f32", rule: "interval matrices of width 0, 1e-6, 1e-3 around well-conditioned ones; a random member's inverse must be enclosed", quick: 150_000, thorough: 5_000_000, exhaustive: false, need: &["interval-inverse"], run: inverse_iv_guard::<f32> },
                Section { name: "interval-f64", rule: "as interval-f32 over f64", quick: 150_000, thorough: 5_000_000, exhaustive: false, need: &["interval-inverse"], run: inverse_iv_guard::<f64> },
            ],
        ),
    ]
}
