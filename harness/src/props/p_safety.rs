//! C21 valid use never panics, misuse is refused, results are deterministic
use super::p_box::{bx, ray};
use super::p_sphere::{gen_ray, gen_sphere};
use super::p_transform::{elem, look_params, n3, p3, v3};
use super::{Iv, LF};
use crate::fw::{mix, try_call, Ctx, Rng, Section};
use scarlet::cameras::camera::{concentric_sample_disk, uniform_sample_disk, Camera, CameraSample};
use scarlet::cameras::thin_lens::ThinLensCamera;
use scarlet::geometry::bbox::Bbox3;
use scarlet::geometry::primitive::{Bounded3, IntersectsRay, PrimitiveList, TransformedPrimitive};
use scarlet::geometry::ray::{Ray, Rayf};
use scarlet::math::interval::Interval;
use scarlet::math::scalar::{AlmostEqual, GFloat, Scalar, SignedScalar};
use scarlet::math::transform::{Invertible, Matrix4x4, Transform};
use scarlet::math::vector::{GenericVector, Normal3, Point, Point2f, Point3, Vector, Vector3};

// ---------------------------------------------------------------- refusals
fn oob<T: Scalar + Send + 'static, const N: usize>(cx: &mut Ctx, a: [T; N], tag: &str) {
    let idx = match cx.rng.below(6) {
        0 => N,
        1 => N + 1,
        2 => usize::MAX,
        3 => 1usize << 62,
        4 => usize::MAX / std::mem::size_of::<T>(), // wraps to a small byte offset
        _ => N + cx.rng.us(40),
    };
    let v: Vector<T, N> = Vector::from(a);
    let p: Point<T, N> = Point::from(a);
    let sh = |o: &str| format!("{tag} dimension {N}: {o} with index {idx} was answered");
    let r = try_call(|| v[std::hint::black_box(idx)]);
    cx.check("index-refused", r.is_err(), || format!("{}: {r:?}", sh("v[i]")));
    let r = try_call(|| p[std::hint::black_box(idx)]);
    cx.check("index-refused", r.is_err(), || format!("{}: {r:?}", sh("p[i]")));
    let mut w = v;
    let r = try_call(|| {
        w[std::hint::black_box(idx)] = a[0];
    });
    cx.check("index-mut-refused", r.is_err(), || sh("v[i] = x"));
    let names: [(&str, usize, Box<dyn Fn() -> T>); 4] = [("x", 0, Box::new(move || v.x())), ("y", 1, Box::new(move || v.y())), ("z", 2, Box::new(move || v.z())), ("w", 3, Box::new(move || v.w()))];
    for (n, k, f) in names {
        let r = try_call(|| f());
        if k < N {
            cx.check("named-answered", matches!(&r, Ok(x) if *x == a[k]), || format!("{tag} dimension {N}: {n}() = {r:?} of {a:?}"));
        } else {
            cx.check("named-refused", r.is_err(), || format!("{tag} dimension {N}: {n}() = {r:?}"));
        }
    }
    let muts: [(&str, usize, fn(&mut Vector<T, N>) -> T); 4] = [("x_mut", 0, |v| *v.x_mut()), ("y_mut", 1, |v| *v.y_mut()), ("z_mut", 2, |v| *v.z_mut()), ("w_mut", 3, |v| *v.w_mut())];
    for (n, k, f) in muts {
        let mut q = v;
        let r = try_call(|| f(&mut q));
        if k < N {
            cx.check("named-answered", matches!(&r, Ok(x) if *x == a[k]), || format!("{tag} dimension {N}: {n}() = {r:?} of {a:?}"));
        } else {
            cx.check("named-refused", r.is_err(), || format!("{tag} dimension {N}: {n}() = {r:?}"));
        }
    }
}
fn oob_matrix<T: Scalar + 'static>(cx: &mut Ctx, d: [[T; 4]; 4], tag: &str) {
    let bad = match cx.rng.below(4) {
        0 => 4,
        1 => 5 + cx.rng.us(20),
        2 => usize::MAX,
        _ => 1usize << 62,
    };
    let good = cx.rng.us(4);
    let m = Matrix4x4::from(d);
    let b = std::hint::black_box(bad);
    let mut run = |o: &'static str, f: &mut dyn FnMut() -> T| {
        let r = try_call(|| f());
        cx.check("matrix-refused", r.is_err(), || format!("{tag} matrix {o} with index {bad} (other {good}) was answered: {r:?}"));
    };
    run("m[(bad,good)]", &mut || m[(b, good)]);
    run("m[(good,bad)]", &mut || m[(good, b)]);
    run("m[bad]", &mut || m[b][good]);
    run("m[good][bad]", &mut || m[good][b]);
    run("row", &mut || m.row(b)[0]);
    run("col", &mut || m.col(b)[0]);
    run("row_vec", &mut || m.row_vec(b)[0]);
    run("col_vec", &mut || m.col_vec(b)[0]);
    let mut w = m;
    run("m[(bad,good)] = x", &mut || {
        w[(b, good)] = T::one();
        T::one()
    });
    run("m[(good,bad)] = x", &mut || {
        w[(good, b)] = T::one();
        T::one()
    });
    run("m[bad][good] = x", &mut || {
        w[b][good] = T::one();
        T::one()
    });
    cx.check("refused-without-damage", (0..4).all(|i| (0..4).all(|j| w[(i, j)] == d[i][j])), || format!("{tag} matrix changed by refused assignments: {w:?}"));
}
fn refuse(cx: &mut Ctx) {
    let v = [0; 16].map(|_| cx.rng.int(-50, 50));
    oob::<f32, 2>(cx, [v[0], v[1]].map(|x| x as f32), "f32");
    oob::<f64, 3>(cx, [v[0], v[1], v[2]].map(|x| x as f64), "f64");
    oob::<i32, 4>(cx, [v[0], v[1], v[2], v[3]].map(|x| x as i32), "i32");
    oob::<u8, 3>(cx, [1, 2, 3], "u8");
    oob::<i64, 5>(cx, [v[0], v[1], v[2], v[3], v[4]], "i64");
    oob::<f32, 3>(cx, [v[0], v[1], v[2]].map(|x| x as f32), "f32");
    oob::<f32, 1>(cx, [v[0] as f32], "f32");
    let d = [0, 1, 2, 3].map(|i| [0, 1, 2, 3].map(|j| v[4 * i + j] as f32));
    oob_matrix(cx, d, "f32");
    oob_matrix(cx, d.map(|r| r.map(|x| x as i64)), "i64");
    cx.sample(|| format!("vector and matrix accesses on {v:?}"));
}
/// projections: exact small integers so that the homogeneous weight is exactly zero or not
fn project<F: LF>(cx: &mut Ctx) {
    // w = g . p + h
    // scaled by powers of two, so that every weight is exact however small or large
    let (ka, kb) = if cx.rng.chance(1, 2) { (1.0, 1.0) } else { (2f64.powi(cx.rng.int(-20, 20) as i32), 2f64.powi(cx.rng.int(-20, 20) as i32)) };
    let g = [0; 3].map(|_| cx.rng.int(-3, 3) as f64 * ka);
    let h = cx.rng.int(-3, 3) as f64 * ka * kb;
    let mut d = [[0.0; 4]; 4];
    for i in 0..3 {
        for j in 0..4 {
            d[i][j] = cx.rng.int(-3, 3) as f64;
        }
    }
    d[3] = [g[0], g[1], g[2], h];
    let m = Matrix4x4::from(d.map(|r| r.map(F::of)));
    let id = Matrix4x4::<F>::identity();
    let p = [0; 3].map(|_| cx.rng.int(-4, 4) as f64 * kb);
    let wv = g[0] * p[0] + g[1] * p[1] + g[2] * p[2];
    let wp = wv + h;
    cx.sample(|| format!("{} matrix {d:?} on {p:?}", F::NAME));
    for dir in 0..2 {
        let t = if dir == 0 { Transform::new(m, id) } else { Transform::new(id, m) };
        let mp = |p: Point3<F>| if dir == 0 { t.map(p) } else { t.map_inverse(p) };
        let mv = |p: Vector3<F>| if dir == 0 { t.map(p) } else { t.map_inverse(p) };
        let mr = |r: Ray<F>| if dir == 0 { t.map(r) } else { t.map_inverse(r) };
        let r = try_call(|| mp(p3::<F>(p)));
        if wp == 0.0 {
            cx.check("point-to-infinity-refused", r.is_err(), || format!("{} {d:?} maps the point {p:?} of weight 0 to {r:?}", F::NAME));
        } else {
            cx.check("point-answered", r.is_ok(), || format!("{} {d:?} refuses the point {p:?} of weight {wp}: {r:?}", F::NAME));
        }
        let r = try_call(|| mv(v3::<F>(p)));
        if wv != 0.0 {
            cx.check("vector-refused", r.is_err(), || format!("{} {d:?} maps the vector {p:?} of weight {wv} to {r:?}", F::NAME));
        } else {
            cx.check("vector-answered", r.is_ok(), || format!("{} {d:?} refuses the vector {p:?}: {r:?}", F::NAME));
        }
        let r = try_call(|| mr(Ray::new(p3::<F>(p), v3::<F>(p), F::of(1.0))));
        if wp == 0.0 || wv != 0.0 {
            cx.check("ray-refused", r.is_err(), || format!("{} {d:?} maps the ray from {p:?} along {p:?} to {r:?}", F::NAME));
        }
    }
    // through the constructor
    let (fov, near) = (F::of(cx.rng.uni(0.3, 2.5)), F::of(cx.rng.uni(0.1, 1.0)));
    let t = Transform::<F>::perspective(fov, near, F::of(near.d() * 10.0));
    let flat = [p[0], p[1], 0.0];
    let r = try_call(|| t.map(p3::<F>(flat)));
    cx.check("point-to-infinity-refused", r.is_err(), || format!("{} perspective maps the eye-plane point {flat:?} to {r:?}", F::NAME));
    let q = [p[0], p[1], if p[2] == 0.0 { -kb } else { p[2] }];
    let r = try_call(|| t.map(v3::<F>(q)));
    cx.check("vector-refused", r.is_err(), || format!("{} perspective maps the vector {q:?} to {r:?}", F::NAME));
    let r = try_call(|| t.map(v3::<F>(flat)));
    cx.check("vector-answered", r.is_ok(), || format!("{} perspective refuses the vector {flat:?}: {r:?}", F::NAME));
}

// ---------------------------------------------------------------- random programs over the public API
struct Pool<F: LF> {
    h: u64,
    s: Vec<F>,
    iv: Vec<Iv<F>>,
    v: Vec<Vector3<F>>,
    p: Vec<Point3<F>>,
    n: Vec<Normal3<F>>,
    vi: Vec<Vector3<Iv<F>>>,
    t: Vec<Transform<F>>,
    m: Vec<Matrix4x4<F>>,
}
impl<F: LF> Pool<F> {
    fn see(&mut self, x: F) {
        // every NaN is the same result
        let b = if x.isnan() { 0x7ff8 } else { x.bits64() };
        self.h = mix(self.h ^ b.wrapping_mul(0x9e3779b97f4a7c15));
    }
    fn push_t(&mut self, t: Transform<F>) {
        for x in t.matrix().data.iter().chain(t.inverse_matrix().data.iter()).flatten() {
            self.see(*x);
        }
        self.t.push(t);
    }
    fn bit(&mut self, b: bool) {
        self.h = mix(self.h ^ (b as u64 + 77));
    }
    fn push_s(&mut self, x: F) {
        self.see(x);
        let d = x.d();
        if d.is_finite() && d.abs() < 1e12 {
            self.s.push(x);
        }
    }
    fn push_iv(&mut self, x: Iv<F>) {
        self.see(x.inf);
        self.see(x.sup);
        if x.inf.d().is_finite() && x.sup.d().is_finite() && x.inf.d().abs() < 1e12 && x.sup.d().abs() < 1e12 {
            self.iv.push(x);
        }
    }
    fn ok(a: &[F; 3]) -> bool {
        a.iter().all(|x| x.d().is_finite() && x.d().abs() < 1e9)
    }
    fn see3<U>(&mut self, a: GenericVector<F, 3, U>) -> bool {
        for x in a.vec {
            self.see(x);
        }
        Self::ok(&a.vec)
    }
    fn push_v(&mut self, a: Vector3<F>) {
        if self.see3(a) {
            self.v.push(a);
        }
    }
    fn push_p(&mut self, a: Point3<F>) {
        if self.see3(a) {
            self.p.push(a);
        }
    }
    fn push_n(&mut self, a: Normal3<F>) {
        if self.see3(a) {
            self.n.push(a);
        }
    }
    fn push_vi(&mut self, a: Vector3<Iv<F>>) {
        for x in a.vec {
            self.see(x.inf);
            self.see(x.sup);
        }
        if a.vec.iter().all(|x| x.inf.d().is_finite() && x.sup.d().is_finite() && x.inf.d().abs() < 1e9 && x.sup.d().abs() < 1e9) {
            self.vi.push(a);
        }
    }
}
fn program<F: LF>(r: &mut Rng, len: usize) -> (u64, Vec<u8>) {
    let mut q = Pool::<F> { h: 1, s: vec![F::of(1.5)], iv: vec![Interval::new(F::of(-1.0), F::of(2.0))], v: vec![v3([1.0, 2.0, 3.0])], p: vec![p3([0.5, -1.0, 2.0])], n: vec![n3([0.0, 1.0, 0.0])], vi: vec![], t: vec![Transform::identity()], m: vec![Matrix4x4::identity()] };
    q.vi.push(Vector3::from(q.v[0].vec.map(|x| Interval::new(x, x))));
    let mut ops = vec![];
    for _ in 0..len {
        macro_rules! pk {
            ($f:ident) => {{
                let k = r.us(q.$f.len());
                q.$f[k]
            }};
        }
        let op = r.below(64) as u8;
        ops.push(op);
        match op {
            0 | 1 => {
                let x = F::of(r.modr());
                q.push_s(x)
            }
            2 => {
                let x: F = r.hostile();
                q.push_s(x)
            }
            3 => {
                let (a, b) = (pk!(s), pk!(s));
                let x = [a + b, a - b, a * b, Scalar::min(a, b), Scalar::max(a, b)];
                let x = x[r.us(5)];
                q.push_s(x)
            }
            4 => {
                let (a, b) = (pk!(s), pk!(s));
                if b.d() != 0.0 {
                    q.push_s(a / b)
                }
            }
            5 => {
                let a = pk!(s);
                q.push_s(GFloat::next_up(a));
                q.push_s(GFloat::next_down(a));
                q.push_s(SignedScalar::abs(a));
                q.push_s(SignedScalar::signum(a));
                q.push_s(Scalar::square(a));
            }
            6 => {
                let a = pk!(s);
                let (s, c) = GFloat::sin_cos(a);
                q.push_s(s);
                q.push_s(c);
                q.push_s(GFloat::atan(a));
                let b = pk!(s);
                q.push_s(GFloat::atan2(a, b));
            }
            7 => {
                let (a, b) = (pk!(s), pk!(s));
                let f = GFloat::fequals(a, b);
                q.bit(f);
                let (x, y) = Scalar::min_max(a, b);
                q.push_iv(Interval::new(x, y));
            }
            8..=15 => {
                let (a, b) = (pk!(iv), pk!(iv));
                let x = match op {
                    8 => a + b,
                    9 => a - b,
                    10 => a * b,
                    11 => a / b,
                    12 => -a,
                    13 => a.square(),
                    14 => a.union(b),
                    _ => {
                        if a.sup.d() >= 0.0 {
                            a.sqrt()
                        } else {
                            a
                        }
                    }
                };
                q.push_iv(x);
            }
            16 => {
                let (a, b) = (pk!(iv), pk!(iv));
                q.bit(a < b);
                q.bit(a == b);
                q.bit(a.contains(b.inf));
                let x = a.approx();
                q.push_s(x);
                if a.inf.d() <= b.sup.d() && b.inf.d() <= a.sup.d() {
                    q.push_iv(a.intersect(b));
                }
            }
            17 => {
                let a = pk!(iv);
                q.push_iv(GFloat::sin(a));
                q.push_iv(GFloat::cos(a));
                q.push_iv(GFloat::atan(a));
                q.push_iv(GFloat::tan(a));
            }
            18 => {
                let (a, b) = (pk!(iv), pk!(iv));
                q.push_iv(GFloat::atan2(a, b));
                q.push_iv(Scalar::min(a, b));
                q.push_iv(Scalar::max(a, b));
                q.push_iv(SignedScalar::abs(a));
            }
            19 => {
                let c = r.uni(-1.0, 1.0);
                let a = Interval::new(F::of(c.min(0.2)), F::of(c.max(0.2)));
                q.push_iv(GFloat::asin(a));
                q.push_iv(GFloat::acos(a));
            }
            20 => {
                let s = pk!(s);
                let a = pk!(iv);
                q.push_iv(a * s);
                q.push_iv(a + s);
                q.push_iv(a - s);
                q.push_iv(a / s);
            }
            21 | 22 => {
                let a = v3(r.modr3());
                q.push_v(a)
            }
            23 => {
                let a = p3(r.modr3());
                q.push_p(a)
            }
            24 => {
                let (a, b) = (pk!(v), pk!(v));
                q.push_v(a + b);
                q.push_v(a - b);
                q.push_v(-a);
                q.push_v(a.cross(b));
                let d = a.dot(b);
                q.push_s(d);
                q.push_s(a.norm());
            }
            25 => {
                let (p, u) = (pk!(p), pk!(v));
                q.push_p(p + u);
                q.push_p(p - u);
                let p2 = pk!(p);
                q.push_v(p2 - p);
                q.push_s((p2 - p).norm());
                q.push_s(pk!(v).distance(p2 - p));
                q.bit(p == p2);
                let b = p.almost_eq(p2);
                q.bit(b);
            }
            26 => {
                let a = pk!(v);
                if a.norm().d() > 1e-6 {
                    q.push_v(a.normalize());
                    q.push_n(Normal3::from(a.normalize()));
                }
            }
            27 => {
                let (a, s) = (pk!(v), pk!(s));
                q.push_v(a * s);
                q.push_v(a.min(pk!(v)));
                q.push_v(a.max(pk!(v)));
                let mut b = a;
                b += a;
                b[r.us(3)] = s;
                q.push_v(b);
            }
            28 => {
                let a = pk!(v);
                let x = Vector3::<Iv<F>>::from(a);
                q.push_vi(x);
            }
            29 => {
                let (a, b) = (pk!(vi), pk!(vi));
                q.push_vi(a + b);
                q.push_vi(a.cross(b));
                let d = a.dot(b);
                q.push_iv(d);
                q.push_iv(a.norm());
            }
            30 => {
                let a = pk!(vi);
                q.push_v(Vector3::<F>::from(a));
            }
            31..=36 => {
                let e = elem::<F>(r);
                q.push_t(e.t);
            }
            37 | 38 => {
                let (a, b) = (pk!(t), pk!(t));
                let c = a * b;
                if crate::refs::max_m(&super::p_linear::to_ref(&c.matrix().data)) < 1e6 && crate::refs::max_m(&super::p_linear::to_ref(&c.inverse_matrix().data)) < 1e6 {
                    q.push_t(c);
                }
            }
            39 => {
                let a = pk!(t);
                q.push_t(a.inverse());
            }
            40 => {
                let a = pk!(t);
                let m = a.matrix();
                q.m.push(m);
                q.m.push(m.transpose());
                // an affine matrix inverted numerically must still map vectors
                let mi = m.inverse();
                for x in mi.data.iter().flatten() {
                    q.see(*x);
                }
                if mi.data.iter().flatten().all(|x| x.d().is_finite() && x.d().abs() < 1e6) {
                    let t = Transform::new(m, mi);
                    let u = t.map_inverse(pk!(v));
                    q.push_v(u);
                    let p = t.map_inverse(pk!(p));
                    q.push_p(p);
                    let n = t.map(pk!(n));
                    q.push_n(n);
                }
            }
            41 => {
                let (a, b) = (pk!(m), pk!(m));
                let c = a * b;
                for x in c.data.iter().flatten() {
                    q.see(*x);
                }
                if c.data.iter().flatten().all(|x| x.d().abs() < 1e6) {
                    q.m.push(c);
                }
                q.push_s(a[(r.us(4), r.us(4))]);
                let v = a.row_vec(r.us(4)) + b.col_vec(r.us(4));
                q.push_s(v.w());
            }
            42 | 43 => {
                let t = pk!(t);
                let (v, p, n) = (pk!(v), pk!(p), pk!(n));
                q.push_v(t.map(v));
                q.push_p(t.map(p));
                q.push_n(t.map(n));
                q.push_v(t.map_inverse(v));
                q.push_p(t.map_inverse(p));
                q.push_n(t.map_inverse(n));
            }
            44 => {
                let t = pk!(t);
                let v = pk!(vi);
                q.push_vi(t.map(v));
                q.push_vi(t.map_inverse(v));
                let p = Point3::<Iv<F>>::from(v);
                let g = t.map(p);
                q.push_vi(Vector3::from(g));
                let n = t.map(Normal3::<Iv<F>>::from(v));
                q.push_vi(Vector3::from(n));
            }
            45 => {
                let t = pk!(t);
                let y = Ray::new(pk!(p), pk!(v), F::of(3.0));
                let z = t.map(y);
                q.push_p(z.origin);
                q.push_v(z.direction);
                q.push_p(z.eval(F::of(0.5)));
                let w = t.map_inverse(y);
                q.push_p(w.origin);
            }
            46 => {
                let (p, t, u) = look_params::<F>(r);
                let l = Transform::look_at(p3(p), p3(t), v3::<F>(u));
                q.push_t(l);
            }
            47 => {
                let t = Transform::<F>::perspective(F::of(r.uni(0.2, 2.8)), F::of(0.5), F::of(20.0));
                let p = t.map(p3::<F>([r.modr(), r.modr(), -r.uni(0.5, 20.0)]));
                q.push_p(p);
                q.push_p(t.map_inverse(p));
            }
            _ => geometry(&mut q, r, op),
        }
        // bound the pools
        for k in [&mut q.s] {
            if k.len() > 40 {
                k.drain(0..20);
            }
        }
        if q.iv.len() > 40 {
            q.iv.drain(0..20);
        }
        if q.t.len() > 20 {
            q.t.drain(0..10);
        }
    }
    (q.h, ops)
}
fn geometry<F: LF>(q: &mut Pool<F>, r: &mut Rng, op: u8) {
    let f3 = |q: &mut Pool<F>, a: [f32; 3]| {
        for x in a {
            q.see(F::of(x as f64));
        }
    };
    let seeb = |q: &mut Pool<F>, b: Bbox3| {
        f3(q, b.pmin.vec);
        f3(q, b.pmax.vec);
    };
    let hit = |q: &mut Pool<F>, p: &dyn IntersectsRay, y: Rayf| {
        let b = p.do_intersect(y);
        q.bit(b);
        if let Some(g) = p.intersect(y) {
            q.see(F::of(g.t_ray as f64));
            f3(q, g.surface_interaction.p.vec);
            f3(q, g.surface_interaction.n.vec);
            f3(q, g.surface_interaction.dpdu.vec);
            f3(q, g.surface_interaction.dpdv.vec);
            let uv = g.surface_interaction.uv;
            f3(q, [uv.x(), uv.y(), 0.0]);
        }
    };
    let s = gen_sphere(r);
    let (o, d, tm) = gen_ray(r, &s);
    if d == [0.0; 3] {
        return;
    }
    let y = ray(o, d, tm);
    let a = r.modr3();
    let b = r.modr3();
    match op {
        48 | 49 => {
            let l = s.lib();
            hit(q, &l, y);
            f3(q, [l.area(), l.theta_min, l.theta_max]);
            seeb(q, l.bbox());
        }
        50 | 51 => {
            let bb = bx((a, b));
            hit(q, &bb, y);
            let u = bb.union(&s.lib().bbox());
            seeb(q, u);
            seeb(q, bb + u);
            let i = bb.overlaps(&u);
            q.bit(i);
            let c = bb.center();
            f3(q, c.vec);
            let ((lo, hi), ax) = bb.max_extent();
            f3(q, [lo, hi, ax as f32]);
        }
        52 | 53 => {
            let e = elem::<f32>(r);
            let tp = TransformedPrimitive::new(s.lib(), e.t);
            hit(q, &tp, y);
            seeb(q, tp.bbox());
            let tp = TransformedPrimitive::new(bx((a, b)), e.t);
            hit(q, &tp, y);
        }
        54..=56 => {
            let mut l = PrimitiveList::new();
            for _ in 0..r.us(5) {
                match r.below(4) {
                    0 => l.add_primitive(gen_sphere(r).lib()),
                    1 => l.add_primitive(bx((r.modr3(), r.modr3()))),
                    2 => {
                        let mut k = PrimitiveList::default();
                        k.add_primitive(gen_sphere(r).lib());
                        l.add_primitive(k);
                    }
                    _ => l.add_primitive(TransformedPrimitive::new(gen_sphere(r).lib(), elem::<f32>(r).t)),
                }
            }
            l.add_primitive(s.lib());
            hit(q, &l, y);
            seeb(q, l.bbox());
        }
        57..=59 => {
            let u = Point2f::new(r.unit() as f32, r.unit() as f32);
            let v = Point2f::new(r.unit() as f32, r.unit() as f32);
            for p in [concentric_sample_disk(u), uniform_sample_disk(v)] {
                f3(q, [p.x(), p.y(), 0.0]);
            }
            let (p, t, up) = look_params::<f32>(r);
            let cam = ThinLensCamera::new(Transform::look_at(p3(p), p3(t), v3(up)), r.uni(1.0, 9.0) as f32, r.uni(0.2, 2.8) as f32, 0.05, 0.1, 1.5);
            let g = cam.generate_ray(CameraSample::new(u, v));
            f3(q, g.origin.vec);
            f3(q, g.direction.vec);
            hit(q, &s.lib(), g);
        }
        _ => {
            let bb = bx((a, b));
            let e = elem::<f32>(r);
            seeb(q, e.t.map(bb));
            seeb(q, e.t.map_inverse(bb));
            let z = e.t.map(y);
            hit(q, &bb, z);
        }
    }
}
fn programs<F: LF>(cx: &mut Ctx) {
    let len = 8 + cx.rng.us(40);
    let start = cx.rng.clone();
    let (h1, ops) = program::<F>(&mut cx.rng, len);
    cx.evn("calls", ops.len() as u64);
    cx.sample(|| format!("{} program of operations {ops:?}", F::NAME));
    // the same program again, with unrelated calls in between
    let _ = program::<F>(&mut Rng::new(h1 ^ start.trace), 3);
    let mut again = start;
    let (h2, ops2) = program::<F>(&mut again, len);
    cx.check("deterministic", h1 == h2 && ops == ops2, || format!("{}: the same calls gave different results (program {ops:?})", F::NAME));
}

pub fn sections() -> Vec<(&'static str, Vec<Section>)> {
    let n: &[&str] = &["point-to-infinity-refused", "point-answered", "vector-refused", "vector-answered", "ray-refused"];
    vec![(
        "C21",
        vec![
            Section { name: "refuse", rule: "random out-of-range indices (dimension, dimension+1, wrapping and huge ones) on vectors of dimension 1-5 of several scalar types and on matrices; named component access for every dimension", quick: 40_000, thorough: 1_000_000, exhaustive: false, need: &["index-refused", "index-mut-refused", "named-answered", "named-refused", "matrix-refused", "refused-without-damage"], run: refuse },
            Section { name: "project-f32", rule: "integer projective matrices on integer points, vectors and rays whose homogeneous weight is exactly known, and the perspective constructor", quick: 60_000, thorough: 1_500_000, exhaustive: false, need: n, run: project::<f32> },
            Section { name: "project-f64", rule: "as project-f32 over f64", quick: 40_000, thorough: 1_000_000, exhaustive: false, need: n, run: project::<f64> },
            Section { name: "programs-f32", rule: "random programs of 8-47 public operations over pools of scalars, intervals, vectors, matrices, transforms and scene objects; any panic is a violation; run twice and compared bit for bit", quick: 120_000, thorough: 6_000_000, exhaustive: false, need: &["calls", "deterministic"], run: programs::<f32> },
            Section { name: "programs-f64", rule: "as programs-f32 over f64", quick: 80_000, thorough: 4_000_000, exhaustive: false, need: &["calls", "deterministic"], run: programs::<f64> },
        ],
    )]
}
