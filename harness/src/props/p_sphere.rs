//! C14 ray/sphere decisions, C15 sphere surface records
use super::p_box::{ray, tmax_of, un, E32};
use super::p_transform::{d3, p3, v3};
use crate::fw::{try_call, Ctx, Rng, Section};
use crate::refs::*;
use scarlet::geometry::primitive::{Bounded3, IntersectsRay, SurfaceInteraction};
use scarlet::geometry::sphere::Sphere;
use scarlet::math::vector::Point2f;
use std::f64::consts::PI;

pub const PI32: f64 = std::f32::consts::PI as f64;

#[derive(Clone, Copy, Debug)]
pub struct Sp {
    pub r: f64,
    pub z0: f64,
    pub z1: f64,
    pub phi: f64,
}
impl Sp {
    pub fn lib(&self) -> Sphere {
        Sphere::new(self.r as f32, self.z0 as f32, self.z1 as f32, self.phi as f32)
    }
}
pub fn gen_sphere(r: &mut Rng) -> Sp {
    let rad = match r.below(5) {
        0 => r.int(1, 5) as f64,
        1 => r.log(1e-3, 1e3),
        2 => 2f64.powi(r.int(-20, 20) as i32) * r.uni(0.5, 1.0),
        _ => r.uni(0.1, 10.0),
    } as f32 as f64;
    let (z0, z1) = match r.below(8) {
        0 | 1 => (-rad, rad),
        2 => (-rad * r.uni(1.0, 3.0), rad * r.uni(1.0, 3.0)),
        3 => (-rad, rad * r.uni(-0.95, 0.95)),
        4 => (rad * r.uni(-0.95, 0.95), rad),
        5 => {
            let a = r.uni(-0.99, 0.9);
            (rad * a, rad * (a + r.uni(0.02, 0.1)))
        }
        _ => {
            let (a, b) = (r.uni(-1.0, 1.0), r.uni(-1.0, 1.0));
            (rad * a.min(b), rad * a.max(b))
        }
    };
    let (z0, mut z1) = (z0 as f32 as f64, z1 as f32 as f64);
    if z1 - z0 < 1e-3 * rad {
        z1 = (z0 + 0.25 * rad) as f32 as f64;
    }
    let phi = match r.below(7) {
        0 | 1 | 2 => PI32,
        6 if r.chance(1, 2) => PI32 - r.log(1e-6, 0.1),
        3 => r.uni(-3.1, -0.05),
        4 => r.uni(-0.5, 0.5),
        _ => r.uni(0.0, 3.14),
    } as f32 as f64;
    Sp { r: rad, z0, z1, phi }
}
fn on_sphere(r: &mut Rng, s: &Sp) -> V3 {
    // points biased to poles, clip circles and the azimuth seam
    let z = match r.below(6) {
        0 => s.z0.max(-s.r),
        1 => s.z1.min(s.r),
        2 => s.r * r.sign(),
        3 => s.z0.max(-s.r) + r.unit() * (s.z1.min(s.r) - s.z0.max(-s.r)),
        _ => s.r * r.uni(-1.0, 1.0),
    };
    let phi = match r.below(6) {
        0 => s.phi,
        1 => r.pick(&[0.0, PI / 2.0, -PI / 2.0, PI, -PI]),
        2 => s.phi + r.uni(-0.01, 0.01),
        _ => r.uni(-PI, PI),
    };
    let rho = (s.r * s.r - z * z).max(0.0).sqrt();
    [rho * phi.cos(), rho * phi.sin(), z]
}
pub fn gen_ray(r: &mut Rng, s: &Sp) -> (V3, V3, f64) {
    let p = on_sphere(r, s);
    let (o, d) = match r.below(8) {
        0 | 1 => {
            // through two surface points, from outside or inside
            let q = on_sphere(r, s);
            let d = sub(q, p);
            (sub(p, mul(d, r.uni(-0.9, 2.0))), mul(d, r.pick(&[1.0, 1.0, 0.1, 7.0])))
        }
        2 => {
            // aimed at a surface point from anywhere
            let o = mul(r.dir(), s.r * r.log(0.05, 30.0));
            (o, mul(sub(p, o), r.log(1e-2, 1e2)))
        }
        3 => {
            // axis aligned through a surface point
            let mut d = [0; 3].map(|_| if r.chance(1, 2) { 0.0 } else { -0.0 });
            d[r.us(3)] = r.sign();
            let back = s.r * r.uni(-1.0, 4.0);
            (sub(p, mul(d, back)), mul(d, r.pick(&[1.0, s.r, 3.0])))
        }
        4 => {
            // starts on the surface
            (p, mul(r.dir(), s.r))
        }
        5 => {
            // vertical, near the poles
            let e = r.pick(&[0.0, 1e-6, 1e-4, 1e-2, -1e-4]) * s.r;
            let sg = r.sign();
            ([e, r.pick(&[0.0, 1e-5, -1e-3]) * s.r, sg * s.r * r.uni(0.0, 4.0)], [0.0, 0.0, -sg * r.log(0.1, 10.0)])
        }
        6 => {
            // near tangent
            let side = unit(cross(p, r.dir().map(|x| x + 1e-3)));
            let off = r.pick(&[1.0, 0.999, 1.001, 0.99, 1.01]);
            (sub(mul(p, off), mul(side, s.r * r.uni(-1.0, 3.0))), mul(side, s.r))
        }
        _ => (mul(r.dir(), s.r * r.log(0.1, 20.0)), r.dir()),
    };
    let d = if r.chance(1, 6) && norm(d) > 0.0 {
        // unit, or almost
        let k = r.pick(&[1.0, 1.0 + 1e-3, 1.0 - 1e-3, 1.01, 0.99, 1.0 + 1e-4, 1.0 - 1e-4]);
        mul(unit(d), k)
    } else {
        d
    };
    let (o, d) = (o.map(|x| x as f32 as f64), d.map(|x| x as f32 as f64));
    let around = if norm(d) > 0.0 { norm(sub(p, o)) / norm(d) } else { 1.0 };
    let tm = tmax_of(r, around);
    (o, d, tm)
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum St {
    Acc,
    Rej,
    Amb,
}
fn and(a: St, b: St) -> St {
    if a == St::Rej || b == St::Rej {
        St::Rej
    } else if a == St::Amb || b == St::Amb {
        St::Amb
    } else {
        St::Acc
    }
}
/// x <= bound
fn le(x: f64, bound: f64, tol: f64) -> St {
    if x + tol <= bound {
        St::Acc
    } else if x - tol > bound {
        St::Rej
    } else {
        St::Amb
    }
}
#[derive(Debug)]
struct Root {
    t: f64,
    dt: f64,
    st: St,
    p: V3,
}
enum Solved {
    Miss,
    Unclear,
    Roots(Root, Root),
}
fn root_state(s: &Sp, o: V3, d: V3, tmax: f64, t: f64, dt: f64, exact: bool) -> Root {
    let p = add(o, mul(d, t));
    let dp = if exact { 0.0 } else { norm(d) * dt + 4.0 * E32 * (norm(o) + norm(d) * t.abs()) };
    let mut st = and(le(0.0, t, dt), le(t, tmax, dt));
    if s.z0 > -s.r {
        st = and(st, le(s.z0, p[2], dp));
    }
    if s.z1 < s.r {
        st = and(st, le(p[2], s.z1, dp));
    }
    if s.phi < PI32 {
        let rho = p[0].hypot(p[1]);
        if rho <= 2.0 * dp || rho == 0.0 {
            st = and(st, St::Amb);
        } else {
            let phi = p[1].atan2(p[0]);
            let dphi = 1.1 * dp / rho + 6.0 * E32 * PI;
            if phi.abs() + dphi >= PI || (exact && p[1] == 0.0 && p[0] < 0.0) {
                // the seam is both azimuths
                st = and(st, if phi.abs() + dphi >= PI { St::Amb } else { St::Acc });
            } else if exact {
                // only quadrant/octant azimuths are decided exactly: the bound is the rounded constant
                let f = (p[1] as f32).atan2(p[0] as f32) as f64;
                let special = p[0] == 0.0 || p[1] == 0.0 || p[0].abs() == p[1].abs();
                st = and(st, if f == s.phi { if special { St::Acc } else { St::Amb } } else { le(phi, s.phi, dphi) });
            } else {
                st = and(st, le(phi, s.phi, dphi));
            }
        }
    }
    Root { t, dt, st, p }
}
fn solve(s: &Sp, o: V3, d: V3, tmax: f64, exact: bool) -> Solved {
    let (a, b) = (dot(d, d), 2.0 * dot(o, d));
    let c = dot(o, o) - s.r * s.r;
    let disc = b * b - 4.0 * a * c;
    let (da, db, dc) = if exact {
        (0.0, 0.0, 0.0)
    } else {
        (4.0 * E32 * a, 8.0 * E32 * (0..3).map(|i| (o[i] * d[i]).abs()).sum::<f64>(), 5.0 * E32 * (dot(o, o) + s.r * s.r))
    };
    let dd = if exact { 0.0 } else { 2.0 * b.abs() * db + 4.0 * (a * dc + c.abs() * da) + 4.0 * E32 * (b * b + 4.0 * (a * c).abs()) };
    if disc + dd < 0.0 {
        return Solved::Miss;
    }
    if disc - dd <= 0.0 && !(exact && disc == 0.0) {
        return Solved::Unclear;
    }
    let q = disc.sqrt();
    let (mut t0, mut t1) = if b >= 0.0 { (-(b + q) / (2.0 * a), -2.0 * c / (b + q)) } else { ((-b + q) / (2.0 * a), 2.0 * c / (-b + q)) };
    if exact && disc == 0.0 {
        t0 = -b / (2.0 * a);
        t1 = t0;
    }
    if t0 > t1 {
        std::mem::swap(&mut t0, &mut t1);
    }
    let low = (disc - dd).sqrt();
    // first order in the coefficients; the discriminant's uncertainty enters through the smaller root of it
    let err = |t: f64| if exact { 0.0 } else { 2.0 * (t * t * da + t.abs() * db + dc) / low + 8.0 * E32 * t.abs() + dd * 0.0 };
    let (e0, e1) = (err(t0), err(t1));
    Solved::Roots(root_state(s, o, d, tmax, t0, e0, exact), root_state(s, o, d, tmax, t1, e1, exact))
}
fn sane(s: &Sp, o: V3, d: V3) -> bool {
    let (n, k) = (norm(d), norm(o).max(s.r));
    // squares must neither overflow nor sink into subnormals
    n > 1e-8 && n < 1e8 && k < 1e8 && s.r > 1e-8
}
fn judge(cx: &mut Ctx, s: Sp, o: V3, d: V3, tmax: f64, exact: bool) {
    if !sane(&s, o, d) {
        return cx.und("out-of-scale");
    }
    let lib = s.lib();
    let rr = ray(o, d, tmax);
    let (g, yn) = super::p_scene::both(cx, &lib, rr);
    let sh = || format!("{s:?} ray o={o:?} d={d:?} tmax={tmax:e}: {}", match &g { None => "none".to_string(), Some(g) => format!("t={} p={:?}", g.t_ray, g.surface_interaction.p) });
    cx.check("yes-no-agrees", yn == g.is_some(), || format!("{}, yes/no says {yn}", sh()));
    let sol = solve(&s, o, d, tmax, exact);
    if let Some(g) = &g {
        // facts that hold for every hit
        let (t, p) = (g.t_ray as f64, d3(g.surface_interaction.p));
        let e = add(o, mul(d, t));
        let k = 4.0 * E32 * (norm(o) + norm(d) * t.abs());
        cx.check("on-ray", close3(p, e, k), || format!("{}: not on the ray at t ({e:?})", sh()));
        cx.check("within-limit", t >= 0.0 && t <= tmax, || format!("{}: outside [0,limit]", sh()));
        let clip = (s.z0 <= -s.r || p[2] >= s.z0 - k) && (s.z1 >= s.r || p[2] <= s.z1 + k);
        cx.check("inside-clip", clip, || format!("{}: outside the z range", sh()));
        let rho = p[0].hypot(p[1]);
        if rho > 2.0 * k && p[1].atan2(p[0]).abs() + 2.0 * k / rho + 1e-6 < PI {
            cx.check("inside-azimuth", p[1].atan2(p[0]) <= s.phi + 2.0 * k / rho + 1e-6, || format!("{}: beyond the azimuth limit", sh()));
        }
        if let Solved::Roots(a, b) = &sol {
            let dt = if (t - a.t).abs() < (t - b.t).abs() { a.dt } else { b.dt };
            cx.check("on-sphere", (norm(p) - s.r).abs() <= norm(d) * dt + k + 4.0 * E32 * s.r, || format!("{}: |p| = {}", sh(), norm(p)));
        }
    }
    match sol {
        Solved::Miss => {
            cx.check("line-misses", g.is_none(), || format!("{}, but the line misses the sphere", sh()));
        }
        Solved::Unclear => cx.und("tangent-within-rounding"),
        Solved::Roots(a, b) => {
            let near = |t: f64, r: &Root| (t - r.t).abs() <= r.dt;
            match &g {
                None => {
                    let bad = a.st == St::Acc || b.st == St::Acc;
                    if !bad && (a.st == St::Amb || b.st == St::Amb) {
                        cx.und("clip-within-rounding");
                    } else {
                        cx.check("no-visible-hit", !bad, || format!("{}, but there are hits {a:?} {b:?}", sh()));
                    }
                }
                Some(g) => {
                    let t = g.t_ray as f64;
                    let ok0 = near(t, &a) && a.st != St::Rej;
                    let ok1 = near(t, &b) && b.st != St::Rej && (a.st != St::Acc || near(b.t, &a));
                    if a.st == St::Amb && (ok0 || ok1) {
                        cx.und("clip-within-rounding");
                    } else {
                        cx.check(if a.st == St::Acc { "first-hit" } else { "second-hit" }, ok0 || ok1, || format!("{}, expected {}", sh(), if a.st == St::Rej && b.st == St::Rej { format!("no hit ({a:?} {b:?})") } else { format!("{a:?} or {b:?}") }));
                    }
                }
            }
            if a.st == St::Acc {
                if a.p[2] < 0.0 {
                    cx.ev("lower-hemisphere");
                }
                if s.z0 < -s.r || s.z1 > s.r {
                    cx.ev("planes-beyond-poles");
                }
                if s.phi < 0.0 {
                    cx.ev("negative-azimuth-limit");
                }
            }
            if norm(o) < s.r && b.st == St::Acc {
                cx.ev("inside-origin");
            }
            if a.st == St::Rej && b.st == St::Acc && a.t > 0.0 {
                cx.ev("first-root-clipped");
            }
        }
    }
}
fn hits(cx: &mut Ctx) {
    let s = gen_sphere(&mut cx.rng);
    let (o, d, tm) = gen_ray(&mut cx.rng, &s);
    if norm(d) < 1e-7 {
        return;
    }
    cx.sample(|| format!("{s:?} ray o={o:?} d={d:?} tmax={tm}"));
    judge(cx, s, o, d, tm, false);
    if cx.rng.chance(1, 4) {
        // the same ray on a sphere that differs in one respect, then the first sphere with another limit
        let mut s2 = s;
        match cx.rng.below(4) {
            0 => s2.r = (s.r * cx.rng.pick(&[0.5, 0.9, 1.1, 2.0])) as f32 as f64,
            1 => s2.phi = gen_sphere(&mut cx.rng).phi,
            2 => s2.z0 = (s.z0 + (s.z1 - s.z0) * cx.rng.uni(-0.5, 0.9)) as f32 as f64,
            _ => s2.z1 = (s.z1 - (s.z1 - s.z0) * cx.rng.uni(-0.5, 0.9)) as f32 as f64,
        }
        if s2.z0 < s2.z1 && s2.r > 0.0 {
            judge(cx, s2, o, d, tm, false);
            cx.ev("same-ray-other-sphere");
        }
        let tm2 = tmax_of(&mut cx.rng, if tm.is_finite() { tm } else { 1.0 });
        judge(cx, s, o, d, tm2, false);
        cx.ev("same-ray-other-limit");
    }
}
/// integer points with integer norm
const PYTH: &[[i64; 4]] = &[
    [0, 0, 1, 1], [0, 3, 4, 5], [1, 2, 2, 3], [2, 3, 6, 7], [1, 4, 8, 9], [4, 4, 7, 9], [2, 6, 9, 11], [6, 6, 7, 11], [3, 4, 12, 13], [2, 5, 14, 15], [2, 10, 11, 15], [1, 12, 12, 17], [8, 9, 12, 17], [0, 5, 12, 13], [0, 8, 15, 17], [2, 1, 2, 3], [0, 0, 4, 4],
];
/// axis-parallel rays through Pythagorean points: discriminant, roots, hit points are exact in single precision
pub fn exact_case(r: &mut Rng) -> (Sp, V3, V3, f64) {
    let q = r.pick(PYTH);
    let mut p = [q[0] as f64, q[1] as f64, q[2] as f64];
    r.shuffle(&mut p);
    for c in p.iter_mut() {
        *c *= r.sign();
    }
    let rad = q[3] as f64;
    let ax = r.us(3);
    let k = r.pick(&[1.0, 2.0, 0.5, 4.0]);
    let mut d = [0; 3].map(|_| if r.chance(1, 2) { 0.0 } else { -0.0 });
    d[ax] = k * r.sign();
    let start = r.pick(&[0.0, 1.0, 2.0, 3.0, 8.0, 20.0, -1.0, -2.0]);
    let mut o = p;
    // in units where the parameter is exact
    o[ax] -= d[ax].signum() * start;
    let t_of = |z: f64| (z - o[ax]) / d[ax];
    let (ta, tb) = (t_of(p[ax]), t_of(-p[ax]));
    let tm = match r.below(6) {
        0 => f64::INFINITY,
        1 => ta.abs(),
        2 => tb.abs(),
        3 => 0.0,
        4 => ta.abs() * 0.5,
        _ => 1000.0,
    };
    let (z0, z1) = match r.below(6) {
        0 => (-rad, rad),
        1 => (p[2], p[2].max(rad) + 1.0),
        2 => (-rad - 1.0, p[2]),
        3 => (p[2] - 0.5, p[2] + 0.25),
        4 => (p[2] + 0.25, p[2] + 30.0),
        _ => (-p[2].abs(), p[2].abs()),
    };
    let (z0, z1) = if z0 < z1 { (z0, z1) } else { (-rad, rad) };
    let pi = std::f32::consts::PI;
    let phi = match r.below(6) {
        0..=2 => pi as f64,
        3 => r.pick(&[0.0f32, pi / 2.0, -pi / 2.0, pi / 4.0, -pi / 4.0]) as f64,
        4 => {
            let f = (p[1] as f32).atan2(p[0] as f32) as f64;
            if f > -3.14 { f } else { PI32 } // an azimuth limit of -pi leaves no surface
        }
        _ => r.uni(-3.0, 3.0) as f32 as f64,
    };
    (Sp { r: rad, z0, z1, phi }, o, d, tm)
}
/// Does the implementation round where exact arithmetic is possible (it may, say, divide by the radius first)?
/// Decided once, on proper chords of full spheres: parameters off by a rounding only, never exact everywhere.
/// Zero-slack judgements are made only for an implementation that is exact on all of them.
pub fn rounds() -> bool {
    static R: std::sync::OnceLock<bool> = std::sync::OnceLock::new();
    *R.get_or_init(|| {
        for q in PYTH {
            for perm in [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]] {
                let p = perm.map(|i| q[i] as f64);
                for ax in 0..3 {
                    if p[ax] == 0.0 {
                        continue;
                    }
                    for (k, start) in [(1.0, 0.0), (1.0, 1.0), (2.0, 2.0), (0.5, 3.0), (4.0, 8.0), (1.0, 20.0)] {
                        let s = Sp { r: q[3] as f64, z0: -q[3] as f64, z1: q[3] as f64, phi: PI32 };
                        let (mut o, mut d) = (p, [0.0; 3]);
                        d[ax] = k;
                        o[ax] = -p[ax] - start;
                        let Ok(Some(g)) = std::panic::catch_unwind(|| s.lib().intersect(ray(o, d, f64::INFINITY))) else { continue };
                        let (t, want) = (g.t_ray as f64, start / k);
                        let scale = (norm(o) + s.r) * (norm(o) + s.r) / (p[ax] * k);
                        if t != want && (t - want).abs() <= 16.0 * E32 * scale {
                            return true;
                        }
                    }
                }
            }
        }
        false
    })
}
fn hits_exact(cx: &mut Ctx) {
    let (s, o, d, tm) = exact_case(&mut cx.rng);
    cx.sample(|| format!("{s:?} ray o={o:?} d={d:?} tmax={tm}"));
    if let Solved::Roots(a, b) = solve(&s, o, d, tm, true) {
        if a.t == b.t && a.st == St::Acc {
            cx.ev("exact-tangent");
        }
        if a.t == 0.0 && a.st == St::Acc {
            cx.ev("starts-on-sphere");
        }
        if (a.t == tm && a.st == St::Acc) || (a.st == St::Rej && b.st == St::Acc && b.t == tm) {
            cx.ev("hit-at-limit");
        }
        if a.st == St::Acc && ((s.z0 > -s.r && a.p[2] == s.z0) || (s.z1 < s.r && a.p[2] == s.z1)) {
            cx.ev("hit-on-clip-plane");
        }
        if a.st == St::Acc && s.phi < PI32 && (a.p[1] as f32).atan2(a.p[0] as f32) as f64 == s.phi {
            cx.ev("hit-on-azimuth-limit");
        }
        if a.st == St::Acc && a.p[2].abs() == s.r {
            cx.ev("hit-on-pole");
        }
    }
    if rounds() {
        cx.und("implementation-rounds");
        return judge(cx, s, o, d, tm, false);
    }
    judge(cx, s, o, d, tm, true);
}

// ---------------------------------------------------------------- C15
fn records(cx: &mut Ctx) {
    let exact = cx.rng.chance(1, 4);
    let (s, o, d, tm) = if exact {
        exact_case(&mut cx.rng)
    } else {
        let s = gen_sphere(&mut cx.rng);
        let (o, d, tm) = gen_ray(&mut cx.rng, &s);
        (s, o, d, tm)
    };
    if norm(d) < 1e-7 || !sane(&s, o, d) {
        return cx.und("out-of-scale");
    }
    if s.z1.min(s.r) - s.z0.max(-s.r) < 1e-4 * s.r {
        // the clip planes leave (nearly) a point or nothing
        return cx.und("degenerate-sphere");
    }
    let lib = s.lib();
    let Some(g) = lib.intersect(ray(o, d, tm)) else { return };
    let si = g.surface_interaction;
    let (p, n, du, dv) = (d3(si.p), d3(si.n), d3(si.dpdu), d3(si.dpdv));
    let (u, v) = (si.uv.x() as f64, si.uv.y() as f64);
    let sh = || format!("{s:?} ray o={o:?} d={d:?} tmax={tm:e}: p={p:?} n={n:?} uv=({u},{v}) dpdu={du:?} dpdv={dv:?}");
    cx.sample(sh);
    let (th0, th1) = (lib.theta_min as f64, lib.theta_max as f64);
    let (rp, rt) = (s.phi + PI, th1 - th0);
    // how far the hit point itself is off the sphere (a matter of C14); far-off origins make it large
    let off = (norm(p) - s.r).abs() / s.r;
    if off > 1e-3 {
        return cx.und("hit-point-imprecise");
    }
    let sin = (p[0].hypot(p[1]) / s.r).max(1e-30);
    let e = 3.0 * E32 + 2.0 * off;
    // acos is ill conditioned next to the poles
    let ang = (2.0 * e).sqrt().min(2.0 * e / sin) + 8.0 * E32;
    let tol = s.r * (ang + 2.0 * off + 64.0 * E32);
    let (ut, vt) = (1e-6 + 32.0 * E32 / rp.abs(), 1e-6 + (32.0 * E32 + 2.0 * ang) / rt.abs());
    cx.check("uv-range", u >= -ut && u <= 1.0 + ut && v >= -vt && v <= 1.0 + vt, || format!("{}: outside [0,1]^2", sh()));
    let (phi, th) = (u * rp - PI, th0 + v * rt);
    let q = mul([th.sin() * phi.cos(), th.sin() * phi.sin(), th.cos()], s.r);
    cx.check("param-point", close3(q, p, tol), || format!("{}: the parameterisation gives {q:?} +- {tol:e}", sh()));
    let wu = mul([-th.sin() * phi.sin(), th.sin() * phi.cos(), 0.0], s.r * rp);
    let wv = mul([th.cos() * phi.cos(), th.cos() * phi.sin(), -th.sin()], s.r * rt);
    cx.check("dpdu", close3(du, wu, tol * (rp + 0.1)), || format!("{}: expected dpdu {wu:?}", sh()));
    cx.check("dpdv", close3(dv, wv, tol * (rt.abs() + 0.1)), || format!("{}: expected dpdv {wv:?}", sh()));
    cx.check("normal-unit", (norm(n) - 1.0).abs() <= 1e-5 + 2.0 * off, || format!("{}: |n| = {}", sh(), norm(n)));
    let w = unit(p);
    cx.check("normal-outward", close3(n, w, 1e-5 + ang + 2.0 * off), || format!("{}: expected normal {w:?}", sh()));
    let nt = 1e-5 + 2.0 * ang + 2.0 * off;
    cx.check("normal-perp", dot(n, du).abs() <= nt * (s.r * rp) && dot(n, dv).abs() <= nt * s.r * rt.abs(), || format!("{}: normal is not perpendicular to the tangents", sh()));
    if p[2] < -0.01 * s.r {
        cx.ev("lower-hemisphere");
    }
    if sin < 1e-3 {
        cx.ev("near-pole");
    }
    if p[0] == 0.0 && p[1] == 0.0 {
        cx.ev("at-pole");
    }
    if s.phi < PI32 {
        cx.ev("partial-azimuth");
    }
    if s.z0 > -s.r || s.z1 < s.r {
        cx.ev("partial-z");
    }
    let b = un(&lib.bbox());
    let k = norm(d) * 0.0 + s.r * (8.0 * E32 + off);
    cx.check("box-contains-hit", (0..3).all(|a| p[a] >= b.0[a] - k && p[a] <= b.1[a] + k), || format!("{}: box {b:?}", sh()));
}
fn shape(cx: &mut Ctx) {
    let s = gen_sphere(&mut cx.rng);
    cx.sample(|| format!("{s:?}"));
    let lib = s.lib();
    let got = [lib.radius, lib.z_min, lib.z_max, lib.phi_max].map(|x| x as f64);
    cx.check("fields", got == [s.r, s.z0, s.z1, s.phi], || format!("{s:?} stores {got:?}"));
    for (what, th, z) in [("theta_min", lib.theta_min as f64, s.z0), ("theta_max", lib.theta_max as f64, s.z1)] {
        let c = (z / s.r).clamp(-1.0, 1.0);
        cx.check("theta-range", (th.cos() - c).abs() <= 8.0 * E32 && (0.0..=PI + 1e-6).contains(&th), || format!("{s:?}: {what} = {th}"));
    }
    if s.z0 >= -s.r && s.z1 <= s.r {
        let h = s.z1 - s.z0;
        let w = (s.phi + PI) * s.r * h;
        let a = lib.area() as f64;
        cx.check("area", (a - w).abs() <= 2e-6 * w + 1e-6 * s.r * h, || format!("{s:?}: area {a}, expected {w}"));
    }
    let b = un(&lib.bbox());
    for _ in 0..4 {
        let p = on_sphere(&mut cx.rng, &s);
        if p[2] < s.z0 || p[2] > s.z1 || p[1].atan2(p[0]) > s.phi {
            continue;
        }
        let k = s.r * 4.0 * E32;
        cx.check("box-contains", (0..3).all(|a| p[a] >= b.0[a] - k && p[a] <= b.1[a] + k), || format!("{s:?}: box {b:?} does not contain the surface point {p:?}"));
    }
    // degenerate ranges are refused
    if cx.index % 16 == 0 {
        let lo = s.z0 as f32;
        let hi = if cx.rng.chance(1, 2) { lo } else { lo - s.r as f32 };
        let r = try_call(|| Sphere::new(s.r as f32, lo, hi, s.phi as f32));
        cx.check("empty-range-refused", r.is_err(), || format!("Sphere::new({},{lo},{hi},{}) was accepted: {r:?}", s.r, s.phi));
    }
    // a record from two tangents
    let (a, b) = (cx.rng.modr3(), cx.rng.modr3());
    let c = cross(a, b);
    if norm(a) > 1e-2 && norm(b) > 1e-2 && norm(c) > 0.02 * norm(a) * norm(b) {
        let (p, uv) = (cx.rng.modr3(), [cx.rng.unit() as f32, cx.rng.unit() as f32]);
        let r = SurfaceInteraction::new(p3::<f32>(p), Point2f::new(uv[0], uv[1]), v3::<f32>(a), v3::<f32>(b));
        let ok = d3(r.p) == p && d3(r.dpdu) == a && d3(r.dpdv) == b && r.uv.x() == uv[0] && r.uv.y() == uv[1] && close3(d3(r.n), unit(c), 1e-4);
        cx.check("record-from-tangents", ok, || format!("SurfaceInteraction::new({p:?},{uv:?},{a:?},{b:?}) = {r:?}"));
    }
}

pub fn sections() -> Vec<(&'static str, Vec<Section>)> {
    vec![
        (
            "C14",
            vec![
                Section {
                    name: "random",
                    rule: "full and clipped spheres of any scale against chords, aimed, tangent, axis-aligned, polar, inside and on-surface rays with every kind of limit; both roots classified visible/clipped/undecided by double-precision analysis with per-case error bounds",
                    quick: 3_000_000,
                    thorough: 120_000_000,
                    exhaustive: false,
                    need: &["yes-no-agrees", "on-ray", "within-limit", "inside-clip", "inside-azimuth", "on-sphere", "line-misses", "no-visible-hit", "first-hit", "second-hit", "lower-hemisphere", "planes-beyond-poles", "negative-azimuth-limit", "inside-origin", "first-root-clipped"],
                    run: hits,
                },
                Section {
                    name: "exact",
                    rule: "axis-parallel rays through integer points of integer spheres: single precision is exact, so tangency, limits and clip bounds are decided with no tolerance",
                    quick: 2_000_000,
                    thorough: 60_000_000,
                    exhaustive: false,
                    need: &["first-hit", "second-hit", "no-visible-hit", "exact-tangent", "starts-on-sphere", "hit-at-limit", "hit-on-clip-plane", "hit-on-azimuth-limit", "hit-on-pole"],
                    run: hits_exact,
                },
            ],
        ),
        (
            "C15",
            vec![
                Section { name: "records", rule: "every hit of the C14 workloads: surface coordinates, tangents and normal against the parameterisation evaluated at the returned coordinates", quick: 3_000_000, thorough: 120_000_000, exhaustive: false, need: &["uv-range", "param-point", "dpdu", "dpdv", "normal-unit", "normal-outward", "normal-perp", "lower-hemisphere", "near-pole", "at-pole", "partial-azimuth", "partial-z", "box-contains-hit"], run: records },
                Section { name: "shape", rule: "random spheres: stored fields, angle range, area, box against sampled surface points, empty ranges refused, records from two tangents", quick: 1_000_000, thorough: 40_000_000, exhaustive: false, need: &["fields", "theta-range", "area", "box-contains", "empty-range-refused", "record-from-tangents"], run: shape },
            ],
        ),
    ]
}
