//! C19 thin-lens rays, C20 disk samplers
use super::p_box::E32;
use super::p_transform::{d3, p3, v3, look_params};
use crate::fw::{Ctx, Rng, Section};
use crate::refs::*;
use scarlet::cameras::camera::{concentric_sample_disk, uniform_sample_disk, Camera, CameraSample};
use scarlet::cameras::thin_lens::ThinLensCamera;
use scarlet::math::transform::{Transform, Transformf};
use scarlet::math::vector::Point2f;
use std::f64::consts::PI;

type V2 = [f64; 2];
fn pt(a: V2) -> Point2f {
    Point2f::new(a[0] as f32, a[1] as f32)
}
fn xy(p: Point2f) -> V2 {
    [p.x() as f64, p.y() as f64]
}
fn sq(r: &mut Rng) -> V2 {
    let c = |r: &mut Rng| -> f64 {
        (match r.below(8) {
            0 => r.pick(&[0.0, 1.0, 0.5]),
            1 => r.int(0, 8) as f64 / 8.0,
            2 => r.pick(&[1e-6, 1.0 - 1e-6, 0.5 + 1e-6, 0.5 - 1e-6, 1e-30]),
            3 => 0.5 + r.log(3e-8, 1e-2) * r.sign(),
            4 => {
                let e = r.log(1e-8, 1e-2);
                r.pick(&[e, 1.0 - e])
            }
            _ => r.unit(),
        }) as f32 as f64
    };
    let x = c(r);
    let y = match r.below(8) {
        0 => x,
        1 => (1.0 - x) as f32 as f64,
        _ => c(r),
    };
    [x, y]
}

// ---------------------------------------------------------------- C20
/// reference concentric map (Shirley), in double
fn ref_concentric(a: V2) -> V2 {
    let (x, y) = (1.0 - 2.0 * a[0], 1.0 - 2.0 * a[1]);
    if x == 0.0 && y == 0.0 {
        return [0.0, 0.0];
    }
    let (r, th) = if x.abs() > y.abs() { (x, PI / 4.0 * y / x) } else { (y, PI / 2.0 - PI / 4.0 * x / y) };
    [r * th.cos(), r * th.sin()]
}
fn concentric(a: V2) -> V2 {
    xy(concentric_sample_disk(pt(a)))
}
fn uniform(a: V2) -> V2 {
    xy(uniform_sample_disk(pt(a)))
}
fn points(cx: &mut Ctx) {
    let a = sq(&mut cx.rng);
    cx.sample(|| format!("{a:?}"));
    let (c, u) = (concentric(a), uniform(a));
    let n = |v: V2| v[0].hypot(v[1]);
    cx.check("concentric-in-disk", n(c) <= 1.0 + 4.0 * E32, || format!("concentric {a:?} -> {c:?}"));
    cx.check("uniform-in-disk", n(u) <= 1.0 + 4.0 * E32, || format!("uniform {a:?} -> {u:?}"));
    let w = (1.0 - 2.0 * a[0]).abs().max((1.0 - 2.0 * a[1]).abs());
    cx.check("squares-to-circles", (n(c) - w).abs() <= 8.0 * E32 * w, || format!("concentric {a:?} -> {c:?}, radius {} expected {w}", n(c)));
    let (r, t) = (a[1].sqrt(), 2.0 * PI * a[0]);
    cx.check("uniform-polar", (u[0] - r * t.cos()).abs() <= 2e-6 && (u[1] - r * t.sin()).abs() <= 2e-6, || format!("uniform {a:?} -> {u:?}, expected r={r} theta={t}"));
    if a == [0.5, 0.5] {
        cx.check("centre", c == [0.0, 0.0], || format!("concentric centre -> {c:?}"));
    }
    // continuity: no two near points are torn apart
    // equal arcs of one square go to equal arcs of its circle
    {
        let k = w / 2.0;
        // a second point of the same square, exactly: move along a side or to another side
        let b = match cx.rng.below(3) {
            0 => [1.0 - a[0], 1.0 - a[1]],
            1 => [a[1], a[0]],
            _ => {
                let s = cx.rng.uni(-k, k);
                let v = 0.5 + k * cx.rng.sign();
                if cx.rng.chance(1, 2) { [v, 0.5 + s] } else { [0.5 + s, v] }
            }
        };
        let b = b.map(|x| x as f32 as f64);
        let wb = (1.0 - 2.0 * b[0]).abs().max((1.0 - 2.0 * b[1]).abs());
        let per = |a: V2| -> f64 {
            // position along the perimeter, 0..8, counter-clockwise from the lower right corner
            let (x, y) = ((2.0 * a[0] - 1.0) / w, (2.0 * a[1] - 1.0) / w);
            if x.abs() >= y.abs() {
                if x > 0.0 { 1.0 + y } else { 5.0 - y }
            } else if y > 0.0 {
                3.0 - x
            } else {
                7.0 + x
            }
        };
        if w > 1e-4 && (wb - w).abs() <= 2.0 * E32 {
            let e = concentric(b);
            let turn = (c[0] * e[1] - c[1] * e[0]).atan2(c[0] * e[0] + c[1] * e[1]);
            let want = (per(b) - per(a)) * PI / 4.0;
            let off = (turn - want) / (2.0 * PI);
            let off = (off - off.round()).abs() * 2.0 * PI;
            cx.check("equal-arcs", off <= 16.0 * E32 / w + 4.0 * E32, || format!("concentric {a:?} -> {c:?}, {b:?} -> {e:?}: turn {turn}, expected {want}"));
        }
    }
    let h = cx.rng.pick(&[1e-2, 1e-3, 1e-4, 1e-6]);
    let b = [0, 1].map(|i| ((a[i] + h * cx.rng.uni(-1.0, 1.0)).clamp(0.0, 1.0)) as f32 as f64);
    let e = concentric(b);
    let (dd, da) = ((c[0] - e[0]).hypot(c[1] - e[1]), (a[0] - b[0]).hypot(a[1] - b[1]));
    cx.check("continuous", dd <= 6.0 * da + 16.0 * E32, || format!("concentric {a:?} -> {c:?} but {b:?} -> {e:?}"));
    let (xa, ya, xb, yb) = (a[0] - 0.5, a[1] - 0.5, b[0] - 0.5, b[1] - 0.5);
    if (xa.abs() > ya.abs()) != (xb.abs() > yb.abs()) {
        cx.ev("across-diagonal");
    }
}
fn signed_area(f: fn(V2) -> V2, lo: V2, hi: V2) -> f64 {
    const N: usize = 48;
    let mut ps = Vec::with_capacity(4 * N);
    let l = |a: f64, b: f64, k: usize| a + (b - a) * k as f64 / N as f64;
    for k in 0..N {
        ps.push(f([l(lo[0], hi[0], k), lo[1]]));
    }
    for k in 0..N {
        ps.push(f([hi[0], l(lo[1], hi[1], k)]));
    }
    for k in 0..N {
        ps.push(f([l(hi[0], lo[0], k), hi[1]]));
    }
    for k in 0..N {
        ps.push(f([lo[0], l(hi[1], lo[1], k)]));
    }
    let mut s = 0.0;
    for i in 0..ps.len() {
        let (p, q) = (ps[i], ps[(i + 1) % ps.len()]);
        s += p[0] * q[1] - p[1] * q[0];
    }
    0.5 * s
}
fn area_case(cx: &mut Ctx, lo: V2, hi: V2) {
    let want = PI * (hi[0] - lo[0]) * (hi[1] - lo[1]);
    let per = 2.0 * ((hi[0] - lo[0]) + (hi[1] - lo[1]));
    // rounding of the vertices (times image perimeter) plus the polygon's chord error
    let tol = 0.01 * want + 8.0 * E32 * per * PI * 2.0;
    // one fixed reference cell gives the orientation of the map
    for (name, ev, ev2, f) in [("concentric", "concentric-area", "concentric-orientation", concentric as fn(V2) -> V2), ("uniform", "uniform-area", "uniform-orientation", uniform as fn(V2) -> V2)] {
        let a = signed_area(f, lo, hi);
        let r = signed_area(f, [0.6, 0.45], [0.7, 0.55]);
        cx.check(ev, (a.abs() - want).abs() <= tol, || format!("{name}: the cell {lo:?}..{hi:?} covers area {a}, expected {want}"));
        cx.check(ev2, (a > 0.0) == (r > 0.0), || format!("{name}: the cell {lo:?}..{hi:?} is folded over ({a} against {r})"));
    }
}
fn cells(cx: &mut Ctx) {
    let r = &mut cx.rng;
    let (w, h) = (r.log(0.02, 0.4), r.log(0.02, 0.4));
    let lo = [r.uni(0.0, 1.0 - w), r.uni(0.0, 1.0 - h)];
    let hi = [lo[0] + w, lo[1] + h];
    cx.sample(|| format!("cell {lo:?}..{hi:?}"));
    area_case(cx, lo, hi);
}
fn grid(cx: &mut Ctx) {
    let (i, j) = (cx.index % 32, cx.index / 32);
    let l = |k: u64| k as f64 / 32.0;
    cx.sample(|| format!("cell ({i},{j}) of 32x32"));
    area_case(cx, [l(i), l(j)], [l(i + 1), l(j + 1)]);
}

// ---------------------------------------------------------------- C19
struct Cam {
    view: Transformf,
    m: M4,
    name: String,
    err: f64,
    // how much the view may stretch lengths going from camera to world space
    grow: f64,
    fd: f64,
    fov: f64,
    fl: f64,
    lr: f64,
    asp: f64,
}
fn gen_cam(r: &mut Rng) -> Cam {
    let mut grow = 1.0;
    let (view, m, name, err) = match r.below(5) {
        0 => (Transformf::identity(), I4, "identity".to_string(), 0.0),
        1 => {
            let (p, t, u) = look_params::<f32>(r);
            (Transform::look_at(p3(p), p3(t), v3(u)), look_at(p, t, u), format!("look_at({p:?},{t:?},{u:?})"), 400.0 * E32 * (1.0 + norm(p) + norm(t)))
        }
        4 => {
            // a view with a scale, uniform or not, mirrored or not
            let (v, ax, a) = (r.modr3(), r.dir(), r.angle() as f32);
            let u = r.log(0.25, 4.0) as f32 as f64;
            let uniform = r.chance(1, 2);
            let s: V3 = std::array::from_fn(|_| (if uniform { u } else { r.log(0.25, 4.0) as f32 as f64 }) * if r.chance(1, 4) { -1.0 } else { 1.0 });
            let m = mm(&scale(s), &mm(&rotate(ax, a as f64), &translate(v)));
            grow = 4.0;
            (Transform::scale(v3(s)) * (Transform::rotate(v3(ax), a) * Transform::translate(v3(v))), m, format!("scale({s:?})*rotate({ax:?},{a})*translate({v:?})"), 1024.0 * E32 * (1.0 + norm(v)))
        }
        2 => {
            let v = r.modr3();
            (Transform::translate(v3(v)), translate(v), format!("translate({v:?})"), 8.0 * E32 * (1.0 + norm(v)))
        }
        _ => {
            let (v, ax, a) = (r.modr3(), r.dir(), r.angle() as f32);
            let m = mm(&rotate(ax, a as f64), &translate(v));
            (Transform::rotate(v3(ax), a) * Transform::translate(v3(v)), m, format!("rotate({ax:?},{a})*translate({v:?})"), 64.0 * E32 * (1.0 + norm(v)))
        }
    };
    let fd = match r.below(3) {
        0 => r.int(1, 10) as f64,
        1 => r.log(0.3, 100.0),
        _ => r.log(0.01, 1e4),
    } as f32 as f64;
    // the focal length may be anything below the focal distance, so the film may be very near or very far
    let fl = (fd * match r.below(4) {
        0 => r.log(1e-4, 0.1),
        1 => 1.0 - r.log(1e-3, 0.2),
        _ => r.uni(0.05, 0.9),
    }) as f32 as f64;
    let fov = match r.below(5) {
        0 => r.pick(&[1.0, PI / 2.0, 2.0, 0.5, 2.0 * 0.5f64.atan(), 2.0 * 2f64.atan()]),
        1 => PI - r.log(0.03, 0.5),
        2 => r.log(1e-4, 0.5),
        _ => r.uni(0.1, 2.9),
    } as f32 as f64;
    let lr = match r.below(5) {
        0 => 0.0,
        1 => r.log(1e-7, 10.0),
        _ => r.uni(0.01, 2.0),
    } as f32 as f64;
    let asp = match r.below(4) {
        0 => 1.0,
        1 => 16.0 / 9.0,
        _ => r.log(0.2, 5.0),
    } as f32 as f64;
    Cam { view, m, name, err, grow, fd, fov, fl, lr, asp }
}
fn rays(cx: &mut Ctx) {
    let c = gen_cam(&mut cx.rng);
    let cam = ThinLensCamera::new(c.view, c.fd as f32, c.fov as f32, c.fl as f32, c.lr as f32, c.asp as f32);
    let cs = || format!("camera view={} focal_distance={} fov={} focal_length={} lens_radius={} aspect={}", c.name, c.fd, c.fov, c.fl, c.lr, c.asp);
    cx.sample(cs);
    let film_d = c.fd * c.fl / (c.fd - c.fl);
    let tan = (c.fov / 2.0).tan();
    let mut film = sq(&mut cx.rng);
    let mut lens = [0.5, 0.5];
    for k in 0..6 {
        // four lens samples of one film position, then samples that change in one coordinate only
        match k {
            0 => {}
            1..=3 => lens = sq(&mut cx.rng),
            _ => {
                let (w, v) = (cx.rng.us(2), sq(&mut cx.rng)[0]);
                if cx.rng.chance(1, 2) { film[w] = v } else { lens[w] = v }
                cx.ev("one-coordinate-changed");
            }
        }
        let f = mul([(2.0 * film[0] - 1.0) * tan, (2.0 * film[1] - 1.0) * tan / c.asp, -1.0], c.fd);
        let g = cam.generate_ray(CameraSample::new(pt(film), pt(lens)));
        let (ow, dw) = (d3(g.origin), d3(g.direction));
        let (o, d) = (mp(&c.m, ow), mv(&c.m, dw));
        let sh = || format!("{} film={film:?} lens={lens:?}: world ray o={ow:?} d={dw:?} tmax={:e}, camera space o={o:?} d={d:?}", cs(), g.tmax);
        let e = c.err + 8.0 * E32 * (1.0 + c.lr);
        cx.check("on-lens-plane", o[2].abs() <= e, || format!("{}: not at z=0", sh()));
        cx.check("on-lens-disc", o[0].hypot(o[1]) <= c.lr * (1.0 + 8.0 * E32) + e, || format!("{}: outside the lens", sh()));
        let w = ref_concentric(lens).map(|x| x * c.lr);
        cx.check("lens-point", (o[0] - w[0]).abs() <= e + 16.0 * E32 * c.lr && (o[1] - w[1]).abs() <= e + 16.0 * E32 * c.lr, || format!("{}: expected lens point {w:?}", sh()));
        cx.check("unit-direction", (norm(d) - 1.0).abs() <= 1e-5 + 2.0 * c.err, || format!("{}: |d| = {}", sh(), norm(d)));
        cx.check("unlimited", g.tmax as f64 >= f32::MAX as f64, || format!("{}: limit", sh()));
        // passes through the focus point, in front of the camera
        let v = sub(f, o);
        let along = dot(v, d);
        let miss = norm(sub(v, mul(d, along)));
        let tol = 32.0 * E32 * (c.fd + film_d) * (1.0 + tan) * (1.0 + tan.min(1.0 + 0.1 * tan)) * (1.0 + 1.0 / c.asp) + 4.0 * (e + c.err * norm(v)) + 16.0 * E32 * norm(v);
        cx.check("through-focus", miss <= tol && along > 0.0, || format!("{}: passes {miss:e} from the focus point {f:?} (allowed {tol:e})", sh()));
        // the world ray is the camera ray carried by the inverse view
        let fw = mp(&inv(&c.m).unwrap(), f);
        let vw = sub(fw, ow);
        let missw = norm(sub(vw, mul(dw, dot(vw, dw) / dot(dw, dw))));
        cx.check("world-focus", missw <= 2.0 * c.grow * tol + 8.0 * E32 * norm(fw), || format!("{}: world ray passes {missw:e} from {fw:?}", sh()));
        if k == 0 {
            cx.check("pinhole", o[0].abs() <= e && o[1].abs() <= e, || format!("{}: central lens sample is off centre", sh()));
        }
    }
    if film.iter().all(|x| *x == 0.0 || *x == 1.0) {
        cx.ev("film-corner");
    }
    if c.grow > 1.0 {
        cx.ev("scaled-view");
    }
    if c.lr == 0.0 {
        cx.ev("zero-lens");
    }
    if film_d > 20.0 * c.fd {
        cx.ev("far-film");
    }
    if tan > 10.0 {
        cx.ev("wide-view");
    }
}

pub fn sections() -> Vec<(&'static str, Vec<Section>)> {
    vec![
        (
            "C19",
            vec![Section {
                name: "rays",
                rule: "random cameras (identity, look-at, rotated, translated and scaled views; all lens parameters) and film/lens samples incl. corners, edges and centre; four lens samples per film position carried back to camera space in double",
                quick: 600_000,
                thorough: 30_000_000,
                exhaustive: false,
                need: &["on-lens-plane", "on-lens-disc", "lens-point", "unit-direction", "unlimited", "through-focus", "world-focus", "pinhole", "one-coordinate-changed", "film-corner", "zero-lens", "far-film", "wide-view", "scaled-view"],
                run: rays,
            }],
        ),
        (
            "C20",
            vec![
                Section { name: "points", rule: "points of the unit square incl. edges, corners, diagonals, centre and neighbours at several distances", quick: 3_000_000, thorough: 150_000_000, exhaustive: false, need: &["concentric-in-disk", "uniform-in-disk", "squares-to-circles", "uniform-polar", "centre", "equal-arcs", "continuous", "across-diagonal"], run: points },
                Section { name: "cells", rule: "random rectangles of the square: signed area of the image polygon", quick: 60_000, thorough: 4_000_000, exhaustive: false, need: &["concentric-area", "uniform-area", "concentric-orientation", "uniform-orientation"], run: cells },
                Section { name: "grid", rule: "complete 32x32 partition of the square", quick: 1024, thorough: 1024, exhaustive: true, need: &["concentric-area", "uniform-area", "concentric-orientation", "uniform-orientation"], run: grid },
            ],
        ),
    ]
}
