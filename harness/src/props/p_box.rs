//! C10 box lattice, C11 mapped boxes, C12 ray/box period, C13 box hit records
use super::p_transform::{d3, elem, elem_far, p3, v3};
use crate::fw::{Ctx, Rng, Section};
use crate::refs::*;
use scarlet::geometry::bbox::Bbox3;
use scarlet::geometry::primitive::{alloc_primitive, Bounded3, IntersectionResult, IntersectsRay};
use scarlet::geometry::ray::{Ray, Rayf};
use scarlet::math::transform::{Invertible, Transform};

pub const E32: f64 = 5.9604644775390625e-8;

pub type B = (V3, V3);
pub fn ray(o: V3, d: V3, tmax: f64) -> Rayf {
    Ray::new(p3::<f32>(o), v3::<f32>(d), tmax as f32)
}
pub fn bx(b: B) -> Bbox3 {
    Bbox3::new(p3::<f32>(b.0), p3::<f32>(b.1))
}
pub fn un(b: &Bbox3) -> B {
    (d3(b.pmin), d3(b.pmax))
}
fn coord(r: &mut Rng, kind: u64) -> f64 {
    match kind {
        0 => r.int(-3, 3) as f64,
        1 => r.modr(),
        2 => {
            let v: f32 = r.hostile();
            if v.abs() > 1e37 {
                (v as f64) * 2f64.powi(-10)
            } else {
                v as f64
            }
        }
        _ => r.uni(-10.0, 10.0) as f32 as f64,
    }
}
/// corners of a box, well ordered; kind 0 small integers
fn gen_box(r: &mut Rng, kind: u64) -> B {
    let mut a = [0.0; 3];
    let mut b = [0.0; 3];
    for i in 0..3 {
        let (x, y) = (coord(r, kind), coord(r, kind));
        a[i] = x.min(y);
        b[i] = x.max(y);
        if r.chance(1, 16) {
            b[i] = a[i];
        }
    }
    (a, b)
}
fn eqb(a: &Bbox3, b: &B) -> bool {
    let u = un(a);
    u.0 == b.0 && u.1 == b.1
}
fn vmin(a: V3, b: V3) -> V3 {
    [a[0].min(b[0]), a[1].min(b[1]), a[2].min(b[2])]
}
fn vmax(a: V3, b: V3) -> V3 {
    [a[0].max(b[0]), a[1].max(b[1]), a[2].max(b[2])]
}
fn lattice(cx: &mut Ctx) {
    let kind = cx.rng.below(4);
    let (p, q) = ([0; 3].map(|_| coord(&mut cx.rng, kind)), [0; 3].map(|_| coord(&mut cx.rng, kind)));
    cx.sample(|| format!("points {p:?} {q:?}"));
    let g = Bbox3::new(p3::<f32>(p), p3::<f32>(q));
    cx.check("new", eqb(&g, &(vmin(p, q), vmax(p, q))), || format!("Bbox3::new({p:?},{q:?}) = {g:?}"));
    let def = Bbox3::default();
    let dref: B = ([f32::MAX as f64; 3], [f32::MIN as f64; 3]);
    cx.check("default", eqb(&def, &dref), || format!("default box {def:?}"));
    let pick = |r: &mut Rng| -> (Bbox3, B, bool) {
        if r.chance(1, 16) {
            (Bbox3::default(), ([f32::MAX as f64; 3], [f32::MIN as f64; 3]), true)
        } else {
            let b = gen_box(r, kind);
            (bx(b), b, false)
        }
    };
    let (la, ra, ea) = pick(&mut cx.rng);
    let (lb, rb, eb) = pick(&mut cx.rng);
    let (lc, rc, _) = pick(&mut cx.rng);
    let un_ab: B = (vmin(ra.0, rb.0), vmax(ra.1, rb.1));
    let g = la.union(&lb);
    let show = |o: &str, g: &dyn std::fmt::Debug| format!("{o} of {ra:?} and {rb:?} (and {rc:?}) = {g:?}");
    cx.check("union", eqb(&g, &un_ab), || show("union", &g));
    let g = la + lb;
    cx.check("add", eqb(&g, &un_ab), || show("a+b", &g));
    let mut g = la;
    g += lb;
    cx.check("add-assign", eqb(&g, &un_ab), || show("a+=b", &g));
    let g = lb.union(&la);
    cx.check("union-comm", eqb(&g, &un_ab), || show("b.union(a)", &g));
    let un_abc: B = (vmin(un_ab.0, rc.0), vmax(un_ab.1, rc.1));
    let (g, h) = (la.union(&lb).union(&lc), la.union(&lb.union(&lc)));
    cx.check("union-assoc", eqb(&g, &un_abc) && eqb(&h, &un_abc), || show("(a u b) u c / a u (b u c)", &(g, h)));
    let (g, h) = (la.union(&Bbox3::default()), Bbox3::default().union(&la));
    cx.check("union-neutral", eqb(&g, &ra) && eqb(&h, &ra), || show("union with default", &(g, h)));
    let g = la.union(&la);
    cx.check("union-idem", eqb(&g, &ra), || show("a u a", &g));
    // intersection: exact set intersection, judged on points
    let i = la.intersect(&lb);
    let j = lb.intersect(&la);
    for k in 0..6 {
        // points that sit on faces, corners and in between
        let pt = [0, 1, 2].map(|ax| match cx.rng.below(6) {
            0 => ra.0[ax],
            1 => ra.1[ax],
            2 => rb.0[ax],
            3 => rb.1[ax],
            4 => {
                let m = 0.5 * (ra.0[ax].max(rb.0[ax]) + ra.1[ax].min(rb.1[ax]));
                m as f32 as f64
            }
            _ => coord(&mut cx.rng, kind),
        });
        if !pt.iter().all(|x| (*x as f32).is_finite()) {
            continue;
        }
        let _ = k;
        let mem = |b: &B| (0..3).all(|a| pt[a] >= b.0[a] && pt[a] <= b.1[a]);
        let lp = p3::<f32>(pt);
        let (wa, wb) = (mem(&ra), mem(&rb));
        let ga = la.inside(lp);
        cx.check("inside", ga == wa, || format!("{ra:?} inside({pt:?}) = {ga}"));
        let (gi, gj) = (i.inside(lp), j.inside(lp));
        cx.check("intersect-points", gi == (wa && wb) && gj == gi, || format!("intersection of {ra:?} and {rb:?} inside({pt:?}) = {gi}/{gj}"));
    }
    if (0..3).all(|a| ra.0[a].max(rb.0[a]) <= ra.1[a].min(rb.1[a])) {
        let w: B = (vmax(ra.0, rb.0), vmin(ra.1, rb.1));
        cx.check("intersect", eqb(&i, &w) && eqb(&j, &w), || show("intersection", &(i, j)));
    } else {
        let u = un(&i);
        cx.check("intersect-empty", (0..3).any(|a| u.0[a] > u.1[a]), || show("intersection of disjoint boxes", &i));
    }
    // overlaps
    let (g, h) = (la.overlaps(&lb), lb.overlaps(&la));
    cx.check("overlap-symmetric", g == h, || show("overlaps", &(g, h)));
    let mut all = true;
    let mut sep = ea || eb;
    for a in 0..3 {
        let len = ra.1[a].min(rb.1[a]) - ra.0[a].max(rb.0[a]);
        if !(len > 0.0) || ra.0[a] >= ra.1[a] || rb.0[a] >= rb.1[a] {
            all = false;
        }
        if len < 0.0 || (len == 0.0 && ra.0[a] < ra.1[a] && rb.0[a] < rb.1[a]) {
            sep = true;
        }
    }
    if all {
        cx.check("overlap-yes", g, || show("overlaps", &g));
    } else if sep {
        cx.check("overlap-no", !g, || show("overlaps", &g));
    } else {
        cx.und("overlap-flat");
    }
    if ea {
        return;
    }
    // derived queries
    let acc = [la.xmin(), la.ymin(), la.zmin(), la.xmax(), la.ymax(), la.zmax()].map(|x| x as f64);
    let w = [ra.0[0], ra.0[1], ra.0[2], ra.1[0], ra.1[1], ra.1[2]];
    cx.check("bounds", acc == w && eqb(&la.bbox(), &ra), || format!("bounds of {ra:?} = {acc:?}"));
    if cx.index % 8 == 0 {
        let h = alloc_primitive(la);
        let acc = [h.xmin(), h.ymin(), h.zmin(), h.xmax(), h.ymax(), h.zmax()].map(|x| x as f64);
        let hb = h.bbox();
        cx.check("bounds-handle", acc == w && eqb(&hb, &ra), || format!("bounds of a handle to {ra:?} = {acc:?} {hb:?}"));
    }
    let d = d3(la.diagonal());
    let c = d3(la.center());
    let tiny = 1e-44;
    cx.check("diagonal", (0..3).all(|a| close(d[a], ra.1[a] - ra.0[a], 2.0 * E32 * (ra.1[a] - ra.0[a]) + tiny)), || format!("diagonal of {ra:?} = {d:?}"));
    cx.check("center", (0..3).all(|a| close(c[a], 0.5 * (ra.1[a] + ra.0[a]), 4.0 * E32 * (ra.1[a].abs() + ra.0[a].abs()) + tiny)), || format!("center of {ra:?} = {c:?}"));
    let ((lo, hi), ax) = la.max_extent();
    let ext = sub(ra.1, ra.0);
    let m = ext[0].max(ext[1]).max(ext[2]);
    let a = ax as usize;
    let ok = a < 3 && lo as f64 == ra.0[a] && hi as f64 == ra.1[a] && ext[a] >= m * (1.0 - 4.0 * E32);
    cx.check("max-extent", ok, || format!("max_extent of {ra:?} = (({lo},{hi}),{ax})"));
    cx.ev(["longest-x", "longest-y", "longest-z"][a.min(2)]);
}

// ---------------------------------------------------------------- C11
fn corners(b: &B) -> Vec<V3> {
    (0..8).map(|k| [0, 1, 2].map(|a| if k >> a & 1 == 0 { b.0[a] } else { b.1[a] })).collect()
}
fn affine(m: &M4, p: V3) -> V3 {
    let v = mv(m, p);
    [v[0] + m[0][3], v[1] + m[1][3], v[2] + m[2][3]]
}
fn mapped(cx: &mut Ctx) {
    let n = 1 + cx.rng.us(4);
    let mut lib = Transform::<f32>::identity();
    let (mut m, mut mi) = (I4, I4);
    let (mut nm, mut ni) = (1.0, 1.0);
    let mut names = vec![];
    for k in 0..n {
        let mut e = elem::<f32>(&mut cx.rng);
        if cx.rng.chance(1, 4) {
            e.t = e.t.inverse();
            std::mem::swap(&mut e.m, &mut e.mi);
            e.name = format!("inv {}", e.name);
        }
        lib = if k == 0 { e.t } else { lib * e.t };
        m = mm(&m, &e.m);
        mi = mm(&e.mi, &mi);
        nm *= fro(&e.m);
        ni *= fro(&e.mi);
        names.push(e.name);
    }
    let kind = cx.rng.pick(&[0, 1, 3]);
    let b = gen_box(&mut cx.rng, kind);
    let per = if names.iter().any(|s| s.contains("look")) { 300.0 } else { 32.0 };
    cx.sample(|| format!("{names:?} on {b:?}"));
    let reach = 1.0 + norm(b.0).max(norm(b.1)) * 2.0;
    for (what, g, m, nn) in [("map", lib.map(bx(b)), &m, nm), ("map_inverse", lib.map_inverse(bx(b)), &mi, ni)] {
        let tol = per * n as f64 * E32 * nn * reach;
        if tol > 0.05 * fro(m).min(1.0) * reach {
            cx.und("too-ill-conditioned");
            continue;
        }
        let ev: &'static str = if what == "map" { "mapped" } else { "unmapped" };
        let g = un(&g);
        let ps: Vec<V3> = corners(&b).into_iter().map(|c| affine(m, c)).collect();
        for a in 0..3 {
            let lo = ps.iter().fold(f64::INFINITY, |x, p| x.min(p[a]));
            let hi = ps.iter().fold(f64::NEG_INFINITY, |x, p| x.max(p[a]));
            cx.check(ev, close(g.0[a], lo, tol) && close(g.1[a], hi, tol) && g.0[a] <= g.1[a], || {
                format!("{names:?}.{what}({b:?}) = {g:?}, axis {a} expected [{lo},{hi}] +- {tol:e}")
            });
        }
    }
    // and against the library's own image of points, tightly: the matrices are the transform's own
    let (ml, il) = (super::p_linear::to_ref(&lib.matrix().data), super::p_linear::to_ref(&lib.inverse_matrix().data));
    let pt = [0, 1, 2].map(|a| {
        let t = cx.rng.pick(&[0.0, 1.0, 0.5, 0.25]);
        (b.0[a] + t * (b.1[a] - b.0[a])) as f32 as f64
    });
    for (what, g, q, mat) in [("map", lib.map(bx(b)), d3(lib.map(p3::<f32>(pt))), ml), ("map_inverse", lib.map_inverse(bx(b)), d3(lib.map_inverse(p3::<f32>(pt))), il)] {
        let g = un(&g);
        let ok = (0..3).all(|a| {
            let mag: f64 = (0..3).map(|j| mat[a][j].abs() * b.0[j].abs().max(b.1[j].abs())).sum::<f64>() + mat[a][3].abs();
            // the point image divides by a homogeneous weight that is 1 up to rounding
            let wmag = 1.0 + (0..3).map(|j| mat[3][j].abs() * pt[j].abs()).sum::<f64>();
            let t = 16.0 * E32 * mag * wmag;
            q[a] >= g.0[a] - t && q[a] <= g.1[a] + t
        });
        cx.check("contains-image", ok, || format!("{names:?}.{what}({b:?}) = {g:?} does not contain the image {q:?} of its point {pt:?}"));
    }
}
/// any magnitude, against the published matrix, component by component
fn mapped_own(cx: &mut Ctx) {
    let mut t = elem_far::<f32>(&mut cx.rng);
    for _ in 0..cx.rng.us(3) {
        t = t * elem_far::<f32>(&mut cx.rng);
    }
    if cx.rng.chance(1, 4) {
        t = t.inverse();
    }
    let kind = cx.rng.pick(&[0, 1, 3]);
    let mut b = gen_box(&mut cx.rng, kind);
    let k = cx.rng.pick(&[1.0, 1.0, 1e-6, 1e5]);
    b = (mul(b.0, k).map(|x| x as f32 as f64), mul(b.1, k).map(|x| x as f32 as f64));
    cx.sample(|| format!("{t:?} on {b:?}"));
    for (ev, g, m) in [("mapped", t.map(bx(b)), t.matrix()), ("unmapped", t.map_inverse(bx(b)), t.inverse_matrix())] {
        let (g, m) = (un(&g), super::p_linear::to_ref(&m.data));
        if m[3] != [0., 0., 0., 1.] {
            cx.und("not-affine");
            continue;
        }
        for a in 0..3 {
            let (mut lo, mut hi, mut mag) = (m[a][3], m[a][3], m[a][3].abs());
            for j in 0..3 {
                let (x, y) = (m[a][j] * b.0[j], m[a][j] * b.1[j]);
                lo += x.min(y);
                hi += x.max(y);
                mag += x.abs().max(y.abs());
            }
            let tol = 12.0 * E32 * mag + 1e-36;
            cx.check(ev, close(g.0[a], lo, tol) && close(g.1[a], hi, tol) && g.0[a] <= g.1[a], || format!("{ev} by {m:?} of {b:?} = {g:?}, axis {a} expected [{lo},{hi}] +- {tol:e}"));
        }
    }
}
fn mapped_exact(cx: &mut Ctx) {
    let r = &mut cx.rng;
    let b = gen_box(r, 0);
    let far = r.chance(1, 4);
    let s = [0; 3].map(|_| if far { 2f64.powi(r.int(-40, 40) as i32) * r.sign() } else { r.pick(&[1.0, 2.0, 0.5, -1.0, -2.0, -0.25]) });
    let t = [0; 3].map(|_| if far { 0.0 } else { r.int(-8, 8) as f64 });
    let order = r.below(2);
    let (ls, lt) = (Transform::<f32>::scale(v3(s)), Transform::<f32>::translate(v3(t)));
    let (lib, m) = if order == 0 { (ls * lt, mm(&scale(s), &translate(t))) } else { (lt * ls, mm(&translate(t), &scale(s))) };
    let mi = inv(&m).unwrap();
    cx.sample(|| format!("scale {s:?} translate {t:?} order {order} on {b:?}"));
    for (what, g, m) in [("map", lib.map(bx(b)), &m), ("map_inverse", lib.map_inverse(bx(b)), &mi)] {
        let g = un(&g);
        let ps: Vec<V3> = corners(&b).into_iter().map(|c| affine(m, c)).collect();
        let lo = ps.iter().fold([f64::INFINITY; 3], |x, p| vmin(x, *p));
        let hi = ps.iter().fold([f64::NEG_INFINITY; 3], |x, p| vmax(x, *p));
        cx.check("exact", g == (lo, hi), || format!("scale {s:?} translate {t:?} (order {order}) {what}({b:?}) = {g:?}, expected {:?}", (lo, hi)));
    }
}

// ---------------------------------------------------------------- C12
/// the parameter range of one slab, with relative margin m on quotients
struct Period {
    sure_lo: f64, // the true start is at most this
    lo: f64,
    poss_lo: f64,
    sure_hi: f64,
    hi: f64,
    poss_hi: f64,
}
fn period(b: &B, o: V3, d: V3, tmax: f64, m: f64) -> Option<Period> {
    // None: a parallel ray misses a slab, decided exactly
    let mut p = Period { sure_lo: 0.0, lo: 0.0, poss_lo: 0.0, sure_hi: tmax, hi: tmax, poss_hi: tmax };
    for a in 0..3 {
        if d[a] == 0.0 {
            if o[a] < b.0[a] || o[a] > b.1[a] {
                return None;
            }
            continue;
        }
        let (x, y) = ((b.0[a] - o[a]) / d[a], (b.1[a] - o[a]) / d[a]);
        let (lo, hi) = (x.min(y), x.max(y));
        let w = |t: f64| m * t.abs();
        p.lo = p.lo.max(lo);
        p.sure_lo = p.sure_lo.max(lo + w(lo));
        p.poss_lo = p.poss_lo.max(lo - w(lo));
        p.hi = p.hi.min(hi);
        p.sure_hi = p.sure_hi.min(hi - w(hi));
        p.poss_hi = p.poss_hi.min(hi + w(hi));
    }
    Some(p)
}
/// true: hit, false: miss, None: too close to call
fn verdict(p: &Option<Period>) -> Option<bool> {
    match p {
        None => Some(false),
        Some(p) => {
            if p.sure_lo <= p.sure_hi {
                Some(true)
            } else if p.poss_lo > p.poss_hi {
                Some(false)
            } else {
                None
            }
        }
    }
}
fn judge_period(cx: &mut Ctx, b: B, o: V3, d: V3, tmax: f64, m: f64) -> Option<bool> {
    let bb = bx(b);
    let r = ray(o, d, tmax);
    let first = cx.rng.chance(1, 2);
    let early = first && bb.do_intersect(r);
    let g = bb.intersect_ray(r);
    let yn = if first { early } else { bb.do_intersect(r) };
    let sh = || format!("box {b:?} ray o={o:?} d={d:?} tmax={tmax:e}: period {g:?} yes/no {yn}");
    cx.check("yes-no-agrees", yn == g.is_some(), sh);
    let p = period(&b, o, d, tmax, m);
    let v = verdict(&p);
    match v {
        None => cx.und("grazing-within-rounding"),
        Some(want) => {
            cx.check(if want { "hit" } else { "miss" }, g.is_some() == want, || format!("{}, expected {}", sh(), if want { "a hit" } else { "a miss" }));
        }
    }
    if let (Some((t0, t1)), Some(p)) = (g, &p) {
        let (t0, t1) = (t0 as f64, t1 as f64);
        if v != Some(false) {
            let tol = |x: f64| if x.is_finite() { m * x.abs() } else { 0.0 };
            cx.check("period", close(t0, p.lo, tol(p.lo)) && close(t1, p.hi, tol(p.hi)), || format!("{}, expected [{},{}]", sh(), p.lo, p.hi));
        }
    }
    v
}
pub fn tmax_of(r: &mut Rng, around: f64) -> f64 {
    match r.below(6) {
        0 => f64::INFINITY,
        1 => f32::MAX as f64,
        2 => (around.abs() * r.uni(0.0, 1.2)) as f32 as f64,
        3 => around.abs() as f32 as f64,
        4 => r.uni(0.0, 20.0) as f32 as f64,
        _ => 1e6,
    }
}
fn face_dir(cx: &mut Ctx, b: &B, d: V3) {
    if d.iter().any(|x| *x == 0.0) {
        cx.ev("parallel");
    }
    if d.iter().any(|x| x.to_bits() == (-0.0f64).to_bits()) {
        cx.ev("negative-zero");
    }
    if (0..3).any(|a| b.0[a] == b.1[a]) {
        cx.ev("flat-box");
    }
}
fn rb_random(cx: &mut Ctx) {
    let kind = cx.rng.pick(&[0, 1, 1, 3]);
    let b = gen_box(&mut cx.rng, kind);
    let sc = if cx.rng.chance(1, 8) { 2f64.powi(cx.rng.int(-40, 40) as i32) } else { 1.0 };
    let b = (mul(b.0, sc), mul(b.1, sc));
    let (o, d): (V3, V3) = match cx.rng.below(4) {
        0 => ([0; 3].map(|_| coord(&mut cx.rng, kind) * sc), mul(cx.rng.dir(), cx.rng.log(1e-3, 1e3))),
        1 => {
            // aim at a point of the box or just beside it
            let o = [0; 3].map(|_| coord(&mut cx.rng, kind) * sc * 2.0);
            let q = [0, 1, 2].map(|a| b.0[a] + cx.rng.uni(-0.3, 1.3) * (b.1[a] - b.0[a]));
            (o, mul(sub(q, o), cx.rng.log(1e-2, 1e2)))
        }
        2 => {
            // inside
            let o = [0, 1, 2].map(|a| b.0[a] + cx.rng.unit() * (b.1[a] - b.0[a]));
            (o, cx.rng.dir())
        }
        _ => {
            // axis aligned near faces, edges and corners
            let o = [0, 1, 2].map(|a| match cx.rng.below(4) {
                0 => b.0[a],
                1 => b.1[a],
                2 => 0.5 * (b.0[a] + b.1[a]),
                _ => coord(&mut cx.rng, kind) * sc,
            });
            let mut d = [0; 3].map(|_| if cx.rng.chance(1, 2) { 0.0 } else { -0.0 });
            d[cx.rng.us(3)] = cx.rng.sign() * cx.rng.log(1e-2, 1e2);
            (o, d)
        }
    };
    let (o, d) = (o.map(|x| x as f32 as f64), d.map(|x| x as f32 as f64));
    if d.iter().all(|x| *x == 0.0) || d.iter().any(|x| x.abs() > 0.0 && x.abs() < 1e-18) {
        return;
    }
    let around = norm(sub(mul(add(b.0, b.1), 0.5), o)) / norm(d);
    let tm = tmax_of(&mut cx.rng, around);
    face_dir(cx, &b, d);
    cx.sample(|| format!("box {b:?} ray o={o:?} d={d:?} tmax={tm}"));
    judge_period(cx, b, o, d, tm, 1e-6);
    if cx.rng.chance(1, 4) {
        // the same ray on a box that differs in one face, then the first box with another limit
        let (mut b2, a) = (b, cx.rng.us(3));
        let mid = (0.5 * (b.0[a] + b.1[a])) as f32 as f64;
        if cx.rng.chance(1, 2) { b2.0[a] = mid } else { b2.1[a] = mid }
        judge_period(cx, b2, o, d, tm, 1e-6);
        cx.ev("same-ray-other-box");
        let tm2 = tmax_of(&mut cx.rng, around);
        judge_period(cx, b, o, d, tm2, 1e-6);
        cx.ev("same-ray-other-limit");
    }
}
/// every axis on a scale of its own, and parameters anywhere between tiny and beyond the largest float
fn rb_extreme(cx: &mut Ctx) {
    let r = &mut cx.rng;
    let t = match r.below(4) {
        0 => r.log(1e-24, 1e24),
        1 => r.log(1e34, 1e39),
        _ => r.log(1e-6, 1e6),
    };
    let (mut lo, mut hi, mut o, mut d) = ([0.0; 3], [0.0; 3], [0.0; 3], [0.0; 3]);
    for a in 0..3 {
        let s = match r.below(3) {
            0 => 1.0,
            1 => r.log(1e-3, 1e3),
            _ => r.log(1e-12, 1e12),
        };
        let (x, y) = ((s * r.uni(-1.0, 1.0)) as f32 as f64, (s * r.uni(-1.0, 1.0)) as f32 as f64);
        lo[a] = x.min(y);
        hi[a] = x.max(y);
        o[a] = match r.below(4) {
            0 => lo[a] + (hi[a] - lo[a]) * r.unit(),
            1 => r.pick(&[lo[a], hi[a]]),
            _ => s * r.uni(-3.0, 3.0),
        } as f32 as f64;
        d[a] = match r.below(6) {
            0 => 0.0,
            1 => -0.0,
            _ => s * r.uni(-3.0, 3.0) / t,
        } as f32 as f64;
        if d[a] != 0.0 && !(d[a].abs() > 1e-37 && d[a].abs() < 1e37) {
            d[a] = 0.0;
        }
    }
    let b = (lo, hi);
    if d.iter().all(|x| *x == 0.0) {
        return;
    }
    let tm = match r.below(6) {
        0 => f64::INFINITY,
        1 | 2 => f32::MAX as f64,
        3 => t.min(1e38) as f32 as f64,
        _ => (t * r.uni(0.0, 3.0)).min(1e38) as f32 as f64,
    };
    let over = (0..3).any(|a| d[a] != 0.0 && [lo[a], hi[a]].iter().any(|x| ((x - o[a]) / d[a]).abs() > 3e38));
    if over && tm == f64::INFINITY {
        return cx.und("parameter-not-a-float");
    }
    if let Some(p) = period(&b, o, d, tm, 1e-6) {
        // parameters that no float can express, or only a subnormal one
        let tiny = |x: f64| x != 0.0 && x.abs() < 1e-36;
        if tiny(p.lo) || tiny(p.hi) {
            return cx.und("parameter-not-a-float");
        }
        if d.iter().any(|x| x.abs() > 0.0 && x.abs() < 1e-7) && p.lo <= p.hi {
            cx.ev("tiny-direction-component");
        }
    }
    cx.sample(|| format!("box {b:?} ray o={o:?} d={d:?} tmax={tm}"));
    judge_period(cx, b, o, d, tm, 1e-6);
}
/// power-of-two directions, small integers: every quotient is exact, so every decision is
fn exact_case(r: &mut Rng) -> (B, V3, V3, f64) {
    let b = gen_box(r, 0);
    let mut d = [0; 3].map(|_| r.pick(&[0.0, -0.0, 1.0, -1.0, 2.0, -2.0, 0.5, -0.5, 0.0, 4.0]));
    if d.iter().all(|x| *x == 0.0) {
        d[r.us(3)] = r.sign();
    }
    // a point of the box's closure (often a face, edge or corner), stepped back by an exact parameter
    let q = [0, 1, 2].map(|a| match r.below(5) {
        0 | 1 => b.0[a],
        2 | 3 => b.1[a],
        _ => 0.5 * (b.0[a] + b.1[a]),
    });
    let t = r.pick(&[0.0, 1.0, 2.0, 0.5, 4.0, -1.0, -2.0]);
    let mut o = sub(q, mul(d, t));
    if r.chance(1, 3) {
        let a = r.us(3);
        o[a] += r.pick(&[0.5, -0.5, 1.0, -1.0, 0.25]);
    }
    let tm = r.pick(&[f64::INFINITY, f32::MAX as f64, t.abs(), t.abs() * 2.0, t.abs() * 0.5, 0.0, 1.0, 2.0, 0.25, 8.0]);
    (b, o, d, tm)
}
fn rb_exact(cx: &mut Ctx) {
    let (b, o, d, tm) = exact_case(&mut cx.rng);
    face_dir(cx, &b, d);
    cx.sample(|| format!("box {b:?} ray o={o:?} d={d:?} tmax={tm}"));
    let v = judge_period(cx, b, o, d, tm, 0.0);
    if v == Some(true) {
        if let Some(p) = period(&b, o, d, tm, 0.0) {
            if p.lo == p.hi {
                cx.ev("single-point-touch");
            }
            if (0..3).any(|a| d[a] == 0.0 && (o[a] == b.0[a] || o[a] == b.1[a])) {
                cx.ev("in-face-plane");
            }
            if p.lo == 0.0 && (0..3).all(|a| o[a] > b.0[a] && o[a] < b.1[a]) {
                cx.ev("starts-inside");
            }
            if p.hi == tm {
                cx.ev("ends-at-limit");
            }
        }
    }
}
/// complete grid: origins on {-1,0,1,2,3}/… against the box [0,2]x[0,1]x[0,2], all directions in {-1,-0,0,1}^3, 3 limits
fn rb_grid(cx: &mut Ctx) {
    let mut i = cx.index;
    let mut take = |n: u64| {
        let v = i % n;
        i /= n;
        v as usize
    };
    let o = [0; 3].map(|_| [-1.0, 0.0, 0.5, 1.0, 2.0, 3.0][take(6)]);
    let d = [0; 3].map(|_| [-1.0, -0.0, 0.0, 2.0][take(4)]);
    let tm = [f64::INFINITY, 1.0, 0.0, 0.5][take(4)];
    let b = [([0.0; 3], [2.0, 1.0, 2.0]), ([0.0, 1.0, 0.0], [2.0, 1.0, 2.0])][take(2)];
    cx.sample(|| format!("box {b:?} ray o={o:?} d={d:?} tmax={tm}"));
    if d.iter().all(|x| *x == 0.0) {
        return;
    }
    judge_period(cx, b, o, d, tm, 0.0);
}
const GRID: u64 = 6 * 6 * 6 * 4 * 4 * 4 * 4 * 2;

// ---------------------------------------------------------------- C13
fn unitv(v: V3, tol: f64) -> bool {
    (norm(v) - 1.0).abs() <= tol
}
/// p coordinate tolerance of the case
fn box_tol(b: &B, o: V3, d: V3, t: f64) -> f64 {
    8.0 * E32 * (maxabs(o) + (norm(d) * t).abs() + maxabs(b.0).max(maxabs(b.1))) + 1e-40
}
fn frame_ok(n: V3, u: V3, v: V3) -> bool {
    let e = 1e-5;
    unitv(n, e) && unitv(u, e) && unitv(v, e) && dot(n, u).abs() <= e && dot(n, v).abs() <= e && dot(u, v).abs() <= e
}
/// which face does a unit axis normal name
fn face_of(n: V3) -> Option<(usize, bool)> {
    for a in 0..3 {
        if (n[a].abs() - 1.0).abs() <= 1e-5 && (0..3).all(|k| k == a || n[k].abs() <= 1e-5) {
            return Some((a, n[a] > 0.0));
        }
    }
    None
}
fn judge_hit(cx: &mut Ctx, b: B, o: V3, d: V3, tmax: f64, m: f64) {
    let bb = bx(b);
    let r = ray(o, d, tmax);
    let g: Option<IntersectionResult> = IntersectsRay::intersect(&bb, r);
    let yn = bb.do_intersect(r);
    cx.check("record-iff-yes", yn == g.is_some(), || format!("box {b:?} ray o={o:?} d={d:?} tmax={tmax:e}: yes/no {yn}, record {g:?}"));
    let Some(g) = g else { return };
    let t = g.t_ray as f64;
    let s = g.surface_interaction;
    let (p, n, u, v) = (d3(s.p), d3(s.n), d3(s.dpdu), d3(s.dpdv));
    let sh = || format!("box {b:?} ray o={o:?} d={d:?} tmax={tmax:e}: t={t} p={p:?} n={n:?} dpdu={u:?} dpdv={v:?}");
    let Some(per) = period(&b, o, d, tmax, m) else { return };
    if (0..3).any(|a| b.0[a] == b.1[a]) {
        cx.ev("flat-box");
    }
    let outside = (0..3).any(|a| o[a] < b.0[a] || o[a] > b.1[a]);
    let strictly_in = (0..3).all(|a| o[a] > b.0[a] && o[a] < b.1[a]);
    cx.check("frame", frame_ok(n, u, v), || format!("{}: normal/tangents are not an orthonormal frame", sh()));
    let Some((ax, pos)) = face_of(n) else {
        cx.fail("face-normal", format!("{}: normal is not a face normal", sh()));
        return;
    };
    let tol = box_tol(&b, o, d, t);
    let facec = if pos { b.1[ax] } else { b.0[ax] };
    let on_face = (p[ax] - facec).abs() <= tol && (0..3).all(|a| p[a] >= b.0[a] - tol && p[a] <= b.1[a] + tol);
    cx.check("on-surface", on_face, || format!("{}: the point is not on the face the normal names", sh()));
    let e = add(o, mul(d, t));
    if outside {
        let tt = if per.lo.is_finite() { m * per.lo.abs() } else { 0.0 };
        cx.check("entry-parameter", close(t, per.lo, tt), || format!("{}: expected t = {}", sh(), per.lo));
        cx.check("on-ray", close3(p, e, tol), || format!("{}: point is not on the ray ({e:?})", sh()));
        // the entry face, when the entry point is clearly in the interior of one face
        let q = add(o, mul(d, per.lo));
        let mut near = vec![];
        for a in 0..3 {
            for (k, c) in [b.0[a], b.1[a]].into_iter().enumerate() {
                if (q[a] - c).abs() <= 4.0 * tol {
                    near.push((a, k == 1));
                }
            }
        }
        if near.len() == 1 && per.lo > 0.0 {
            cx.check("entry-face", near[0] == (ax, pos) && n[ax] * d[ax] < 0.0, || format!("{}: expected the face {:?}", sh(), near[0]));
            cx.ev([["enter-x-", "enter-x+"], ["enter-y-", "enter-y+"], ["enter-z-", "enter-z+"]][ax][pos as usize]);
        } else {
            cx.ev("edge-or-corner");
        }
    } else if strictly_in {
        let dists: Vec<f64> = (0..3).flat_map(|a| [(o[a] - b.0[a]).abs(), (o[a] - b.1[a]).abs()]).collect();
        let best = dists.iter().cloned().fold(f64::INFINITY, f64::min);
        let mine = (o[ax] - facec).abs();
        let snapped = t == 0.0 && p[ax] == facec && (0..3).all(|a| a == ax || p[a] == o[a]) && mine <= best + 2.0 * E32 * (best + maxabs(o)) ;
        // leaving through the surface is a correct answer too
        let leaves = close(t, per.hi, m * per.hi.abs().min(1e30)) && close3(p, e, tol);
        if leaves {
            cx.ev("exit-record");
        } else if snapped {
            cx.known("bbox-intersect-origin-inside", || format!("{}: the origin is inside the box; the record is the origin snapped to the nearest face, which is not on the ray", sh()));
            cx.ev("inside-origin");
        } else {
            cx.check("inside-origin", false, || format!("{}: neither the point where the ray leaves the box nor the recorded behaviour", sh()));
        }
    } else {
        cx.check("starts-on-surface", close3(p, e, tol), || format!("{}: point is not on the ray ({e:?})", sh()));
    }
}
fn hit_random(cx: &mut Ctx) {
    let r = &mut cx.rng;
    let kind = r.pick(&[1, 3, 3]);
    let mut b = gen_box(r, kind);
    let flat = if r.chance(1, 12) { r.us(3) } else { 3 };
    for a in 0..3 {
        if a == flat {
            b.1[a] = b.0[a];
        } else if b.1[a] - b.0[a] < 1e-3 * (1.0 + b.0[a].abs()) {
            b.1[a] = (b.0[a] + r.uni(0.1, 3.0)) as f32 as f64;
        }
    }
    let q = [0, 1, 2].map(|a| match r.below(12) {
        0 => b.0[a],
        1 => b.1[a],
        _ => b.0[a] + r.uni(0.0, 1.0) * (b.1[a] - b.0[a]),
    });
    let inside = r.chance(1, 8);
    let o = if inside { q } else { add(q, mul(r.dir(), r.log(0.1, 100.0))) };
    let d = if inside {
        r.dir()
    } else {
        let q2 = if r.chance(1, 2) { q } else { [0, 1, 2].map(|a| b.0[a] + r.uni(-0.1, 1.1) * (b.1[a] - b.0[a])) };
        mul(sub(q2, o), r.log(1e-2, 1e2))
    };
    let (o, d) = (o.map(|x| x as f32 as f64), d.map(|x| x as f32 as f64));
    if norm(d) < 1e-6 || d.iter().any(|x| *x != 0.0 && x.abs() < 1e-18) {
        return;
    }
    let around = norm(sub(q, o)) / norm(d);
    let tm = tmax_of(r, around);
    // the same geometry at another scale (exact: powers of two)
    let (k, kd) = if r.chance(1, 3) { (2f64.powi(r.int(-30, 30) as i32), 2f64.powi(r.int(-8, 8) as i32)) } else { (1.0, 1.0) };
    let (b, o, d, tm) = ((mul(b.0, k), mul(b.1, k)), mul(o, k), mul(d, k * kd), (tm / kd).min(if tm.is_finite() { f32::MAX as f64 } else { tm }));
    if d.iter().any(|x| *x != 0.0 && x.abs() < 1e-30) {
        return;
    }
    if k != 1.0 {
        cx.ev("scaled");
    }
    cx.sample(|| format!("box {b:?} ray o={o:?} d={d:?} tmax={tm}"));
    judge_hit(cx, b, o, d, tm, 1e-6);
    if k == 1.0 && cx.rng.chance(1, 4) {
        let tm2 = tmax_of(&mut cx.rng, around);
        judge_hit(cx, b, o, d, tm2, 1e-6);
        cx.ev("same-ray-other-limit");
        let o2 = sub(o, d).map(|x| x as f32 as f64);
        judge_hit(cx, b, o2, d, tm2, 1e-6);
        cx.ev("same-direction-other-origin");
    }
}
fn hit_exact(cx: &mut Ctx) {
    let (mut b, o, d, tm) = exact_case(&mut cx.rng);
    let keep = cx.rng.chance(1, 4);
    for a in 0..3 {
        if b.0[a] == b.1[a] && !keep {
            b.1[a] += 1.0;
        }
    }
    cx.sample(|| format!("box {b:?} ray o={o:?} d={d:?} tmax={tm}"));
    judge_hit(cx, b, o, d, tm, 0.0);
}

pub fn sections() -> Vec<(&'static str, Vec<Section>)> {
    let n10: &[&str] = &[
        "new", "default", "union", "add", "add-assign", "union-comm", "union-assoc", "union-neutral", "union-idem", "inside", "intersect-points", "intersect", "intersect-empty", "overlap-symmetric",
        "overlap-yes", "overlap-no", "bounds", "bounds-handle", "diagonal", "center", "max-extent", "longest-x", "longest-y", "longest-z",
    ];
    vec![
        ("C10", vec![Section { name: "lattice", rule: "random pairs/triples of boxes (integer grid, ordinary, hostile floats, flat, default) and points on their faces; every query against exact set semantics", quick: 1_500_000, thorough: 80_000_000, exhaustive: false, need: n10, run: lattice }]),
        (
            "C11",
            vec![
                Section { name: "chain", rule: "boxes mapped forwards and back by chains of 1-4 elementary transforms; bounds against the images of the eight corners in double precision; containment of the library's own point images", quick: 1_000_000, thorough: 50_000_000, exhaustive: false, need: &["mapped", "unmapped", "contains-image"], run: mapped },
                Section { name: "own", rule: "far-scaled chains and boxes of any size against the published matrix with component-wise rounding bounds", quick: 800_000, thorough: 40_000_000, exhaustive: false, need: &["mapped", "unmapped"], run: mapped_own },
                Section { name: "exact", rule: "integer boxes, power-of-two and mirroring scales, integer translations: bounds must be exactly the extremes of the corners", quick: 500_000, thorough: 25_000_000, exhaustive: false, need: &["exact"], run: mapped_exact },
            ],
        ),
        (
            "C12",
            vec![
                Section { name: "random", rule: "boxes of any scale against aimed, random, inside and axis-aligned rays; slab reference in double precision with a relative margin", quick: 2_500_000, thorough: 120_000_000, exhaustive: false, need: &["hit", "miss", "period", "yes-no-agrees", "parallel", "negative-zero", "flat-box"], run: rb_random },
                Section { name: "extreme", rule: "boxes and rays whose axes each have a scale of their own (1e-12..1e12), parameters from 1e-24 to beyond the largest float", quick: 2_000_000, thorough: 80_000_000, exhaustive: false, need: &["hit", "miss", "period", "yes-no-agrees", "tiny-direction-component"], run: rb_extreme },
                Section { name: "exact", rule: "integer boxes and power-of-two directions through face, edge and corner points: every quotient is exact, decisions have no tolerance", quick: 2_000_000, thorough: 80_000_000, exhaustive: false, need: &["hit", "miss", "period", "single-point-touch", "in-face-plane", "starts-inside", "ends-at-limit"], run: rb_exact },
                Section { name: "grid", rule: "complete enumeration: 216 origins x 63 directions (with signed zeros) x 4 limits x a solid and a flat box", quick: GRID, thorough: GRID, exhaustive: true, need: &["hit", "miss", "period"], run: rb_grid },
            ],
        ),
        (
            "C13",
            vec![
                Section { name: "random", rule: "non-flat boxes hit from outside (any face) and queried from inside; record against the double-precision entry point", quick: 1_500_000, thorough: 80_000_000, exhaustive: false, need: &["record-iff-yes", "frame", "on-surface", "entry-parameter", "on-ray", "entry-face", "enter-x-", "enter-x+", "enter-y-", "enter-y+", "enter-z-", "enter-z+", "starts-on-surface", "flat-box"], run: hit_random },
                Section { name: "exact", rule: "integer boxes and power-of-two directions through faces, edges and corners", quick: 1_000_000, thorough: 50_000_000, exhaustive: false, need: &["record-iff-yes", "frame", "on-surface", "entry-parameter", "on-ray", "entry-face", "edge-or-corner", "starts-on-surface", "flat-box"], run: hit_exact },
            ],
        ),
    ]
}
