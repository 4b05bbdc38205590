//! C01 arithmetic enclosure, C02 trigonometric enclosure, C03 comparison and set semantics
use super::{Iv, LF};
use crate::fw::{Ctx, Rng, Section};
use crate::num::*;
use scarlet::math::interval::Interval;
use scarlet::math::scalar::{AlmostEqual, GFloat, Scalar, SignedScalar};
use std::cmp::Ordering;

pub fn gen_iv<F: LF>(r: &mut Rng) -> (F, F) {
    let a: F = r.hostile();
    let (lo, hi) = match r.below(8) {
        0 => (a, a),
        1 => {
            let mut b = a;
            for _ in 0..=r.below(4) {
                b = b.up();
            }
            if b.d().is_finite() {
                (a, b)
            } else {
                (a, a)
            }
        }
        2 => {
            let z = F::of(if r.chance(1, 2) { 0.0 } else { -0.0 });
            (a, z)
        }
        3 => {
            let b: F = r.hostile();
            (F::of(-a.d().abs()), F::of(b.d().abs()))
        }
        4 => {
            let w = r.uni(0.0, 10.0);
            let b = F::of(a.d() + w);
            (a, if b.d().is_finite() { b } else { a })
        }
        _ => {
            let b: F = r.hostile();
            (a, b)
        }
    };
    if lo <= hi {
        (lo, hi)
    } else {
        (hi, lo)
    }
}
/// unremarkable magnitudes: every sign pattern and relative position
fn mod_iv<F: LF>(r: &mut Rng) -> (F, F) {
    let v = |r: &mut Rng| -> F {
        F::of(match r.below(4) {
            0 => r.int(-6, 6) as f64,
            1 => r.int(-6, 6) as f64 + r.int(-3, 3) as f64 * F::EPS,
            _ => r.uni(-4.0, 4.0),
        })
    };
    let (a, b) = (v(r), v(r));
    if a <= b {
        (a, b)
    } else {
        (b, a)
    }
}
pub fn member<F: Fl>(r: &mut Rng, lo: F, hi: F) -> F {
    let m = match r.below(5) {
        0 => lo,
        1 => hi,
        2 if lo.d() <= 0.0 && hi.d() >= 0.0 => {
            let c = [F::of(0.0), F::of(0.0).up(), F::of(0.0).down()];
            r.pick(&c)
        }
        _ => {
            let u = r.unit();
            F::of(lo.d() * (1.0 - u) + hi.d() * u)
        }
    };
    if m >= lo && m <= hi {
        m
    } else {
        lo
    }
}
fn up2<F: Fl>(x: F) -> f64 {
    x.up().up().d()
}
fn down2<F: Fl>(x: F) -> f64 {
    x.down().down().d()
}

/// enclosure and tightness of `r` for a two-argument operation monotone on the corner grid
#[allow(clippy::too_many_arguments)]
fn judge2<F: LF>(cx: &mut Ctx, op: &'static str, r: Iv<F>, xs: &[F], ys: &[F], corners: usize, cmp: fn(f64, f64, f64) -> i32, tight: bool) {
    let show = |xs: &[F], ys: &[F]| format!("{} {} x in [{:?},{:?}] y in [{:?},{:?}] -> [{:?},{:?}]", F::NAME, op, xs[0], xs[1], ys[0], ys[1], r.inf, r.sup);
    if !(r.inf <= r.sup) {
        cx.check(op, false, || format!("not a well-ordered interval: {}", show(xs, ys)));
        return;
    }
    let mut ok = true;
    for &x in xs {
        for &y in ys {
            if cmp(r.inf.d(), x.d(), y.d()) > 0 || cmp(r.sup.d(), x.d(), y.d()) < 0 {
                ok = false;
                cx.check(op, false, || format!("exact result for x={x:?} y={y:?} is outside: {}", show(xs, ys)));
            }
        }
    }
    if ok {
        cx.ev(op);
    }
    if tight {
        let (xc, yc) = (&xs[..corners.min(xs.len())], &ys[..corners.min(ys.len())]);
        let lo_ok = xc.iter().any(|x| yc.iter().any(|y| cmp(up2(r.inf), x.d(), y.d()) >= 0));
        let hi_ok = xc.iter().any(|x| yc.iter().any(|y| cmp(down2(r.sup), x.d(), y.d()) <= 0));
        cx.check("tight", lo_ok && hi_ok, || format!("bound more than two ulps from the exact extreme: {}", show(xs, ys)));
    }
}

fn arith<F: LF>(cx: &mut Ctx) {
    let (al, ah) = if cx.rng.chance(1, 6) { mod_iv::<F>(&mut cx.rng) } else { gen_iv::<F>(&mut cx.rng) };
    let (bl, bh) = match cx.rng.below(16) {
        0 => (al, ah),
        1 => (-ah, -al),
        2 => (al, al),
        3 => (ah, ah),
        4 => (F::of(al.d().min(0.0)), F::of(ah.d().max(0.0))),
        5 | 6 => mod_iv::<F>(&mut cx.rng),
        _ => gen_iv::<F>(&mut cx.rng),
    };
    if al == bl && ah == bh {
        cx.ev("same-operands");
    }
    let a = Interval::new(al, ah);
    let b = Interval::new(bl, bh);
    let xs = [al, ah, member(&mut cx.rng, al, ah), member(&mut cx.rng, al, ah)];
    let ys = [bl, bh, member(&mut cx.rng, bl, bh), member(&mut cx.rng, bl, bh)];
    cx.sample(|| format!("{} a=[{al:?},{ah:?}] b=[{bl:?},{bh:?}] a*b={:?}", F::NAME, a * b));
    let assign = cx.rng.chance(1, 3);
    let sub = |b: f64, x: f64, y: f64| cmp_sum(b, x, -y);
    let bin = |f: fn(Iv<F>, Iv<F>) -> Iv<F>, g: fn(&mut Iv<F>, Iv<F>)| {
        if assign {
            let mut t = a;
            g(&mut t, b);
            t
        } else {
            f(a, b)
        }
    };
    let r = bin(|a, b| a + b, |a, b| *a += b);
    judge2(cx, "add", r, &xs, &ys, 2, cmp_sum, true);
    let r = bin(|a, b| a - b, |a, b| *a -= b);
    judge2(cx, "sub", r, &xs, &ys, 2, sub, true);
    let r = bin(|a, b| a * b, |a, b| *a *= b);
    judge2(cx, "mul", r, &xs, &ys, 2, cmp_prod, true);
    let r = bin(|a, b| a / b, |a, b| *a /= b);
    if bl.d() <= 0.0 && bh.d() >= 0.0 {
        cx.check("div-by-zero", r.inf.d() == f64::NEG_INFINITY && r.sup.d() == f64::INFINITY, || {
            format!("{} division by an interval containing zero is not the whole line: {a:?} / {b:?} = {r:?}", F::NAME)
        });
    } else {
        judge2(cx, "div", r, &xs, &ys, 2, cmp_quot, true);
    }
    // neg
    let n = -a;
    cx.check("neg", n.inf == -ah && n.sup == -al, || format!("{} -{a:?} = {n:?}", F::NAME));
}

fn arith_scalar<F: LF>(cx: &mut Ctx) {
    let (al, ah) = gen_iv::<F>(&mut cx.rng);
    let s: F = cx.rng.hostile();
    let a = Interval::new(al, ah);
    let xs = [al, ah, member(&mut cx.rng, al, ah)];
    let ys = [s, s];
    let sub = |b: f64, x: f64, y: f64| cmp_sum(b, x, -y);
    cx.sample(|| format!("{} a=[{al:?},{ah:?}] s={s:?} a/s={:?}", F::NAME, a / s));
    let assign = cx.rng.chance(1, 3);
    judge2(cx, "add-scalar", a + s, &xs, &ys, 2, cmp_sum, true);
    judge2(cx, "sub-scalar", a - s, &xs, &ys, 2, sub, true);
    let m = if assign {
        let mut t = a;
        t *= s;
        t
    } else {
        a * s
    };
    judge2(cx, "mul-scalar", m, &xs, &ys, 2, cmp_prod, true);
    let d = if assign {
        let mut t = a;
        t /= s;
        t
    } else {
        a / s
    };
    if s.d() == 0.0 {
        cx.check("div-by-zero", d.inf.d() == f64::NEG_INFINITY && d.sup.d() == f64::INFINITY, || {
            format!("{} division by zero is not the whole line: {a:?} / {s:?} = {d:?}", F::NAME)
        });
    } else {
        judge2(cx, "div-scalar", d, &xs, &ys, 2, cmp_quot, true);
    }
}

fn unary<F: LF>(cx: &mut Ctx) {
    let (al, ah) = gen_iv::<F>(&mut cx.rng);
    let a = Interval::new(al, ah);
    cx.sample(|| format!("{} a=[{al:?},{ah:?}] a^2={:?}", F::NAME, Interval::square(a)));
    // square: inherent and trait
    let r = if cx.rng.chance(1, 2) { Interval::square(a) } else { Scalar::square(a) };
    let straddle = al.d() < 0.0 && ah.d() > 0.0;
    let ms = [al, ah, member(&mut cx.rng, al, ah)];
    let mut ok = r.inf <= r.sup;
    for m in ms {
        ok &= cmp_prod(r.inf.d(), m.d(), m.d()) <= 0 && cmp_prod(r.sup.d(), m.d(), m.d()) >= 0;
    }
    if straddle {
        ok &= r.inf.d() <= 0.0;
    }
    cx.check("square", ok, || format!("{} {a:?}.square() = {r:?} misses a member's square", F::NAME));
    let lo_t = if straddle {
        up2(r.inf) >= 0.0
    } else {
        cmp_prod(up2(r.inf), al.d(), al.d()) >= 0 || cmp_prod(up2(r.inf), ah.d(), ah.d()) >= 0
    };
    let hi_t = cmp_prod(down2(r.sup), al.d(), al.d()) <= 0 || cmp_prod(down2(r.sup), ah.d(), ah.d()) <= 0;
    cx.check("tight", lo_t && hi_t, || format!("{} {a:?}.square() = {r:?} is not tight", F::NAME));
    // sqrt
    if ah.d() >= 0.0 {
        let lo = if al.d() > 0.0 { al } else { F::of(0.0) };
        let r = if cx.rng.chance(1, 2) { Interval::sqrt(a) } else { GFloat::sqrt(a) };
        let m = {
            let m = member(&mut cx.rng, al, ah);
            if m.d() >= 0.0 {
                m
            } else {
                ah
            }
        };
        let mut ok = r.inf <= r.sup;
        for m in [lo, ah, m] {
            ok &= cmp_sqrt(r.inf.d(), m.d()) <= 0 && cmp_sqrt(r.sup.d(), m.d()) >= 0;
        }
        cx.check("sqrt", ok, || format!("{} {a:?}.sqrt() = {r:?} misses a member's root", F::NAME));
        let t = cmp_sqrt(up2(r.inf), lo.d()) >= 0 && cmp_sqrt(down2(r.sup), ah.d()) <= 0;
        cx.check("tight", t || !ok, || format!("{} {a:?}.sqrt() = {r:?} is not tight", F::NAME));
        // recip of a root of a square (composition that must never become NaN)
        let sq = GFloat::sqrt(Scalar::square(a));
        cx.check("sqrt-of-square", sq.inf <= sq.sup && (sq.sup.d() >= ah.d().abs().max(al.d().abs()) || !sq.sup.d().is_finite()), || format!("{} sqrt({a:?}^2) = {sq:?}", F::NAME));
    }
}

/// straight-line programs: (value, error bound) in double precision against interval evaluation
fn program<F: LF>(cx: &mut Ctx) {
    let u = f64::EPSILON;
    let nv = 2 + cx.rng.us(4);
    let mut st: Vec<(Iv<F>, f64, f64, String)> = vec![];
    for i in 0..nv {
        let c = cx.rng.modr();
        let w = match cx.rng.below(4) {
            0 => 0.0,
            1 => 1e-3,
            2 => cx.rng.pos(),
            _ => c.abs() * 0.5,
        };
        let lo = F::of(c);
        let hi = F::of(c + w);
        let m = member(&mut cx.rng, lo, hi);
        st.push((Interval::new(lo, hi), m.d(), 0.0, format!("v{i}=[{lo:?},{hi:?}]@{m:?}")));
    }
    let steps = 3 + cx.rng.us(14);
    let slack = if F::EPS > 1e-10 { 0.0 } else { 4.0 };
    for _ in 0..steps {
        let i = cx.rng.us(st.len());
        let j = cx.rng.us(st.len());
        let (ia, x, ex, na) = st[i].clone();
        let (ib, y, ey, nb) = st[j].clone();
        let s = F::of(cx.rng.modr());
        let (r, v, mut e, name): (Iv<F>, f64, f64, String) = match cx.rng.below(13) {
            0 => (ia + ib, x + y, ex + ey, format!("({na}+{nb})")),
            1 => (ia - ib, x - y, ex + ey, format!("({na}-{nb})")),
            2 | 3 => (ia * ib, x * y, ex * (y.abs() + ey) + ey * x.abs(), format!("({na}*{nb})")),
            4 | 5 => {
                if ib.contains(F::of(0.0)) || (y.abs() <= 2.0 * ey) {
                    continue;
                }
                let q = x / y;
                (ia / ib, q, (ex + q.abs() * ey) / (y.abs() - ey), format!("({na}/{nb})"))
            }
            6 => (Scalar::square(ia), x * x, ex * (2.0 * x.abs() + ex), format!("sq({na})")),
            7 => {
                if x <= 2.0 * ex || x <= 0.0 {
                    continue;
                }
                (GFloat::sqrt(ia), x.sqrt(), ex / x.sqrt(), format!("sqrt({na})"))
            }
            8 => (-ia, -x, ex, format!("-{na}")),
            9 => (ia * s, x * s.d(), ex * s.d().abs(), format!("({na}*{s:?})")),
            10 => (ia + s, x + s.d(), ex, format!("({na}+{s:?})")),
            11 => {
                if ia.contains(F::of(0.0)) || (x.abs() <= 2.0 * ex) {
                    continue;
                }
                (GFloat::recip(ia), 1.0 / x, ex / (x.abs() * (x.abs() - ex)), format!("1/{na}"))
            }
            _ => (SignedScalar::abs(ia), x.abs(), ex, format!("|{na}|")),
        };
        e += (1.0 + slack) * u * v.abs() + 1e-300;
        if !v.is_finite() || v.abs() > 1e30 || !(r.inf.d().is_finite() && r.sup.d().is_finite()) || name.len() > 600 {
            break;
        }
        let ok = r.inf <= r.sup && r.inf.d() <= v + e && r.sup.d() >= v - e;
        if !cx.check("program-step", ok, || format!("{} {name} = {v} (+-{e:e}) but interval is {r:?}", F::NAME)) {
            return;
        }
        st.push((r, v, e, name));
    }
    cx.sample(|| format!("{} {}", F::NAME, st.last().unwrap().3));
}

// ---------------------------------------------------------------- C02
fn width_iv<F: LF>(r: &mut Rng) -> (F, F) {
    use std::f64::consts::PI;
    let base = match r.below(8) {
        0 => 0.0,
        1 => -0.0,
        2 => r.int(-8, 8) as f64 * PI / 2.0,
        3 => r.uni(-1e4, 1e4),
        4 => r.log(1e-30, 1e-2) * r.sign(),
        5 => r.log(1e4, 1e8) * r.sign(),
        6 if r.chance(1, 4) => r.log(1e8, if F::EPS > 1e-10 { 1e37 } else { 1e300 }) * r.sign(),
        _ => r.uni(-10.0, 10.0),
    };
    let w = match r.below(8) {
        0 if r.chance(1, 3) => r.log(1.0, if F::EPS > 1e-10 { 1e37 } else { 1e300 }),
        0 => 0.0,
        1 => r.log(1e-7, 1e-2),
        2 => r.int(0, 8) as f64 * PI / 4.0,
        3 => r.uni(PI, 2.0 * PI),
        4 => r.uni(2.0 * PI - 0.01, 2.0 * PI + 0.01),
        5 => r.uni(6.0, 20.0),
        _ => r.uni(0.0, PI),
    };
    let (mut lo, mut hi) = if r.chance(1, 2) { (F::of(base), F::of(base + w)) } else { (F::of(base - w), F::of(base)) };
    match r.below(6) {
        0 => lo = lo.down(),
        1 => hi = hi.up(),
        _ => {}
    }
    if lo <= hi {
        (lo, hi)
    } else {
        (hi, lo)
    }
}
fn fuzz_tol<F: Fl>(v: f64) -> f64 {
    // how far a reference value computed with the double libm may be from the real value,
    // plus nothing for f32, a couple of f64 ulps for f64
    if F::EPS > 1e-10 {
        v.abs() * 1e-15
    } else {
        v.abs() * 4.5e-16 + 1e-323
    }
}
fn sub_members<F: Fl>(r: &mut Rng, lo: F, hi: F, out: &mut Vec<f64>) {
    let (l, h) = (lo.d(), hi.d());
    out.push(l);
    out.push(h);
    for _ in 0..6 {
        let u = r.unit();
        let v = l + (h - l) * u;
        let v = if F::EPS > 1e-10 { v } else { F::of(v).d() };
        if v >= l && v <= h {
            out.push(v);
        }
    }
}
fn trig<F: LF>(cx: &mut Ctx) {
    use std::f64::consts::*;
    let (lo, hi) = width_iv::<F>(&mut cx.rng);
    let a = Interval::new(lo, hi);
    let mut ms = vec![];
    sub_members(&mut cx.rng, lo, hi, &mut ms);
    // critical points k*pi/2 inside
    let k0 = (lo.d() / FRAC_PI_2).floor();
    for k in 0..8 {
        let x = (k0 + k as f64) * FRAC_PI_2;
        if x > lo.d() && x < hi.d() {
            ms.push(x);
        }
    }
    let (s, c) = if cx.rng.chance(1, 2) { (a.sin(), a.cos()) } else { a.sin_cos() };
    let t = a.tan();
    cx.sample(|| format!("{} sin{a:?} = {s:?} cos = {c:?}", F::NAME));
    for (nm, r, f) in [("sin", s, f64::sin as fn(f64) -> f64), ("cos", c, f64::cos as fn(f64) -> f64)] {
        let mut mn = f64::INFINITY;
        let mut mx = f64::NEG_INFINITY;
        let mut ok = r.inf <= r.sup;
        let mut bad = 0.0;
        for &x in &ms {
            let v = f(x);
            // samples at rounded critical points: derivative is ~0, so v is the extreme to 1e-15
            let e = fuzz_tol::<F>(v) + 1e-15 * (x.abs() * 1e-16).min(1.0);
            if !(r.inf.d() <= v + e && r.sup.d() >= v - e) {
                ok = false;
                bad = x;
            }
            mn = mn.min(v);
            mx = mx.max(v);
        }
        cx.check(if nm == "sin" { "sin" } else { "cos" }, ok, || format!("{} {nm}({a:?}) = {r:?} misses {nm}({bad:?}) = {:?}", F::NAME, f(bad)));
        // tightness: for |x| small enough that the critical points above are exact to 1e-9 (their error only enters squared)
        if lo.d().abs() < 1e7 && hi.d().abs() < 1e7 && hi.d() - lo.d() < 6.25 {
            let tol = 6.0 * F::EPS + 1e-14;
            cx.check("trig-tight", r.inf.d() >= mn - tol && r.sup.d() <= mx + tol, || format!("{} {nm}({a:?}) = {r:?} but the range is [{mn},{mx}]", F::NAME));
        }
    }
    let mut ok = t.inf <= t.sup;
    let mut bad = 0.0;
    for &x in &ms {
        let v = x.tan();
        // conditioning near the poles for rounded sample points: only trust f32-exact or ordinary values
        let e = v.abs() * 1e-14 + if F::EPS > 1e-10 { 0.0 } else { v.abs() * 1e-13 };
        if v.abs() < 1e6 && !(t.inf.d() <= v + e && t.sup.d() >= v - e) {
            ok = false;
            bad = x;
        }
    }
    cx.check("tan", ok, || format!("{} tan({a:?}) = {t:?} misses tan({bad:?}) = {:?}", F::NAME, bad.tan()));
}
fn arc<F: LF>(cx: &mut Ctx) {
    let g = |r: &mut Rng| -> F {
        let v = match r.below(7) {
            0 => r.pick(&[-1.0, 1.0, 0.0, -0.0, 0.5, -0.5]),
            1 => {
                let x = F::of(1.0).down();
                r.sign() * x.d()
            }
            2 => r.log(1e-30, 1.0) * r.sign(),
            3 => (1.0 - r.log(1e-8, 1.0)) * r.sign(),
            _ => r.uni(-1.0, 1.0),
        };
        F::of(v.clamp(-1.0, 1.0))
    };
    let (mut lo, mut hi) = (g(&mut cx.rng), g(&mut cx.rng));
    if cx.rng.chance(1, 3) {
        hi = lo;
    }
    if hi < lo {
        std::mem::swap(&mut lo, &mut hi);
    }
    let a = Interval::new(lo, hi);
    let mut ms = vec![];
    sub_members(&mut cx.rng, lo, hi, &mut ms);
    cx.sample(|| format!("{} acos{a:?} = {:?}", F::NAME, a.acos()));
    for nm in ["asin", "acos", "atan"] {
        let (r, f): (Iv<F>, fn(f64) -> f64) = match nm {
            "asin" => (a.asin(), f64::asin),
            "acos" => (a.acos(), f64::acos),
            _ => (a.atan(), f64::atan),
        };
        unary_mono(cx, nm, a, r, f, &ms);
    }
    // atan of anything
    let (lo, hi) = if cx.rng.chance(1, 20) {
        (F::of(f64::NEG_INFINITY), F::of(f64::INFINITY))
    } else {
        gen_iv::<F>(&mut cx.rng)
    };
    let a = Interval::new(lo, hi);
    let mut ms = vec![];
    if lo.d().is_finite() {
        sub_members(&mut cx.rng, lo, hi, &mut ms);
        ms.retain(|x| x.is_finite());
    } else {
        ms = vec![f64::MIN, -1.0, 0.0, 1.0, f64::MAX];
    }
    let r = a.atan();
    unary_mono(cx, "atan", a, r, f64::atan, &ms);
}
fn unary_mono<F: LF>(cx: &mut Ctx, nm: &'static str, a: Iv<F>, r: Iv<F>, f: fn(f64) -> f64, ms: &[f64]) {
    let mut ok = r.inf <= r.sup;
    let (mut mn, mut mx) = (f64::INFINITY, f64::NEG_INFINITY);
    let mut bad = 0.0;
    for &x in ms {
        let v = f(x);
        let e = fuzz_tol::<F>(v);
        if !(r.inf.d() <= v + e && r.sup.d() >= v - e) {
            ok = false;
            bad = x;
        }
        mn = mn.min(v);
        mx = mx.max(v);
    }
    cx.check(nm, ok, || format!("{} {nm}({a:?}) = {r:?} misses {nm}({bad:?}) = {:?}", F::NAME, f(bad)));
    let tol = |v: f64| 8.0 * F::EPS * v.abs() + 3.0 * F::of(0.0).up().d();
    cx.check("arc-tight", r.inf.d() >= mn - tol(mn) && r.sup.d() <= mx + tol(mx), || format!("{} {nm}({a:?}) = {r:?} but the range is [{mn},{mx}]", F::NAME));
}
fn atan2<F: LF>(cx: &mut Ctx) {
    let g = |r: &mut Rng| -> (F, F) {
        let c = |r: &mut Rng| -> F {
            F::of(match r.below(7) {
                0 => 0.0,
                1 => r.int(-2, 2) as f64,
                2 => r.log(1e-6, 1e6) * r.sign(),
                3 => r.uni(-1000.0, 1000.0),
                _ => r.uni(-2.0, 2.0),
            })
        };
        let a = c(r);
        let b = match r.below(4) {
            0 => a,
            1 => F::of(a.d() + a.d().abs() * r.log(1e-7, 1e-1)),
            _ => c(r),
        };
        if a <= b {
            (a, b)
        } else {
            (b, a)
        }
    };
    let (yl, yh) = g(&mut cx.rng);
    let (xl, xh) = g(&mut cx.rng);
    let y = Interval::new(yl, yh);
    let x = Interval::new(xl, xh);
    let zero = |a: F, b: F| a.d() == 0.0 && b.d() == 0.0;
    if zero(yl, yh) && zero(xl, xh) {
        return;
    }
    let r = y.atan2(x);
    cx.sample(|| format!("{} atan2({y:?},{x:?}) = {r:?}", F::NAME));
    let mut ys = vec![];
    let mut xs = vec![];
    sub_members(&mut cx.rng, yl, yh, &mut ys);
    sub_members(&mut cx.rng, xl, xh, &mut xs);
    for (v, l, h) in [(&mut ys, yl.d(), yh.d()), (&mut xs, xl.d(), xh.d())] {
        for t in [0.0, 1e-30, -1e-30] {
            if t >= l && t <= h {
                v.push(t);
            }
        }
    }
    let mut ok = r.inf <= r.sup;
    let mut bad = (0.0, 0.0, 0.0);
    let (mut mn, mut mx) = (f64::INFINITY, f64::NEG_INFINITY);
    for &yy in &ys {
        for &xx in &xs {
            if yy == 0.0 && xx == 0.0 {
                continue;
            }
            // + 0.0: a real zero has no sign
            let v = (yy + 0.0).atan2(xx + 0.0);
            let e = fuzz_tol::<F>(v);
            if !(r.inf.d() <= v + e && r.sup.d() >= v - e) {
                ok = false;
                bad = (yy, xx, v);
            }
            mn = mn.min(v);
            mx = mx.max(v);
        }
    }
    cx.check("atan2", ok, || format!("{} atan2({y:?},{x:?}) = {r:?} misses atan2{bad:?}", F::NAME));
    let clear = |l: F, h: F| l.d() > 0.0 || h.d() < 0.0;
    if clear(yl, yh) && clear(xl, xh) {
        let tol = 10.0 * F::EPS * 3.2;
        cx.check("atan2-tight", r.inf.d() >= mn - tol && r.sup.d() <= mx + tol, || format!("{} atan2({y:?},{x:?}) = {r:?} but the range is [{mn},{mx}]", F::NAME));
    }
}
fn constants<F: LF>(cx: &mut Ctx) {
    use std::f64::consts::*;
    let list: [(&'static str, f64, F, F, F, Iv<F>); 4] = [
        ("pi", PI, F::pi(), F::pi_lower(), F::pi_upper(), <Iv<F> as GFloat>::pi()),
        ("tau", TAU, F::tau(), F::tau_lower(), F::tau_upper(), <Iv<F> as GFloat>::tau()),
        ("frac_pi_2", FRAC_PI_2, F::frac_pi_2(), F::frac_pi_2_lower(), F::frac_pi_2_upper(), <Iv<F> as GFloat>::frac_pi_2()),
        ("frac_pi_4", FRAC_PI_4, F::frac_pi_4(), F::frac_pi_4_lower(), F::frac_pi_4_upper(), <Iv<F> as GFloat>::frac_pi_4()),
    ];
    for (nm, v, c, l, u, iv) in list {
        // the real constant lies strictly between v and its upper double neighbour
        cx.check("const-nearest", c.d() == F::of(v).d(), || format!("{} {nm} = {c:?}", F::NAME));
        for (l, u, what) in [(l, u, "scalar bounds"), (iv.inf, iv.sup, "interval")] {
            cx.check("const-bracket", l.d() <= v && u.d() > v && l.d() >= v * (1.0 - 4.0 * F::EPS) && u.d() <= v * (1.0 + 4.0 * F::EPS), || {
                format!("{} {nm} {what} [{l:?},{u:?}] does not tightly bracket the constant", F::NAME)
            });
        }
    }
    for (nm, v, l, u) in [
        ("pi", PI, <Iv<F> as GFloat>::pi_lower(), <Iv<F> as GFloat>::pi_upper()),
        ("tau", TAU, <Iv<F> as GFloat>::tau_lower(), <Iv<F> as GFloat>::tau_upper()),
        ("frac_pi_2", FRAC_PI_2, <Iv<F> as GFloat>::frac_pi_2_lower(), <Iv<F> as GFloat>::frac_pi_2_upper()),
        ("frac_pi_4", FRAC_PI_4, <Iv<F> as GFloat>::frac_pi_4_lower(), <Iv<F> as GFloat>::frac_pi_4_upper()),
    ] {
        cx.check("const-interval-lower-upper", l.inf.d() <= v && u.sup.d() > v && l.inf.d() >= v * (1.0 - 8.0 * F::EPS) && u.sup.d() <= v * (1.0 + 8.0 * F::EPS), || {
            format!("Interval<{}> {nm}_lower/{nm}_upper = {l:?}, {u:?} do not bracket the constant", F::NAME)
        });
    }
    let h = <Iv<F> as GFloat>::half();
    cx.check("const-half", h.inf.d() == 0.5 && h.sup.d() == 0.5, || format!("half = {h:?}"));
    let o = <Iv<F> as Scalar>::one();
    let z = <Iv<F> as Scalar>::zero();
    let t = <Iv<F> as Scalar>::two();
    cx.check("const-01", o.inf.d() == 1.0 && o.sup.d() == 1.0 && z.inf.d() == 0.0 && z.sup.d() == 0.0 && t.contains(F::of(2.0)), || format!("one={o:?} zero={z:?} two={t:?}"));
}

/// sign of x - k*pi, decided beyond double precision (x near k*pi, or clearly apart)
fn cmp_pi(k: f64, x: f64) -> i32 {
    let p = k * std::f64::consts::PI;
    let e = k.mul_add(std::f64::consts::PI, -p) + k * 1.2246467991473532e-16;
    let d = (x - p) - e;
    (d > 0.0) as i32 - (d < 0.0) as i32
}
/// arguments whose exact value is a known multiple of pi: the last ulp is decided in both precisions
fn landmarks<F: LF>(cx: &mut Ctx) {
    let iv = |a: f64, b: f64| Interval::new(F::of(a), F::of(b));
    let i1 = |a: f64| iv(a, a);
    let s = F::of(2f64.powi(cx.rng.int(-60, 60) as i32) * if cx.rng.chance(1, 2) { 1.0 } else { cx.rng.uni(1.0, 2.0) }).d();
    let t = F::of(s * cx.rng.pick(&[1.0, 2.0, 1.5, 1e3])).d();
    let z = cx.rng.pick(&[0.0, -0.0]);
    let list: Vec<(&'static str, Iv<F>, Vec<f64>)> = vec![
        ("asin(1)", GFloat::asin(i1(1.0)), vec![0.5]),
        ("asin(-1)", GFloat::asin(i1(-1.0)), vec![-0.5]),
        ("asin([-1,1])", GFloat::asin(iv(-1.0, 1.0)), vec![-0.5, 0.0, 0.5]),
        ("asin(0)", GFloat::asin(i1(z)), vec![0.0]),
        ("acos(1)", GFloat::acos(i1(1.0)), vec![0.0]),
        ("acos(0)", GFloat::acos(i1(z)), vec![0.5]),
        ("acos(-1)", GFloat::acos(i1(-1.0)), vec![1.0]),
        ("acos([-1,1])", GFloat::acos(iv(-1.0, 1.0)), vec![0.0, 0.5, 1.0]),
        ("atan(1)", GFloat::atan(i1(1.0)), vec![0.25]),
        ("atan(-1)", GFloat::atan(i1(-1.0)), vec![-0.25]),
        ("atan([-1,1])", GFloat::atan(iv(-1.0, 1.0)), vec![-0.25, 0.0, 0.25]),
        ("atan2(s,0)", GFloat::atan2(i1(s), i1(z)), vec![0.5]),
        ("atan2(-s,0)", GFloat::atan2(i1(-s), i1(z)), vec![-0.5]),
        ("atan2(0,s)", GFloat::atan2(i1(z), i1(s)), vec![0.0]),
        ("atan2(0,-s)", GFloat::atan2(i1(z), i1(-s)), vec![1.0]),
        ("atan2(s,s)", GFloat::atan2(i1(s), i1(s)), vec![0.25]),
        ("atan2(-s,s)", GFloat::atan2(i1(-s), i1(s)), vec![-0.25]),
        ("atan2(s,-s)", GFloat::atan2(i1(s), i1(-s)), vec![0.75]),
        ("atan2(-s,-s)", GFloat::atan2(i1(-s), i1(-s)), vec![-0.75]),
        ("atan2([0,s],[-s,0])", GFloat::atan2(iv(z, s), iv(-s, z)), vec![0.5, 0.75, 1.0]),
        ("atan2([-s,0],[-s,0])", GFloat::atan2(iv(-s, z), iv(-s, z)), vec![-0.5, -0.75, 1.0]),
        ("atan2([0,s],[0,s])", GFloat::atan2(iv(z, s), iv(z, s)), vec![0.0, 0.25, 0.5]),
        ("atan2([-s,s],[-s,s])", GFloat::atan2(iv(-s, s), iv(-s, s)), vec![-0.75, -0.5, -0.25, 0.0, 0.25, 0.5, 0.75, 1.0]),
        ("atan2([s,t],[-t,-s])", GFloat::atan2(iv(s, t), iv(-t, -s)), vec![0.75]),
        ("atan2([-t,-s],[-t,-s])", GFloat::atan2(iv(-t, -s), iv(-t, -s)), vec![-0.75]),
        ("atan2([s,t],[-s,s])", GFloat::atan2(iv(s, t), iv(-s, s)), vec![0.25, 0.5, 0.75]),
        ("atan2([-t,-s],[-s,s])", GFloat::atan2(iv(-t, -s), iv(-s, s)), vec![-0.25, -0.5, -0.75]),
        ("atan2([0,t],[-t,-s])", GFloat::atan2(iv(z, t), iv(-t, -s)), vec![0.75, 1.0]),
        ("atan2([-s,s],[-t,-s])", GFloat::atan2(iv(-s, s), iv(-t, -s)), vec![-0.75, 0.75, 1.0]),
    ];
    cx.sample(|| format!("{} s={s:e} t={t:e}", F::NAME));
    for (nm, r, ks) in list {
        let ok = r.inf <= r.sup && ks.iter().all(|&k| cmp_pi(k, r.inf.d()) <= 0 && cmp_pi(k, r.sup.d()) >= 0);
        cx.check("landmark", ok, || format!("{} {nm} with s={s:e} t={t:e} = {r:?} does not contain pi times every one of {ks:?}", F::NAME));
        cx.check("landmark-range", cmp_pi(1.0, r.sup.d().down().down().down()) <= 0 || F::EPS > 1e-10 && r.sup.d() < 3.141594, || format!("{} {nm} = {r:?} exceeds pi", F::NAME));
    }
    let n = cx.rng.int(-5, 5) as f64;
    let (a, b) = (F::of((n + 0.2) * std::f64::consts::PI), F::of((n + 0.8) * std::f64::consts::PI));
    let r = GFloat::sin(Interval::new(a, b));
    let top = if n as i64 % 2 == 0 { 1.0 } else { -1.0 };
    cx.check("landmark-extremum", r.contains(F::of(top)) && r.inf.d() >= -1.0 - 2.0 * F::EPS && r.sup.d() <= 1.0 + 2.0 * F::EPS, || format!("{} sin([{a:?},{b:?}]) = {r:?}", F::NAME));
    let r = GFloat::cos(i1(z));
    cx.check("landmark-extremum", r.contains(F::of(1.0)), || format!("{} cos(0) = {r:?}", F::NAME));
}
/// every f32 as a degenerate interval: unary functions (exhaustive in thorough)
fn unary_sweep(cx: &mut Ctx) {
    // index -> block of 2^12 consecutive bit patterns at a stride
    let blocks: u64 = 1 << 20;
    let b = cx.index % blocks;
    let mut n = 0;
    for k in 0..4096u64 {
        let bits = (b * 4096 + k) as u32;
        let x = f32::from_bits(bits);
        if !x.is_finite() {
            continue;
        }
        sweep_one(cx, x);
        n += 1;
    }
    cx.evn("sweep-point", n);
}
fn unary_points(cx: &mut Ctx) {
    for _ in 0..256 {
        let x: f32 = cx.rng.hostile();
        sweep_one(cx, x);
    }
    cx.evn("sweep-point", 256);
}
fn sweep_one(cx: &mut Ctx, x: f32) {
    let a = Interval::new(x, x);
    let xd = x as f64;
    let inn = |r: Iv<f32>, v: f64| r.inf <= r.sup && (r.inf as f64) <= v + v.abs() * 1e-15 && (r.sup as f64) >= v - v.abs() * 1e-15;
    let mut bad: Option<(&'static str, Iv<f32>, f64)> = None;
    let (s, c) = (a.sin(), a.cos());
    if !inn(s, xd.sin()) {
        bad = Some(("sin", s, xd.sin()));
    }
    if !inn(c, xd.cos()) {
        bad = Some(("cos", c, xd.cos()));
    }
    let t = a.atan();
    if !inn(t, xd.atan()) {
        bad = Some(("atan", t, xd.atan()));
    }
    if x.abs() <= 1.0 {
        let t = a.asin();
        if !inn(t, xd.asin()) {
            bad = Some(("asin", t, xd.asin()));
        }
        let t = a.acos();
        if !inn(t, xd.acos()) {
            bad = Some(("acos", t, xd.acos()));
        }
    }
    if x >= 0.0 {
        let t = GFloat::sqrt(a);
        if !inn(t, xd.sqrt()) {
            bad = Some(("sqrt", t, xd.sqrt()));
        }
    }
    if let Some((nm, r, v)) = bad {
        cx.fail(nm, format!("f32 {nm}([{x:?}]) = {r:?} misses {v:?}"));
    }
}

// ---------------------------------------------------------------- C03
fn rel(c: &mut Ctx, got: Option<Ordering>, want: Option<Ordering>, f: impl FnOnce() -> String) {
    c.check("partial_cmp", got == want, || format!("{}: got {got:?} want {want:?}", f()));
}
fn want_cmp<F: Fl>(al: F, ah: F, bl: F, bh: F) -> Option<Ordering> {
    if al == ah && bl == bh && al == bl {
        Some(Ordering::Equal)
    } else if ah < bl {
        Some(Ordering::Less)
    } else if bh < al {
        Some(Ordering::Greater)
    } else {
        None
    }
}
fn sets<F: LF>(cx: &mut Ctx, al: F, ah: F, bl: F, bh: F) {
    let a = Interval::new(al, ah);
    let b = Interval::new(bl, bh);
    let sh = || format!("{} a={a:?} b={b:?}", F::NAME);
    let w = want_cmp(al, ah, bl, bh);
    rel(cx, a.partial_cmp(&b), w, sh);
    let ops = (a < b) == (w == Some(Ordering::Less))
        && (a > b) == (w == Some(Ordering::Greater))
        && (a == b) == (w == Some(Ordering::Equal))
        && (a != b) == (w != Some(Ordering::Equal))
        && (a <= b) == matches!(w, Some(Ordering::Less | Ordering::Equal))
        && (a >= b) == matches!(w, Some(Ordering::Greater | Ordering::Equal));
    cx.check("order-operators", ops, sh);
    // against a scalar
    for s in [bl, bh] {
        let w = want_cmp(al, ah, s, s);
        rel(cx, a.partial_cmp(&s), w, || format!("{} a={a:?} s={s:?}", F::NAME));
        cx.check("order-scalar", (a == s) == (w == Some(Ordering::Equal)) && (a < s) == (w == Some(Ordering::Less)) && (a > s) == (w == Some(Ordering::Greater)), || {
            format!("{} a={a:?} s={s:?}", F::NAME)
        });
        cx.check("contains", a.contains(s) == (al <= s && s <= ah), || format!("{} {a:?}.contains({s:?})", F::NAME));
    }
    cx.check("in_range", a.in_range(bl, bh) == (al >= bl && ah <= bh), sh);
    cx.check("is_exact", a.is_exact() == (al == ah), sh);
    cx.check("is_same", a.is_same(b) == (al == bl && ah == bh), sh);
    cx.check("is_same-self", a.is_same(a), sh);
    let z = F::of(0.0);
    let signs = (a.is_positive(), a.is_negative(), a.is_nonpositive(), a.is_nonnegative());
    let wants = (al > z, ah < z, ah <= z, al >= z);
    cx.check("signs", signs == wants, || format!("{}: signs {signs:?} want {wants:?}", sh()));
    // through the generic trait: certain or nothing
    let g = (SignedScalar::is_positive(a), SignedScalar::is_negative(a), SignedScalar::is_nonpositive(a), SignedScalar::is_nonnegative(a));
    let sound = (!g.0 || al > z) && (!g.1 || ah < z) && (!g.2 || ah <= z) && (!g.3 || al >= z) && g.0 == (al > z) && g.1 == (ah < z);
    cx.check("signs-generic", sound, || format!("{}: {g:?}", sh()));
    cx.check("is_zero-one", Scalar::is_zero(a) == (al == z && ah == z) && Scalar::is_one(a) == (al.d() == 1.0 && ah.d() == 1.0), sh);
    // set operations
    let mx = |x: F, y: F| if x > y { x } else { y };
    let mn = |x: F, y: F| if x < y { x } else { y };
    let u = a.union(b);
    cx.check("union", u.inf == mn(al, bl) && u.sup == mx(ah, bh), || format!("{} union = {u:?}", sh()));
    if mx(al, bl) <= mn(ah, bh) {
        let i = a.intersect(b);
        cx.check("intersect", i.inf == mx(al, bl) && i.sup == mn(ah, bh), || format!("{} intersect = {i:?}", sh()));
    }
    let m = Scalar::min(a, b);
    cx.check("min", m.inf <= m.sup && m.inf <= mn(al, bl) && m.sup >= mn(ah, bh) && m.contains(mn(al, bl)), || format!("{} min = {m:?}", sh()));
    let m = Scalar::max(a, b);
    cx.check("max", m.inf <= m.sup && m.inf <= mx(al, bl) && m.sup >= mx(ah, bh) && m.contains(mx(ah, bh)), || format!("{} max = {m:?}", sh()));
    let m = SignedScalar::abs(a);
    let amin = if al.d() <= 0.0 && ah.d() >= 0.0 { 0.0 } else { al.d().abs().min(ah.d().abs()) };
    let amax = al.d().abs().max(ah.d().abs());
    cx.check("abs", m.inf.d() >= 0.0 && m.inf.d() <= amin && m.sup.d() == amax, || format!("{} abs = {m:?}", sh()));
    // ordering helpers of the generic scalar interface
    let (lo, hi) = Scalar::min_max(a, b);
    cx.check("min_max", lo.inf <= mn(al, bl) && lo.sup >= mn(ah, bh) && hi.inf <= mx(al, bl) && hi.sup >= mx(ah, bh) && lo.inf <= lo.sup && hi.inf <= hi.sup && lo.inf == mn(al, bl) && hi.sup == mx(ah, bh), || {
        format!("{} min_max = {lo:?} {hi:?}", sh())
    });
    // clamping to [bl,bh] taken as numbers: contains the pointwise results, invents nothing outside the range spanned
    let c = Scalar::clamp(a, Interval::from(bl), Interval::from(bh));
    let (cl, ch) = (mx(bl, mn(bh, al)), mx(bl, mn(bh, ah)));
    cx.check("clamp", c.inf <= cl && c.sup >= ch && c.inf >= mn(al, bl) && c.sup <= mx(ah, bh) && c.inf <= c.sup, || format!("{} clamp = {c:?}, pointwise [{cl:?},{ch:?}]", sh()));
    let g = SignedScalar::signum(a);
    let sg = |x: f64| if x > 0.0 { 1.0 } else if x < 0.0 { -1.0 } else { 0.0 };
    cx.check("signum", g.inf.d() <= sg(al.d()) && g.sup.d() >= sg(ah.d()) && g.inf.d() >= -1.0 && g.sup.d() <= 1.0, || format!("{} signum = {g:?}", sh()));
    if Scalar::in_range(a, Interval::from(bl), Interval::from(bh)) {
        cx.check("in_range-generic", al >= bl && ah <= bh, sh);
    }
    // classification
    let fin = al.d().is_finite() && ah.d().is_finite();
    let inf = al.d().is_infinite() && ah.d().is_infinite() && (al.d() > 0.0) == (ah.d() > 0.0);
    cx.check("classify", GFloat::is_finite(a) == fin && !GFloat::is_nan(a) && GFloat::is_infinite(a) == inf, || {
        format!("{} finite={} nan={} infinite={}", sh(), GFloat::is_finite(a), GFloat::is_nan(a), GFloat::is_infinite(a))
    });
    // stepping
    let (nu, nd, ex) = (GFloat::next_up(a), GFloat::next_down(a), a.extend_by_ulp());
    cx.check("step", nu.inf == al.up() && nu.sup == ah.up() && nd.inf == al.down() && nd.sup == ah.down(), || format!("{} next_up={nu:?} next_down={nd:?}", sh()));
    cx.check("extend", ex.inf == al.down() && ex.sup == ah.up(), || format!("{} extend={ex:?}", sh()));
    // midpoint
    if fin && al.d().abs() <= F::MAXV / 2.0 && ah.d().abs() <= F::MAXV / 2.0 {
        let mid = a.approx();
        let want = al.d() * 0.5 + ah.d() * 0.5;
        let tol = 3.0 * F::EPS * want.abs() + 2.0 * F::of(0.0).up().d();
        cx.check("midpoint", mid >= al && mid <= ah && (mid.d() - want).abs() <= tol, || format!("{} approx={mid:?}", sh()));
        cx.check("to_f64", a.to_f64() == mid.d() && a.to_f32() == mid.d() as f32 && a.to_i64() == mid.d() as i64, || {
            format!("{} to_f64={} to_f32={} to_i64={}", sh(), a.to_f64(), a.to_f32(), a.to_i64())
        });
    }
    // monotone mapping helpers enclose
    if fin {
        let two = F::of(2.0);
        let r = a.map_monotonic_inc(|x| x / two);
        cx.check("map-inc", r.inf.d() <= al.d() / 2.0 && r.sup.d() >= ah.d() / 2.0 && r.inf.d() >= (al / two).down().d() && r.sup.d() <= (ah / two).up().d(), || format!("{} inc={r:?}", sh()));
        let r = a.map_monotonic_dec(|x| -x / two);
        cx.check("map-dec", r.inf.d() <= -ah.d() / 2.0 && r.sup.d() >= -al.d() / 2.0 && r.inf.d() >= (-ah / two).down().d() && r.sup.d() <= (-al / two).up().d(), || format!("{} dec={r:?}", sh()));
    }
    // tolerant equality of intervals: both bounds
    if fin && bl.d().is_finite() && bh.d().is_finite() {
        let w = al.fequals(bl) && ah.fequals(bh);
        cx.check("almost_eq", AlmostEqual::<Iv<F>>::almost_eq(a, b) == w, sh);
        let s = bl;
        let w = al <= s && s <= ah && al.fequals(s) && ah.fequals(s);
        cx.check("almost_eq-scalar", AlmostEqual::<F>::almost_eq(a, s) == w, || format!("{} s={s:?}", sh()));
    }
}
fn sets_grid(cx: &mut Ctx) {
    let inf = f64::INFINITY;
    let g = [-inf, -2.0, -1.0, -0.0, 0.0, 0.5, 1.0, 2.0, inf];
    let n = g.len() as u64;
    let i = cx.index;
    let (p, q, r, s) = (g[(i % n) as usize], g[(i / n % n) as usize], g[(i / n / n % n) as usize], g[(i / n / n / n % n) as usize]);
    if p <= q && r <= s {
        sets::<f32>(cx, p as f32, q as f32, r as f32, s as f32);
        sets::<f64>(cx, p, q, r, s);
        cx.sample(|| format!("a=[{p},{q}] b=[{r},{s}]"));
    }
}
pub fn sets_rand<F: LF>(cx: &mut Ctx) {
    let (al, ah) = gen_iv::<F>(&mut cx.rng);
    let (mut bl, mut bh) = gen_iv::<F>(&mut cx.rng);
    if cx.rng.chance(1, 4) {
        // share or abut a bound
        match cx.rng.below(4) {
            0 => bl = al,
            1 => bl = ah,
            2 => bh = al,
            _ => bl = ah.up(),
        }
        if !(bl <= bh) {
            std::mem::swap(&mut bl, &mut bh);
        }
        if !bl.d().is_finite() || !bh.d().is_finite() {
            return;
        }
    }
    cx.sample(|| format!("{} a=[{al:?},{ah:?}] b=[{bl:?},{bh:?}]", F::NAME));
    sets(cx, al, ah, bl, bh);
}
pub fn conv<F: LF>(cx: &mut Ctx) {
    let x: F = cx.rng.hostile();
    let y: F = cx.rng.hostile();
    let (lo, hi) = if x <= y { (x, y) } else { (y, x) };
    let i = Iv::<F>::from(x);
    cx.check("from-scalar", i.inf == x && i.sup == x, || format!("from({x:?}) = {i:?}"));
    let i = Iv::<F>::from((lo, hi));
    cx.check("from-pair", i.inf == lo && i.sup == hi, || format!("from(({lo:?},{hi:?})) = {i:?}"));
    // conversions contain what they convert
    let d: f64 = match cx.rng.below(3) {
        0 => cx.rng.hostile::<f64>(),
        1 => cx.rng.hostile::<f32>() as f64,
        _ => cx.rng.uni(-1e6, 1e6),
    };
    if d.abs() <= F::MAXV {
        let i = <Iv<F> as GFloat>::from_f64(d);
        cx.check("from_f64", i.inf <= i.sup && i.inf.d() <= d && i.sup.d() >= d, || format!("{} from_f64({d:?}) = {i:?}", F::NAME));
        cx.check("from_f64-tight", up2(i.inf) >= d && down2(i.sup) <= d, || format!("{} from_f64({d:?}) = {i:?}", F::NAME));
    }
    let f: f32 = cx.rng.hostile();
    let i = <Iv<F> as GFloat>::from_f32(f);
    cx.check("from_f32", i.inf.d() == f as f64 && i.sup.d() == f as f64, || format!("{} from_f32({f:?}) = {i:?}", F::NAME));
    let n: i64 = match cx.rng.below(4) {
        0 => cx.rng.raw() as i64,
        1 => (cx.rng.raw() as i64) >> cx.rng.below(63),
        2 => cx.rng.pick(&[i64::MAX, i64::MIN, 0, -1, 1, 1 << 24, (1 << 24) + 1, (1 << 53) + 1]),
        _ => cx.rng.int(-100, 100),
    };
    let i = <Iv<F> as GFloat>::from_i64(n);
    let le = |b: F| -> i32 {
        // exact comparison of a finite float with an i64
        let v = b.d();
        let (hi, lo) = ((n >> 32) as f64, (n & 0xffff_ffff) as f64);
        sign_sum(&[(v, 1.0), (-hi, 4294967296.0), (-lo, 1.0)])
    };
    cx.check("from_i64", i.inf <= i.sup && le(i.inf) <= 0 && le(i.sup) >= 0, || format!("{} from_i64({n}) = {i:?}", F::NAME));
    cx.sample(|| format!("{} from_f64({d:?}) from_i64({n})", F::NAME));
    // special values
    let nan = <Iv<F> as GFloat>::nan();
    cx.check("nan", GFloat::is_nan(nan) && !GFloat::is_finite(nan), || format!("nan = {nan:?}"));
    let (pi, ni, nz, mp) = (<Iv<F> as GFloat>::infinity(), <Iv<F> as GFloat>::neg_infinity(), <Iv<F> as GFloat>::neg_zero(), <Iv<F> as GFloat>::min_positive_value());
    let minpos = if F::EPS > 1e-10 { f32::MIN_POSITIVE as f64 } else { f64::MIN_POSITIVE };
    cx.check(
        "specials",
        pi.inf.d() == f64::INFINITY && pi.sup.d() == f64::INFINITY && ni.inf.d() == f64::NEG_INFINITY && ni.sup.d() == f64::NEG_INFINITY && nz.inf.d() == 0.0 && nz.sup.d() == 0.0 && mp.inf.d() == minpos && mp.sup.d() == minpos,
        || format!("{pi:?} {ni:?} {nz:?} {mp:?}"),
    );
    let (l, h) = (<Iv<F> as Scalar>::lowest(), <Iv<F> as Scalar>::highest());
    cx.check("extremes", l.inf.d() == -F::MAXV && l.sup.d() == -F::MAXV && h.inf.d() == F::MAXV && h.sup.d() == F::MAXV, || format!("{l:?} {h:?}"));
    let (ae, re) = (<Iv<F> as GFloat>::abs_epsilon(), <Iv<F> as GFloat>::rel_epsilon());
    cx.check("epsilons", ae.inf == F::abs_epsilon() && ae.sup == F::abs_epsilon() && re.inf == F::rel_epsilon() && re.sup == F::rel_epsilon(), || format!("{ae:?} {re:?}"));
}
fn into_scalar(cx: &mut Ctx) {
    let (a, b) = gen_iv::<f32>(&mut cx.rng);
    if a.abs() < 1e38 && b.abs() < 1e38 {
        let v: f32 = Interval::new(a, b).into();
        cx.check("into-f32", v >= a && v <= b && (v as f64 - (a as f64 + b as f64) / 2.0).abs() <= 1e-6 * v.abs() as f64 + 1e-44, || format!("[{a},{b}] into f32 = {v}"));
    }
    let (a, b) = gen_iv::<f64>(&mut cx.rng);
    if a.abs() < 1e307 && b.abs() < 1e307 {
        let v: f64 = Interval::new(a, b).into();
        cx.check("into-f64", v >= a && v <= b && (v - (a * 0.5 + b * 0.5)).abs() <= 1e-15 * v.abs() + 1e-322, || format!("[{a},{b}] into f64 = {v}"));
    }
    cx.sample(|| format!("[{a},{b}]"));
}

pub fn sections() -> Vec<(&'static str, Vec<Section>)> {
    vec![
        (
            "C01",
            vec![
                Section { name: "arith-f32", rule: "two hostile f32 intervals (signs, zeros, subnormals, overflow, degenerate); exact sign-of-sum-of-products oracle on all corners and sampled members of + - * / neg and in-place forms", quick: 1_500_000, thorough: 60_000_000, exhaustive: false, need: &["add", "sub", "mul", "div", "div-by-zero", "tight"], run: arith::<f32> },
                Section { name: "arith-f64", rule: "as arith-f32 over f64", quick: 1_500_000, thorough: 60_000_000, exhaustive: false, need: &["add", "sub", "mul", "div", "div-by-zero", "tight"], run: arith::<f64> },
                Section { name: "scalar-f32", rule: "hostile f32 interval with hostile scalar, exact oracle", quick: 1_500_000, thorough: 60_000_000, exhaustive: false, need: &["add-scalar", "mul-scalar", "div-scalar"], run: arith_scalar::<f32> },
                Section { name: "scalar-f64", rule: "hostile f64 interval with hostile scalar, exact oracle", quick: 1_000_000, thorough: 40_000_000, exhaustive: false, need: &["add-scalar", "mul-scalar", "div-scalar"], run: arith_scalar::<f64> },
                Section { name: "unary-f32", rule: "square and square root of hostile f32 intervals, exact oracle", quick: 1_500_000, thorough: 60_000_000, exhaustive: false, need: &["square", "sqrt", "tight"], run: unary::<f32> },
                Section { name: "unary-f64", rule: "square and square root of hostile f64 intervals, exact oracle", quick: 1_000_000, thorough: 40_000_000, exhaustive: false, need: &["square", "sqrt", "tight"], run: unary::<f64> },
                Section { name: "program-f32", rule: "random straight-line programs over f32 intervals, each step checked against a double evaluation at sampled members with a running error bound", quick: 400_000, thorough: 20_000_000, exhaustive: false, need: &["program-step"], run: program::<f32> },
                Section { name: "program-f64", rule: "random straight-line programs over f64 intervals", quick: 300_000, thorough: 15_000_000, exhaustive: false, need: &["program-step"], run: program::<f64> },
            ],
        ),
        (
            "C02",
            vec![
                Section { name: "trig-f32", rule: "f32 intervals of widths 0..20 anchored at zeros, multiples of pi/2 and up to 1e8; sin/cos/tan at endpoints, critical points and samples in double precision", quick: 1_500_000, thorough: 60_000_000, exhaustive: false, need: &["sin", "cos", "tan", "trig-tight"], run: trig::<f32> },
                Section { name: "trig-f64", rule: "as trig-f32 over f64", quick: 1_000_000, thorough: 40_000_000, exhaustive: false, need: &["sin", "cos", "tan", "trig-tight"], run: trig::<f64> },
                Section { name: "arc-f32", rule: "f32 sub-intervals of [-1,1] (and any interval for atan); asin/acos/atan at endpoints and samples", quick: 1_500_000, thorough: 60_000_000, exhaustive: false, need: &["asin", "acos", "atan", "arc-tight"], run: arc::<f32> },
                Section { name: "arc-f64", rule: "as arc-f32 over f64", quick: 1_000_000, thorough: 40_000_000, exhaustive: false, need: &["asin", "acos", "atan"], run: arc::<f64> },
                Section { name: "atan2-f32", rule: "boxes in all quadrants, straddling, degenerate, with zero endpoints; member grid against double atan2", quick: 1_500_000, thorough: 60_000_000, exhaustive: false, need: &["atan2", "atan2-tight"], run: atan2::<f32> },
                Section { name: "atan2-f64", rule: "as atan2-f32 over f64", quick: 1_000_000, thorough: 40_000_000, exhaustive: false, need: &["atan2", "atan2-tight"], run: atan2::<f64> },
                Section { name: "points-f32", rule: "256 hostile f32 values per case as degenerate intervals through sin cos atan asin acos sqrt", quick: 20_000, thorough: 20_000, exhaustive: false, need: &["sweep-point"], run: unary_points },
                Section { name: "landmarks-f32", rule: "arguments whose exact value is a multiple of pi/4 (asin, acos, atan, atan2 at any scale), decided to the last ulp", quick: 20_000, thorough: 1_000_000, exhaustive: false, need: &["landmark", "landmark-extremum"], run: landmarks::<f32> },
                Section { name: "landmarks-f64", rule: "as landmarks-f32 over f64, against pi to 107 bits", quick: 20_000, thorough: 1_000_000, exhaustive: false, need: &["landmark", "landmark-extremum"], run: landmarks::<f64> },
                Section { name: "constants", rule: "pi brackets, scalar and interval, both precisions", quick: 1, thorough: 1, exhaustive: true, need: &["const-bracket"], run: |cx| { constants::<f32>(cx); constants::<f64>(cx); cx.sample(|| format!("f32 pi in [{:?},{:?}]", f32::pi_lower(), f32::pi_upper())) } },
                Section { name: "sweep-f32", rule: "every finite f32 (all 2^32 patterns, 4096 per case) as a degenerate interval through sin cos atan asin acos sqrt; thorough tier only covers all of them", quick: 512, thorough: 1 << 20, exhaustive: true, need: &["sweep-point"], run: unary_sweep },
            ],
        ),
        (
            "C03",
            vec![
                Section { name: "grid", rule: "all pairs of intervals with endpoints in {-inf,-2,-1,-0,0,0.5,1,2,inf}, f32 and f64", quick: 6561, thorough: 6561, exhaustive: true, need: &["partial_cmp", "intersect", "union", "abs", "classify", "min_max", "clamp", "signum", "in_range-generic"], run: sets_grid },
                Section { name: "random-f32", rule: "hostile f32 interval pairs, sharing or abutting bounds one time in four", quick: 1_000_000, thorough: 40_000_000, exhaustive: false, need: &["partial_cmp", "midpoint", "map-inc", "almost_eq"], run: sets_rand::<f32> },
                Section { name: "random-f64", rule: "hostile f64 interval pairs", quick: 700_000, thorough: 30_000_000, exhaustive: false, need: &["partial_cmp", "midpoint", "map-inc", "almost_eq"], run: sets_rand::<f64> },
                Section { name: "conv-f32", rule: "conversions into f32 intervals and special values", quick: 500_000, thorough: 20_000_000, exhaustive: false, need: &["from_f64", "from_i64"], run: conv::<f32> },
                Section { name: "conv-f64", rule: "conversions into f64 intervals and special values", quick: 500_000, thorough: 20_000_000, exhaustive: false, need: &["from_f64", "from_i64"], run: conv::<f64> },
                Section { name: "into-scalar", rule: "conversion of intervals to plain floats", quick: 200_000, thorough: 5_000_000, exhaustive: false, need: &["into-f32", "into-f64"], run: into_scalar },
            ],
        ),
    ]
}
