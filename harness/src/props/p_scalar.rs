//! C04 scalar contract
use super::LF;
use crate::fw::{Ctx, Section};
use crate::num::*;
use scarlet::math::scalar::{AlmostEqual, GFloat, Scalar, SignedScalar};
use scarlet::math::transform::{Invertible, Matrix4x4, Transform};
use scarlet::math::vector::{Normal, Normal3, Point, Vector, Point2, Point3, Vector2, Vector3, Vector4};

const BLK: u64 = 1 << 16;
fn adj32(cx: &mut Ctx) {
    let base = (cx.index * BLK) as u32;
    let mut bad = None;
    for k in 0..BLK as u32 {
        let x = f32::from_bits(base.wrapping_add(k));
        let (u, d) = (GFloat::next_up(x), GFloat::next_down(x));
        let ok = if x != x {
            u != u && d != d
        } else {
            u.to_bits() == x.up().to_bits() && d.to_bits() == x.down().to_bits()
        };
        if !ok {
            bad = Some((x, u, d));
        }
    }
    cx.sample(|| format!("bit patterns {base:#x}..+{BLK}"));
    cx.evn("adjacent-f32", BLK);
    if let Some((x, u, d)) = bad {
        cx.fail("adjacent-f32", format!("f32 {x:?} ({:#x}): next_up={u:?} next_down={d:?}", x.to_bits()));
    }
}
fn adj64(cx: &mut Ctx) {
    for _ in 0..64 {
        let x = match cx.rng.below(6) {
            0 => f64::from_bits(cx.rng.raw()),
            1 => {
                let e = cx.rng.below(2048) << 52;
                let m = if cx.rng.chance(1, 2) { (1u64 << 52) - 1 } else { 0 };
                let s = cx.rng.below(2) << 63;
                f64::from_bits(s | e | m)
            }
            2 => cx.rng.pick(&[f64::INFINITY, f64::NEG_INFINITY, f64::NAN, 0.0, -0.0, f64::MAX, f64::MIN, f64::MIN_POSITIVE, -f64::MIN_POSITIVE, 5e-324, -5e-324]),
            _ => cx.rng.hostile::<f64>(),
        };
        cx.rng.fold(x.to_bits());
        let (u, d) = (GFloat::next_up(x), GFloat::next_down(x));
        let ok = if x != x { u != u && d != d } else { u.to_bits() == x.up().to_bits() && d.to_bits() == x.down().to_bits() };
        cx.check("adjacent-f64", ok, || format!("f64 {x:?} ({:#x}): next_up={u:?} next_down={d:?}", x.to_bits()));
        cx.sample(|| format!("{x:?} -> {u:?}"));
    }
}

// --------------------------------------------------------------- ordering helpers
fn order<T: Scalar + std::fmt::Debug>(cx: &mut Ctx, a: T, b: T, c: T) {
    let sh = |w: &str| format!("{w}: a={a:?} b={b:?} c={c:?}");
    let (lt, gt) = (a < b, a > b);
    let mn = if gt { b } else { a };
    let mx = if lt { b } else { a };
    cx.check("min-max", Scalar::min(a, b) == mn && Scalar::max(a, b) == mx && Scalar::min(b, a) == mn && Scalar::max(b, a) == mx, || sh("min/max"));
    let mm = T::min_max(a, b);
    cx.check("min-max-pair", mm.0 == mn && mm.1 == mx, || sh("min_max"));
    let (lo, hi) = (mn, mx);
    let want = if c < lo {
        lo
    } else if c > hi {
        hi
    } else {
        c
    };
    cx.check("clamp", Scalar::clamp(c, lo, hi) == want, || format!("{} clamp={:?}", sh("clamp"), Scalar::clamp(c, lo, hi)));
    cx.check("in_range", Scalar::in_range(c, lo, hi) == (c >= lo && c <= hi), || sh("in_range"));
    cx.check("unit-tests", Scalar::is_zero(a) == (a == T::zero()) && Scalar::is_one(a) == (a == T::one()), || sh("is_zero/is_one"));
}
fn signs<T: SignedScalar + std::fmt::Debug>(cx: &mut Ctx, a: T, zero: T, one: T) {
    let (p, n) = (a > zero, a < zero);
    let sg = if p {
        one
    } else if n {
        -one
    } else {
        zero
    };
    let ok = SignedScalar::is_positive(a) == p
        && SignedScalar::is_negative(a) == n
        && SignedScalar::is_nonpositive(a) == (a <= zero)
        && SignedScalar::is_nonnegative(a) == (a >= zero)
        && SignedScalar::signum(a) == sg
        && SignedScalar::abs(a) == if n { -a } else { a };
    cx.check("signs", ok, || format!("{a:?}: pos={} neg={} nonpos={} nonneg={} signum={:?} abs={:?}", SignedScalar::is_positive(a), SignedScalar::is_negative(a), SignedScalar::is_nonpositive(a), SignedScalar::is_nonnegative(a), SignedScalar::signum(a), SignedScalar::abs(a)));
}
macro_rules! ints {
    ($name:ident, $t:ty, $signed:expr) => {
        fn $name(cx: &mut Ctx, a: $t, b: $t, c: $t) {
            order(cx, a, b, c);
            let ok = <$t as Scalar>::zero() == 0 && <$t as Scalar>::one() == 1 && <$t as Scalar>::two() == 2 && <$t as Scalar>::lowest() == <$t>::MIN && <$t as Scalar>::highest() == <$t>::MAX;
            cx.check("int-consts", ok, || format!("{} zero/one/two/lowest/highest", stringify!($t)));
            if let Some(s) = a.checked_mul(a) {
                cx.check("int-square", Scalar::square(a) == s, || format!("{a}^2"));
            }
            cx.check("int-almost_eq", AlmostEqual::almost_eq(a, b) == (a == b) && AlmostEqual::almost_eq(a, a), || format!("{} almost_eq({a},{b})", stringify!($t)));
        }
    };
}
ints!(iu8, u8, false);
ints!(iu16, u16, false);
ints!(iu32, u32, false);
ints!(iu64, u64, false);
ints!(ii8, i8, true);
ints!(ii16, i16, true);
ints!(ii32, i32, true);
ints!(ii64, i64, true);

fn ints8(cx: &mut Ctx) {
    let (a, b) = ((cx.index & 255) as u8, (cx.index >> 8) as u8);
    for c in (0..=255u8).step_by(5) {
        iu8(cx, a, b, c);
        ii8(cx, a as i8, b as i8, c as i8);
    }
    if a as i8 != i8::MIN {
        signs(cx, a as i8, 0, 1);
    }
    cx.sample(|| format!("a={a} b={b}"));
}
fn intsw(cx: &mut Ctx) {
    let g = |cx: &mut Ctx| -> u64 {
        match cx.rng.below(4) {
            0 => cx.rng.raw(),
            1 => cx.rng.raw() >> cx.rng.below(64),
            2 => (cx.rng.int(-5, 5)) as u64,
            _ => cx.rng.pick(&[0, 1, 2, u64::MAX, i64::MAX as u64, i64::MIN as u64, i32::MAX as u64, i32::MIN as u64, u32::MAX as u64, i16::MAX as u64, u16::MAX as u64, 32768]),
        }
    };
    let (a, b, c) = (g(cx), g(cx), g(cx));
    let b = if cx.rng.chance(1, 6) { a } else { b };
    cx.rng.fold(a);
    cx.rng.fold(b);
    cx.rng.fold(c);
    iu16(cx, a as u16, b as u16, c as u16);
    iu32(cx, a as u32, b as u32, c as u32);
    iu64(cx, a, b, c);
    ii16(cx, a as i16, b as i16, c as i16);
    ii32(cx, a as i32, b as i32, c as i32);
    ii64(cx, a as i64, b as i64, c as i64);
    if a as i16 != i16::MIN {
        signs(cx, a as i16, 0, 1);
    }
    if a as i32 != i32::MIN {
        signs(cx, a as i32, 0, 1);
    }
    if a as i64 != i64::MIN {
        signs(cx, a as i64, 0, 1);
    }
    cx.sample(|| format!("{a} {b} {c}"));
}
fn any<F: LF>(cx: &mut Ctx) -> F {
    match cx.rng.below(12) {
        0 => F::of(f64::INFINITY),
        1 => F::of(f64::NEG_INFINITY),
        _ => cx.rng.hostile(),
    }
}
fn floats<F: LF>(cx: &mut Ctx) {
    let (a, mut b, c): (F, F, F) = (any(cx), any(cx), any(cx));
    if cx.rng.chance(1, 8) {
        b = a;
    }
    cx.sample(|| format!("{} {a:?} {b:?} {c:?}", F::NAME));
    order(cx, a, b, c);
    let z = F::of(0.0);
    signs(cx, a, z, F::of(1.0));
    let inf = a.d().is_infinite();
    cx.check("classify", GFloat::is_finite(a) == !inf && GFloat::is_infinite(a) == inf && !GFloat::is_nan(a), || {
        format!("{} {a:?} finite={} infinite={} nan={}", F::NAME, GFloat::is_finite(a), GFloat::is_infinite(a), GFloat::is_nan(a))
    });
    let nan = <F as GFloat>::nan();
    cx.check("classify-nan", nan.isnan() && GFloat::is_nan(nan) && !GFloat::is_finite(nan) && !GFloat::is_infinite(nan), || format!("{} NaN classification", F::NAME));
    let sq = Scalar::square(a);
    cx.check("square", (sq.d() == F::of(a.d()).d() * a.d() || sq.d() == (a * a).d()) || sq.isnan(), || format!("{a:?}^2={sq:?}"));
    // conversions
    cx.check("to-float", a.to_f64() == a.d() && a.to_f32() == a.d() as f32 && a.to_i64() == a.d() as i64, || format!("{} {a:?} to_f64={} to_f32={} to_i64={}", F::NAME, a.to_f64(), a.to_f32(), a.to_i64()));
    let d: f64 = cx.rng.hostile();
    let f: f32 = cx.rng.hostile();
    let n = (cx.rng.raw() as i64) >> cx.rng.below(64);
    cx.rng.fold(n as u64);
    cx.check("from-float", F::from_f64(d).bits64() == F::of(d).bits64() && F::from_f32(f).d() == f as f64, || format!("{} from {d:?} {f:?}", F::NAME));
    let fi = F::from_i64(n);
    // nearest representable value: neither neighbour is closer (exact comparison)
    let (hi, lo) = ((n >> 32) as f64, (n & 0xffff_ffff) as f64);
    let cmp = |x: F, y: F| sign_sum(&[(x.d(), 0.5), (y.d(), 0.5), (-hi, 4294967296.0), (-lo, 1.0)]); // midpoint vs n
    cx.check("from-int", cmp(fi, fi.up()) >= 0 && cmp(fi, fi.down()) <= 0, || format!("{} from_i64({n}) = {fi:?}", F::NAME));
    // elementary functions against the double libm
    let x = if a.d().is_finite() { a } else { F::of(0.25) };
    let y = if b.d().is_finite() { b } else { F::of(-0.5) };
    let close = |r: F, v: f64| (r.isnan() && v.is_nan()) || r.d() == v || r.d() == F::of(v).d() || (r.d() - v).abs() <= 4.0 * F::EPS * v.abs() + 2.0 * z.up().d();
    let chk = [
        ("sqrt", GFloat::sqrt(x), x.d().sqrt()),
        ("sin", GFloat::sin(x), x.d().sin()),
        ("cos", GFloat::cos(x), x.d().cos()),
        ("atan", GFloat::atan(x), x.d().atan()),
        ("atan2", GFloat::atan2(x, y), x.d().atan2(y.d())),
        ("asin", GFloat::asin(x), x.d().asin()),
        ("acos", GFloat::acos(x), x.d().acos()),
        ("recip", GFloat::recip(x), 1.0 / x.d()),
        ("sin_cos.0", GFloat::sin_cos(x).0, x.d().sin()),
        ("sin_cos.1", GFloat::sin_cos(x).1, x.d().cos()),
    ];
    for (nm, r, v) in chk {
        cx.check("elementary", close(r, v), || format!("{} {nm}({x:?},{y:?}) = {r:?}, expected {v:?}", F::NAME));
    }
    let t = x.d().tan();
    let r = GFloat::tan(x);
    cx.check("elementary", close(r, t), || format!("{} tan({x:?}) = {r:?}, expected {t:?}", F::NAME));
}
fn consts<F: LF>(cx: &mut Ctx) {
    use std::f64::consts::*;
    let near = |x: F, v: f64| x.d() == F::of(v).d();
    let minpos = if F::EPS > 1e-10 { f32::MIN_POSITIVE as f64 } else { f64::MIN_POSITIVE };
    let l: Vec<(&str, bool)> = vec![
        ("zero", F::zero().d() == 0.0),
        ("one", F::one().d() == 1.0),
        ("two", F::two().d() == 2.0),
        ("half", F::half().d() == 0.5),
        ("lowest", F::lowest().d() == -F::MAXV),
        ("highest", F::highest().d() == F::MAXV),
        ("infinity", F::infinity().d() == f64::INFINITY),
        ("neg_infinity", F::neg_infinity().d() == f64::NEG_INFINITY),
        ("neg_zero", F::neg_zero().d() == 0.0 && F::neg_zero().d().is_sign_negative()),
        ("min_positive", F::min_positive_value().d() == minpos),
        ("pi", near(F::pi(), PI)),
        ("tau", near(F::tau(), TAU)),
        ("frac_pi_2", near(F::frac_pi_2(), FRAC_PI_2)),
        ("frac_pi_4", near(F::frac_pi_4(), FRAC_PI_4)),
        ("abs_epsilon", near(F::abs_epsilon(), 1e-6)),
        ("rel_epsilon", near(F::rel_epsilon(), if F::EPS > 1e-10 { 1e-4 } else { 1e-6 })),
    ];
    for (n, ok) in l {
        cx.check("const", ok, || format!("{} constant {n}", F::NAME));
    }
}
/// what the contract says about tolerant equality; None within rounding of a threshold
fn feq<F: LF>(a: f64, b: f64) -> Option<bool> {
    let diff = (a - b).abs();
    let rel = if F::EPS > 1e-10 { 1e-4 } else { 1e-6 };
    let big = a.abs().max(b.abs());
    let m = 8.0 * F::EPS;
    let lt = |x: f64, t: f64| -> Option<bool> {
        if x < t * (1.0 - m) {
            Some(true)
        } else if x > t * (1.0 + m) {
            Some(false)
        } else {
            None
        }
    };
    match (lt(diff, 1e-6), lt(diff, big * rel)) {
        (Some(true), _) | (_, Some(true)) => Some(true),
        (Some(false), Some(false)) => Some(false),
        _ => None,
    }
}
fn near_pair<F: LF>(cx: &mut Ctx) -> (F, F) {
    let mut a: F = cx.rng.hostile();
    if a.d().abs() > F::MAXV / 4.0 {
        a = F::of(3.5);
    }
    let rel = if F::EPS > 1e-10 { 1e-4 } else { 1e-6 };
    let b = match cx.rng.below(7) {
        0 => a,
        1 => F::of(a.d() + 1e-6 * cx.rng.uni(0.9, 1.1) * cx.rng.sign()),
        2 => F::of(a.d() * (1.0 + rel * cx.rng.uni(0.9, 1.1) * cx.rng.sign())),
        3 => F::of(a.d() * (1.0 + rel * cx.rng.uni(0.0, 3.0) * cx.rng.sign())),
        4 => F::of(-a.d()),
        5 => F::of(a.d() + cx.rng.log(1e-9, 1e-3) * cx.rng.sign()),
        _ => {
            let b: F = cx.rng.hostile();
            if b.d().abs() > F::MAXV / 4.0 {
                F::of(1.0)
            } else {
                b
            }
        }
    };
    (a, b)
}
fn tolerant<F: LF>(cx: &mut Ctx) {
    for _ in 0..4 {
        let (a, b) = near_pair::<F>(cx);
        let (r, s, t) = (a.fequals(b), b.fequals(a), AlmostEqual::almost_eq(a, b));
        cx.check("fequals-symmetric", r == s && r == t, || format!("{} fequals({a:?},{b:?})={r} swapped={s} almost_eq={t}", F::NAME));
        // reflexivity is only promised where the definition promises it: the difference is 0 < 1e-6
        cx.check("fequals-reflexive", a.fequals(a), || format!("{} fequals({a:?},{a:?})", F::NAME));
        match feq::<F>(a.d(), b.d()) {
            Some(w) => {
                cx.check(if w { "fequals-equal" } else { "fequals-different" }, r == w, || format!("{} fequals({a:?},{b:?})={r}, contract says {w}", F::NAME));
            }
            None => cx.und("at-threshold"),
        }
        cx.sample(|| format!("{} {a:?} ~ {b:?} -> {r}", F::NAME));
    }
}
fn containers<F: LF>(cx: &mut Ctx) {
    // base values and perturbations that are clearly equal or clearly different, per component
    let mut a = [F::of(0.0); 32];
    let mut b = a;
    let mut eq = [true; 32];
    let sparse = cx.rng.below(3);
    for i in 0..32 {
        let v = F::of(cx.rng.modr());
        let (w, e) = match if sparse == 0 { 0 } else { cx.rng.below(if sparse == 1 { 24 } else { 4 }) } {
            1 => (F::of(v.d() + (0.01 + v.d().abs() * 0.01) * cx.rng.sign()), false),
            2 => (F::of(v.d() * (1.0 + 1e-7)), true),
            3 => (F::of(v.d() + 3e-7 * cx.rng.sign()), true),
            _ => (v, true),
        };
        a[i] = v;
        b[i] = w;
        eq[i] = e;
        if feq::<F>(v.d(), w.d()) != Some(e) {
            b[i] = v;
            eq[i] = true;
        }
    }
    if sparse == 0 {
        // exactly one differing component, anywhere
        let i = cx.rng.us(32);
        b[i] = F::of(a[i].d() + (0.01 + a[i].d().abs() * 0.01) * cx.rng.sign());
        eq[i] = false;
    }
    let all = |r: std::ops::Range<usize>| eq[r].iter().all(|x| *x);
    macro_rules! v {
        ($n:expr,$t:ty,$k:expr) => {{
            let x = <$t>::from(<[F; $k]>::try_from(&a[..$k]).unwrap());
            let y = <$t>::from(<[F; $k]>::try_from(&b[..$k]).unwrap());
            let w = all(0..$k);
            cx.check(if w { "container-equal" } else { "container-different" }, x.almost_eq(y) == w, || format!("{} {} {x:?} ~ {y:?} should be {w}", F::NAME, $n));
        }};
    }
    v!("Vector2", Vector2<F>, 2);
    v!("Point2", Point2<F>, 2);
    v!("Vector3", Vector3<F>, 3);
    v!("Point3", Point3<F>, 3);
    v!("Normal3", Normal3<F>, 3);
    v!("Vector4", Vector4<F>, 4);
    v!("Vector1", Vector<F, 1>, 1);
    v!("Point5", Point<F, 5>, 5);
    v!("Vector7", Vector<F, 7>, 7);
    v!("Normal9", Normal<F, 9>, 9);
    v!("Vector32", Vector<F, 32>, 32);
    let m = |s: &[F; 32], o: usize| {
        let mut d = [[F::of(0.0); 4]; 4];
        for i in 0..16 {
            d[i / 4][i % 4] = s[o + i];
        }
        Matrix4x4::from(d)
    };
    let (m0, m1, n0, n1) = (m(&a, 0), m(&b, 0), m(&a, 16), m(&b, 16));
    let w = all(0..16);
    cx.check(if w { "matrix-equal" } else { "matrix-different" }, m0.almost_eq(m1) == w, || format!("{} {m0:?} ~ {m1:?} should be {w}", F::NAME));
    let (t0, t1) = (Transform::new(m0, n0), Transform::new(m1, n1));
    let w = all(0..32);
    cx.check(if w { "transform-equal" } else { "transform-different" }, t0.almost_eq(t1) == w && t0.inverse().almost_eq(t1.inverse()) == w, || format!("{} {t0:?} ~ {t1:?} should be {w}", F::NAME));
    cx.sample(|| format!("{} {m0:?} ~ {m1:?}", F::NAME));
}

pub fn sections() -> Vec<(&'static str, Vec<Section>)> {
    vec![(
        "C04",
        vec![
            Section { name: "adjacent-f32", rule: "every one of the 2^32 f32 bit patterns, 65536 per case, next_up/next_down against an independent bit-level definition", quick: 65536, thorough: 65536, exhaustive: true, need: &["adjacent-f32"], run: adj32 },
            Section { name: "adjacent-f64", rule: "64 f64 values per case: random patterns, every binade edge, specials", quick: 60_000, thorough: 2_000_000, exhaustive: false, need: &["adjacent-f64"], run: adj64 },
            Section { name: "ints8", rule: "all pairs of 8-bit values (signed and unsigned), 52 third operands", quick: 65536, thorough: 65536, exhaustive: true, need: &["min-max", "clamp", "signs", "int-square"], run: ints8 },
            Section { name: "ints", rule: "random, small and extreme 16/32/64-bit triples", quick: 300_000, thorough: 10_000_000, exhaustive: false, need: &["min-max", "clamp", "signs", "int-square", "int-almost_eq"], run: intsw },
            Section { name: "floats-f32", rule: "hostile f32 triples incl. infinities: ordering helpers, signs, classification, conversions, elementary functions", quick: 500_000, thorough: 30_000_000, exhaustive: false, need: &["clamp", "signs", "classify", "from-int", "elementary"], run: floats::<f32> },
            Section { name: "floats-f64", rule: "as floats-f32 over f64", quick: 400_000, thorough: 20_000_000, exhaustive: false, need: &["clamp", "signs", "classify", "from-int", "elementary"], run: floats::<f64> },
            Section { name: "consts", rule: "all scalar constants, both precisions", quick: 1, thorough: 1, exhaustive: true, need: &["const"], run: |cx| { consts::<f32>(cx); consts::<f64>(cx); cx.sample(|| "constants".into()) } },
            Section { name: "tolerant-f32", rule: "pairs around both thresholds, mirrored, equal, far; symmetric, reflexive, agrees with the contract", quick: 600_000, thorough: 30_000_000, exhaustive: false, need: &["fequals-equal", "fequals-different", "fequals-symmetric"], run: tolerant::<f32> },
            Section { name: "tolerant-f64", rule: "as tolerant-f32 over f64", quick: 500_000, thorough: 20_000_000, exhaustive: false, need: &["fequals-equal", "fequals-different", "fequals-symmetric"], run: tolerant::<f64> },
            Section { name: "interval-f32", rule: "intervals as a scalar type: ordering helpers, signs, classification, stepping, clamping, tolerant equality (as C03 random-f32)", quick: 300_000, thorough: 10_000_000, exhaustive: false, need: &["signs", "clamp", "classify", "almost_eq", "almost_eq-scalar"], run: super::p_interval::sets_rand::<f32> },
            Section { name: "interval-f64", rule: "as interval-f32 over f64", quick: 200_000, thorough: 8_000_000, exhaustive: false, need: &["signs", "clamp", "classify", "almost_eq", "almost_eq-scalar"], run: super::p_interval::sets_rand::<f64> },
            Section { name: "interval-conv-f32", rule: "conversions and constants of intervals as a scalar type", quick: 150_000, thorough: 5_000_000, exhaustive: false, need: &["from_f64", "from_i64"], run: super::p_interval::conv::<f32> },
            Section { name: "interval-conv-f64", rule: "as interval-conv-f32 over f64", quick: 100_000, thorough: 5_000_000, exhaustive: false, need: &["from_f64", "from_i64"], run: super::p_interval::conv::<f64> },
            Section { name: "containers-f32", rule: "vectors, points, normals, matrices, transforms with none, one or several components perturbed", quick: 300_000, thorough: 10_000_000, exhaustive: false, need: &["container-equal", "container-different", "matrix-equal", "matrix-different", "transform-equal", "transform-different"], run: containers::<f32> },
            Section { name: "containers-f64", rule: "as containers-f32 over f64", quick: 200_000, thorough: 8_000_000, exhaustive: false, need: &["container-equal", "container-different", "matrix-equal", "matrix-different", "transform-equal", "transform-different"], run: containers::<f64> },
        ],
    )]
}
