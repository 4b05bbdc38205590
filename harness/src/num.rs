//! Numeric toolkit of the oracles. Nothing here calls the library under test.
use crate::fw::Rng;

pub trait Fl: Copy + PartialOrd + std::fmt::Debug + std::fmt::Display + Send + Sync + 'static {
    const EPS: f64; // unit roundoff (half ulp of 1)
    const NAME: &'static str;
    const MAXV: f64;
    fn d(self) -> f64;
    fn of(x: f64) -> Self;
    fn up(self) -> Self;
    fn down(self) -> Self;
    fn isnan(self) -> bool;
    fn bits64(self) -> u64;
    fn from_raw(r: u64) -> Self;
}
macro_rules! fl {
    ($t:ty,$b:ty,$eps:expr,$name:expr,$sign:expr) => {
        impl Fl for $t {
            const EPS: f64 = $eps;
            const NAME: &'static str = $name;
            const MAXV: f64 = <$t>::MAX as f64;
            #[inline]
            fn d(self) -> f64 {
                self as f64
            }
            #[inline]
            fn of(x: f64) -> Self {
                x as $t
            }
            fn up(self) -> Self {
                let b = self.to_bits();
                if self != self || self == <$t>::INFINITY {
                    self
                } else if self == 0.0 {
                    <$t>::from_bits(1)
                } else if self > 0.0 {
                    <$t>::from_bits(b + 1)
                } else {
                    <$t>::from_bits(b - 1)
                }
            }
            fn down(self) -> Self {
                -((-self).up())
            }
            fn isnan(self) -> bool {
                self != self
            }
            fn bits64(self) -> u64 {
                self.to_bits() as u64
            }
            fn from_raw(r: u64) -> Self {
                <$t>::from_bits(r as $b)
            }
        }
    };
}
fl!(f32, u32, 5.9604644775390625e-8, "f32", 31);
fl!(f64, u64, 1.1102230246251565e-16, "f64", 63);

fn decompose(x: f64) -> (bool, u64, i32) {
    let b = x.to_bits();
    let neg = b >> 63 != 0;
    let e = ((b >> 52) & 0x7ff) as i32;
    let m = b & ((1u64 << 52) - 1);
    if e == 0 {
        (neg, m, -1074)
    } else {
        (neg, m | (1 << 52), e - 1075)
    }
}

/// exact sign of sum of a*b over the terms; all finite
pub fn sign_sum(terms: &[(f64, f64)]) -> i32 {
    // fast path with a generous error bound
    let (mut s, mut mag) = (0.0f64, 0.0f64);
    for &(a, b) in terms {
        let p = a * b;
        s += p;
        mag += p.abs();
    }
    if mag.is_finite() && mag > 1e-250 && s.abs() > 1e-13 * terms.len() as f64 * mag {
        return if s > 0.0 { 1 } else { -1 };
    }
    const L: usize = 144;
    let mut acc = [0i64; L];
    for &(a, b) in terms {
        assert!(a.is_finite() && b.is_finite());
        let (na, ma, ea) = decompose(a);
        let (nb, mb, eb) = decompose(b);
        if ma == 0 || mb == 0 {
            continue;
        }
        let m = ma as u128 * mb as u128;
        let sh = (ea + eb + 2148) as usize;
        let (k, off) = (sh / 32, sh % 32);
        let neg = na != nb;
        for j in 0..4 {
            let c = ((m >> (32 * j)) & 0xffff_ffff) as u64;
            let v = c << off;
            let lo = (v & 0xffff_ffff) as i64;
            let hi = (v >> 32) as i64;
            if neg {
                acc[k + j] -= lo;
                acc[k + j + 1] -= hi;
            } else {
                acc[k + j] += lo;
                acc[k + j + 1] += hi;
            }
        }
    }
    // propagate
    let mut carry = 0i64;
    let mut nz = false;
    for l in acc.iter_mut().take(L) {
        let v = *l + carry;
        carry = v >> 32;
        *l = v & 0xffff_ffff;
        nz |= *l != 0;
    }
    if carry < 0 {
        -1
    } else if nz || carry > 0 {
        1
    } else {
        0
    }
}
/// exact comparison of a bound with x*y
pub fn cmp_prod(bound: f64, x: f64, y: f64) -> i32 {
    if bound == f64::INFINITY {
        return 1;
    }
    if bound == f64::NEG_INFINITY {
        return -1;
    }
    sign_sum(&[(bound, 1.0), (-x, y)])
}
/// exact comparison of a bound with x+y
pub fn cmp_sum(bound: f64, x: f64, y: f64) -> i32 {
    if bound == f64::INFINITY {
        return 1;
    }
    if bound == f64::NEG_INFINITY {
        return -1;
    }
    sign_sum(&[(bound, 1.0), (-x, 1.0), (-y, 1.0)])
}
/// exact comparison of a bound with x/y (y != 0)
pub fn cmp_quot(bound: f64, x: f64, y: f64) -> i32 {
    if bound == f64::INFINITY {
        return 1;
    }
    if bound == f64::NEG_INFINITY {
        return -1;
    }
    let s = sign_sum(&[(bound, y), (-x, 1.0)]);
    if y > 0.0 {
        s
    } else {
        -s
    }
}
/// exact comparison of a bound with sqrt(x), x >= 0
pub fn cmp_sqrt(bound: f64, x: f64) -> i32 {
    if bound == f64::INFINITY {
        return 1;
    }
    if bound < 0.0 {
        return -1;
    }
    sign_sum(&[(bound, bound), (-x, 1.0)])
}

// ---------------------------------------------------------------- generators
pub const SPECIAL: &[f64] = &[
    0.0, -0.0, 1.0, -1.0, 0.5, -0.5, 2.0, -2.0, 3.0, 4.0, 0.1, -0.1, 1e-3, 1e3, 10.0, 100.0, -100.0, 1e10, -1e10, 1e-10, 1e20, -1e20, 1e-20, 1e38, -1e38,
    std::f64::consts::PI, -std::f64::consts::PI, std::f64::consts::FRAC_PI_2, -std::f64::consts::FRAC_PI_2, std::f64::consts::TAU, 255.0, 16777216.0, 1.0 / 3.0,
];

impl Rng {
    /// any finite value, biased to hostile ones
    pub fn hostile<F: Fl>(&mut self) -> F {
        let v = match self.below(16) {
            0 => {
                let s = self.pick(SPECIAL);
                F::of(s)
            }
            1 => {
                let s = F::of(self.pick(SPECIAL));
                match self.below(3) {
                    0 => s.up(),
                    1 => s.down(),
                    _ => s.up().up(),
                }
            }
            2 | 3 | 4 => loop {
                let r = self.raw();
                let v = F::from_raw(r);
                if v.d().is_finite() {
                    break v;
                }
            },
            5 => {
                // extremes
                let m = F::of(F::MAXV);
                let tiny = F::of(0.0).up();
                let minpos = if F::EPS > 1e-10 { F::of(f32::MIN_POSITIVE as f64) } else { F::of(f64::MIN_POSITIVE) };
                let c = [m, m.down(), tiny, tiny.up(), minpos, minpos.down(), minpos.up()];
                let v = self.pick(&c);
                F::of(v.d() * self.sign())
            }
            6 | 7 => F::of(self.uni(-1.0, 1.0)),
            8 | 9 | 10 => F::of(self.uni(-100.0, 100.0)),
            11 => F::of(self.int(-8, 8) as f64),
            12 => F::of(self.int(-64, 64) as f64 / 16.0),
            13 => F::of(self.log(1e-20, 1e18) * self.sign()),
            14 => F::of(self.log(1e-4, 1e4) * self.sign()),
            _ => {
                let e = if F::EPS > 1e-10 { self.int(-149, 127) } else { self.int(-1074, 1023) };
                F::of(2f64.powi(e as i32) * self.sign())
            }
        };
        self.fold(v.bits64());
        if v.d().is_finite() {
            v
        } else {
            F::of(1.0)
        }
    }
    /// values of ordinary scenes: integers, quarters, zeros, uniform, a few decades
    pub fn modr(&mut self) -> f64 {
        let v = match self.below(10) {
            0 => self.int(-4, 4) as f64,
            1 => {
                if self.chance(1, 2) {
                    0.0
                } else {
                    -0.0
                }
            }
            2 => self.int(-16, 16) as f64 / 4.0,
            3 => self.sign(),
            4 => self.log(1e-3, 1e2) * self.sign(),
            5 => self.uni(-1.0, 1.0),
            _ => self.uni(-10.0, 10.0),
        };
        v as f32 as f64
    }
    pub fn modr3(&mut self) -> [f64; 3] {
        [self.modr(), self.modr(), self.modr()]
    }
    /// positive, ordinary
    pub fn pos(&mut self) -> f64 {
        let v = match self.below(5) {
            0 => self.int(1, 5) as f64,
            1 => self.int(1, 16) as f64 / 4.0,
            2 => self.log(1e-2, 1e2),
            _ => self.uni(0.05, 10.0),
        };
        v as f32 as f64
    }
    pub fn angle(&mut self) -> f64 {
        use std::f64::consts::PI;
        match self.below(8) {
            0 => self.int(-8, 8) as f64 * PI / 4.0,
            1 => self.int(-4, 4) as f64 * PI / 2.0,
            2 => self.uni(-0.01, 0.01),
            3 => self.uni(-50.0, 50.0),
            4 => {
                let k = self.int(-4, 4) as f64 * PI / 2.0;
                k + self.uni(-1e-3, 1e-3)
            }
            _ => self.uni(-PI, PI),
        }
    }
    /// unit-ish direction, axis aligned at times, never zero
    pub fn dir(&mut self) -> [f64; 3] {
        loop {
            let v = match self.below(6) {
                0 => {
                    let mut v = [0.0; 3];
                    v[self.us(3)] = self.sign();
                    if self.chance(1, 2) {
                        for c in v.iter_mut() {
                            if *c == 0.0 && self.chance(1, 2) {
                                *c = -0.0;
                            }
                        }
                    }
                    v
                }
                1 => {
                    let mut v = [self.uni(-1.0, 1.0), self.uni(-1.0, 1.0), self.uni(-1.0, 1.0)];
                    v[self.us(3)] = if self.chance(1, 2) { 0.0 } else { -0.0 };
                    v
                }
                2 => [self.int(-3, 3) as f64, self.int(-3, 3) as f64, self.int(-3, 3) as f64],
                _ => [self.uni(-1.0, 1.0), self.uni(-1.0, 1.0), self.uni(-1.0, 1.0)],
            };
            let n = (v[0] * v[0] + v[1] * v[1] + v[2] * v[2]).sqrt();
            if n > 0.05 {
                return v.map(|x| x as f32 as f64);
            }
        }
    }
}
