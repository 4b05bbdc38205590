//! Reference models in double precision (independent of the library).
#![allow(dead_code)]
pub type V3 = [f64; 3];
pub type M4 = [[f64; 4]; 4];

pub fn add(a: V3, b: V3) -> V3 {
    [a[0] + b[0], a[1] + b[1], a[2] + b[2]]
}
pub fn sub(a: V3, b: V3) -> V3 {
    [a[0] - b[0], a[1] - b[1], a[2] - b[2]]
}
pub fn mul(a: V3, s: f64) -> V3 {
    [a[0] * s, a[1] * s, a[2] * s]
}
pub fn dot(a: V3, b: V3) -> f64 {
    a[0] * b[0] + a[1] * b[1] + a[2] * b[2]
}
pub fn cross(a: V3, b: V3) -> V3 {
    [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
}
pub fn norm(a: V3) -> f64 {
    dot(a, a).sqrt()
}
pub fn unit(a: V3) -> V3 {
    mul(a, 1.0 / norm(a))
}
pub fn maxabs(a: V3) -> f64 {
    a[0].abs().max(a[1].abs()).max(a[2].abs())
}
pub fn dist(a: V3, b: V3) -> f64 {
    norm(sub(a, b))
}
pub fn close3(a: V3, b: V3, tol: f64) -> bool {
    // NaN-safe: a NaN is never close
    (a[0] - b[0]).abs() <= tol && (a[1] - b[1]).abs() <= tol && (a[2] - b[2]).abs() <= tol
}
pub fn close(a: f64, b: f64, tol: f64) -> bool {
    (a - b).abs() <= tol || a == b
}
pub const I4: M4 = [[1., 0., 0., 0.], [0., 1., 0., 0.], [0., 0., 1., 0.], [0., 0., 0., 1.]];
pub fn mm(a: &M4, b: &M4) -> M4 {
    let mut r = [[0.0; 4]; 4];
    for i in 0..4 {
        for j in 0..4 {
            for k in 0..4 {
                r[i][j] += a[i][k] * b[k][j];
            }
        }
    }
    r
}
/// sum of |a_ik b_kj|
pub fn mm_abs(a: &M4, b: &M4) -> M4 {
    let mut r = [[0.0; 4]; 4];
    for i in 0..4 {
        for j in 0..4 {
            for k in 0..4 {
                r[i][j] += (a[i][k] * b[k][j]).abs();
            }
        }
    }
    r
}
pub fn tr(a: &M4) -> M4 {
    let mut r = [[0.0; 4]; 4];
    for i in 0..4 {
        for j in 0..4 {
            r[i][j] = a[j][i];
        }
    }
    r
}
pub fn mp(m: &M4, p: V3) -> V3 {
    let w = m[3][0] * p[0] + m[3][1] * p[1] + m[3][2] * p[2] + m[3][3];
    let f = |i: usize| (m[i][0] * p[0] + m[i][1] * p[1] + m[i][2] * p[2] + m[i][3]) / w;
    [f(0), f(1), f(2)]
}
pub fn mv(m: &M4, p: V3) -> V3 {
    let f = |i: usize| m[i][0] * p[0] + m[i][1] * p[1] + m[i][2] * p[2];
    [f(0), f(1), f(2)]
}
/// transpose of the 3x3 part applied to n
pub fn mvt(m: &M4, n: V3) -> V3 {
    let f = |j: usize| m[0][j] * n[0] + m[1][j] * n[1] + m[2][j] * n[2];
    [f(0), f(1), f(2)]
}
pub fn max_m(m: &M4) -> f64 {
    m.iter().flatten().fold(0.0, |a, b| a.max(b.abs()))
}
/// Frobenius norm
pub fn fro(m: &M4) -> f64 {
    m.iter().flatten().map(|x| x * x).sum::<f64>().sqrt()
}
/// Gauss-Jordan with full pivoting; None if singular
pub fn inv(m: &M4) -> Option<M4> {
    let mut a = *m;
    let mut b = I4;
    let mut used = [false; 4];
    let mut perm = [0usize; 4];
    for c in 0..4 {
        let mut best = (0.0, 0);
        for r in 0..4 {
            if !used[r] && a[r][c].abs() > best.0 {
                best = (a[r][c].abs(), r);
            }
        }
        if !(best.0 > 0.0) {
            return None;
        }
        let r = best.1;
        used[r] = true;
        perm[c] = r;
        let p = a[r][c];
        for k in 0..4 {
            a[r][k] /= p;
            b[r][k] /= p;
        }
        for q in 0..4 {
            if q != r {
                let f = a[q][c];
                if f != 0.0 {
                    for k in 0..4 {
                        a[q][k] -= f * a[r][k];
                        b[q][k] -= f * b[r][k];
                    }
                }
            }
        }
    }
    let mut o = [[0.0; 4]; 4];
    for c in 0..4 {
        o[c] = b[perm[c]];
    }
    Some(o)
}
pub fn translate(v: V3) -> M4 {
    let mut m = I4;
    for i in 0..3 {
        m[i][3] = v[i];
    }
    m
}
pub fn scale(v: V3) -> M4 {
    let mut m = I4;
    for i in 0..3 {
        m[i][i] = v[i];
    }
    m
}
/// right-handed rotation by angle about a (any length)
pub fn rotate(axis: V3, ang: f64) -> M4 {
    let u = unit(axis);
    let (s, c) = ang.sin_cos();
    let mut m = I4;
    for j in 0..3 {
        let mut e = [0.0; 3];
        e[j] = 1.0;
        let v = add(add(mul(e, c), mul(cross(u, e), s)), mul(u, dot(u, e) * (1.0 - c)));
        for i in 0..3 {
            m[i][j] = v[i];
        }
    }
    m
}
pub fn look_at(pos: V3, target: V3, up: V3) -> M4 {
    let z = unit(sub(pos, target));
    let x = unit(cross(up, z));
    let y = cross(z, x);
    let mut m = I4;
    for (i, r) in [x, y, z].iter().enumerate() {
        for j in 0..3 {
            m[i][j] = r[j];
        }
        m[i][3] = -dot(*r, pos);
    }
    m
}
