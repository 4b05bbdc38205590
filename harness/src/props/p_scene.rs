//! C16 primitive lists, C17 placed primitives, C18 bounds never cull
use super::p_box::{bx, ray, un, B, E32};
use super::p_sphere::{exact_case, gen_ray, gen_sphere, rounds, Sp};
use super::p_linear::to_ref;
use super::p_transform::{d3, elem, elem_far, far3, n3, p3, v3};
use crate::fw::{Ctx, Rng, Section};
use crate::refs::*;
use scarlet::geometry::bbox::Bbox3;
use scarlet::geometry::primitive::{Bounded3, IntersectionResult, IntersectsRay, Primitive, PrimitiveList, SurfaceInteraction, TransformedPrimitive};
use scarlet::geometry::ray::Rayf;
use scarlet::math::transform::{Invertible, Transform, Transformf};
use scarlet::math::vector::Point2f;
use std::cell::{Cell, RefCell};
use std::rc::Rc;

// ---------------------------------------------------------------- spies
/// A user-defined primitive: hits at a fixed parameter when the limit allows it, logs what it was asked.
struct Spy {
    t: Option<f32>,
    rec: SurfaceInteraction,
    bbox: Bbox3,
    log: Rc<RefCell<Vec<(bool, Rayf)>>>,
    drops: Rc<Cell<u32>>,
    on_ray: bool,
}
impl Drop for Spy {
    fn drop(&mut self) {
        self.drops.set(self.drops.get() + 1);
    }
}
impl Bounded3 for Spy {
    fn bbox(&self) -> Bbox3 {
        self.bbox
    }
}
impl IntersectsRay for Spy {
    fn do_intersect(&self, ray: Rayf) -> bool {
        self.log.borrow_mut().push((false, ray));
        self.t.map_or(false, |t| t >= 0.0 && t <= ray.tmax)
    }
    fn intersect(&self, ray: Rayf) -> Option<IntersectionResult> {
        self.log.borrow_mut().push((true, ray));
        let t = self.t?;
        if !(t >= 0.0 && t <= ray.tmax) {
            return None;
        }
        let mut si = self.rec;
        if self.on_ray {
            si.p = ray.eval(t);
        }
        Some(IntersectionResult { surface_interaction: si, t_ray: t })
    }
}
impl Primitive for Spy {}

type Rec = (f32, [f32; 3], [f32; 3], [f32; 2], [f32; 3], [f32; 3]);
fn rec(g: &IntersectionResult) -> Rec {
    let s = g.surface_interaction;
    (g.t_ray, s.p.vec, s.n.vec, s.uv.vec, s.dpdu.vec, s.dpdv.vec)
}
fn same_f(a: f32, b: f32) -> bool {
    a == b || (a.is_nan() && b.is_nan())
}
fn same_rec(a: &Rec, b: &Rec) -> bool {
    let v = |x: &[f32], y: &[f32]| x.iter().zip(y).all(|(p, q)| same_f(*p, *q));
    same_f(a.0, b.0) && v(&a.1, &b.1) && v(&a.2, &b.2) && v(&a.3, &b.3) && v(&a.4, &b.4) && v(&a.5, &b.5)
}

// ---------------------------------------------------------------- scene trees
#[derive(Clone)]
pub enum Node {
    Ball(Sp),
    Slab(B),
    Spy(f32, u32),
    List(Vec<Node>),
    Placed(Box<Node>, Transformf, String),
}
#[derive(Default, Clone)]
struct Env {
    drops: Rc<RefCell<Vec<Rc<Cell<u32>>>>>,
    log: Rc<RefCell<Vec<(bool, Rayf)>>>,
}
struct Any(Box<dyn Primitive>);
impl Bounded3 for Any {
    fn bbox(&self) -> Bbox3 {
        self.0.bbox()
    }
}
impl IntersectsRay for Any {
    fn do_intersect(&self, r: Rayf) -> bool {
        self.0.do_intersect(r)
    }
    fn intersect(&self, r: Rayf) -> Option<IntersectionResult> {
        self.0.intersect(r)
    }
}
impl Primitive for Any {}

fn spy_rec(id: u32) -> SurfaceInteraction {
    SurfaceInteraction { p: p3::<f32>([id as f64, 1.0, 2.0]), n: n3::<f32>([0.0, 0.0, 1.0]), uv: Point2f::new(id as f32, 0.5), dpdu: v3::<f32>([1.0, 0.0, id as f64]), dpdv: v3::<f32>([0.0, 1.0, 0.0]) }
}
/// ordinary, flat, point-like, tiny, far and huge boxes
fn spy_box(id: u32) -> B {
    let k = id as f64;
    let b: B = match id % 8 {
        0 => ([-k - 1.0, 3.0, 0.0], [k + 1.0, 3.0, 0.25]),
        1 => ([-k, -1.0, 0.0], [k + 1.0, 1.0, k * 0.5 + 0.25]),
        2 => ([0.0, -k, -k], [0.0, k, k]),
        3 => ([k, k, k], [k, k, k]),
        4 => ([-1e30, -1.0, -1.0], [1e30, 1.0, 1.0]),
        5 => ([-1e-30, 0.0, 5.0], [1e-30, 1e-30, 5.0 + k]),
        6 => ([1e20, -k, -1e20], [2e20, -k + 1.0, -1e19]),
        _ => ([-1.0 - k, -2.0, -7.0 - k], [-1.0, -2.0, -7.0]),
    };
    (b.0.map(|x| x as f32 as f64), b.1.map(|x| x as f32 as f64))
}
fn spy_t(r: &mut Rng) -> f32 {
    match r.below(6) {
        0 => -1.0,
        1 => r.pick(&[0.0, 1e-30, 1e-7, 1.0f32.next_down(), 1.0, 1.0f32.next_up(), 1e6, 1e10, 1e30, f32::MAX]),
        2 => r.log(1e-10, 1e10) as f32,
        _ => r.below(12) as f32 * 0.5,
    }
}
impl Node {
    fn build(&self, env: &Env) -> Any {
        match self {
            Node::Ball(s) => Any(Box::new(s.lib())),
            Node::Slab(b) => Any(Box::new(bx(*b))),
            Node::Spy(t, id) => {
                let drops = Rc::new(Cell::new(0));
                env.drops.borrow_mut().push(drops.clone());
                Any(Box::new(Spy { t: if *t >= 0.0 { Some(*t) } else { None }, rec: spy_rec(*id), bbox: bx(spy_box(*id)), log: env.log.clone(), drops, on_ray: false }))
            }
            Node::List(v) => {
                let mut l = PrimitiveList::new();
                for n in v {
                    n.add_to(&mut l, env);
                }
                Any(Box::new(l))
            }
            Node::Placed(n, t, _) => Any(match &**n {
                // exercise the generic placement with concrete primitive types as well
                Node::Ball(s) => Box::new(TransformedPrimitive::new(s.lib(), *t)),
                Node::Slab(b) => Box::new(TransformedPrimitive::new(bx(*b), *t)),
                Node::List(v) => {
                    let mut l = PrimitiveList::default();
                    for n in v {
                        n.add_to(&mut l, env);
                    }
                    Box::new(TransformedPrimitive::new(l, *t))
                }
                n => Box::new(TransformedPrimitive::new(n.build(env), *t)),
            }),
        }
    }
    fn add_to(&self, l: &mut PrimitiveList, env: &Env) {
        match self {
            Node::Ball(s) => l.add_primitive(s.lib()),
            Node::Slab(b) => l.add_primitive(bx(*b)),
            n => l.add_primitive(n.build(env)),
        }
    }
    fn show(&self) -> String {
        match self {
            Node::Ball(s) => format!("{s:?}"),
            Node::Slab(b) => format!("Box{b:?}"),
            Node::Spy(t, i) => format!("Spy(t={t},id={i})"),
            Node::List(v) => format!("[{}]", v.iter().map(|n| n.show()).collect::<Vec<_>>().join(", ")),
            Node::Placed(n, _, s) => format!("{s}*{}", n.show()),
        }
    }
}
fn solid_box(r: &mut Rng) -> B {
    let a = r.modr3();
    let mut e = [r.pos(), r.pos(), r.pos()];
    if r.chance(1, 8) {
        e[r.us(3)] = 0.0;
    }
    (a, add(a, e).map(|x| x as f32 as f64))
}
fn small_sphere(r: &mut Rng) -> Sp {
    let mut s = gen_sphere(r);
    // keep scene scales comparable
    while s.r < 1e-2 || s.r > 1e2 {
        s = gen_sphere(r);
    }
    s
}
fn tree(r: &mut Rng, depth: u32, spies: bool) -> Node {
    match r.below(if depth == 0 { 3 } else { 6 }) {
        0 => Node::Ball(small_sphere(r)),
        1 => Node::Slab(solid_box(r)),
        2 if spies => Node::Spy(spy_t(r), r.below(64) as u32),
        2 => Node::Ball(small_sphere(r)),
        3 | 4 => {
            let n = match r.below(8) {
                0 => 0,
                1 => 1,
                _ => r.us(5),
            };
            Node::List((0..n).map(|_| tree(r, depth - 1, spies)).collect())
        }
        _ => {
            let (t, s) = placement(r);
            Node::Placed(Box::new(tree(r, depth - 1, spies)), t, s)
        }
    }
}
/// a moderate affine placement
fn placement(r: &mut Rng) -> (Transformf, String) {
    loop {
        let a = elem::<f32>(r);
        let (mut t, mut name, mut m) = (a.t, a.name, a.m);
        if r.chance(1, 3) {
            let b = elem::<f32>(r);
            t = t * b.t;
            m = mm(&m, &b.m);
            name = format!("{name}*{}", b.name);
        }
        let Some(mi) = inv(&m) else { continue };
        if fro(&m) < 60.0 && fro(&mi) < 60.0 {
            return (t, name);
        }
    }
}
fn any_ray(r: &mut Rng) -> (V3, V3, f64) {
    let o = mul(r.modr3(), r.pick(&[1.0, 2.0, 5.0]));
    let d = if r.chance(1, 3) { r.dir() } else { sub(r.modr3(), o) };
    let d = if norm(d) < 1e-2 { [0.0, 1.0, 0.0] } else { d };
    let tm = r.pick(&[f64::INFINITY, f32::MAX as f64, 1e4, 1.0, 2.0, 0.5, 10.0, 0.0, 1e-7, 1e10, 1e30]);
    (o.map(|x| x as f32 as f64), d.map(|x| x as f32 as f64), tm)
}
/// any ray, sometimes with components of very different magnitude
fn wide_ray(r: &mut Rng) -> (V3, V3, f64) {
    let (mut o, mut d, tm) = any_ray(r);
    if r.chance(1, 6) {
        if r.chance(2, 3) {
            o = far3(r, 1e6).map(|x| x as f32 as f64);
        }
        if r.chance(2, 3) {
            d = far3(r, 1e6).map(|x| x as f32 as f64);
        }
        if d == [0.0; 3] {
            d[r.us(3)] = r.sign();
        }
    }
    (o, d, tm)
}
fn first_ball(n: &Node) -> Option<Sp> {
    match n {
        Node::Ball(s) => Some(*s),
        Node::List(v) => v.iter().find_map(first_ball),
        Node::Placed(n, ..) => first_ball(n),
        _ => None,
    }
}

/// a ray equal to an earlier one in all but one respect (or entirely)
fn related(cx: &mut Ctx, (o, d, tm): (V3, V3, f64)) -> (V3, V3, f64) {
    cx.ev("related-ray");
    let (o2, d2, tm2) = any_ray(&mut cx.rng);
    match cx.rng.below(7) {
        0 => (o, d, tm),
        1 => (o, d, tm2),
        2 => (o, d2, tm),
        3 => (o2, d, tm),
        4 => (o, mul(d, -1.0), tm),
        5 => (o, mul(d, cx.rng.pick(&[0.5, 2.0, 4.0])), tm),
        _ => {
            let (mut o, mut d, k) = (o, d, cx.rng.us(3));
            if cx.rng.chance(1, 2) { o[k] = o2[k] } else { d[k] = d2[k] }
            (o, d, tm)
        }
    }
}

// ---------------------------------------------------------------- C16
/// both queries, in either order
pub fn both(cx: &mut Ctx, p: &dyn IntersectsRay, r: Rayf) -> (Option<IntersectionResult>, bool) {
    if cx.rng.chance(1, 2) {
        let g = p.intersect(r);
        let yn = p.do_intersect(r);
        (g, yn)
    } else {
        let yn = p.do_intersect(r);
        (p.intersect(r), yn)
    }
}
fn judge_list(cx: &mut Ctx, list: &PrimitiveList, members: &[Any], r: Rayf, sh: &dyn Fn() -> String) {
    let own: Vec<Option<IntersectionResult>> = members.iter().map(|m| m.intersect(r)).collect();
    let yes: Vec<bool> = members.iter().map(|m| m.do_intersect(r)).collect();
    let (g, yn) = both(cx, list, r);
    let best = own.iter().flatten().map(|g| g.t_ray).fold(f32::INFINITY, f32::min);
    let any = own.iter().any(|g| g.is_some());
    let s2 = || format!("{} ray {r:?}: list returned {:?}; members {:?}", sh(), g.as_ref().map(rec), own.iter().map(|g| g.as_ref().map(|g| g.t_ray)).collect::<Vec<_>>());
    match &g {
        None => {
            cx.check("empty", !any, s2);
        }
        Some(g) => {
            let rg = rec(g);
            cx.check("nearest", any && g.t_ray == best, s2);
            cx.check("members-record", own.iter().flatten().any(|o| o.t_ray == best && same_rec(&rec(o), &rg)), s2);
            let ties = own.iter().flatten().filter(|o| o.t_ray == best).count();
            if ties > 1 {
                cx.ev("tie");
            }
            let firsthit = own.iter().position(|o| o.as_ref().map_or(false, |o| o.t_ray == best)).unwrap_or(0);
            if own.iter().skip(firsthit + 1).any(|o| o.is_some()) {
                cx.ev("nearest-not-last");
            }
            if own.iter().take(firsthit).any(|o| o.is_some()) {
                cx.ev("nearest-not-first");
            }
        }
    }
    cx.check("yes-no", yn == yes.iter().any(|x| *x), || format!("{} ray {r:?}: yes/no {yn}, members {yes:?}", sh()));
}
fn union_of(members: &[Any]) -> B {
    let mut b: B = ([f32::MAX as f64; 3], [f32::MIN as f64; 3]);
    for m in members {
        let u = un(&m.bbox());
        for a in 0..3 {
            b.0[a] = b.0[a].min(u.0[a]);
            b.1[a] = b.1[a].max(u.1[a]);
        }
    }
    b
}
fn lists(cx: &mut Ctx) {
    let n = match cx.rng.below(10) {
        0 => 0,
        1 => 1,
        2 => 2,
        3 => 3,
        4 => 16 + cx.rng.us(50),
        _ => 2 + cx.rng.us(7),
    };
    let (inner, outer) = (Env::default(), Env::default());
    let mut list = PrimitiveList::new();
    let mut members: Vec<Any> = vec![];
    let mut nodes: Vec<Node> = vec![];
    let style = cx.rng.below(3);
    // boxes of one kind only (often all on one side of the origin), or of every kind
    let kind = if cx.rng.chance(1, 2) { Some(cx.rng.below(8) as u32) } else { None };
    let mut queries = 0;
    let mut prev = None;
    for k in 0..n {
        let node = if style == 0 {
            let id = cx.rng.below(64) as u32;
            Node::Spy(spy_t(&mut cx.rng), kind.map_or(id, |c| (id | 7) ^ 7 | c))
        } else {
            tree(&mut cx.rng, style as u32, true)
        };
        node.add_to(&mut list, &inner);
        members.push(node.build(&outer));
        nodes.push(node);
        // queries interleaved with insertions
        if k + 1 == n || cx.rng.chance(1, 4) {
            for _ in 0..4 {
                let (o, d, tm) = match (prev, first_ball(&nodes[cx.rng.us(nodes.len())])) {
                    (Some(p), _) if cx.rng.chance(1, 2) => related(cx, p),
                    (_, Some(s)) if cx.rng.chance(1, 2) => gen_ray(&mut cx.rng, &s),
                    _ => wide_ray(&mut cx.rng),
                };
                if norm(d) < 1e-6 {
                    continue;
                }
                prev = Some((o, d, tm));
                queries += 1;
                judge_list(cx, &list, &members, ray(o, d, tm), &|| Node::List(nodes.clone()).show());
            }
            let (g, w) = (un(&list.bbox()), union_of(&members));
            cx.check("box-is-union", g == w, || format!("{}: box {g:?}, union of members {w:?}", Node::List(nodes.clone()).show()));
        }
    }
    if n == 0 {
        let b = un(&list.bbox());
        cx.check("empty-list", b == ([f32::MAX as f64; 3], [f32::MIN as f64; 3]), || format!("empty list has box {b:?}"));
        let (o, d, tm) = wide_ray(&mut cx.rng);
        judge_list(cx, &list, &members, ray(o, d, tm), &|| "[]".into());
    }
    if n > 16 {
        cx.ev("long-list");
    }
    cx.sample(|| format!("{} with {queries} rays", Node::List(nodes.clone()).show()));
    // lifetime
    let alive = inner.drops.borrow().iter().all(|d| d.get() == 0);
    let count = inner.drops.borrow().len() as u64;
    cx.check("kept-alive", alive, || format!("a member of {} was released while the list lives", Node::List(nodes.clone()).show()));
    drop(list);
    let once = inner.drops.borrow().iter().all(|d| d.get() == 1);
    cx.check("released-once", once, || format!("members of {} released {:?} times", Node::List(nodes.clone()).show(), inner.drops.borrow().iter().map(|d| d.get()).collect::<Vec<_>>()));
    if count > 0 {
        cx.evn("tracked-members", count);
    }
}
/// all orders of small spy lists, complete: up to 4 members with parameters in {miss,0,1,2,2.5} and 4 limits
fn orders(cx: &mut Ctx) {
    let mut i = cx.index;
    let mut take = |n: u64| {
        let v = i % n;
        i /= n;
        v as usize
    };
    let n = take(5);
    let ts: Vec<f32> = (0..4).map(|_| [-1.0, 0.0, 1.0, 2.0, 2.5][take(5)]).collect();
    let tm = [f32::INFINITY, 2.0, 1.5, 0.0][take(4)];
    let nest = take(3);
    let env = Env::default();
    let mut list = PrimitiveList::new();
    let mut sub = PrimitiveList::new();
    for k in 0..n {
        let node = Node::Spy(ts[k], k as u32);
        if nest > 0 && k >= nest {
            node.add_to(&mut sub, &env);
        } else {
            node.add_to(&mut list, &env);
        }
    }
    if nest > 0 {
        list.add_primitive(sub);
    }
    let r = ray([0.0; 3], [0.0, 0.0, 1.0], 1.0);
    let r = Rayf::new(r.origin, r.direction, tm);
    let best = (0..n).map(|k| ts[k]).filter(|t| *t >= 0.0 && *t <= tm).fold(f32::INFINITY, f32::min);
    let g = list.intersect(r);
    let yn = list.do_intersect(r);
    let sh = || format!("spies {:?} nested from {nest} limit {tm}: {:?}, yes/no {yn}", &ts[..n], g.as_ref().map(rec));
    cx.sample(sh);
    cx.check("yes-no", yn == best.is_finite(), sh);
    match &g {
        None => {
            cx.check("empty", !best.is_finite(), sh);
        }
        Some(g) => {
            let ok = g.t_ray == best && (0..n).any(|k| ts[k] == best && g.surface_interaction.uv.vec[0] == k as f32 && same_rec(&rec(g), &(best, spy_rec(k as u32).p.vec, spy_rec(k as u32).n.vec, spy_rec(k as u32).uv.vec, spy_rec(k as u32).dpdu.vec, spy_rec(k as u32).dpdv.vec)));
            cx.check("nearest", ok, sh);
        }
    }
}
const ORDERS: u64 = 5 * 625 * 4 * 3;
/// deep nesting (lists in lists, placements in placements) and very long lists of spies
fn deep(cx: &mut Ctx) {
    let env = Env::default();
    let mut all: Vec<f32> = vec![];
    let far = |r: &mut Rng| if r.chance(3, 4) { -1.0 } else { r.int(1, 4000) as f32 * 0.25 };
    let mut list = PrimitiveList::new();
    let what;
    // the kind of box every spy has: points on one side of the origin, boxes around it, flat ones
    let kind = cx.rng.pick(&[2u32, 3, 7]);
    let mut bounds: B = ([f32::MAX as f64; 3], [f32::MIN as f64; 3]);
    let mut exact_box = true;
    fn grow(b: &mut B, c: &B) {
        for a in 0..3 {
            b.0[a] = b.0[a].min(c.0[a]);
            b.1[a] = b.1[a].max(c.1[a]);
        }
    }
    if cx.rng.chance(1, 2) {
        let n = match cx.rng.below(40) {
            _ if cfg!(miri) => 20 + cx.rng.us(20),
            0 | 1 if cx.index % 2 == 0 => 65_530 + cx.rng.us(20),
            1..=4 => 1000 + cx.rng.us(5000),
            _ => 120 + cx.rng.us(400),
        };
        let sparse = cx.rng.chance(1, 2);
        let lone = if cx.rng.chance(1, 2) { n - 1 - cx.rng.us(3) } else { cx.rng.us(n) };
        for k in 0..n {
            let t = if sparse { if k == lone { 2.0 } else { -1.0 } } else { far(&mut cx.rng) };
            all.push(t);
            let id = k as u32 * 8 + kind;
            grow(&mut bounds, &spy_box(id));
            Node::Spy(t, id).add_to(&mut list, &env);
        }
        what = format!("list of {n} spies");
        cx.ev("very-long-list");
    } else {
        let depth = if !cfg!(miri) && cx.rng.chance(1, 10) { 65 + cx.rng.us(500) } else { 5 + cx.rng.us(60) };
        let sparse = cx.rng.chance(1, 2);
        for k in 0..depth {
            let mut outer = PrimitiveList::new();
            let here = if sparse { (k == 0) as usize } else { cx.rng.us(3) };
            let before = cx.rng.us(here + 1);
            let mut fresh: B = ([f32::MAX as f64; 3], [f32::MIN as f64; 3]);
            let full = !all.is_empty();
            let mut put = |cx: &mut Ctx, l: &mut PrimitiveList| {
                let t = if sparse { 3.0 } else { far(&mut cx.rng) };
                let id = all.len() as u32 * 8 + kind;
                grow(&mut fresh, &spy_box(id));
                Node::Spy(t, id).add_to(l, &env);
                all.push(t);
            };
            for _ in 0..before {
                put(cx, &mut outer);
            }
            if k % 2 == 1 && cx.rng.chance(1, 2) {
                let by = [k as f64, 1.0, -2.0];
                let sh = Transform::translate(v3::<f32>(by));
                if full {
                    bounds = (add(bounds.0, by), add(bounds.1, by));
                } else {
                    // a default box does not survive a translation unharmed in floating point
                    exact_box = false;
                }
                outer.add_primitive(TransformedPrimitive::new(list, sh));
            } else {
                outer.add_primitive(list);
            }
            for _ in before..here {
                put(cx, &mut outer);
            }
            grow(&mut bounds, &fresh);
            list = outer;
        }
        what = format!("{depth} levels of lists with {} spies", all.len());
        cx.ev("deeply-nested");
    }
    let mut prev = None;
    for _ in 0..3 {
        let (o, d, tm) = match prev {
            Some(p) if cx.rng.chance(1, 2) => related(cx, p),
            _ => wide_ray(&mut cx.rng),
        };
        prev = Some((o, d, tm));
        let r = ray(o, d, tm);
        let best = all.iter().copied().filter(|t| *t >= 0.0 && *t <= r.tmax).fold(f32::INFINITY, f32::min);
        let (g, yn) = both(cx, &list, r);
        let sh = || format!("{what}, limit {tm}: nearest {best}, list returned {:?}, yes/no {yn}", g.as_ref().map(rec));
        cx.sample(sh);
        cx.check("yes-no", yn == best.is_finite(), sh);
        match &g {
            None => {
                cx.check("empty", !best.is_finite(), sh);
            }
            Some(g) => {
                let id = g.surface_interaction.uv.vec[0] as usize / 8;
                cx.check("nearest", g.t_ray == best && all.get(id) == Some(&best), sh);
            }
        }
    }
    if exact_box {
        let g = un(&list.bbox());
        cx.check("box-is-union", g == bounds, || format!("{what}: box {g:?}, union of members {bounds:?}"));
    }
    drop(list);
    let once = env.drops.borrow().iter().all(|d| d.get() == 1);
    cx.check("released-once", once, || format!("{what}: a member was not released exactly once"));
}

// ---------------------------------------------------------------- C17
fn placed(cx: &mut Ctx) {
    let k = 1 + cx.rng.us(3);
    let mut lib = Transform::<f32>::identity();
    let (mut m, mut mi) = (I4, I4);
    let (mut nm, mut ni) = (1.0, 1.0);
    let mut names = vec![];
    for i in 0..k {
        let mut e = elem::<f32>(&mut cx.rng);
        if cx.rng.chance(1, 4) {
            e.t = e.t.inverse();
            std::mem::swap(&mut e.m, &mut e.mi);
            e.name = format!("inv {}", e.name);
        }
        lib = if i == 0 { e.t } else { lib * e.t };
        m = mm(&m, &e.m);
        mi = mm(&e.mi, &mi);
        nm *= fro(&e.m);
        ni *= fro(&e.mi);
        names.push(e.name);
    }
    let per = if names.iter().any(|s| s.contains("look")) { 300.0 } else { 32.0 };
    let (em, ei) = (per * k as f64 * E32 * nm, per * k as f64 * E32 * ni);
    if em > 0.01 * fro(&m).min(1.0) || ei > 0.01 * fro(&mi).min(1.0) {
        return cx.und("too-ill-conditioned");
    }
    let (o, d, tm) = any_ray(&mut cx.rng);
    let t = match cx.rng.below(8) {
        0 => cx.rng.log(1e-6, 1e3) as f32,
        1 => tm.min(1e4) as f32,
        _ => cx.rng.pick(&[-1.0f32, 0.0, 0.5, 1.0, 3.0, 20.0]),
    };
    // an object-space record with an exactly orthogonal frame
    let (du, dv) = loop {
        let (a, b) = (cx.rng.modr3(), cx.rng.modr3());
        if norm(a) > 0.05 && norm(b) > 0.05 && norm(cross(a, b)) > 0.1 * norm(a) * norm(b) {
            break (a, b);
        }
    };
    let n = mul(unit(cross(du, dv)), cx.rng.sign());
    let mut coord = || match cx.rng.below(4) {
        0 => cx.rng.pick(&[0.0f32, 1.0, -0.0, 0.5, -1.0, 2.0, 1.0 + f32::EPSILON, 1e-30, 1e30]),
        1 => cx.rng.uni(-5.0, 5.0) as f32,
        _ => cx.rng.unit() as f32,
    };
    let uv = Point2f::new(coord(), coord());
    let si = SurfaceInteraction { p: p3::<f32>([0.0; 3]), n: n3::<f32>(n), uv, dpdu: v3::<f32>(du), dpdv: v3::<f32>(dv) };
    let log = Rc::new(RefCell::new(vec![]));
    let drops = Rc::new(Cell::new(0));
    let ob = solid_box(&mut cx.rng);
    let spy = Spy { t: if t >= 0.0 { Some(t) } else { None }, rec: si, bbox: bx(ob), log: log.clone(), drops: drops.clone(), on_ray: true };
    let tp = TransformedPrimitive::new(spy, lib);
    let (mut o, mut d, mut tm) = (o, d, tm);
    // several rays on one placement, each differing from the one before in one respect
    for q in 0..1 + cx.rng.us(3) {
    if q > 0 {
        (o, d, tm) = related(cx, (o, d, tm));
        log.borrow_mut().clear();
    }
    let rr = ray(o, d, tm);
    let (g, yn) = both(cx, &tp, rr);
    let want = t >= 0.0 && t <= tm as f32;
    let sh = || format!("{names:?} ray o={o:?} d={d:?} tmax={tm:e} object hit t={t} n={n:?} dpdu={du:?} dpdv={dv:?}: {:?}", g.as_ref().map(rec));
    cx.sample(sh);
    cx.check("hit-iff", g.is_some() == want, sh);
    cx.check("yes-no", yn == want, || format!("{} yes/no {yn}", sh()));
    // what the primitive was shown
    {
        let log = log.borrow();
        cx.check("asked", log.iter().any(|x| x.0) && !log.is_empty(), sh);
        let (wo, wd) = (mp(&mi, o), mv(&mi, d));
        for (_, r) in log.iter() {
            let ok = close3(d3(r.origin), wo, ei * (1.0 + norm(o))) && close3(d3(r.direction), wd, ei * (1.0 + norm(d)));
            cx.check("object-ray", ok, || format!("{}: primitive was shown {r:?}, expected o={wo:?} d={wd:?}", sh()));
            cx.check("object-limit", r.tmax == tm as f32, || format!("{}: primitive was shown limit {}", sh(), r.tmax));
        }
    }
    if let Some(g) = &g {
        let s = g.surface_interaction;
        cx.check("same-t", g.t_ray == t, sh);
        cx.check("same-uv", s.uv.vec == si.uv.vec, sh);
        let e = add(o, mul(d, t as f64));
        let kk = 1.0 + norm(o) + norm(d) * t as f64;
        let tol = 4.0 * (fro(&m) * ei + em * fro(&mi)) * kk + 8.0 * E32 * kk;
        cx.check("on-world-ray", close3(d3(s.p), e, tol), || format!("{}: point {:?} not on the world ray {e:?} +- {tol:e}", sh(), s.p));
        let (wu, wv) = (mv(&m, du), mv(&m, dv));
        cx.check("tangents", close3(d3(s.dpdu), wu, em * (1.0 + norm(du))) && close3(d3(s.dpdv), wv, em * (1.0 + norm(dv))), || format!("{}: expected tangents {wu:?} {wv:?}", sh()));
        let raw = mvt(&mi, n);
        let wn = unit(raw);
        let tn = 4.0 * ei / norm(raw) + 1e-5;
        cx.check("normal-unit", (norm(d3(s.n)) - 1.0).abs() <= 1e-5, sh);
        if tn < 0.3 {
            cx.check("normal", close3(d3(s.n), wn, tn), || format!("{}: expected normal {wn:?} +- {tn:e}", sh()));
            let (side, w) = (dot(d3(s.n), d), dot(n, mv(&mi, d)));
            if side.abs() > 2.0 * tn * norm(d) && w.abs() > 4.0 * ei * norm(d) + 1e-6 {
                cx.check("same-side", (side > 0.0) == (w > 0.0), || format!("{}: normal on the other side of the ray", sh()));
            }
        } else {
            cx.und("normal-ill-conditioned");
        }
        let det = dot(cross([m[0][0], m[1][0], m[2][0]], [m[0][1], m[1][1], m[2][1]]), [m[0][2], m[1][2], m[2][2]]);
        if det < 0.0 {
            cx.ev("mirrored");
        }
    }
    }
    // box
    let gb = un(&tp.bbox());
    let reach = 1.0 + norm(ob.0).max(norm(ob.1)) * 2.0;
    let pts: Vec<V3> = (0..8).map(|q| mp(&m, [0, 1, 2].map(|a| if q >> a & 1 == 0 { ob.0[a] } else { ob.1[a] }))).collect();
    for a in 0..3 {
        let lo = pts.iter().fold(f64::INFINITY, |x, p| x.min(p[a]));
        let hi = pts.iter().fold(f64::NEG_INFINITY, |x, p| x.max(p[a]));
        cx.check("box", close(gb.0[a], lo, em * reach) && close(gb.1[a], hi, em * reach), || format!("{names:?} of box {ob:?}: {gb:?}, axis {a} expected [{lo},{hi}]"));
    }
    drop(tp);
    cx.check("released-once", drops.get() == 1, || format!("placed primitive dropped {} times", drops.get()));
}
/// far and tiny scales: judged against the placement's own two matrices, component by component
fn placed_far(cx: &mut Ctx) {
    let k = 1 + cx.rng.us(2);
    let mut t = elem_far::<f32>(&mut cx.rng);
    for _ in 1..k {
        t = t * elem_far::<f32>(&mut cx.rng);
    }
    if cx.rng.chance(1, 3) {
        t = t.inverse();
    }
    let (m, mi) = (to_ref(&t.matrix().data), to_ref(&t.inverse_matrix().data));
    let e = 16.0 * E32;
    let lin = |m: &M4, v: V3, w: f64| -> (V3, V3) {
        let g = std::array::from_fn(|i| m[i][0] * v[0] + m[i][1] * v[1] + m[i][2] * v[2] + w * m[i][3]);
        let a = std::array::from_fn(|i| (m[i][0] * v[0]).abs() + (m[i][1] * v[1]).abs() + (m[i][2] * v[2]).abs() + w * m[i][3].abs());
        (g, a)
    };
    let near = |g: V3, w: V3, a: V3| (0..3).all(|i| (g[i] - w[i]).abs() <= e * a[i] + 1e-36);
    let o = far3(&mut cx.rng, 1e4).map(|x| x as f32 as f64);
    let mut d = far3(&mut cx.rng, 1e4).map(|x| x as f32 as f64);
    if d == [0.0; 3] {
        d[1] = 1.0;
    }
    let tm = cx.rng.pick(&[f64::INFINITY, f32::MAX as f64, 1e4, 1.0, 1e-7, 1e10, 0.0]);
    let hit = match cx.rng.below(4) {
        0 => -1.0,
        1 => (tm as f32).min(1e6),
        _ => (cx.rng.log(1e-6, 1e6) as f32).min(tm as f32),
    };
    let du = far3(&mut cx.rng, 1e3).map(|x| x as f32 as f64);
    let dv = far3(&mut cx.rng, 1e3).map(|x| x as f32 as f64);
    let n = unit(cx.rng.dir()).map(|x| x as f32 as f64);
    let uv = Point2f::new(cx.rng.unit() as f32, cx.rng.log(1e-9, 1e3) as f32);
    let si = SurfaceInteraction { p: p3::<f32>([0.0; 3]), n: n3::<f32>(n), uv, dpdu: v3::<f32>(du), dpdv: v3::<f32>(dv) };
    let (log, drops) = (Rc::new(RefCell::new(vec![])), Rc::new(Cell::new(0)));
    let ob = solid_box(&mut cx.rng);
    let spy = Spy { t: if hit >= 0.0 { Some(hit) } else { None }, rec: si, bbox: bx(ob), log: log.clone(), drops, on_ray: true };
    let tp = TransformedPrimitive::new(spy, t);
    let rr = ray(o, d, tm);
    let g = tp.intersect(rr);
    let yn = tp.do_intersect(rr);
    let sh = || format!("placed by {m:?} (inverse {mi:?}) ray o={o:?} d={d:?} tmax={tm:e} object hit t={hit} n={n:?} dpdu={du:?} dpdv={dv:?}: {:?}", g.as_ref().map(rec));
    cx.sample(sh);
    cx.check("hit-iff", g.is_some() == (hit >= 0.0) && yn == (hit >= 0.0), sh);
    let ((wo, ao), (wd, ad)) = (lin(&mi, o, 1.0), lin(&mi, d, 0.0));
    for (_, r) in log.borrow().iter() {
        cx.check("object-ray", near(d3(r.origin), wo, ao) && near(d3(r.direction), wd, ad) && r.tmax == tm as f32, || format!("{}: primitive was shown {r:?}, expected o={wo:?} d={wd:?}", sh()));
    }
    if let Some(g) = &g {
        let s = g.surface_interaction;
        cx.check("same-t", g.t_ray == hit && s.uv.vec == si.uv.vec, sh);
        let ((wu, au), (wv, av)) = (lin(&m, du, 0.0), lin(&m, dv, 0.0));
        cx.check("tangents", near(d3(s.dpdu), wu, au) && near(d3(s.dpdv), wv, av), || format!("{}: expected tangents {wu:?} {wv:?}", sh()));
        let reach = |i: usize| ao[i] + ad[i] * hit as f64;
        let q = [0, 1, 2].map(|i| wo[i] + wd[i] * hit as f64);
        let (wp, _) = lin(&m, q, 1.0);
        let ap = [0, 1, 2].map(|i| 4.0 * ((0..3).map(|j| m[i][j].abs() * reach(j)).sum::<f64>() + m[i][3].abs()));
        // the point carried by the placement's own matrices, or the world ray evaluated directly
        let ev = [0, 1, 2].map(|i| o[i] + d[i] * hit as f64);
        let aev = [0, 1, 2].map(|i| o[i].abs() + (d[i] * hit as f64).abs());
        cx.check("on-world-ray", near(d3(s.p), wp, ap) || near(d3(s.p), ev, aev), || format!("{}: expected point {wp:?}", sh()));
        let (wn, an) = lin(&tr(&mi), n, 0.0);
        let l = norm(wn);
        let tol = 8.0 * E32 * (norm(an) / l) + 1e-6;
        if l > 1e-15 && l < 1e15 && tol < 0.1 {
            cx.check("normal", close3(d3(s.n), mul(wn, 1.0 / l), tol) && (norm(d3(s.n)) - 1.0).abs() < 1e-5, || format!("{}: expected normal {:?} +- {tol:e}", sh(), mul(wn, 1.0 / l)));
            if l < 1e-3 {
                cx.ev("tiny-mapped-normal");
            }
            if l > 1e3 {
                cx.ev("huge-mapped-normal");
            }
        } else {
            cx.und("normal-out-of-range");
        }
    }
    let gb = un(&tp.bbox());
    for a in 0..3 {
        let (mut lo, mut hi, mut k) = (m[a][3], m[a][3], m[a][3].abs());
        for j in 0..3 {
            let (x, y) = (m[a][j] * ob.0[j], m[a][j] * ob.1[j]);
            lo += x.min(y);
            hi += x.max(y);
            k += x.abs().max(y.abs());
        }
        cx.check("box", close(gb.0[a], lo, e * k + 1e-36) && close(gb.1[a], hi, e * k + 1e-36), || format!("{m:?} of box {ob:?}: {gb:?}, axis {a} expected [{lo},{hi}]"));
    }
}
/// real primitives under nested placements: agree with the object-space query on the object-space ray
fn placed_real(cx: &mut Ctx) {
    let env = Env::default();
    let leaf = match cx.rng.below(3) {
        0 => Node::Slab(solid_box(&mut cx.rng)),
        1 => Node::List((0..3).map(|_| Node::Ball(small_sphere(&mut cx.rng))).collect()),
        _ => Node::Ball(small_sphere(&mut cx.rng)),
    };
    let depth = 1 + cx.rng.us(3);
    let mut node = leaf.clone();
    let mut ts = vec![];
    for _ in 0..depth {
        let (t, s) = placement(&mut cx.rng);
        ts.push(t);
        node = Node::Placed(Box::new(node), t, s);
    }
    let world = node.build(&env);
    let obj = leaf.build(&env);
    // aim in object space, then carry the ray out
    let (o, d, tm) = match first_ball(&leaf) {
        Some(s) => gen_ray(&mut cx.rng, &s),
        None => any_ray(&mut cx.rng),
    };
    if norm(d) < 1e-4 {
        return;
    }
    let mut w = ray(o, d, tm);
    for t in &ts {
        w = t.map(w);
    }
    let mut back = w;
    for t in ts.iter().rev() {
        back = t.map_inverse(back);
    }
    let (a, b) = (world.intersect(w), obj.intersect(back));
    let yn = world.do_intersect(w);
    let sh = || format!("{} ray {w:?}: {:?}; object space {back:?}: {:?}", node.show(), a.as_ref().map(rec), b.as_ref().map(rec));
    cx.sample(sh);
    cx.check("yes-no", yn == a.is_some(), || format!("{} yes/no {yn}", sh()));
    match (&a, &b) {
        (Some(x), Some(y)) => {
            let (tx, ty) = (x.t_ray as f64, y.t_ray as f64);
            if (tx - ty).abs() <= 1e-4 * ty.abs() + 1e-6 {
                cx.check("same-t", true, sh);
                let (u, v) = (x.surface_interaction.uv.vec, y.surface_interaction.uv.vec);
                if tx == ty {
                    cx.check("same-uv", same_f(u[0], v[0]) && same_f(u[1], v[1]), sh);
                    // the whole record, carried out by the placements' own matrices
                    let y = &y.surface_interaction;
                    let (mut q, mut n, mut du, mut dv) = (d3(y.p), d3(y.n), d3(y.dpdu), d3(y.dpdv));
                    let (mut aq, mut an, mut au, mut av) = (norm(q) + norm(d3(back.origin)) + norm(d3(back.direction)) * tx, 1.0, norm(du), norm(dv));
                    for t in &ts {
                        let (m, mi) = (to_ref(&t.matrix().data), to_ref(&t.inverse_matrix().data));
                        (q, n, du, dv) = (mp(&m, q), mvt(&mi, n), mv(&m, du), mv(&m, dv));
                        (aq, an, au, av) = (fro(&m) * (1.0 + aq), fro(&mi) * an, fro(&m) * au, fro(&m) * av);
                    }
                    let x = &x.surface_interaction;
                    let en = 1e-5 * an / norm(n) + 1e-5;
                    if (norm(d3(y.n)) - 1.0).abs() < 1e-4 && en < 0.05 {
                        cx.check("nested-record", close3(d3(x.n), mul(n, 1.0 / norm(n)), en), || format!("{}: expected normal {:?} +- {en:e}", sh(), mul(n, 1.0 / norm(n))));
                    }
                    let ok = close3(d3(x.p), q, 1e-5 * aq) && close3(d3(x.dpdu), du, 1e-5 * au + 1e-30) && close3(d3(x.dpdv), dv, 1e-5 * av + 1e-30);
                    cx.check("nested-record", ok, || format!("{}: expected point {q:?} tangents {du:?} {dv:?}", sh()));
                }
                // nested chain: the point is on the world ray
                let e = add(d3(w.origin), mul(d3(w.direction), tx));
                let p = d3(x.surface_interaction.p);
                let k = norm(d3(w.origin)) + norm(d3(w.direction)) * tx + norm(p) + norm(o) + norm(d) * tx + 10.0;
                cx.check("nested-point", matches!(leaf, Node::Slab(_)) || close3(p, e, 2e-2 * k), || format!("{}: {p:?} vs world ray {e:?}", sh()));
                // a sphere tiny compared with the distance has no meaningful record (see C15)
                if (norm(d3(y.surface_interaction.n)) - 1.0).abs() < 1e-4 {
                    cx.check("nested-normal", (norm(d3(x.surface_interaction.n)) - 1.0).abs() < 1e-4, sh);
                } else {
                    cx.und("object-record-imprecise");
                }
            } else if robust(&*obj.0, back, y.t_ray) {
                cx.check("same-t", false, sh);
            } else {
                cx.und("object-ray-rounding");
            }
        }
        (None, None) => cx.ev("both-miss"),
        _ => {
            let t = b.as_ref().map_or(-1.0, |g| g.t_ray);
            if robust(&*obj.0, back, t) {
                cx.check("hit-iff-object-hit", false, sh);
            } else {
                cx.und("object-ray-rounding");
            }
        }
    }
}
/// the answer does not depend on rounding-size changes of the ray
fn robust(p: &dyn Primitive, r: Rayf, t: f32) -> bool {
    let (o, d) = (d3(r.origin), d3(r.direction));
    let k = 1e-5;
    for i in 0..3 {
        for s in [-1.0, 1.0] {
            let (mut o2, mut d2) = (o, d);
            o2[i] += s * k * (norm(o) + 1e-3);
            d2[i] += s * k * norm(d);
            for q in [ray(o2, d, r.tmax as f64), ray(o, d2, r.tmax as f64)] {
                let g = p.intersect(q).map_or(-1.0, |g| g.t_ray);
                if (g - t).abs() > 1e-2 * t.abs() + 1e-4 || (g < 0.0) != (t < 0.0) {
                    return false;
                }
            }
        }
    }
    true
}

// ---------------------------------------------------------------- C18
/// visit every node the hit passes through, with its ray and hit in that node's space;
/// returns a bound on the error of the hit point in this node's space (None: path lost)
fn descend(cx: &mut Ctx, node: &Node, r: Rayf, t: f32, depth: u32, whole: &dyn Fn() -> String, exact: bool) -> Option<f64> {
    let env = Env::default();
    let prim = node.build(&env);
    let b = un(&prim.bbox());
    let g = match prim.intersect(r) {
        Some(g) if g.t_ray == t => g,
        _ => {
            cx.und("path-lost");
            return None;
        }
    };
    let p = d3(g.surface_interaction.p);
    let (o, d) = (d3(r.origin), d3(r.direction));
    let reach = norm(o) + norm(d) * t as f64;
    let mut err = 16.0 * E32 * (reach + norm(b.0).max(norm(b.1)));
    match node {
        Node::List(v) => {
            cx.ev("through-list");
            for c in v {
                let cp = c.build(&env);
                let cb = un(&cp.bbox());
                if (0..3).all(|a| cb.0[a] <= cb.1[a]) {
                    cx.check("child-box-inside", (0..3).all(|a| cb.0[a] >= b.0[a] && cb.1[a] <= b.1[a]), || format!("{}: box {b:?}, member box {cb:?} sticks out", node.show()));
                }
            }
            if let Some(c) = v.iter().find(|c| c.build(&env).intersect(r).map_or(false, |g| g.t_ray == t)) {
                err = descend(cx, c, r, t, depth + 1, whole, exact)?;
            }
        }
        Node::Placed(c, tr, name) => {
            cx.ev("through-placement");
            let rr = tr.map_inverse(r);
            let ec = descend(cx, c, rr, t, depth + 1, whole, exact)?;
            let (m, mi) = (super::p_linear::to_ref(&tr.matrix().data), super::p_linear::to_ref(&tr.inverse_matrix().data));
            let per = if name.contains("look") { 600.0 } else { 64.0 };
            err += fro(&m) * (ec + per * E32 * fro(&mi) * (1.0 + reach));
        }
        Node::Ball(s) => err += 2.0 * (norm(p) - s.r).abs(),
        _ => {}
    }
    let k = if exact { 0.0 } else { err };
    if !exact && k > 0.02 * norm(sub(b.1, b.0)) {
        cx.und("ill-conditioned");
        return None;
    }
    let sh = || format!("{} under {}: ray o={o:?} d={d:?} tmax={} t={t} p={p:?} box {b:?}", node.show(), whole(), r.tmax);
    cx.check("hit-in-box", (0..3).all(|a| p[a] >= b.0[a] - k && p[a] <= b.1[a] + k), || format!("{}: hit point outside the box (slack {k:e})", sh()));
    let grown = Bbox3::new(p3::<f32>([b.0[0] - k, b.0[1] - k, b.0[2] - k]), p3::<f32>([b.1[0] + k, b.1[1] + k, b.1[2] + k]));
    let q = grown.intersect_ray(r);
    let kt = if exact { 0.0 } else { (k / norm(d)).max(4.0 * E32 * t as f64) };
    cx.check("box-hit-by-ray", q.map_or(false, |(a, b)| a as f64 - kt <= t as f64 && t as f64 <= b as f64 + kt), || format!("{}: ray/box period {q:?} does not contain the hit", sh()));
    cx.check("box-yes-no", grown.do_intersect(r), || format!("{}: the box test would cull the hit", sh()));
    cx.ev(["depth0", "depth1", "depth2", "depth3+"][depth.min(3) as usize]);
    Some(err)
}
fn has_empty_placed(n: &Node) -> bool {
    // a placement of an empty list has no meaningful box to map
    match n {
        Node::List(v) => v.iter().any(has_empty_placed),
        Node::Placed(c, ..) => is_empty(c) || has_empty_placed(c),
        _ => false,
    }
}
fn is_empty(n: &Node) -> bool {
    match n {
        Node::List(v) => v.iter().all(is_empty),
        Node::Placed(c, ..) => is_empty(c),
        _ => false,
    }
}
fn cull(cx: &mut Ctx) {
    let dep = 1 + cx.rng.below(4) as u32;
    let node = tree(&mut cx.rng, dep, false);
    if has_empty_placed(&node) {
        return;
    }
    let env = Env::default();
    let prim = node.build(&env);
    cx.sample(|| node.show());
    for _ in 0..6 {
        let b = un(&prim.bbox());
        if !(0..3).all(|a| b.0[a] <= b.1[a]) {
            return;
        }
        // aim at the scene
        let (o, d) = {
            let r = &mut cx.rng;
            let q = [0, 1, 2].map(|a| b.0[a] + r.unit() * (b.1[a] - b.0[a]));
            if r.chance(1, 4) {
                // axis aligned, possibly in a bounding plane
                let ax = r.us(3);
                let mut d = [0; 3].map(|_| if r.chance(1, 2) { 0.0 } else { -0.0 });
                d[ax] = r.sign();
                let mut o = q;
                for a in 0..3 {
                    if a != ax && r.chance(1, 3) {
                        o[a] = if r.chance(1, 2) { b.0[a] } else { b.1[a] };
                    }
                }
                o[ax] = if d[ax] > 0.0 { b.0[ax] - 1.0 } else { b.1[ax] + 1.0 };
                (o, d)
            } else {
                let o = add(q, mul(r.dir(), r.log(0.5, 3.0) * (1.0 + norm(sub(b.1, b.0)))));
                (o, mul(sub(q, o), r.pick(&[1.0, 0.1, 5.0])))
            }
        };
        let (o, d) = (o.map(|x| x as f32 as f64), d.map(|x| x as f32 as f64));
        if norm(d) < 1e-4 {
            continue;
        }
        let tm = cx.rng.pick(&[f64::INFINITY, f32::MAX as f64, 1e4, 1.0]);
        let r = ray(o, d, tm);
        let Some(g) = prim.intersect(r) else {
            continue;
        };
        if !g.t_ray.is_finite() {
            cx.fail("finite", format!("{} ray {r:?}: t = {}", node.show(), g.t_ray));
            continue;
        }
        descend(cx, &node, r, g.t_ray, 0, &|| node.show(), false);
    }
}
/// translations, mirrors and power-of-two scales of integer spheres and boxes, axis-parallel rays: no slack at all
fn cull_exact(cx: &mut Ctx) {
    let r = &mut cx.rng;
    let (s, mut o, mut d, tm) = exact_case(r);
    let mut node = Node::Ball(s);
    let mut slab = false;
    if r.chance(1, 3) {
        let a = [0; 3].map(|_| r.int(-3, 3) as f64);
        let e = [0; 3].map(|_| r.int(0, 3) as f64);
        let b = (a, add(a, e));
        // a ray in a bounding plane of the box
        let ax = r.us(3);
        d = [0; 3].map(|_| if r.chance(1, 2) { 0.0 } else { -0.0 });
        d[ax] = r.sign();
        o = [0, 1, 2].map(|i| if r.chance(1, 2) { b.0[i] } else { b.1[i] });
        o[ax] = if d[ax] > 0.0 { a[ax] - 2.0 } else { b.1[ax] + 2.0 };
        node = Node::Slab(b);
        slab = true;
    }
    let mut lr = ray(o, d, tm);
    let depth = r.us(4);
    for _ in 0..depth {
        if r.chance(1, 3) {
            node = Node::List(vec![node]);
            continue;
        }
        let (t, name) = if r.chance(1, 2) {
            let v = [0; 3].map(|_| r.int(-4, 4) as f64);
            (Transform::<f32>::translate(v3(v)), format!("translate({v:?})"))
        } else {
            let v = [0; 3].map(|_| r.pick(&[1.0, -1.0, 2.0, 0.5, -0.5]));
            (Transform::<f32>::scale(v3(v)), format!("scale({v:?})"))
        };
        lr = t.map(lr);
        node = Node::Placed(Box::new(node), t, name);
    }
    let env = Env::default();
    let prim = node.build(&env);
    cx.sample(|| format!("{} ray {lr:?}", node.show()));
    if let Some(g) = prim.intersect(lr) {
        let (o, d) = (d3(lr.origin), d3(lr.direction));
        let b = un(&prim.bbox());
        if (0..3).any(|a| d[a] == 0.0 && (o[a] == b.0[a] || o[a] == b.1[a])) {
            cx.ev("in-bounding-plane");
        }
        // an implementation that rounds on spheres gets the slack of the other section
        descend(cx, &node, lr, g.t_ray, 0, &|| node.show(), slab || !rounds());
    }
}

pub fn sections() -> Vec<(&'static str, Vec<Section>)> {
    vec![
        (
            "C16",
            vec![
                Section { name: "lists", rule: "insertion histories of 0-66 members (spheres, boxes, placements, nested lists, spies) interleaved with queries; result against every member queried alone; box against the union; drop counters", quick: 120_000, thorough: 5_000_000, exhaustive: false, need: &["empty", "nearest", "members-record", "yes-no", "box-is-union", "empty-list", "kept-alive", "released-once", "tie", "nearest-not-last", "nearest-not-first", "long-list", "tracked-members"], run: lists },
                Section { name: "deep", rule: "lists nested (partly through placements) up to 565 levels deep and lists of 120 to 65549 spies, a lone hit among misses or many; related rays on the same list", quick: 3_000, thorough: 100_000, exhaustive: false, need: &["very-long-list", "deeply-nested", "related-ray", "nearest", "empty", "yes-no", "released-once"], run: deep },
                Section { name: "orders", rule: "complete enumeration of up to 4 spies with parameters in {miss,0,1,2,2.5}, four limits, flat and nested", quick: ORDERS, thorough: ORDERS, exhaustive: true, need: &["nearest", "empty", "yes-no"], run: orders },
            ],
        ),
        (
            "C17",
            vec![
                Section { name: "spy", rule: "a spy primitive with an arbitrary record under chains of 1-3 elementary transforms: the ray it is shown and the world record against double-precision matrices", quick: 600_000, thorough: 30_000_000, exhaustive: false, need: &["hit-iff", "yes-no", "asked", "object-ray", "object-limit", "same-t", "same-uv", "on-world-ray", "tangents", "normal-unit", "normal", "same-side", "mirrored", "box", "related-ray", "released-once"], run: placed },
                Section { name: "far", rule: "the spy under chains of 1-2 transforms with scales and offsets from 1e-5 to 1e5 (non-uniform, mirrored, inverted) and rays of any length, against the placement's own matrices component by component", quick: 600_000, thorough: 30_000_000, exhaustive: false, need: &["hit-iff", "object-ray", "same-t", "tangents", "on-world-ray", "normal", "tiny-mapped-normal", "huge-mapped-normal", "box"], run: placed_far },
                Section { name: "real", rule: "spheres, boxes and lists under 1-3 nested placements against the object-space query on the ray carried back", quick: 500_000, thorough: 25_000_000, exhaustive: false, need: &["yes-no", "same-t", "same-uv", "nested-point", "nested-normal", "nested-record", "both-miss"], run: placed_real },
            ],
        ),
        (
            "C18",
            vec![
                Section { name: "trees", rule: "random scene trees of depth 1-4 with aimed and axis-aligned rays; every node on the hit's path: hit in box, ray hits box around the hit parameter, member boxes inside list boxes", quick: 250_000, thorough: 12_000_000, exhaustive: false, need: &["hit-in-box", "box-hit-by-ray", "box-yes-no", "through-list", "through-placement", "child-box-inside", "depth0", "depth1", "depth2", "depth3+"], run: cull },
                Section { name: "exact", rule: "integer spheres and boxes (flat ones too) under exact placements with axis-parallel rays, including rays in bounding planes and tangent rays: no slack", quick: 800_000, thorough: 30_000_000, exhaustive: false, need: &["hit-in-box", "box-hit-by-ray", "box-yes-no", "in-bounding-plane", "through-placement", "through-list"], run: cull_exact },
            ],
        ),
    ]
}
