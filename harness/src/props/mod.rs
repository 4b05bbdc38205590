pub mod p_box;
pub mod p_camera;
pub mod p_interval;
pub mod p_linear;
pub mod p_safety;
pub mod p_scalar;
pub mod p_scene;
pub mod p_sphere;
pub mod p_transform;
use crate::fw::Section;
use crate::num::Fl;
use scarlet::math::interval::Interval;
use scarlet::math::scalar::{AlmostEqual, GFloat};

pub trait LF: Fl + GFloat + AlmostEqual {}
impl LF for f32 {}
impl LF for f64 {}
pub type Iv<T> = Interval<T>;

pub fn all() -> Vec<(&'static str, Vec<Section>)> {
    let mut v = vec![];
    v.extend(p_interval::sections());
    v.extend(p_scalar::sections());
    v.extend(p_linear::sections());
    v.extend(p_transform::sections());
    v.extend(p_box::sections());
    v.extend(p_sphere::sections());
    v.extend(p_scene::sections());
    v.extend(p_camera::sections());
    v.extend(p_safety::sections());
    v
}
