//! private functions of the repository, reached by including their source files textually
pub mod meshgen {
    include!("/repo/src/utils/meshgen.rs");
    pub fn vx_segments(a: Point2, b: Point2, c: Point2, d: Point2) -> bool { is_segments_intersect(a, b, c, d) }
    pub fn vx_shape(a: Point2, b: Point2, c: Point2) -> f64 { shape_factor(a, b, c) }
}
pub mod polygon {
    include!("/repo/src/utils/polygon.rs");
    pub fn vx_inside(a: Point2, b: Point2, c: Point2, p: Point2) -> bool { is_inside_triangle(a, b, c, p) }
    /// 1 left turn, 0 straight, -1 right turn
    pub fn vx_convexity(a: Point2, b: Point2, c: Point2) -> i32 {
        match compute_convexity(a, b, c) { Convexity::Convex => 1, Convexity::Colinear => 0, Convexity::Concave => -1 }
    }
    pub fn vx_is_ear(points: &[Point2], concave: &[usize], p: usize, c: usize, n: usize) -> bool { is_ear(points, concave, p, c, n) }
}
