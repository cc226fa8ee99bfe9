//! Great-circle distances: P15-P19.
use super::geom::G;
use super::search::Case;
use super::tree::{build, Cfg};
use super::util::*;
use crate::dom::*;
use crate::engine::Rel;
use crate::run::Scen;
use crate::scen;
use geo::{Coord, Line, LineString, Point, Polygon, Rect};
use quadtree::spherical::math::*;
use quadtree::{AsGeom, CalcMethod, DistHaversine, Error, GeometryRef};

const PI: f64 = std::f64::consts::PI;
const H: f64 = std::f64::consts::FRAC_PI_2;

/// A position: longitude and latitude in radians.
fn pos<T: Num0>(n: &str, lng: f64, lat: f64) -> Coord<T> {
    c(T::var(&format!("{n}x"), -lng, lng), T::var(&format!("{n}y"), -lat, lat))
}
fn ok<T: Dom>(r: Result<T, Error>) -> T {
    match r {
        Ok(d) => d,
        Err(e) => {
            chk(false, &format!("the distance is defined ({e})"));
            unreachable!()
        }
    }
}
// ------------------------------------------------------------------ P15
/// The distance of two points through one of its public entrances.
fn pp<T: Dom>(a: Coord<T>, b: Coord<T>, how: usize) -> T {
    let (a, b) = (Point(a), Point(b));
    match how {
        0 => dist_pt_pt(&a, &b),
        1 => ok(a.dist_haversine(&GeometryRef::Point(&b))),
        2 => ok(G::Point(a).dist_haversine(&G::Point(b))),
        _ => ok(a.with_calc(CalcMethod::Spherical).dist_geom(&b.as_geom())),
    }
}
use quadtree::AsGeom as _;
fn basic<T: Dom>() {
    let how = choice(4);
    let (p, q) = (pos::<T>("p", PI, H), pos::<T>("q", PI, H));
    let d = pp(p, q, how);
    chk(d <= d, "the distance is a number");
    chk_sph_le(T::k(0.0), d, "the distance is not negative");
    chk_sph_le(d, T::k(PI), "the distance is at most pi");
    chk_sph_eq(d, pp(q, p, how), "the distance is symmetric");
    chk_sph_eq(pp(p, p, how), T::k(0.0), "a point is at distance zero from itself");
    let s = T::var("s", -PI, PI);
    chk_sph_eq(d, pp(c(p.x + s, p.y), c(q.x + s, q.y), how), "shifting both longitudes does not change the distance");
}
fn meridian<T: Dom>() {
    let (p, q) = (pos::<T>("p", PI, H), pos::<T>("q", PI, H));
    let d = pp(p, c(p.x, q.y), choice(4));
    chk_sph_eq(d, if p.y < q.y { q.y - p.y } else { p.y - q.y }, "on one meridian the distance is the difference in latitude");
}
fn equator<T: Dom>() {
    let (a, b) = (T::var("px", -PI, PI), T::var("qx", -PI, PI));
    let l = if a < b { b - a } else { a - b };
    let d = pp(c(a, T::k(0.0)), c(b, T::k(0.0)), choice(4));
    if l <= T::k(PI) {
        chk_sph_eq(d, l, "on the equator the distance is the difference in longitude");
    } else {
        chk_sph_eq(d, T::k(2.0 * PI) - l, "on the equator the distance is the difference in longitude, the short way round");
    }
}
fn monotone<T: Dom>() {
    let (p, q) = (pos::<T>("p", PI, H), pos::<T>("q", PI, H));
    let (l, m) = (T::var("l", 0.0, PI), T::var("m", 0.0, PI));
    l.assume_le(m);
    let how = choice(4);
    let (d, e) = if flag() { (pp(p, c(p.x + l, q.y), how), pp(p, c(p.x + m, q.y), how)) } else { (pp(c(p.x + l, p.y), c(p.x, q.y), how), pp(c(p.x + m, p.y), c(p.x, q.y), how)) };
    chk_sph_le(d, e, "the distance grows with the difference in longitude up to pi");
}
fn angle<T: Dom>() {
    let (p, q) = (pos::<T>("p", PI, H), pos::<T>("q", PI, H));
    let d = pp(p, q, choice(4));
    let dot = p.y.sin() * q.y.sin() + p.y.cos() * q.y.cos() * (q.x - p.x).cos();
    let h = (d / T::k(2.0)).sin();
    let (a, b) = (h * h, (T::k(1.0) - dot) / T::k(2.0));
    chk_sph_eq(a, b, "the distance is the angle between the two directions");
}
fn antipodal<T: Dom>() {
    // close to antipodal: the sum of the latitudes and the excess of the longitude difference are tiny
    let i = choice(64) as f64;
    let y = T::var("y", i * 1.57 / 64.0, (i + 1.0) * 1.57 / 64.0);
    let e = T::k([0.0, 1e-16, 1e-9][choice(3)]);
    let d = dist_pt_pt(&Point(c(T::k(-H), y)), &Point(c(T::k(H), e - y)));
    chk(d <= d, "the distance of nearly antipodal points is a number");
}
pub fn p15() -> Vec<Scen> {
    let b = "two symbolic points (longitudes in [-pi,pi], latitudes in [-pi/2,pi/2])";
    vec![
        scen!("basic", Real, format!("{b}, a symbolic shift of both longitudes, each of the four entrances"), basic),
        scen!("meridian", Real, "two symbolic points on one meridian, each entrance", meridian),
        scen!("equator", Real, "two symbolic points on the equator, each entrance", equator),
        scen!("monotone", Real, format!("{b} and two ordered longitude differences in [0,pi], each entrance"), monotone),
        scen!("angle", Real, format!("{b}, each entrance"), angle),
        scen!("antipodal", Round, "points at longitudes -pi/2 and pi/2 and opposite latitudes (64 ranges covering [0,1.57]), every monotone rounding of every operation", antipodal),
    ]
}

// ------------------------------------------------------------------ P16
/// Nearest point of a segment in the coordinate plane.
fn foot<T: Dom>(p: Coord<T>, a: Coord<T>, b: Coord<T>) -> Coord<T> {
    let (dx, dy) = (b.x - a.x, b.y - a.y);
    if dx == T::k(0.0) && dy == T::k(0.0) {
        return a;
    }
    let (n, l) = ((p.x - a.x) * dx + (p.y - a.y) * dy, dx * dx + dy * dy);
    if n < T::k(0.0) {
        a
    } else if l < n {
        b
    } else {
        let t = n / l;
        c(a.x + t * dx, a.y + t * dy)
    }
}
fn seg<T: Dom>(p: Coord<T>, a: Coord<T>, b: Coord<T>) -> T {
    dist_pt_pt(&Point(p), &Point(foot(p, a, b)))
}
fn least<T: Dom>(v: Vec<T>) -> T {
    v.into_iter().reduce(|a, b| if b < a { b } else { a }).expect("no segments")
}
fn ring<T: Dom>(p: Coord<T>, l: &LineString<T>) -> T {
    least(l.0.windows(2).map(|w| seg(p, w[0], w[1])).collect())
}
/// All entrances to the distance of a point and a geometry.
fn entrances<T: Dom>(p: Coord<T>, g: &G<T>) -> Vec<T> {
    let p = Point(p);
    let r = g.as_geom();
    let direct = match g {
        G::Point(q) => dist_pt_pt(&p, q),
        G::Line(l) => dist_pt_line(&p, l),
        G::LineString(l) => dist_pt_linestring(&p, l),
        G::Polygon(l) => dist_pt_poly(&p, l),
        G::Rect(l) => dist_pt_rect(&p, l),
    };
    vec![
        direct,
        ok(p.dist_haversine(&r)),
        ok(r.dist_haversine(&G::Point(p))),
        ok(p.with_calc(CalcMethod::Spherical).dist_geom(&r)),
    ]
}
fn line_any<T: Dom>() {
    let (a, b) = (pos::<T>("a", PI, 1.5), pos::<T>("b", PI, 1.5));
    let p = pos::<T>("p", PI, 1.5);
    let want = seg(p, a, b);
    for d in entrances(p, &G::Line(Line::new(a, b))) {
        chk_sph_eq(d, want, "the distance to a segment is that to its nearest point in the plane");
    }
}
fn line_dot<T: Dom>() {
    let (a, p) = (pos::<T>("a", PI, 1.5), pos::<T>("p", PI, 1.5));
    let want = dist_pt_pt(&Point(p), &Point(a));
    for d in entrances(p, &G::Line(Line::new(a, a))) {
        chk_sph_eq(d, want, "the distance to a segment without length is that to its point");
    }
}
fn shape<T: Dom>(s: Shape, area: [f64; 4]) {
    let g = s.fixed::<T>();
    let p = c(T::var("px", area[0], area[2]), T::var("py", area[1], area[3]));
    let want = match &g {
        G::Line(l) => seg(p, l.start, l.end),
        G::LineString(l) => ring(p, l),
        G::Polygon(l) => {
            // convex rings, counter-clockwise
            let side = |a: Coord<T>, b: Coord<T>| (b.x - a.x) * (p.y - a.y) - (b.y - a.y) * (p.x - a.x);
            let within = |l: &LineString<T>| l.0.windows(2).all(|w| side(w[0], w[1]) >= T::k(0.0));
            let strictly = |l: &LineString<T>| l.0.windows(2).all(|w| side(w[0], w[1]) > T::k(0.0));
            let inside = within(l.exterior()) && !l.interiors().iter().any(strictly);
            observe(inside as i64);
            if inside {
                T::k(0.0)
            } else {
                least(std::iter::once(l.exterior()).chain(l.interiors()).map(|r| ring(p, r)).collect())
            }
        }
        _ => unreachable!(),
    };
    for d in entrances(p, &g) {
        chk_sph_eq(d, want, "the distance is the least over the segments, and zero in a polygon");
    }
}
fn shape_far<T: Dom>(s: Shape, area: [f64; 4]) {
    let g = s.fixed::<T>();
    let p = c(T::var("px", area[0], area[2]), T::var("py", area[1], area[3]));
    for d in entrances(p, &g) {
        chk(d > T::k(0.0), "a point that is not on the geometry is at a positive distance");
    }
}
pub fn p16() -> Vec<Scen> {
    let w = [-PI, -1.5, PI, 1.5];
    let segs: Vec<(&str, Shape)> = vec![
        ("slanted", Shape::Line([-0.5, -0.25, 0.75, 0.5])),
        ("meridian", Shape::Line([0.5, -0.5, 0.5, 0.75])),
        ("parallel", Shape::Line([0.75, 0.5, -1.0, 0.5])),
        ("long", Shape::Line([3.0, -1.25, -3.0, 1.25])),
    ];
    let mut v = vec![
        scen!("segment", Real, "symbolic segment and point (longitudes in [-pi,pi], latitudes in [-1.5,1.5]), all entrances", line_any),
        scen!("segment-point", Real, "symbolic segment without length and symbolic point", line_dot),
    ];
    for (n, s) in segs {
        v.push(scen!(format!("segment-{n}"), Real, format!("{s:?}, symbolic point, all entrances"), shape, s, w));
    }
    let l2 = Shape::Ls(vec![(-0.5, -0.25), (0.5, 0.5), (1.0, -0.5)]);
    let l3 = Shape::Ls(vec![(-2.0, 0.25), (-0.5, -0.25), (0.5, 0.5), (1.0, -0.5)]);
    v.push(scen!("linestring-2", Real, format!("{l2:?}, symbolic point"), shape, l2, w));
    v.push(scen!("linestring-3", Real, format!("{l3:?}, symbolic point"), shape, l3, w).thorough());
    let sq = vec![(-0.5, -0.5), (0.5, -0.5), (0.5, 0.5), (-0.5, 0.5), (-0.5, -0.5)];
    let tri = vec![(-0.25, -0.25), (0.25, -0.25), (0.0, 0.25), (-0.25, -0.25)];
    let plain = Shape::Poly(vec![(-0.5, -0.5), (0.75, -0.25), (0.0, 0.5), (-0.5, -0.5)], vec![]);
    let hole = Shape::Poly(sq.clone(), vec![tri.clone()]);
    v.push(scen!("polygon", Real, format!("{plain:?}, symbolic point"), shape, plain, [-1.5, -1.0, 1.5, 1.0]));
    v.push(scen!("polygon-hole-in", Real, format!("{hole:?}, symbolic point in and near the hole"), shape, hole, [-0.3, -0.3, 0.3, 0.3]));
    v.push(scen!("polygon-hole-out", Real, format!("{hole:?}, symbolic point below and beside"), shape, hole, [0.25, -1.0, 1.5, -0.25]));
    let tri2 = vec![(0.25, 0.125), (0.4375, 0.125), (0.3125, 0.375), (0.25, 0.125)];
    let tri3 = vec![(-0.375, -0.375), (-0.25, -0.375), (-0.25, -0.125), (-0.375, -0.375)];
    let holes = Shape::Poly(sq.clone(), vec![tri3.clone(), tri2.clone()]);
    v.push(scen!("polygon-holes-second", Real, format!("{holes:?}, symbolic point in and near the second hole"), shape, holes.clone(), [0.28, 0.13, 0.36, 0.25]));
    v.push(scen!("polygon-holes", Real, format!("{holes:?}, symbolic point"), shape, holes, w).thorough());
    let dup = Shape::Ls(vec![(0.5, 0.5), (0.5, 0.5), (1.0, -0.5)]);
    v.push(scen!("linestring-repeated", Real, format!("{dup:?}, symbolic point"), shape, dup, w));
    v.push(scen!("polygon-hole", Real, format!("{hole:?}, symbolic point"), shape, hole, w).thorough());
    v.push(scen!("positive", Real, format!("{hole:?}, symbolic point to the east"), shape_far, hole, [0.51, -1.0, 1.5, 1.0]).thorough());
    v
}

// ------------------------------------------------------------------ P17
fn gc<T: Dom>(p: Coord<T>, x: T, y: T) -> T {
    dist_pt_pt(&Point(p), &Point(c(x, y)))
}
const SLACK: f64 = 1.0 / (1u64 << 40) as f64;
/// Where the meridian at longitude x comes nearest to p.
fn nearest_lat<T: Dom>(p: Coord<T>, x: T) -> T {
    p.y.sin().atan2(p.y.cos() * (x - p.x).cos())
}
/// Lemma: along a meridian, cos d(p, (x, t)) = R cos(t - Q) with R >= 0 and Q = nearest_lat(p, x).  So for
/// lo <= t <= hi the distance is least at Q clamped to [lo, hi] when |Q| <= pi/2, and else at an end.
fn meridian_lemma<T: Dom>(p: Coord<T>, x: T, lo: T, hi: T, z: T, t: T) {
    let q = nearest_lat(p, x);
    let (h, n) = (T::k(H), T::k(-H));
    let at = |y: T| gc(p, x, y);
    T::fact(&[(n, Rel::Le, q), (q, Rel::Le, h)], &[(at(z), Rel::Le, at(t))]);
    T::fact(&[(h, Rel::Le, q), (at(t), Rel::Lt, at(lo))], &[(at(hi), Rel::Le, at(t))]);
    T::fact(&[(q, Rel::Le, n), (at(t), Rel::Lt, at(lo))], &[(at(hi), Rel::Le, at(t))]);
}
/// Lemma: tan Q = tan y / cos(difference in longitude), so Q is farther from the equator than the point.
fn foot_lemma<T: Dom>(p: Coord<T>, x: T) {
    let (q, o) = (nearest_lat(p, x), T::k(0.0));
    T::fact(&[(o, Rel::Le, p.y)], &[(p.y, Rel::Le, q)]);
    T::fact(&[(p.y, Rel::Le, o)], &[(q, Rel::Le, p.y)]);
}
/// Lemma (P15 decides it): on one parallel the distance grows with the circular distance of the longitudes, so
/// between two meridians, seen from outside, it is least at one of them.
fn parallel_lemma<T: Dom>(p: Coord<T>, west: T, east: T, q: Coord<T>) {
    let (w, e, d) = (gc(p, west, q.y), gc(p, east, q.y), gc(p, q.x, q.y));
    T::fact(&[(p.x, Rel::Le, west), (d, Rel::Lt, w)], &[(e, Rel::Le, d)]);
    T::fact(&[(east, Rel::Le, p.x), (d, Rel::Lt, w)], &[(e, Rel::Le, d)]);
}
/// Lemma: the distance is at least the difference of the latitudes.
fn gap_lemma<T: Dom>(p: Coord<T>, q: Coord<T>) {
    let d = gc(p, q.x, q.y);
    T::fact(&[], &[(p.y - q.y, Rel::Le, d)]);
    T::fact(&[], &[(q.y - p.y, Rel::Le, d)]);
}
fn to_rect<T: Dom>(p: Coord<T>, r: &Rect<T>, how: usize) -> T {
    let pt = Point(p);
    match how {
        0 => dist_pt_rect(&pt, r),
        1 => ok(pt.dist_haversine(&GeometryRef::Rect(r))),
        2 => ok(r.dist_haversine(&GeometryRef::Point(&pt))),
        _ => ok(pt.with_calc(CalcMethod::Spherical).dist_bbox(r)),
    }
}
#[derive(Clone, Copy)]
enum R4 {
    At([f64; 4]),
    Any,
}
fn the_rect<T: Dom>(r: R4) -> Rect<T> {
    match r {
        R4::At(v) => rk(v),
        R4::Any => {
            let (a, b) = (pos::<T>("a", PI, H), pos::<T>("b", PI, H));
            a.x.assume_le(b.x);
            a.y.assume_le(b.y);
            Rect::new(a, b)
        }
    }
}
/// Never more than the distance to any point of the rectangle.
fn rect_below<T: Dom>(r: R4, area: [f64; 4]) {
    let r = the_rect::<T>(r);
    let p = c(T::var("px", area[0], area[2]), T::var("py", area[1], area[3]));
    let q = c(T::var("qx", -PI, PI), T::var("qy", -H, H));
    r.min().x.assume_le(q.x);
    q.x.assume_le(r.max().x);
    r.min().y.assume_le(q.y);
    q.y.assume_le(r.max().y);
    let (lo, hi) = (r.min(), r.max());
    gap_lemma(p, q);
    parallel_lemma(p, lo.x, hi.x, q);
    for x in [lo.x, hi.x] {
        let f = nearest_lat(p, x);
        let z = if f < lo.y {
            lo.y
        } else if hi.y < f {
            hi.y
        } else {
            f
        };
        for t in [lo.y, hi.y, q.y] {
            meridian_lemma(p, x, lo.y, hi.y, z, t);
        }
    }
    let d = to_rect(p, &r, 0);
    chk_sph_le(d, dist_pt_pt(&Point(p), &Point(q)), "the distance to a rectangle is at most that to any of its points");
}
/// Zero exactly inside, and attained at a point of the rectangle.
fn rect_attained<T: Dom>(r: R4, area: [f64; 4]) {
    let r = the_rect::<T>(r);
    let p = c(T::var("px", area[0], area[2]), T::var("py", area[1], area[3]));
    let d = to_rect(p, &r, 0);
    for how in 1..4 {
        chk_sph_eq(d, to_rect(p, &r, how), "every entrance gives the same distance");
    }
    if pt_in(&r, p) {
        chk_sph_eq(d, T::k(0.0), "a point in the rectangle is at distance zero");
        return;
    }
    let (lo, hi) = (r.min(), r.max());
    chk_sph_le(T::k(0.0), d, "the distance is not negative");
    if lo.x <= p.x && p.x <= hi.x {
        let gap = if p.y < lo.y { lo.y - p.y } else { p.y - hi.y };
        chk_sph_eq(d, gap, "beside a rectangle that spans the longitude of the point the distance is the gap in latitude");
        return;
    }
    let mut cand = vec![];
    for x in [lo.x, hi.x] {
        let f = nearest_lat(p, x);
        let z = if f < lo.y {
            lo.y
        } else if hi.y < f {
            hi.y
        } else {
            f
        };
        cand.extend([(d, gc(p, x, lo.y)), (d, gc(p, x, hi.y)), (d, gc(p, x, z))]);
    }
    chk_sph_none(&[cand], "some point of the rectangle is at this distance");
}
pub fn p17() -> Vec<Scen> {
    let w = [-PI, -H, PI, H];
    let b = "symbolic rectangle and point (longitudes in [-pi,pi], latitudes in [-pi/2,pi/2])";
    let mut v = vec![
        scen!("below", Real, format!("{b}, symbolic point of the rectangle"), rect_below, R4::Any, w).light(),
        scen!("attained", Real, format!("{b}, each entrance"), rect_attained, R4::Any, w).light(),
    ];
    let rects = [
        ("middle", [-0.5, -0.25, 0.75, 0.5]),
        ("north", [0.25, 0.5, 1.0, 1.25]),
        ("polar", [-2.0, 1.25, 1.0, 1.5]),
        ("south-wide", [-2.5, -1.0, 2.5, -0.5]),
        ("antimeridian", [2.5, -0.5, 3.125, 0.75]),
    ];
    for (n, r) in rects {
        v.push(scen!(format!("{n}-below"), Real, format!("rectangle {r:?}, symbolic point in [-pi,pi]x[-pi/2,pi/2], symbolic point of the rectangle"), rect_below, R4::At(r), w).light().thorough());
        v.push(scen!(format!("{n}-attained"), Real, format!("rectangle {r:?}, symbolic point in [-pi,pi]x[-pi/2,pi/2], each entrance"), rect_attained, R4::At(r), w).light().thorough());
    }
    v
}

// ------------------------------------------------------------------ P18
fn rr<T: Dom>(a: &Rect<T>, b: &Rect<T>, how: usize) -> T {
    match how {
        0 => dist_rect_rect(a, b),
        1 => ok(a.dist_haversine(&GeometryRef::Rect(b))),
        2 => ok(G::Rect(*a).dist_haversine(&G::Rect(*b))),
        3 => ok(a.with_calc(CalcMethod::Spherical).dist_geom(&b.as_geom())),
        _ => ok(a.with_calc(CalcMethod::Spherical).dist_bbox(b)),
    }
}
/// Leave out rectangles equally far apart both ways round (the answer is the same up to rounding).
fn no_tie<T: Dom>(west: &Rect<T>, east: &Rect<T>) {
    let direct = east.min().x - west.max().x;
    let across = T::k(2.0 * PI) - (east.max().x - west.min().x);
    if flag() {
        (direct + T::k(SLACK)).assume_le(across)
    } else {
        (across + T::k(SLACK)).assume_le(direct)
    }
}
fn rect_rect<T: Dom>(relation: usize, flat: usize) {
    let (a, b, e, f) = (pos::<T>("a", PI, H), pos::<T>("b", PI, H), pos::<T>("e", PI, H), pos::<T>("f", PI, H));
    let sides = [(a.x, b.x), (a.y, b.y), (e.x, f.x), (e.y, f.y)];
    for (i, (lo, hi)) in sides.into_iter().enumerate() {
        if flat >> i & 1 == 1 {
            lo.assume_eq(hi);
        } else {
            lo.assume_lt(hi);
        }
    }
    match relation % 3 {
        // the longitudes overlap, the first lies west, the first lies east
        0 => {
            e.x.assume_le(b.x);
            a.x.assume_le(f.x);
        }
        1 => b.x.assume_lt(e.x),
        _ => f.x.assume_lt(a.x),
    }
    let (ox, oy) = (relation % 3 == 0, relation / 3 == 0);
    match relation / 3 {
        0 => {
            e.y.assume_le(b.y);
            a.y.assume_le(f.y);
        }
        1 => b.y.assume_lt(e.y),
        _ => f.y.assume_lt(a.y),
    }
    let (r, s) = (Rect::new(a, b), Rect::new(e, f));
    if relation % 3 == 1 {
        no_tie(&r, &s);
    } else if relation % 3 == 2 {
        no_tie(&s, &r);
    }
    let d = rr(&r, &s, 0);
    chk_sph_le(T::k(0.0), d, "the distance is not negative");
    for how in 0..5 {
        chk_sph_eq(d, rr(&s, &r, how), "the distance is symmetric and the same through every entrance");
        chk_sph_eq(d, rr(&r, &s, how), "the distance is the same through every entrance");
    }
    let (y1, y2) = if relation / 3 == 1 { (b.y, e.y) } else { (a.y, f.y) };
    if ox && oy {
        chk_sph_eq(d, T::k(0.0), "rectangles sharing a point are at distance zero");
    } else if ox {
        chk_sph_eq(d, if relation / 3 == 1 { e.y - b.y } else { a.y - f.y }, "with overlapping longitudes the distance is the gap in latitude");
    } else {
        // the smaller gap in longitude: the direct one or across the antimeridian
        let (west, east) = if relation % 3 == 1 { ((a.x, b.x), (e.x, f.x)) } else { ((e.x, f.x), (a.x, b.x)) };
        let direct = east.0 - west.1;
        let across = T::k(2.0 * PI) - (east.1 - west.0);
        let (w, x) = if direct < across { (west.1, east.0) } else { (west.0, east.1) };
        let (x1, x2) = if relation % 3 == 1 { (w, x) } else { (x, w) };
        if oy {
            let lo = if a.y < e.y { e.y } else { a.y };
            let hi = if b.y < f.y { b.y } else { f.y };
            let lat = if num_traits::Float::abs(lo) > num_traits::Float::abs(hi) { lo } else { hi };
            chk_sph_eq(d, gc(c(x1, lat), x2, lat), "with overlapping latitudes the distance is that across the smaller gap at the shared latitude farthest from the equator");
        } else {
            chk_sph_eq(d, gc(c(x1, y1), x2, y2), "otherwise the distance is that of the facing corners");
        }
    }
}
pub fn p18() -> Vec<Scen> {
    let names = ["sharing", "west-beside", "east-beside", "below", "west-below", "east-below", "above", "west-above", "east-above"];
    let mut v = vec![];
    for (i, n) in names.iter().enumerate() {
        v.push(scen!(*n, Real, "two symbolic rectangles (longitudes in [-pi,pi], latitudes in [-pi/2,pi/2]) with area in this position to each other, each entrance", rect_rect, i, 0).light().congruent());
    }
    for (i, n) in names.iter().enumerate() {
        for (k, l) in [(15, "points"), (1, "first-thin"), (2, "first-flat"), (12, "second-point"), (6, "flat-thin")] {
            v.push(scen!(format!("{n}-{l}"), Real, "two symbolic rectangles, some without width or height, in this position to each other, each entrance", rect_rect, i, k).light().congruent());
        }
    }
    v
}

// ------------------------------------------------------------------ P19
type Res<T> = Result<T, Error>;
fn ways<T: Dom>(a: &G<T>, b: &G<T>) -> Vec<Res<T>> {
    let (ra, rb) = (a.as_geom(), b.as_geom());
    let plain: (Res<T>, Res<T>) = match a {
        G::Point(x) => (x.dist_haversine(&rb), x.dist_haversine(b)),
        G::Line(x) => (x.dist_haversine(&rb), x.dist_haversine(b)),
        G::LineString(x) => (x.dist_haversine(&rb), x.dist_haversine(b)),
        G::Polygon(x) => (x.dist_haversine(&rb), x.dist_haversine(b)),
        G::Rect(x) => (x.dist_haversine(&rb), x.dist_haversine(b)),
    };
    vec![
        plain.0,
        plain.1,
        ra.dist_haversine(&rb),
        ra.dist_haversine(b),
        a.dist_haversine(&rb),
        a.dist_haversine(b),
        a.with_calc(CalcMethod::Spherical).dist_geom(&rb),
        ra.with_calc(CalcMethod::Spherical).dist_geom(&b.as_geom()),
    ]
}
fn kind_at<T: Dom>(k: usize, n: &str, anywhere: bool) -> G<T> {
    let o = if anywhere { c(T::var(&format!("{n}x"), -3.0, 3.0), T::var(&format!("{n}y"), -1.25, 1.25)) } else { ck(0.25, 0.5) };
    match k {
        0 => G::Point(Point(o)),
        1 => Shape::Line([0.0, 0.0, 0.125, 0.25]).at(o),
        2 => Shape::Ls(vec![(0.0, 0.0), (0.125, 0.25), (0.125, 0.0)]).at(o),
        3 => Shape::Poly(vec![(0.0, 0.0), (0.125, 0.0), (0.125, 0.25), (0.0, 0.0)], vec![]).at(o),
        _ => Shape::Rect([0.0, 0.0, 0.125, 0.25]).at(o),
    }
}
fn dispatch<T: Dom>(i: usize, j: usize) {
    use geo::BoundingRect;
    let supported = i == 0 || j == 0 || (i == 4 && j == 4);
    // a point and another shape: the point moves
    let (a, b) = (kind_at::<T>(i, "a", true), kind_at::<T>(j, "b", j == 0 || !supported || i == 4));
    let (ba, bb) = (a.bounding_rect().expect("a bounding box"), b.bounding_rect().expect("a bounding box"));
    if ba.max().x < bb.min().x {
        no_tie(&ba, &bb);
    } else if bb.max().x < ba.min().x {
        no_tie(&bb, &ba);
    }
    let all: Vec<Res<T>> = ways(&a, &b).into_iter().chain(ways(&b, &a)).collect();
    let first = all[0].clone();
    for r in all {
        match (&first, &r) {
            (Ok(x), Ok(y)) => {
                chk(supported, "only pairs with a point and two rectangles have a spherical distance");
                chk_sph_eq(*x, *y, "the distance does not depend on the order of the arguments or their wrappers");
            }
            (_, Err(e)) => chk(!supported && *e == Error::InvalidDistance, "exactly the unsupported pairs give InvalidDistance, in both orders"),
            _ => chk(false, "one order or wrapper gives a distance, the other an error"),
        }
    }
    // the bounding box of either is a rectangle
    for (g, h) in [(&a, &b), (&b, &a)] {
        let bb = h.bounding_rect().expect("a bounding box");
        let d = g.with_calc(CalcMethod::Spherical).dist_bbox(&bb);
        let e = g.with_calc(CalcMethod::Spherical).dist_geom(&GeometryRef::Rect(&bb));
        match (d, e) {
            (Ok(x), Ok(y)) => chk_sph_eq(x, y, "the distance to a box is that to the rectangle"),
            (Err(x), Err(y)) => chk(x == y, "the same error for a box and the rectangle"),
            _ => chk(false, "a box and the rectangle are treated alike"),
        }
    }
}
pub fn p19() -> Vec<Scen> {
    let n = ["point", "line", "linestring", "polygon", "rect"];
    let mut v = vec![];
    for i in 0..5 {
        for j in i..5 {
            v.push(scen!(format!("{}-{}", n[i], n[j]), Real, "two shapes, the first (for unsupported pairs and points and rectangles also the second) at a symbolic place (longitudes in [-3,3], latitudes in [-1.25,1.25]), all wrappers, both orders", dispatch, i, j).light());
        }
    }
    v
}

// ------------------------------------------------------------------ P20
const SROOT: [f64; 4] = [-2.0, -1.0, 2.0, 1.0];
const NORTH: [f64; 4] = [-2.0, 0.0, 2.0, 1.5];
const GLOBE: [f64; 4] = [-PI, -H, PI, H];
/// True facts from which a cell's distance is seen to be at most that of a point q of the cell.
fn cell_facts<T: Dom>(p: Coord<T>, cell: &Rect<T>, q: Coord<T>) {
    let (lo, hi) = (cell.min(), cell.max());
    let d = gc(p, q.x, q.y);
    T::fact(&[], &[(p.y - hi.y, Rel::Le, d)]);
    T::fact(&[], &[(lo.y - p.y, Rel::Le, d)]);
    if lo.x <= p.x && p.x <= hi.x {
        return;
    }
    parallel_lemma(p, lo.x, hi.x, q);
    for x in [lo.x, hi.x] {
        let z = num_traits::Float::min(num_traits::Float::max(nearest_lat(p, x), lo.y), hi.y);
        meridian_lemma(p, x, lo.y, hi.y, z, q.y);
        foot_lemma(p, x);
    }
}
/// The great-circle distance to a datum and points of it one of which is the nearest.
fn true_dist<T: Dom>(p: Coord<T>, g: &G<T>) -> (T, Vec<Coord<T>>) {
    let pt = Point(p);
    match g {
        G::Point(q) => (dist_pt_pt(&pt, q), vec![q.0]),
        G::Rect(r) => {
            let d = dist_pt_rect(&pt, r);
            let (lo, hi) = (r.min(), r.max());
            let mut near = vec![];
            for x in [lo.x, hi.x] {
                let z = num_traits::Float::min(num_traits::Float::max(nearest_lat(p, x), lo.y), hi.y);
                near.extend([c(x, lo.y), c(x, hi.y), c(x, z)]);
            }
            (d, near)
        }
        G::Line(l) => (dist_pt_line(&pt, l), vec![foot(p, l.start, l.end)]),
        _ => unreachable!(),
    }
}
/// A point of an area cut into boxes, each explored.
fn within<T: Num0>(a: [f64; 4], split: (usize, usize)) -> Coord<T> {
    let (i, j) = (choice(split.0), choice(split.1));
    let at = |lo: f64, hi: f64, i: usize, n: usize| if i == n { hi } else { lo + (hi - lo) * i as f64 / n as f64 };
    c(
        T::var("px", at(a[0], a[2], i, split.0), at(a[0], a[2], i + 1, split.0)),
        T::var("py", at(a[1], a[3], j, split.1), at(a[1], a[3], j + 1, split.1)),
    )
}
fn sph_case<T: Dom>(cfg: &Cfg, area: [f64; 4], split: (usize, usize)) -> Case<T> {
    use geo::BoundingRect;
    let b = build::<T>(cfg, CalcMethod::Spherical);
    let p = within(area, split);
    let mut d = vec![];
    for s in &b.stored {
        let (t, near) = true_dist(p, &s.g);
        d.push((s.id, t));
        // the cells that hold it, and its own box
        let shape = &cfg.pre[s.id];
        let bb = shape.fixed::<f64>().bounding_rect().expect("a box");
        let mut cells = vec![vec![]];
        for _ in 0..b.md {
            let mut next = vec![];
            for path in &cells {
                for q in 0..4 {
                    let mut v: Vec<usize> = path.clone();
                    v.push(q);
                    let r = cell_rect(cfg.root, &v);
                    if rect_in(&rk::<f64>(r), &bb) {
                        for n in &near {
                            cell_facts(p, &rk(r), *n);
                        }
                        next.push(v);
                    }
                }
            }
            cells = next;
        }
    }
    Case { tree: b.tree, cmp: G::Point(Point(p)), d, sph: true }
}
#[derive(Clone, Copy)]
enum Search {
    Find,
    FindR,
    Knn,
    KnnR,
    Sorted,
}
fn sph_search<T: Dom>(cfg: Cfg, what: Search, area: [f64; 4], split: (usize, usize)) {
    let k = sph_case::<T>(&cfg, area, split);
    let n = k.d.len();
    let radius = || match choice(3) {
        // every radius in [0, pi], by the sine of its half
        0 => T::k(2.0) * T::var("r", 0.0, 1.0).asin(),
        1 => k.d[choice(n)].1,
        _ => T::k(0.0),
    };
    match what {
        Search::Find => k.nearest(k.tree.find(&k.cmp)),
        Search::FindR => k.found_r(radius()),
        Search::Knn => {
            let j = choice(n + 2);
            k.list(&ok_list(k.tree.knn(&k.cmp, j)), j, None);
        }
        Search::KnnR => {
            let (j, r) = (choice(n + 2), radius());
            k.list(&ok_list(k.tree.knn_r(&k.cmp, j, r)), j, Some(r));
        }
        Search::Sorted => {
            let v = k.tree.sorted(&k.cmp, n + 3);
            chk(v.len() == n, "sorted yields every stored datum exactly once and then ends");
            k.list(&v, n, None);
        }
    }
}
fn ok_list<T>(v: Result<Vec<(usize, T)>, Error>) -> Vec<(usize, T)> {
    v.unwrap_or_else(|e| {
        chk(false, &format!("knn succeeds for a comparator touching the bounds ({e})"));
        vec![]
    })
}
pub fn p20() -> Vec<Scen> {
    let cfg = |root: [f64; 4], point: bool, pre: Vec<Shape>, md: &'static [u8], mc: &'static [usize]| {
        let mut c = Cfg::new(point, pre, "", md, mc);
        c.root = root;
        c
    };
    let pts = |v: &[(f64, f64)]| v.iter().map(|p| Shape::Pt(p.0, p.1)).collect::<Vec<_>>();
    let three = pts(&[(-1.03125, -0.53125), (1.53125, 0.78125), (0.53125, -0.28125)]);
    let pair = pts(&[(-0.9375, -0.53125), (0.53125, -0.28125)]);
    let world = pts(&[(-3.0, 0.25), (3.0, -0.5), (0.5, 1.5)]);
    let shapes = vec![Shape::Rect([-1.5, -0.75, -0.625, -0.3125]), Shape::Line([0.3125, 0.3125, 1.0, 0.5]), Shape::Rect([-0.1875, 0.5, 0.1875, 0.75])];
    use Search::*;
    let w = |n: &str, c: Cfg, k: Search, area: [f64; 4], split: (usize, usize)| {
        let b = format!("{}; comparator point anywhere in {area:?}, in {}x{} parts", c.describe(), split.0, split.1);
        let b = if matches!(k, FindR | KnnR) { format!("{b}; radius free in [0,pi], zero, or the exact distance of any datum") } else { b };
        let b = if matches!(k, Knn | KnnR) { format!("{b}; every k up to two more than stored") } else { b };
        scen!(n, Real, b, sph_search, c, k, area, split).light().envelopes().secs(800.0)
    };
    // one datum just behind the edge of a cell at which the great circle comes nearest
    let edge = |s: f64| pts(&[(s * 0.0078125, 0.865), (s * -1.0078125, 0.8)]);
    let mid = [-0.25, -0.25, 0.25, 0.25];
    vec![
        w("find", cfg(SROOT, true, three.clone(), &[1], &[1]), Find, SROOT, (16, 8)),
        w("find-mid", cfg(SROOT, true, three.clone(), &[2], &[1]), Find, mid, (4, 4)),
        w("find_r-mid", cfg(SROOT, true, pair.clone(), &[1], &[1]), FindR, mid, (4, 4)),
        w("knn-mid", cfg(SROOT, true, three.clone(), &[1], &[1]), Knn, mid, (4, 4)),
        w("knn_r-mid", cfg(SROOT, true, pair.clone(), &[1], &[1]), KnnR, [-0.25, -0.25, 0.0, 0.0], (2, 2)),
        w("sorted-mid", cfg(SROOT, true, three.clone(), &[1], &[1]), Sorted, mid, (4, 4)),
        w("find-antimeridian", cfg(GLOBE, true, world.clone(), &[1], &[1]), Find, [2.75, -0.25, PI, 0.25], (2, 2)),
        w("find-pole", cfg(GLOBE, true, world.clone(), &[1], &[1]), Find, [-1.0, 1.25, 0.0, H], (4, 2)),
        w("sorted-antimeridian", cfg(GLOBE, true, world.clone(), &[1], &[1]), Sorted, [-PI, -0.25, -2.75, 0.25], (2, 2)),
        w("bounds-rect-pt", cfg(SROOT, false, vec![shapes[0].clone(), Shape::Pt(0.53125, 0.28125)], &[1], &[0]), Find, mid, (4, 4)),
        w("bounds-line-pt", cfg(SROOT, false, vec![shapes[1].clone(), Shape::Pt(-0.71875, 0.28125)], &[1], &[0]), Find, mid, (4, 4)),
        w("find-edge", cfg(NORTH, true, edge(1.0), &[1], &[1]), Find, [-0.625, 0.75, -0.375, 0.875], (4, 2)),
        w("find-edge-west", cfg(NORTH, true, edge(-1.0), &[1], &[1]), Find, [0.375, 0.75, 0.625, 0.875], (4, 2)),
        w("sorted-edge", cfg(NORTH, true, edge(1.0), &[1], &[1]), Sorted, [-0.625, 0.75, -0.375, 0.875], (4, 2)),
        w("knn_r-wide", cfg(SROOT, true, pair.clone(), &[1], &[1]), KnnR, mid, (4, 4)).thorough(),
        w("bounds-find", cfg(SROOT, false, shapes.clone(), &[1], &[0]), Find, mid, (4, 4)).thorough(),
        w("bounds-sorted", cfg(SROOT, false, shapes.clone(), &[1], &[0]), Sorted, mid, (4, 4)).thorough(),
        w("find-deep", cfg(SROOT, true, three.clone(), &[3], &[1]), Find, SROOT, (16, 8)).thorough(),
        w("sorted", cfg(SROOT, true, three.clone(), &[1], &[1]), Sorted, SROOT, (32, 16)).thorough(),
        w("find_r", cfg(SROOT, true, pair.clone(), &[1], &[1]), FindR, SROOT, (32, 16)).thorough(),
        w("find-globe", cfg(GLOBE, true, world.clone(), &[1], &[1]), Find, GLOBE, (48, 24)).thorough(),
    ]
}

// ------------------------------------------------------------------ P25
fn undefined<T: Dom>(b: &super::tree::Built<T>, x: &G<T>, e: Error, r: T) {
    chk(b.tree.find(x).err() == Some(e), "find fails with the documented error");
    chk(b.tree.find_r(x, r).err() == Some(e), "find_r fails with the documented error");
    chk(b.tree.knn(x, 2).err() == Some(e), "knn fails with the documented error");
    chk(b.tree.knn_r(x, 1, r).err() == Some(e), "knn_r fails with the documented error");
    chk(b.tree.sorted(x, 9).is_empty(), "sorted is empty where the other searches fail");
}
/// Lines, line strings and polygons have no spherical distance to a cell.
fn sph_refused<T: Dom>(cfg: Cfg, k: usize) {
    let b = build::<T>(&cfg, CalcMethod::Spherical);
    let x = kind_at::<T>(k, "x", true);
    undefined(&b, &x, Error::InvalidDistance, T::var("r", 0.0, PI));
}
/// A comparator somewhere beside the tree.
fn sph_outside<T: Dom>(cfg: Cfg, rect: bool, area: [f64; 4], split: (usize, usize)) {
    let b = build::<T>(&cfg, CalcMethod::Spherical);
    let p: Coord<T> = within(area, split);
    let x = if rect { Shape::Rect([0.0, 0.0, 0.125, 0.0625]).at(p) } else { G::Point(Point(p)) };
    let far = c(p.x + T::k(if rect { 0.125 } else { 0.0 }), p.y + T::k(if rect { 0.0625 } else { 0.0 }));
    let root = rk::<T>(cfg.root);
    let touches = root.min().x <= far.x && p.x <= root.max().x && root.min().y <= far.y && p.y <= root.max().y;
    observe(touches as i64);
    if !touches {
        undefined(&b, &x, Error::OutOfBounds, T::k(PI));
    } else if b.stored.is_empty() {
        chk(b.tree.find(&x).err() == Some(Error::Empty), "find in an empty tree is Empty");
        chk(b.tree.find_r(&x, T::k(1.0)).err() == Some(Error::Empty), "find_r in an empty tree is Empty");
        chk(matches!(b.tree.knn(&x, 2), Ok(v) if v.is_empty()), "knn in an empty tree is an empty list");
        chk(matches!(b.tree.knn_r(&x, 2, T::k(1.0)), Ok(v) if v.is_empty()), "knn_r in an empty tree is an empty list");
        chk(b.tree.sorted(&x, 9).is_empty(), "sorted in an empty tree is empty");
    }
}
/// From a rectangle only points and rectangles can be measured; sorted leaves the others out.
fn sph_skips<T: Dom>(cfg: Cfg, rect: bool, area: [f64; 4], split: (usize, usize)) {
    let b = build::<T>(&cfg, CalcMethod::Spherical);
    let p: Coord<T> = within(area, split);
    let x = if rect { Shape::Rect([0.0, 0.0, 0.0625, 0.03125]).at::<T>(p) } else { G::Point(Point(p)) };
    let want: Vec<(usize, T)> = b
        .stored
        .iter()
        .filter_map(|s| match (&x, &s.g) {
            (G::Rect(x), G::Point(q)) => Some((s.id, dist_pt_rect(q, x))),
            (G::Rect(x), G::Rect(r)) => Some((s.id, dist_rect_rect(x, r))),
            (G::Point(x), G::Point(q)) => Some((s.id, dist_pt_pt(x, q))),
            (G::Point(x), G::Rect(r)) => Some((s.id, dist_pt_rect(x, r))),
            _ => None,
        })
        .collect();
    let n = b.stored.len();
    let got = b.tree.sorted(&x, n + 3);
    chk(
        sorted_ids(got.iter().map(|g| g.0).collect()) == sorted_ids(want.iter().map(|w| w.0).collect()),
        "sorted yields exactly the data that can be measured, each once",
    );
    for (id, d) in &got {
        if let Some(w) = want.iter().find(|w| w.0 == *id) {
            chk_sph_eq(*d, w.1, "sorted yields the true distance");
        }
    }
    if want.len() < n {
        chk(b.tree.knn(&x, n).err() == Some(Error::InvalidDistance), "knn over data that cannot all be measured is InvalidDistance");
    }
    if want.is_empty() {
        // a line string without a segment is infinitely far from a point
        let nothing = match b.tree.find(&x) {
            Ok((_, d)) => !rect && !d.is_finite(),
            Err(e) => e == Error::InvalidDistance,
        };
        chk(nothing, "find among data that cannot be measured is InvalidDistance");
        chk(b.tree.knn(&x, 1).err() == Some(Error::InvalidDistance), "knn among data that cannot be measured is InvalidDistance");
        chk(got.is_empty(), "sorted leaves out data that cannot be measured");
    }
}
pub fn p25() -> Vec<Scen> {
    let cfg = |point: bool, pre: Vec<Shape>, md: &'static [u8]| {
        let mut c = Cfg::new(point, pre, "", md, &[0]);
        c.root = SROOT;
        c
    };
    let pts = || vec![Shape::Pt(-1.03125, -0.53125), Shape::Pt(0.53125, 0.28125)];
    let (pt, line) = (Shape::Pt(0.53125, 0.28125), Shape::Line([-0.5, -0.25, -0.25, -0.3125]));
    let (ls, rect) = (Shape::Ls(vec![(0.25, -0.5), (0.5, -0.25), (0.75, -0.5)]), Shape::Rect([0.5, 0.625, 0.75, 0.75]));
    let poly = Shape::Poly(vec![(0.25, 0.25), (0.75, 0.25), (0.5, 0.5), (0.25, 0.25)], vec![]);
    let mut v = vec![];
    for (k, n) in [(1, "line"), (2, "linestring"), (3, "polygon")] {
        for (t, point, pre) in [("point", true, pts()), ("point-empty", true, vec![]), ("bounds", false, vec![pt.clone(), line.clone()]), ("bounds-empty", false, vec![])] {
            let c = cfg(point, pre, &[0, 2]);
            v.push(scen!(format!("{t}-{n}-refused"), Real, format!("{}; comparator a {n} with longitudes in [-3,3.125] and latitudes in [-1.25,1.5], radius in [0,pi]", c.describe()), sph_refused, c, k).light());
        }
    }
    let wide = [-3.0, -1.5, 3.0, 1.5];
    for (t, point, pre) in [("point", true, pts()), ("point-empty", true, vec![]), ("bounds", false, vec![pt.clone(), line.clone()]), ("bounds-empty", false, vec![])] {
        let c = cfg(point, pre.clone(), &[0, 2]);
        v.push(scen!(format!("{t}-outside"), Real, format!("{}; comparator point anywhere in {wide:?}", c.describe()), sph_outside, c, false, wide, (4, 4)).light().envelopes());
        let c = cfg(point, pre, &[0, 2]);
        v.push(scen!(format!("{t}-outside-rect"), Real, format!("{}; comparator rectangle of 0.125 by 0.0625 with its low corner anywhere in {wide:?}", c.describe()), sph_outside, c, true, wide, (4, 4)).light().envelopes());
    }
    let wide_in = [-1.0, -0.5, 0.5, 0.5];
    for (t, pre, md, area, split) in [
        ("mixed-one-cell", vec![pt.clone(), line.clone(), rect.clone()], &[0u8] as &'static [u8], wide_in, (3, 2)),
        ("mixed-divided-sw", vec![pt.clone(), line.clone()], &[1], [-0.75, -0.5, -0.5, -0.375], (2, 2)),
        ("mixed-divided-se", vec![pt.clone(), line.clone()], &[1], [0.5, -0.5, 0.75, -0.375], (2, 2)),
        ("mixed-divided-ne", vec![pt.clone(), line.clone()], &[1], [0.5625, 0.3125, 0.75, 0.4375], (2, 2)),
        ("mixed-divided-nw", vec![pt.clone(), line.clone()], &[1], [-0.75, 0.25, -0.5, 0.375], (2, 2)),
        ("only-lines", vec![line.clone(), ls.clone()], &[0, 1], wide_in, (3, 2)),
        ("polygon-point", vec![poly.clone(), pt.clone()], &[0], wide_in, (3, 2)),
        ("points-rects", vec![pt.clone(), rect.clone()], &[0], wide_in, (3, 2)),
    ] {
        let c = cfg(false, pre, md);
        v.push(scen!(format!("rect-{t}"), Real, format!("{}; comparator rectangle of 0.0625 by 0.03125 with its low corner anywhere in {area:?}", c.describe()), sph_skips, c, true, area, split).light());
    }
    // nothing to measure to: no segment, or only rings without one
    let (one, ring) = (Shape::Ls(vec![(0.25, -0.25)]), Shape::Poly(vec![(-0.5, 0.25)], vec![]));
    for (t, pre, md, area) in [
        ("one-cell", vec![one.clone(), pt.clone(), ring.clone()], &[0u8] as &'static [u8], [-0.25, -0.5, 0.75, 0.5]),
        ("divided", vec![one.clone(), Shape::Pt(-0.75, 0.375), pt.clone()], &[1], [0.5, 0.25, 0.5625, 0.3125]),
        ("nothing-else", vec![one.clone(), ring.clone()], &[0], [-0.25, -0.25, 0.25, 0.25]),
    ] {
        let c = cfg(false, pre, md);
        v.push(scen!(format!("point-{t}-flat-data"), Real, format!("{}; comparator point anywhere in {area:?}", c.describe()), sph_skips, c, false, area, (2, 2)).light());
    }
    v
}
