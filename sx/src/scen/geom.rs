//! Planar distances, conversions and wrappers: P13, P14, P21, P22.
use super::search::{odist, rect_gap, Area, Cmp};
use super::util::*;
use crate::dom::*;
use crate::run::Scen;
use crate::scen;
use geo::{BoundingRect, Coord, Line, LineString, Point, Polygon, Rect, Triangle};
use quadtree::{euclidean, AsGeom, AsPoint, CalcMethod, DistEuclidean, GeometryRef, ToRadians};

pub type G<T> = quadtree::Geometry<T>;

// ------------------------------------------------------------------ P13
/// The distance of two rectangles through one of its public entrances.
fn rr<T: Dom>(a: &Rect<T>, b: &Rect<T>, how: usize) -> T {
    match how {
        0 => euclidean::math::dist_rect_rect(a, b),
        1 => a.dist_euclidean(&GeometryRef::Rect(b)),
        2 => G::Rect(*a).dist_euclidean(&G::Rect(*b)),
        3 => a.with_calc(CalcMethod::Euclidean).dist_bbox(b).unwrap_or(<T as Num0>::nan()),
        _ => a.with_calc(CalcMethod::Euclidean).dist_geom(&b.as_geom()).unwrap_or(<T as Num0>::nan()),
    }
}
fn rect_pair<T: Dom>(lim: f64) {
    let how = choice(5);
    let a = vrect::<T>("a", -lim, lim);
    let b = vrect::<T>("b", -lim, lim);
    let d = rr(&a, &b, how);
    let e = rr(&b, &a, how);
    chk_le(T::k(0.0), d, "the distance is not negative");
    chk_eq(d, e, "the distance is symmetric");
    let t = touches(&a, &b);
    observe(t as i64);
    if t {
        chk_eq(d, T::k(0.0), "rectangles that share a point are at distance zero");
    } else {
        let z = d <= T::k(0.0);
        chk(!z, "rectangles that share no point are at a positive distance");
    }
    chk_eq(d, rect_gap(&a, &b), "the distance is the length of the gap");
}
fn rect_self<T: Dom>() {
    let a = vrect::<T>("a", -8.0, 8.0);
    chk_eq(rr(&a, &a, choice(5)), T::k(0.0), "a rectangle is at distance zero from itself");
}
fn rect_enlarge<T: Dom>() {
    let a = vrect::<T>("a", -8.0, 8.0);
    let b = vrect::<T>("b", -8.0, 8.0);
    // one side of b moves outwards
    let s = T::var("s", 0.0, 4.0);
    let (mut lo, mut hi) = (b.min(), b.max());
    match choice(4) {
        0 => lo.x = lo.x - s,
        1 => lo.y = lo.y - s,
        2 => hi.x = hi.x + s,
        _ => hi.y = hi.y + s,
    }
    let c = Rect::new(lo, hi);
    let how = choice(2);
    chk_le(rr(&a, &c, how), rr(&a, &b, how), "enlarging the second rectangle does not increase the distance");
    chk_le(rr(&c, &a, how), rr(&b, &a, how), "enlarging the first rectangle does not increase the distance");
}
pub fn p13() -> Vec<Scen> {
    vec![
        scen!("pair", Real, "two symbolic rectangles (8 coordinates in [-8,8], ordered, degenerate ones included), each of the five public entrances", rect_pair, 8.0),
        scen!("self", Real, "one symbolic rectangle (4 coordinates in [-8,8])", rect_self),
        scen!("enlarge", Real, "two symbolic rectangles and a symbolic outward move of any side of one (9 variables)", rect_enlarge),
        scen!("pair-wide", Real, "as pair, coordinates in [-1e6,1e6]", rect_pair, 1e6),
    ]
}

// ------------------------------------------------------------------ P14
/// Plain geometry against borrowed and owned wrappers, all nine combinations.
fn all_ways<T: Dom>(a: &G<T>, b: &G<T>) -> Vec<T> {
    let (ar, br) = (a.as_geom(), b.as_geom());
    let mut v = vec![];
    macro_rules! plain {
        ($g:expr) => {{
            v.push($g.dist_euclidean(&br));
            v.push($g.dist_euclidean(b));
            v.push($g.with_calc(CalcMethod::Euclidean).dist_geom(&br).unwrap_or(<T as Num0>::nan()));
        }};
    }
    match a {
        G::Point(g) => plain!(g),
        G::Line(g) => plain!(g),
        G::LineString(g) => plain!(g),
        G::Polygon(g) => plain!(g),
        G::Rect(g) => plain!(g),
    }
    v.push(ar.dist_euclidean(&br));
    v.push(ar.dist_euclidean(b));
    v.push(a.dist_euclidean(&br));
    v.push(a.dist_euclidean(b));
    v.push(a.with_calc(CalcMethod::Euclidean).dist_geom(&br).unwrap_or(<T as Num0>::nan()));
    v.push(ar.with_calc(CalcMethod::Euclidean).dist_geom(&br).unwrap_or(<T as Num0>::nan()));
    v
}
fn pair<T: Dom>(a: Shape, b: Cmp, polygons: bool) {
    let (a, b) = (a.fixed::<T>(), b.get::<T>());
    let (a, b) = if flag() { (b, a) } else { (a, b) };
    let d = odist(&a, &b);
    chk_le(T::k(0.0), d, "the distance is not negative");
    for (i, e) in all_ways(&a, &b).into_iter().enumerate() {
        chk_eq(e, d, &format!("the distance is the true one, whatever the wrappers (way {i})"));
    }
    for e in all_ways(&b, &a) {
        chk_eq(e, d, "the distance is symmetric");
    }
    // a rectangle has the distances of its polygon
    if let (true, G::Rect(r)) = (polygons, &a) {
        let p = G::Polygon(r.to_polygon());
        chk_eq(p.dist_euclidean(&b), d, "a rectangle has the distances of its polygon");
    }
    // bounding boxes are lower bounds
    let (ba, bb) = (a.bounding_rect().unwrap(), b.bounding_rect().unwrap());
    let e = a.with_calc(CalcMethod::Euclidean).dist_bbox(&bb).unwrap_or(<T as Num0>::nan());
    chk_le_close(e, d, "the distance to the bounding box is not greater than the distance to the geometry");
    chk_eq(e, G::Rect(bb).dist_euclidean(&a), "the distance to a bounding box is that to the rectangle");
    let e = b.with_calc(CalcMethod::Euclidean).dist_bbox(&ba).unwrap_or(<T as Num0>::nan());
    chk_le_close(e, d, "the distance to the bounding box is not greater than the distance to the geometry (other way)");
}
fn self_dist<T: Dom>(a: Cmp) {
    let a = a.get::<T>();
    for d in all_ways(&a, &a) {
        chk_eq(d, T::k(0.0), "a geometry is at distance zero from itself");
    }
}
fn no_calc<T: Dom>(a: Shape) {
    let a = a.fixed::<T>();
    let r = Rect::new(vpt::<T>("p", 0.0, 4.0), ck(5.0, 6.0));
    let c = a.with_calc(CalcMethod::None);
    chk(c.dist_bbox(&r).err() == Some(quadtree::Error::CalcMethodNotSet), "without a method a box distance is refused");
    chk(c.dist_geom(&r.as_geom()).err() == Some(quadtree::Error::CalcMethodNotSet), "without a method a distance is refused");
}
pub fn kinds() -> Vec<(&'static str, Shape)> {
    vec![
        ("point", Shape::Pt(3.0, 4.0)),
        ("line", Shape::Line([2.0, 3.0, 5.0, 4.5])),
        ("linestring", Shape::Ls(vec![(2.0, 5.0), (3.0, 3.5), (5.0, 4.0)])),
        ("polygon", Shape::Poly(vec![(2.0, 2.0), (6.0, 2.0), (6.0, 6.0), (2.0, 6.0), (2.0, 2.0)], vec![vec![(3.0, 3.0), (5.0, 3.0), (4.0, 5.0), (3.0, 3.0)]])),
        ("rect", Shape::Rect([2.0, 3.0, 5.0, 4.0])),
    ]
}
fn movers() -> Vec<(&'static str, Shape)> {
    vec![
        ("point", Shape::Pt(0.0, 0.0)),
        ("line", Shape::Line([-0.5, 0.0, 0.75, 0.5])),
        ("linestring", Shape::Ls(vec![(-0.5, -0.25), (0.5, 0.5), (0.25, 0.75)])),
        ("polygon", Shape::Poly(vec![(-0.25, 0.0), (0.5, 0.0), (0.0, 0.5), (-0.25, 0.0)], vec![])),
        ("rect", Shape::Rect([-0.25, -0.25, 0.25, 0.5])),
    ]
}
pub fn p14() -> Vec<Scen> {
    let mut v = vec![];
    let cheap = |n: &str| n == "point" || n == "rect" || n == "line";
    for (an, a) in kinds() {
        for (bn, b) in movers() {
            let wide = bn == "point" || (bn == "rect" && (an == "rect" || an == "point"));
            let rects = an == "rect" && bn == "rect";
            let mut add = |n: String, c: Cmp, deep: bool| {
                let polygons = !(rects && matches!(c.area, Some(Area::Box(_))));
                let d = format!("{a:?} fixed, {:?} moved by every offset of {:?}; both argument orders, all entrances", c.shape, c.area);
                let s = scen!(n, Real, d, pair, a, c, polygons);
                v.push(if deep { s.secs(300.0).thorough() } else { s });
            };
            if wide {
                add(format!("{an}-{bn}"), Cmp::moving(b.clone(), [0.0, 0.0, 8.0, 8.0]), !cheap(an));
            }
            // into the shape, through a hole or along it, and out again
            let segs = [[1.0, 2.5, 3.5, 4.25], [6.5, 6.25, 4.0, 4.0], [4.25, 1.0, 4.25, 3.5], [2.25, 6.5, 4.75, 2.5]];
            for (i, s) in segs.into_iter().enumerate() {
                if wide && !rects && cheap(an) {
                    continue;
                }
                let deep = i > 1 || (i == 1 && !(cheap(an) && cheap(bn)));
                if cheap(an) && cheap(bn) {
                    add(format!("{an}-{bn}-{i}"), Cmp::along(b.clone(), s), deep);
                } else {
                    // a quarter of it, from a quarter on
                    let at = |t: f64| [s[0] + (s[2] - s[0]) * t, s[1] + (s[3] - s[1]) * t];
                    let (p, q) = (at(0.25), at(0.5));
                    add(format!("{an}-{bn}-{i}-part"), Cmp::along(b.clone(), [p[0], p[1], q[0], q[1]]), deep);
                    add(format!("{an}-{bn}-{i}"), Cmp::along(b.clone(), s), true);
                }
            }
        }
    }
    for (n, s) in movers() {
        v.push(scen!(format!("self-{n}"), Real, format!("{s:?} moved by every offset in [0,4]x[0,4], with itself"), self_dist, Cmp { shape: s.clone(), area: Some(if n == "point" || n == "rect" { Area::Box([0.0, 0.0, 4.0, 4.0]) } else { Area::Seg([0.0, 0.0, 4.0, 3.0]) }) }));
    }
    for (n, s) in kinds() {
        v.push(scen!(format!("none-{n}"), Real, format!("{s:?}, symbolic box, CalcMethod::None"), no_calc, s));
    }
    v
}

// ------------------------------------------------------------------ P21, P22
pub fn coords<T: Num0>(g: &G<T>) -> Vec<Vec<Coord<T>>> {
    match g {
        G::Point(p) => vec![vec![p.0]],
        G::Line(l) => vec![vec![l.start, l.end]],
        G::LineString(l) => vec![l.0.clone()],
        G::Polygon(p) => std::iter::once(p.exterior().0.clone()).chain(p.interiors().iter().map(|r| r.0.clone())).collect(),
        G::Rect(r) => vec![vec![r.min(), r.max()]],
    }
}
pub fn kind<T: Num0>(g: &G<T>) -> usize {
    match g {
        G::Point(_) => 0,
        G::Line(_) => 1,
        G::LineString(_) => 2,
        G::Polygon(_) => 3,
        G::Rect(_) => 4,
    }
}
fn kind_ref<T: Num0>(g: &GeometryRef<T>) -> usize {
    match g {
        GeometryRef::Point(_) => 0,
        GeometryRef::Line(_) => 1,
        GeometryRef::LineString(_) => 2,
        GeometryRef::Polygon(_) => 3,
        GeometryRef::Rect(_) => 4,
    }
}
/// A geometry of the given kind, every coordinate symbolic.
pub fn free<T: Num0>(k: usize, lim: f64) -> G<T> {
    let p = |i: usize| vpt::<T>(&format!("c{i}"), -lim, lim);
    match k {
        0 => G::Point(Point(p(0))),
        1 => G::Line(Line::new(p(0), p(1))),
        2 => G::LineString(LineString::new((0..choice(4)).map(p).collect())),
        3 => {
            let ring = |v: &[usize]| LineString::new(v.iter().map(|i| p(*i)).collect());
            let holes = [vec![], vec![ring(&[4, 5, 6, 4])], vec![ring(&[4, 5, 6, 4]), ring(&[7, 8, 9, 7])]][choice(3)].clone();
            G::Polygon(Polygon::new(ring(&[0, 1, 2, 3, 0]), holes))
        }
        _ => G::Rect(vrect("r", -lim, lim)),
    }
}
fn chk_coords_by<T: Num0>(got: &[Vec<Coord<T>>], want: &[Vec<Coord<T>>], what: &str, same: impl Fn(T, T, &str)) {
    chk(got.len() == want.len(), &format!("{what}: as many rings"));
    for (a, b) in got.iter().zip(want) {
        chk(a.len() == b.len(), &format!("{what}: as many coordinates"));
        for (p, q) in a.iter().zip(b) {
            same(p.x, q.x, &format!("{what}: every x"));
            same(p.y, q.y, &format!("{what}: every y"));
        }
    }
}
fn chk_coords<T: Num0>(got: &[Vec<Coord<T>>], want: &[Vec<Coord<T>>], what: &str) {
    chk_coords_by(got, want, what, chk_eq)
}
fn chk_coords_close<T: Num0>(got: &[Vec<Coord<T>>], want: &[Vec<Coord<T>>], what: &str) {
    chk_coords_by(got, want, what, chk_close)
}
fn radians<T: Dom>(k: usize) {
    let g = free::<T>(k, 720.0);
    let want: Vec<Vec<Coord<T>>> = coords(&g).iter().map(|r| r.iter().map(|p| c(p.x * T::k(std::f64::consts::PI / 180.0), p.y * T::k(std::f64::consts::PI / 180.0))).collect()).collect();
    let w = g.to_radians();
    chk(kind(&w) == k, "conversion to radians keeps the kind");
    chk_coords_close(&coords(&w), &want, "to_radians of the wrapper");
    let mut h = g.clone();
    h.to_radians_in_place();
    chk(kind(&h) == k, "conversion in place keeps the kind");
    chk_coords_close(&coords(&h), &want, "to_radians_in_place of the wrapper");
    macro_rules! plain {
        ($g:expr) => {{
            let r = $g.to_radians();
            chk_coords_close(&coords::<T>(&G::from(r)), &want, "to_radians");
            let mut h = $g.clone();
            h.to_radians_in_place();
            chk_coords_close(&coords::<T>(&G::from(h)), &want, "to_radians_in_place");
        }};
    }
    match &g {
        G::Point(g) => plain!(g),
        G::Line(g) => plain!(g),
        G::LineString(g) => plain!(g),
        G::Polygon(g) => plain!(g),
        G::Rect(g) => plain!(g),
    }
}
const KINDS: [&str; 5] = ["point", "line", "linestring", "polygon", "rect"];
pub fn p21() -> Vec<Scen> {
    (0..5)
        .map(|k| {
            let n = KINDS[k];
            scen!(n, Real, format!("a {n} with every coordinate symbolic in [-720,720] (line strings of 0 to 3 points, polygons with 0 to 2 interior rings)"), radians, k)
        })
        .collect()
}
fn chk_bbox<T: Num0>(b: Option<Rect<T>>, pts: &[Coord<T>], what: &str) {
    match b {
        None => chk(pts.is_empty(), &format!("{what}: a geometry with coordinates has a bounding rectangle")),
        Some(b) => {
            chk(!pts.is_empty(), &format!("{what}: a geometry without coordinates has no bounding rectangle"));
            let (mut lo, mut hi) = (pts[0], pts[0]);
            for p in pts {
                chk(b.min().x <= p.x && p.x <= b.max().x && b.min().y <= p.y && p.y <= b.max().y, &format!("{what}: contains every coordinate"));
                if p.x < lo.x {
                    lo.x = p.x
                }
                if p.y < lo.y {
                    lo.y = p.y
                }
                if hi.x < p.x {
                    hi.x = p.x
                }
                if hi.y < p.y {
                    hi.y = p.y
                }
            }
            chk(b.min().x == lo.x && b.min().y == lo.y && b.max().x == hi.x && b.max().y == hi.y, &format!("{what}: is the smallest one"));
        }
    }
}
fn wrappers<T: Num0>(k: usize, boxes: bool) {
    let g = free::<T>(k, 100.0);
    let want = coords(&g);
    if boxes {
        let all: Vec<Coord<T>> = match &g {
            G::Polygon(p) => p.exterior().0.clone(),
            _ => want.concat(),
        };
        match choice(2) {
            0 => chk_bbox(g.bounding_rect(), &all, "bounding rectangle of the owned wrapper"),
            _ => chk_bbox(g.as_geom().bounding_rect(), &all, "bounding rectangle of the borrowed wrapper"),
        }
        return;
    }
    let back = |r: &GeometryRef<T>| -> Vec<Vec<Coord<T>>> {
        match r {
            GeometryRef::Point(p) => coords(&G::Point(**p)),
            GeometryRef::Line(l) => coords(&G::Line(**l)),
            GeometryRef::LineString(l) => vec![l.0.clone()],
            GeometryRef::Polygon(p) => std::iter::once(p.exterior().0.clone()).chain(p.interiors().iter().map(|r| r.0.clone())).collect(),
            GeometryRef::Rect(r) => coords(&G::Rect(**r)),
        }
    };
    let r = g.as_geom();
    chk(kind_ref(&r) == k, "the borrowed wrapper keeps the kind");
    chk_coords(&back(&r), &want, "borrowed from the owned wrapper");
    let rr = r.as_geom();
    chk(kind_ref(&rr) == k, "borrowing a borrowed wrapper keeps the kind");
    chk_coords(&back(&rr), &want, "borrowed from a borrowed wrapper");
    macro_rules! plain {
        ($g:expr) => {{
            let r = $g.as_geom();
            chk(kind_ref(&r) == k, "borrowing a plain geometry keeps the kind");
            chk_coords(&back(&r), &want, "borrowed from a plain geometry");
            let o = G::from($g.clone());
            chk(kind(&o) == k, "wrapping a plain geometry keeps the kind");
            chk_coords(&coords(&o), &want, "wrapped from a plain geometry");
            match G::try_from(geo::Geometry::from($g.clone())) {
                Ok(o) => {
                    chk(kind(&o) == k, "converting a geo geometry keeps the kind");
                    chk_coords(&coords(&o), &want, "converted from a geo geometry");
                }
                Err(_) => chk(false, "a supported geo geometry is converted"),
            }
        }};
    }
    match &g {
        G::Point(g) => plain!(g),
        G::Line(g) => plain!(g),
        G::LineString(g) => plain!(g),
        G::Polygon(g) => plain!(g),
        G::Rect(g) => plain!(g),
    }
    if let G::Point(p) = &g {
        chk(p.as_point() == *p && p.0.as_point() == *p, "a point and its coordinate are that point");
    }
}
fn refused<T: Num0>() {
    let p = Point(vpt::<T>("p", -9.0, 9.0));
    let q = Point(vpt::<T>("q", -9.0, 9.0));
    let l = LineString::new(vec![p.0, q.0]);
    let g: geo::Geometry<T> = match choice(6) {
        0 => geo::MultiPoint::new(vec![p, q]).into(),
        1 => geo::MultiLineString::new(vec![l]).into(),
        2 => geo::MultiPolygon::new(vec![Polygon::new(l, vec![])]).into(),
        3 => geo::Geometry::GeometryCollection(geo::GeometryCollection::new_from(vec![p.into()])),
        4 => Triangle::new(p.0, q.0, ck(1.0, 2.0)).into(),
        _ => geo::MultiPoint::new(vec![p]).into(),
    };
    chk(matches!(G::try_from(g), Err(quadtree::Error::UnsupportedGeometry)), "other geo geometries are refused");
}
pub fn p22() -> Vec<Scen> {
    let mut v: Vec<Scen> = vec![];
    for k in 0..5 {
        let n = KINDS[k];
        v.push(scen!(format!("convert-{n}"), Real, format!("a {n} with every coordinate symbolic in [-100,100] (line strings of 0 to 3 points, polygons with 0 to 2 interior rings)"), wrappers, k, false));
        v.push(scen!(format!("bbox-{n}"), Real, format!("a {n} with every coordinate symbolic in [-100,100] (line strings of 0 to 3 points)"), wrappers, k, true));
    }
    v.push(scen!("refused", Real, "the five other geo geometries with symbolic coordinates", refused));
    v.push(scen!("convert-int", Int, "line strings with integer coordinates", wrappers, 2usize, false));
    v.push(scen!("bbox-int", Int, "line strings with integer coordinates", wrappers, 2usize, true));
    v
}
