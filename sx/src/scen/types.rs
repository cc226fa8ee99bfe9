//! Data and comparators of every supported type: P27.
use super::search::Cmp;
use super::util::*;
use crate::dom::*;
use crate::run::Scen;
use crate::scen;
use geo::{BoundingRect, Coord, Line, LineString, Point, Polygon, Rect};
use quadtree::*;

type Box4<T> = Option<Rect<T>>;
/// What the storage operations of a tree answered: inserts, size, contents in order, retrieve, the printout.
struct Stored<T: geo::GeoNum> {
    ok: Vec<Result<(), Error>>,
    size: usize,
    all: Vec<Box4<T>>,
    near: Vec<Vec<Box4<T>>>,
    show: String,
}
fn same_box<T: Num0>(a: &Box4<T>, b: &Box4<T>) -> bool {
    match (a, b) {
        (Some(a), Some(b)) => same_rect(a, b),
        (None, None) => true,
        _ => false,
    }
}
fn same_boxes<T: Num0>(a: &[Box4<T>], b: &[Box4<T>]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(a, b)| same_box(a, b))
}
fn same_stored<T: Num0>(a: &Stored<T>, b: &Stored<T>) {
    chk(a.ok == b.ok, "the same inserts succeed whatever the type of the data");
    chk(a.size == b.size, "the same size whatever the type of the data");
    chk(same_boxes(&a.all, &b.all), "the same contents whatever the type of the data");
    for (x, y) in a.near.iter().zip(&b.near) {
        chk(same_boxes(x, y), "retrieve gives the same whatever the type of the data");
    }
    chk(a.show == b.show, "the same division into cells whatever the type of the data");
}
/// Fill a tree with data and read it back; `bx` gives the box of a datum.
fn store<T: Num0, D, Q>(mut t: Q, data: Vec<D>, queries: &[D], bx: fn(&D) -> Box4<T>) -> (Q, Stored<T>)
where
    Q: QuadTree<D, T> + std::fmt::Display,
    for<'a> &'a Q: IntoIterator<Item = &'a D>,
{
    let ok = data.into_iter().map(|d| t.insert(d)).collect();
    let s = Stored {
        ok,
        size: t.size(),
        all: (&t).into_iter().map(bx).collect(),
        near: queries.iter().map(|q| t.retrieve(q).map(bx).collect()).collect(),
        show: format!("{t}"),
    };
    (t, s)
}
/// What the searches answered, by boxes and distances.
type Hit<T> = (Box4<T>, T);
struct Searched<T: geo::GeoNum> {
    find: Result<Hit<T>, Error>,
    find_r: Result<Hit<T>, Error>,
    knn: Result<Vec<Hit<T>>, Error>,
    knn_r: Result<Vec<Hit<T>>, Error>,
    sorted: Vec<Hit<T>>,
}
fn search<T: Dom, D: AsGeom<T>, Q: QuadTreeSearch<D, T>, X: AsGeom<T>>(t: &Q, x: &X, k: usize, r: T) -> Searched<T> {
    let h = |(d, r): (&D, T)| -> Hit<T> { (d.as_geom().bounding_rect(), r) };
    Searched {
        find: t.find(x).map(h),
        find_r: t.find_r(x, r).map(h),
        knn: t.knn(x, k).map(|v| v.into_iter().map(h).collect()),
        knn_r: t.knn_r(x, k, r).map(|v| v.into_iter().map(h).collect()),
        sorted: t.sorted(x).map(h).collect(),
    }
}
fn same_hit<T: Num0>(a: &Result<Hit<T>, Error>, b: &Result<Hit<T>, Error>) -> bool {
    match (a, b) {
        (Ok(a), Ok(b)) => a.1 == b.1,
        (Err(a), Err(b)) => a == b,
        _ => false,
    }
}
/// The same distances; which of several data at one distance comes first is open.
fn same_list<T: Num0>(a: &[Hit<T>], b: &[Hit<T>]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(a, b)| a.1 == b.1)
}
fn same_lists<T: Num0>(a: &Result<Vec<Hit<T>>, Error>, b: &Result<Vec<Hit<T>>, Error>) -> bool {
    match (a, b) {
        (Ok(a), Ok(b)) => same_list(a, b),
        (Err(a), Err(b)) => a == b,
        _ => false,
    }
}
fn same_searched<T: Num0>(a: &Searched<T>, b: &Searched<T>) {
    chk(same_hit(&a.find, &b.find), "find answers the same whatever the types of data and comparator");
    chk(same_hit(&a.find_r, &b.find_r), "find_r answers the same whatever the types of data and comparator");
    chk(same_lists(&a.knn, &b.knn), "knn answers the same whatever the types of data and comparator");
    chk(same_lists(&a.knn_r, &b.knn_r), "knn_r answers the same whatever the types of data and comparator");
    chk(same_list(&a.sorted, &b.sorted), "sorted answers the same whatever the types of data and comparator");
}
const LIMITS: &[(u8, usize)] = &[(0, 1), (2, 1), (3, 2)];
fn here<T: Num0>(p: Coord<T>) -> Box4<T> {
    Some(Rect::new(p, p))
}
/// Point trees of coordinates, points and a user's type.
fn points<T: Num0>(pre: Vec<(f64, f64)>) {
    let (md, mc) = LIMITS[choice(LIMITS.len())];
    let mut c: Vec<Coord<T>> = pre.iter().map(|p| ck(p.0, p.1)).collect();
    c.push(vpt::<T>("a", -1.0, 9.0));
    let q = [vpt::<T>("q", -1.0, 9.0)];
    let p: Vec<Point<T>> = c.iter().map(|v| Point(*v)).collect();
    let d: Vec<D<T>> = c.iter().enumerate().map(|(i, v)| dpt(i, *v)).collect();
    let m = CalcMethod::None;
    let (_, a) = store(PointQuadTree::<Coord<T>, T>::new(rk(ROOT), m, md, mc), c, &q, |v| here(*v));
    let (_, b) = store(PointQuadTree::<Point<T>, T>::new(rk(ROOT), m, md, mc), p, &q.map(Point), |v| here(v.0));
    let (_, e) = store(PointQuadTree::<D<T>, T>::new(rk(ROOT), m, md, mc), d, &[dpt(0, q[0])], |v| here(v.as_point().0));
    same_stored(&a, &b);
    same_stored(&b, &e);
}
fn kind_of(s: &Shape) -> usize {
    match s {
        Shape::Pt(..) => 0,
        Shape::Line(..) => 1,
        Shape::Ls(..) => 2,
        Shape::Poly(..) => 3,
        Shape::Rect(..) => 4,
    }
}
fn bb<T: Num0, D: AsGeom<T>>(d: &D) -> Box4<T> {
    d.as_geom().bounding_rect()
}
fn plain<T: Num0, P>(v: &[quadtree::Geometry<T>], f: fn(&quadtree::Geometry<T>) -> Option<P>) -> Vec<P> {
    v.iter().map(|g| f(g).expect("data of one kind")).collect()
}
fn as_pt<T: Num0>(g: &quadtree::Geometry<T>) -> Option<Point<T>> {
    if let quadtree::Geometry::Point(p) = g { Some(*p) } else { None }
}
fn as_line<T: Num0>(g: &quadtree::Geometry<T>) -> Option<Line<T>> {
    if let quadtree::Geometry::Line(p) = g { Some(*p) } else { None }
}
fn as_ls<T: Num0>(g: &quadtree::Geometry<T>) -> Option<LineString<T>> {
    if let quadtree::Geometry::LineString(p) = g { Some(p.clone()) } else { None }
}
fn as_poly<T: Num0>(g: &quadtree::Geometry<T>) -> Option<Polygon<T>> {
    if let quadtree::Geometry::Polygon(p) = g { Some(p.clone()) } else { None }
}
fn as_rect<T: Num0>(g: &quadtree::Geometry<T>) -> Option<Rect<T>> {
    if let quadtree::Geometry::Rect(p) = g { Some(*p) } else { None }
}
/// Bounds trees of plain geometries, owned and borrowed wrappers and a user's type, and (with `cmp`) searches
/// of them.
fn boxes_of<T: Num0>(shapes: Vec<Shape>) {
    let (md, mc) = LIMITS[choice(LIMITS.len())];
    let n = shapes.len() - 1;
    let mut g: Vec<quadtree::Geometry<T>> = shapes[..n].iter().map(|s| s.fixed()).collect();
    g.push(shapes[n].at(vpt::<T>("a", -1.0, 8.0)));
    let q = shapes[0].at(vpt::<T>("q", -1.0, 6.0));
    let m = CalcMethod::None;
    let root = rk::<T>(ROOT);
    let d: Vec<D<T>> = g.iter().enumerate().map(|(id, g)| D { id, g: g.clone() }).collect();
    let (_, want) = store(BoundsQuadTree::<D<T>, T>::new(root, m, md, mc), d, &[D { id: 0, g: q.clone() }], bb);
    let (_, own) = store(BoundsQuadTree::<quadtree::Geometry<T>, T>::new(root, m, md, mc), g.clone(), std::slice::from_ref(&q), bb);
    same_stored(&want, &own);
    let (_, refs) = store(BoundsQuadTree::<GeometryRef<T>, T>::new(root, m, md, mc), g.iter().map(|g| g.as_geom()).collect(), &[q.as_geom()], bb);
    same_stored(&want, &refs);
    macro_rules! of {
        ($t:ty, $f:ident) => {{
            let q: Vec<$t> = plain(&[q.clone()], $f);
            store(BoundsQuadTree::<$t, T>::new(root, m, md, mc), plain(&g, $f), &q, bb).1
        }};
    }
    let other = match kind_of(&shapes[0]) {
        0 => of!(Point<T>, as_pt),
        1 => of!(Line<T>, as_line),
        2 => of!(LineString<T>, as_ls),
        3 => of!(Polygon<T>, as_poly),
        _ => of!(Rect<T>, as_rect),
    };
    same_stored(&want, &other);
}
/// The comparator in each of its types.
fn every_cmp<T: Dom, D: AsGeom<T>, Q: QuadTreeSearch<D, T>>(t: &Q, x: &quadtree::Geometry<T>, k: usize, r: T) -> Searched<T> {
    let want = search(t, x, k, r);
    same_searched(&want, &search(t, &x.as_geom(), k, r));
    same_searched(&want, &search(t, &super::util::D { id: 0, g: x.clone() }, k, r));
    let other = match x {
        quadtree::Geometry::Point(p) => search(t, p, k, r),
        quadtree::Geometry::Line(p) => search(t, p, k, r),
        quadtree::Geometry::LineString(p) => search(t, p, k, r),
        quadtree::Geometry::Polygon(p) => search(t, p, k, r),
        quadtree::Geometry::Rect(p) => search(t, p, k, r),
    };
    same_searched(&want, &other);
    want
}
fn method() -> CalcMethod {
    match choice(3) {
        0 => CalcMethod::Euclidean,
        1 => CalcMethod::Spherical,
        _ => CalcMethod::None,
    }
}
fn same_method(a: CalcMethod, b: CalcMethod) {
    let n = |m| match m {
        CalcMethod::None => 0,
        CalcMethod::Euclidean => 1,
        CalcMethod::Spherical => 2,
    };
    chk(n(a) == n(b), "calc_method() is the one the tree was made with");
}
/// Searches of a point tree of points and of a user's type.
fn search_points<T: Dom>(pre: Vec<(f64, f64)>, cmp: Cmp, sph: bool) {
    let m = if sph { CalcMethod::Spherical } else { CalcMethod::Euclidean };
    let (s, md) = (if sph { 1.0 / 8.0 } else { 1.0 }, 2);
    let c: Vec<Coord<T>> = pre.iter().map(|p| ck(p.0 * s, p.1 * s)).collect();
    let root = rk::<T>([0.0, 0.0, 8.0 * s, 8.0 * s]);
    let x = cmp.get::<T>();
    let (k, r) = (2, T::k(2.0 * s));
    let mut t = PointQuadTree::<D<T>, T>::new(root, m, md, 1);
    let mut u = PointQuadTree::<Point<T>, T>::new(root, m, md, 1);
    for (i, v) in c.iter().enumerate() {
        chk(t.insert(dpt(i, *v)).is_ok() && u.insert(Point(*v)).is_ok(), "a datum inside the bounds is accepted");
    }
    let a = every_cmp(&t, &x, k, r);
    let b = search(&u, &x, k, r);
    same_searched(&a, &b);
}
fn search_boxes<T: Dom>(shapes: Vec<Shape>, cmp: Cmp) {
    let root = rk::<T>(ROOT);
    let x = cmp.get::<T>();
    let (k, r) = (2, T::k(2.0));
    let g: Vec<quadtree::Geometry<T>> = shapes.iter().map(|s| s.fixed()).collect();
    let m = CalcMethod::Euclidean;
    let mut t = BoundsQuadTree::<D<T>, T>::new(root, m, 2, 1);
    let mut o = BoundsQuadTree::<quadtree::Geometry<T>, T>::new(root, m, 2, 1);
    let mut b = BoundsQuadTree::<GeometryRef<T>, T>::new(root, m, 2, 1);
    for (i, v) in g.iter().enumerate() {
        let ok = t.insert(D { id: i, g: v.clone() }).is_ok() && o.insert(v.clone()).is_ok() && b.insert(v.as_geom()).is_ok();
        chk(ok, "a datum inside the bounds is accepted");
    }
    let a = every_cmp(&t, &x, k, r);
    same_searched(&a, &search(&o, &x, k, r));
    same_searched(&a, &search(&b, &x, k, r));
    macro_rules! of {
        ($t:ty, $f:ident) => {{
            let mut p = BoundsQuadTree::<$t, T>::new(root, m, 2, 1);
            for v in plain::<T, $t>(&g, $f) {
                chk(p.insert(v).is_ok(), "a datum inside the bounds is accepted");
            }
            search(&p, &x, k, r)
        }};
    }
    let kind = kind_of(&shapes[0]);
    if shapes.iter().all(|s| kind_of(s) == kind) {
        let other = match kind {
            0 => of!(Point<T>, as_pt),
            1 => of!(Line<T>, as_line),
            2 => of!(LineString<T>, as_ls),
            3 => of!(Polygon<T>, as_poly),
            _ => of!(Rect<T>, as_rect),
        };
        same_searched(&a, &other);
    }
}
/// The method a tree was made with, by either constructor.
fn methods<T: Dom>() {
    let m = method();
    let root = vrect::<T>("b", -8.0, 8.0);
    let (md, mc) = LIMITS[choice(LIMITS.len())];
    if flag() {
        let mut t = if flag() { PointQuadTree::<Point<T>, T>::new(root, m, md, mc) } else { PointQuadTree::from_bounds(root, m) };
        same_method(t.calc_method(), m);
        chk(t.size() == 0 && (&t).into_iter().next().is_none(), "a new tree is empty");
        let _ = t.insert(Point(vpt::<T>("a", -8.0, 8.0)));
        same_method(t.calc_method(), m);
    } else {
        let mut t = if flag() { BoundsQuadTree::<Point<T>, T>::new(root, m, md, mc) } else { BoundsQuadTree::from_bounds(root, m) };
        same_method(t.calc_method(), m);
        chk(t.size() == 0 && (&t).into_iter().next().is_none(), "a new tree is empty");
        let _ = t.insert(Point(vpt::<T>("a", -8.0, 8.0)));
        same_method(t.calc_method(), m);
    }
}
pub fn p27() -> Vec<Scen> {
    let mut v = vec![];
    let pre = vec![(1.0, 1.0), (4.0, 4.0), (6.0, 2.5), (1.0, 1.0)];
    let lim = "max_depth and max_children in {(0,1),(2,1),(3,2)}";
    v.push(scen!("point-types", Real, format!("point trees of Coord, Point and a user's type; {pre:?} and one symbolic datum, query symbolic, in [-1,9]; {lim}"), points, pre));
    let tri = |x: f64, y: f64| Shape::Poly(vec![(x, y), (x + 1.0, y + 0.5), (x + 0.5, y + 1.5), (x, y)], vec![]);
    let zig = |x: f64, y: f64| Shape::Ls(vec![(x, y), (x + 1.5, y + 1.0), (x + 0.5, y + 0.25)]);
    let sets: Vec<(&str, Vec<Shape>)> = vec![
        ("point", vec![Shape::Pt(0.0, 0.0), Shape::Pt(4.0, 4.0), Shape::Pt(6.0, 2.5), Shape::Pt(0.0, 0.0)]),
        ("line", vec![Shape::Line([0.0, 0.0, 1.0, 1.5]), Shape::Line([3.0, 3.0, 5.0, 4.5]), Shape::Line([6.0, 1.0, 5.5, 2.0]), Shape::Line([0.0, 0.0, 1.0, 0.5])]),
        ("linestring", vec![zig(0.0, 0.0), zig(3.5, 3.5), zig(6.0, 1.0), zig(0.0, 0.0)]),
        ("polygon", vec![tri(0.0, 0.0), tri(3.5, 3.5), tri(6.0, 1.0), tri(0.0, 0.0)]),
        ("rect", vec![sq(0.0, 0.0, 1.0, 1.0), sq(3.5, 3.5, 1.0, 2.0), sq(6.0, 1.0, 1.0, 1.0), sq(0.0, 0.0, 1.0, 0.5)]),
    ];
    for (n, s) in &sets {
        v.push(scen!(format!("bounds-types-{n}"), Real, format!("bounds trees of the plain geometry, owned and borrowed wrapper and a user's type; {n} data, the last and the query moved by every offset in [-1,8]; {lim}"), boxes_of, s));
    }
    let cmps: Vec<(&str, Cmp)> = vec![
        ("point", Cmp::moving(Shape::Pt(0.0, 0.0), [-1.0, -1.0, 9.0, 9.0])),
        ("rect", Cmp::moving(sq(0.0, 0.0, 1.0, 2.0), [-2.0, -2.5, 8.5, 8.5])),
        ("line", Cmp::along(Shape::Line([0.0, 0.0, 1.5, 1.0]), [6.25, 2.0, 8.5, 4.0])),
        ("linestring", Cmp::along(zig(0.0, 0.0), [1.0, 2.0, 1.125, 2.0625])),
        ("polygon", Cmp::along(tri(0.0, 0.0), [1.0, 2.0, 1.125, 2.0625])),
    ];
    let pts = vec![(1.0, 1.0), (4.0, 4.0), (6.5, 6.25)];
    for (n, x) in &cmps {
        let b = format!("point trees of Point and a user's type, data {pts:?}, comparator {n} {:?} plain, wrapped, borrowed and of a user's type; k = 2, r = 2", x.area);
        let pts = if *n == "linestring" || *n == "polygon" { pts[..2].to_vec() } else { pts.clone() };
        v.push(scen!(format!("search-points-{n}"), Real, b, search_points, pts, x, false));
        if *n == "linestring" || *n == "polygon" {
            continue;
        }
        for (m, s) in &sets {
            let s = &s[..2];
            let s = s.to_vec();
            let b = format!("bounds trees of {m} data, plain, wrapped, borrowed and of a user's type; comparator {n} {:?} in each of its types; k = 2, r = 2", x.area);
            let x = if *m == "rect" || *m == "point" {
                x.clone()
            } else if *n == "point" {
                Cmp::along(x.shape.clone(), [-1.0, 2.0, 9.0, 3.25])
            } else {
                Cmp::along(x.shape.clone(), [1.0, 2.0, 1.25, 2.125])
            };
            v.push(scen!(format!("search-{m}-{n}"), Real, b, search_boxes, s, x));
        }
    }
    let x = Cmp::along(Shape::Pt(0.0, 0.0), [0.0625, 0.25, 0.1875, 0.3125]);
    v.push(scen!("search-points-spherical", Real, format!("spherical point trees of Point and a user's type; comparator point {:?} in each of its types", x.area), search_points, pts, x, true).light());
    v.push(scen!("methods", Real, "both kinds of tree by both constructors with every method, bounds symbolic, before and after an insert", methods));
    v
}
