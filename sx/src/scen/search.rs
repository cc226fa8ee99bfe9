//! Euclidean searches: P07-P12.
use super::tree::{build, build_at, Cfg};
use super::util::*;
use crate::dom::*;
use crate::run::Scen;
use crate::scen;
use geo::{Coord, Distance, Euclidean, Rect};
use quadtree::*;

/// The comparator: a shape moved by a symbolic offset in a box, or left in place.
#[derive(Clone)]
pub struct Cmp {
    pub shape: Shape,
    pub area: Option<Area>,
}
#[derive(Clone, Debug)]
pub enum Area {
    Box([f64; 4]),
    /// a segment
    Seg([f64; 4]),
}
impl Cmp {
    pub fn fixed(s: Shape) -> Cmp {
        Cmp { shape: s, area: None }
    }
    pub fn moving(s: Shape, area: [f64; 4]) -> Cmp {
        Cmp { shape: s, area: Some(Area::Box(area)) }
    }
    pub fn along(s: Shape, seg: [f64; 4]) -> Cmp {
        Cmp { shape: s, area: Some(Area::Seg(seg)) }
    }
    pub fn get<T: Num0>(&self) -> quadtree::Geometry<T> {
        self.get_at(ck(0.0, 0.0))
    }
    pub fn get_at<T: Num0>(&self, o: Coord<T>) -> quadtree::Geometry<T> {
        match &self.area {
            None => self.shape.at(o),
            Some(Area::Seg(a)) => {
                let t = T::var("ct", 0.0, 1.0);
                self.shape.at(c(o.x + (T::k(a[0]) + T::k(a[2] - a[0]) * t), o.y + (T::k(a[1]) + T::k(a[3] - a[1]) * t)))
            }
            Some(Area::Box(a)) => self.shape.at(c(o.x + T::var("cx", a[0], a[2]), o.y + T::var("cy", a[1], a[3]))),
        }
    }
    fn describe(&self) -> String {
        match &self.area {
            None => format!("comparator {:?}", self.shape),
            Some(a) => format!("comparator {:?} moved by every offset of the {:?}", self.shape, a),
        }
    }
}
pub fn gap<T: Num0>(lo1: T, hi1: T, lo2: T, hi2: T) -> T {
    if hi1 < lo2 {
        lo2 - hi1
    } else if hi2 < lo1 {
        lo1 - hi2
    } else {
        T::k(0.0)
    }
}
pub fn rect_gap<T: Dom>(a: &Rect<T>, b: &Rect<T>) -> T {
    let x = gap(a.min().x, a.max().x, b.min().x, b.max().x);
    let y = gap(a.min().y, a.max().y, b.min().y, b.max().y);
    x.hypot(y)
}
pub fn pt_rect<T: Num0>(p: Coord<T>) -> Rect<T> {
    Rect::new(p, p)
}
pub fn to_geo<T: Num0>(g: &quadtree::Geometry<T>) -> geo::Geometry<T> {
    match g {
        quadtree::Geometry::Point(p) => (*p).into(),
        quadtree::Geometry::Line(l) => (*l).into(),
        quadtree::Geometry::LineString(l) => l.clone().into(),
        quadtree::Geometry::Polygon(p) => p.clone().into(),
        quadtree::Geometry::Rect(r) => r.to_polygon().into(),
    }
}
/// The reference distance: the gap for points and rectangles, otherwise that of the geo crate.
pub fn odist<T: Dom>(a: &quadtree::Geometry<T>, b: &quadtree::Geometry<T>) -> T {
    use quadtree::Geometry as G;
    match (a, b) {
        (G::Point(p), G::Point(q)) => (p.x() - q.x()).hypot(p.y() - q.y()),
        (G::Point(p), G::Rect(r)) | (G::Rect(r), G::Point(p)) => rect_gap(&pt_rect(p.0), r),
        (G::Rect(r), G::Rect(s)) => rect_gap(r, s),
        _ => Euclidean::distance(&to_geo(a), &to_geo(b)),
    }
}
pub struct Case<T: geo::GeoNum> {
    pub tree: Tree<T>,
    pub cmp: quadtree::Geometry<T>,
    /// (id, true distance)
    pub d: Vec<(usize, T)>,
    /// great-circle distances
    pub sph: bool,
}
fn case<T: Dom>(cfg: &Cfg, cmp: &Cmp) -> Case<T> {
    let o = if cfg.shift { c(T::var("ox", -64.0, 64.0), T::var("oy", -64.0, 64.0)) } else { ck(0.0, 0.0) };
    let b = build_at::<T>(cfg, CalcMethod::Euclidean, o);
    let cmp = cmp.get_at::<T>(o);
    let d = b.stored.iter().map(|s| (s.id, odist(&cmp, &s.g))).collect();
    Case { tree: b.tree, cmp, d, sph: false }
}
impl<T: Dom> Case<T> {
    fn eq(&self, a: T, b: T, what: &str) {
        if self.sph {
            chk_sph_eq(a, b, what)
        } else {
            chk_eq(a, b, what)
        }
    }
    /// No left side is smaller than its right side.
    fn not_less(&self, v: &[(T, T)], what: &str) {
        if self.sph {
            chk_sph_none(&v.iter().map(|e| vec![*e]).collect::<Vec<_>>(), what)
        } else {
            chk_not_less(v, what)
        }
    }
    fn beyond(&self, v: &[(T, T)], what: &str) {
        if self.sph {
            self.not_less(v, what)
        } else {
            chk_beyond(v, what)
        }
    }
    /// Least distance found.
    pub fn found_r(&self, r: T) {
        match self.tree.find_r(&self.cmp, r) {
            Err(Error::NoneInRadius) => {
                let bad: Vec<(T, T)> = self.d.iter().map(|e| (e.1, r)).collect();
                self.beyond(&bad, "NoneInRadius only when every stored datum is farther than r");
            }
            Ok((id, d)) => {
                self.not_less(&[(r, d)], "the datum found lies within the radius");
                self.nearest(Ok((id, d)));
            }
            Err(e) => chk(false, &format!("find_r fails only with NoneInRadius ({e})")),
        }
    }
    fn of(&self, id: usize) -> T {
        match self.d.iter().find(|e| e.0 == id) {
            Some(e) => e.1,
            None => {
                chk(false, "a returned datum is a stored one");
                unreachable!()
            }
        }
    }
    pub fn nearest(&self, r: Found<T>) {
        match r {
            Ok((id, d)) => {
                let t = self.of(id);
                self.eq(d, t, "the distance returned is the true distance of the datum returned");
                let bad: Vec<(T, T)> = self.d.iter().filter(|e| e.0 != id).map(|e| (e.1, d)).collect();
                self.not_less(&bad, "no stored datum is nearer than the one found");
            }
            Err(e) => chk(false, &format!("find succeeds on a non-empty tree and a comparator touching its bounds ({e})")),
        }
    }
    /// Requirements on a list of nearest data: at most k, within r, in order, nothing nearer left out.
    pub fn list(&self, v: &[(usize, T)], k: usize, r: Option<T>) {
        chk(v.len() <= k, "no more than k data");
        chk(distinct(&v.iter().map(|e| e.0).collect::<Vec<_>>()), "no datum twice");
        let mut bad = vec![];
        for (i, (id, d)) in v.iter().enumerate() {
            let t = self.of(*id);
            self.eq(*d, t, "each distance is the true distance of its datum");
            if i > 0 {
                bad.push((*d, v[i - 1].1));
            }
        }
        if !bad.is_empty() {
            self.not_less(&bad, "distances do not decrease");
        }
        if let (Some(r), Some(l)) = (r, v.last()) {
            self.not_less(&[(r, l.1)], "every datum returned lies within the radius");
        }
        let out: Vec<&(usize, T)> = self.d.iter().filter(|e| !v.iter().any(|f| f.0 == e.0)).collect();
        if v.len() < k.min(self.d.len()) {
            match r {
                None => chk(false, "as many data as asked for and stored"),
                Some(r) => {
                    let bad: Vec<(T, T)> = out.iter().map(|e| (e.1, r)).collect();
                    self.beyond(&bad, "every datum within the radius is returned while fewer than k are");
                }
            }
        } else if let Some(l) = v.last() {
            let bad: Vec<(T, T)> = out.iter().map(|e| (e.1, l.1)).collect();
            if !bad.is_empty() {
                self.not_less(&bad, "no datum left out is nearer than one returned");
            }
        }
    }
}
fn find<T: Dom>(cfg: Cfg, cmp: Cmp) {
    let k = case::<T>(&cfg, &cmp);
    let r = k.tree.find(&k.cmp);
    k.nearest(r);
}
/// The radius: a free one, the distance of some datum, or zero.
fn radius<T: Dom>(k: &Case<T>) -> T {
    match choice(3) {
        0 => T::var("r", 0.0, 16.0),
        1 if !k.d.is_empty() => k.d[choice(k.d.len())].1,
        _ => T::k(0.0),
    }
}
fn find_r<T: Dom>(cfg: Cfg, cmp: Cmp) {
    let k = case::<T>(&cfg, &cmp);
    let r = radius(&k);
    k.found_r(r);
}
fn knn<T: Dom>(cfg: Cfg, cmp: Cmp, with_r: bool, ks: &'static [usize]) {
    let k = case::<T>(&cfg, &cmp);
    let n = ks[choice(ks.len())];
    let (v, r) = if with_r {
        let r = radius(&k);
        (k.tree.knn_r(&k.cmp, n, r), Some(r))
    } else {
        (k.tree.knn(&k.cmp, n), None)
    };
    match v {
        Ok(v) => k.list(&v, n, r),
        Err(e) => chk(false, &format!("knn succeeds for a comparator touching the bounds ({e})")),
    }
}
fn sorted<T: Dom>(cfg: Cfg, cmp: Cmp) {
    let k = case::<T>(&cfg, &cmp);
    let n = k.d.len();
    let v = k.tree.sorted(&k.cmp, n + 3);
    chk(v.len() == n, "sorted yields every stored datum exactly once and then ends");
    k.list(&v, n, None);
    if flag() {
        for j in 1..=n {
            match k.tree.knn(&k.cmp, j) {
                Ok(w) => {
                    chk(w.len() == j, "knn yields k data");
                    for i in 0..j {
                        chk_eq(w[i].1, v[i].1, "the first k items of sorted have the distances of knn");
                    }
                }
                Err(_) => chk(false, "knn succeeds when sorted yields data"),
            }
        }
    }
}
// ------------------------------------------------------------------ P12
fn touching<T: Dom>(root: &Rect<T>, g: &quadtree::Geometry<T>) -> bool {
    use geo::Intersects;
    match g {
        quadtree::Geometry::Point(p) => pt_in(root, p.0),
        quadtree::Geometry::Rect(r) => touches(root, r),
        _ => to_geo(g).intersects(&geo::Geometry::from(root.to_polygon())),
    }
}
fn errors<T: Dom>(cfg: Cfg, cmp: Cmp) {
    let b = build::<T>(&cfg, CalcMethod::Euclidean);
    let x = cmp.get::<T>();
    let t = touching(&rk::<T>(cfg.root), &x);
    observe(t as i64);
    let (f, fr, kn, kr, so) = (b.tree.find(&x), b.tree.find_r(&x, T::k(100.0)), b.tree.knn(&x, 2), b.tree.knn_r(&x, 2, T::k(100.0)), b.tree.sorted(&x, 9));
    if !t {
        chk(f.err() == Some(Error::OutOfBounds), "find outside the bounds is OutOfBounds");
        chk(fr.err() == Some(Error::OutOfBounds), "find_r outside the bounds is OutOfBounds");
        chk(kn.err() == Some(Error::OutOfBounds), "knn outside the bounds is OutOfBounds");
        chk(kr.err() == Some(Error::OutOfBounds), "knn_r outside the bounds is OutOfBounds");
        chk(so.is_empty(), "sorted outside the bounds is empty");
    } else if b.stored.is_empty() {
        chk(f.err() == Some(Error::Empty), "find in an empty tree is Empty");
        chk(fr.err() == Some(Error::Empty), "find_r in an empty tree is Empty");
        chk(matches!(kn, Ok(v) if v.is_empty()), "knn in an empty tree is an empty list");
        chk(matches!(kr, Ok(v) if v.is_empty()), "knn_r in an empty tree is an empty list");
        chk(so.is_empty(), "sorted in an empty tree is empty");
    } else {
        let n = b.stored.len();
        chk(f.is_ok() && fr.is_ok(), "find succeeds");
        chk(matches!(kn, Ok(v) if v.len() == n.min(2)), "knn succeeds");
        chk(matches!(kr, Ok(v) if v.len() == n.min(2)), "knn_r succeeds");
        chk(so.len() == n.min(9), "sorted yields all data");
        // a radius smaller than every distance
        let d: Vec<T> = b.stored.iter().map(|s| odist(&x, &s.g)).collect();
        let r = T::var("r", -4.0, 16.0);
        for v in &d {
            r.assume_lt(*v);
        }
        chk(b.tree.find_r(&x, r).err() == Some(Error::NoneInRadius), "find_r with all data beyond the radius is NoneInRadius");
        chk(matches!(b.tree.knn_r(&x, 3, r), Ok(v) if v.is_empty()), "knn_r with all data beyond the radius is an empty list");
    }
}
/// A comparator without a position touches nothing.
fn nowhere<T: Dom>(cfg: Cfg) {
    let b = build::<T>(&cfg, CalcMethod::Euclidean);
    let v = T::var("v", -4.0, 12.0);
    let x = quadtree::Geometry::Point(geo::Point(match choice(3) {
        0 => c(<T as Num0>::nan(), v),
        1 => c(v, <T as Num0>::nan()),
        _ => c(<T as Num0>::nan(), <T as Num0>::nan()),
    }));
    let e = Some(Error::OutOfBounds);
    chk(b.tree.find(&x).err() == e, "find from nowhere is OutOfBounds");
    chk(b.tree.find_r(&x, T::k(1.0)).err() == e, "find_r from nowhere is OutOfBounds");
    chk(b.tree.knn(&x, 1).err() == e, "knn from nowhere is OutOfBounds");
    chk(b.tree.knn_r(&x, choice(3), T::k(1.0)).err() == e, "knn_r from nowhere is OutOfBounds");
    chk(b.tree.sorted(&x, 9).is_empty(), "sorted from nowhere is empty");
}
fn no_method<T: Dom>(cfg: Cfg, cmp: Cmp) {
    let b = build::<T>(&cfg, CalcMethod::None);
    let x = cmp.get::<T>();
    let e = Some(Error::CalcMethodNotSet);
    chk(b.tree.find(&x).err() == e, "find without a calculation method is CalcMethodNotSet");
    chk(b.tree.find_r(&x, T::k(1.0)).err() == e, "find_r without a calculation method is CalcMethodNotSet");
    chk(b.tree.knn(&x, 1).err() == e, "knn without a calculation method is CalcMethodNotSet");
    chk(b.tree.knn_r(&x, choice(3), T::k(1.0)).err() == e, "knn_r without a calculation method is CalcMethodNotSet");
    chk(b.tree.sorted(&x, 9).is_empty(), "sorted without a calculation method is empty");
}

/// Geometries without a segment, or with a ring without one, by number; `o` moves them.
fn flat<T: Num0>(i: usize, o: Coord<T>) -> quadtree::Geometry<T> {
    use geo::{LineString, Polygon};
    let none = LineString::new(vec![]);
    let one = LineString::new(vec![o]);
    let tri = LineString::new(vec![c(o.x, o.y), c(o.x + T::k(2.0), o.y), c(o.x, o.y + T::k(2.0)), c(o.x, o.y)]);
    match i {
        0 => none.into(),
        1 => one.into(),
        2 => Polygon::new(none, vec![]).into(),
        3 => Polygon::new(one, vec![]).into(),
        4 => Polygon::new(tri, vec![none]).into(),
        _ => Polygon::new(tri, vec![one]).into(),
    }
}
/// A comparator that cannot be measured from.
fn flat_cmp<T: Dom>(cfg: Cfg, cmp: Cmp) {
    let b = build::<T>(&cfg, CalcMethod::Euclidean);
    let o = match cmp.get::<T>() {
        quadtree::Geometry::Point(p) => p.0,
        _ => unreachable!(),
    };
    let x = flat(choice(6), o);
    // what has no position in the tree or finds no data there may be told so instead
    let place = !touching(&rk::<T>(cfg.root), &x);
    let bad = |e: Option<Error>| e == Some(Error::InvalidDistance) || (place && e == Some(Error::OutOfBounds));
    let none = b.stored.is_empty();
    let f = b.tree.find(&x).err();
    chk(bad(f) || (none && f == Some(Error::Empty)), "find from a geometry without a segment is InvalidDistance");
    let f = b.tree.find_r(&x, T::k(100.0)).err();
    chk(bad(f) || (none && f == Some(Error::Empty)), "find_r from a geometry without a segment is InvalidDistance");
    let f = b.tree.knn(&x, 2);
    chk(bad(f.as_ref().err().copied()) || (none && matches!(f, Ok(v) if v.is_empty())), "knn from a geometry without a segment is InvalidDistance");
    let f = b.tree.knn_r(&x, 2, T::k(100.0));
    chk(bad(f.as_ref().err().copied()) || (none && matches!(f, Ok(v) if v.is_empty())), "knn_r from a geometry without a segment is InvalidDistance");
    chk(b.tree.sorted(&x, 9).is_empty(), "sorted from a geometry without a segment is empty");
}
/// A stored datum that cannot be measured to, among others that can.
fn flat_datum<T: Dom>(md: u8, cmp: Cmp, which: &'static [usize]) {
    let mut t = Tree::<T>::new(false, rk(ROOT), CalcMethod::Euclidean, md, 1);
    let good = [sq(1.0, 1.0, 1.0, 1.0), Shape::Rect([5.0, 4.5, 7.0, 5.0])];
    let good: Vec<D<T>> = good.iter().enumerate().map(|(i, s)| D { id: i, g: s.fixed() }).collect();
    let bad = D { id: 9, g: flat(which[choice(which.len())], ck(5.5, 1.25)) };
    t.insert(good[0].clone()).unwrap();
    if t.insert(bad).is_err() {
        return; // without a bounding box it has no place in the tree
    }
    t.insert(good[1].clone()).unwrap();
    let x = cmp.get::<T>();
    let d: Vec<(usize, T)> = good.iter().map(|g| (g.id, odist(&x, &g.g))).collect();
    let best = if d[0].1 < d[1].1 { d[0].1 } else { d[1].1 };
    // a search that never measures the distance to it succeeds
    for f in [t.find(&x), t.find_r(&x, T::k(100.0))] {
        match f {
            Ok((id, r)) => {
                chk(id != 9, "a datum without a segment is not found");
                chk_eq(r, best, "the nearest of the other data is found");
            }
            Err(e) => chk(e == Error::InvalidDistance, "find fails with InvalidDistance"),
        }
    }
    for k in [t.knn(&x, 1), t.knn_r(&x, 1, T::k(100.0))] {
        match k {
            Ok(v) => {
                chk(v.len() == 1 && v[0].0 != 9, "a datum without a segment is not found by knn");
                chk_eq(v[0].1, best, "the nearest of the other data is found by knn");
            }
            Err(e) => chk(e == Error::InvalidDistance, "knn fails with InvalidDistance"),
        }
    }
    let s = t.sorted(&x, 9);
    let rest = sorted_ids(s.iter().map(|e| e.0).collect());
    chk(rest == vec![0, 1], "sorted skips the datum without a segment and yields the others");
    for (id, r) in &s {
        chk_eq(*r, d[*id].1, "sorted yields the true distance of the others");
    }
    chk_not_less(&[(s[1].1, s[0].1)], "sorted yields the others in order");
}

// ------------------------------------------------------------------ scenario lists
/// The last scenario belongs to the thorough tier.
fn deep(v: &mut Vec<Scen>) {
    let s = v.pop().unwrap().secs(600.0).thorough();
    v.push(s);
}
const MID: [f64; 4] = [2.0, 2.0, 6.0, 6.0];
const AREA: [f64; 4] = [0.0, 0.0, 8.0, 8.0];
fn pts(v: &[(f64, f64)]) -> Vec<Shape> {
    v.iter().map(|p| Shape::Pt(p.0, p.1)).collect()
}
/// Corners of cells, midline points, clusters.
fn cluster() -> Vec<Shape> {
    pts(&[(1.0, 1.0), (6.0, 1.5), (4.0, 4.0), (6.5, 6.25), (1.5, 7.0), (4.0, 0.0), (0.5, 4.0)])
}
fn scattered(n: usize, seed: u64) -> Vec<Shape> {
    pts(&scatter(n, seed, ROOT))
}
fn mixed() -> Vec<Shape> {
    vec![
        Shape::Rect([0.5, 0.5, 1.5, 1.25]),
        Shape::Line([5.0, 1.0, 6.5, 2.5]),
        Shape::Pt(6.0, 6.0),
        Shape::Ls(vec![(1.0, 5.0), (2.0, 6.0), (1.5, 7.0)]),
        Shape::Poly(vec![(5.0, 5.0), (7.0, 5.5), (6.0, 7.5), (5.0, 5.0)], vec![]),
        Shape::Rect([3.0, 3.5, 5.0, 4.5]),
    ]
}
fn rects(n: usize, seed: u64) -> Vec<Shape> {
    boxes(n, seed, ROOT, 2.0).into_iter().map(Shape::Rect).collect()
}
fn pt() -> Shape {
    Shape::Pt(0.0, 0.0)
}
fn add(v: &mut Vec<Scen>, name: &str, cfg: Cfg, cmp: Cmp, f: fn(String, String, Cfg, Cmp) -> Scen) {
    let b = format!("{}; {}", cfg.describe(), cmp.describe());
    v.push(f(name.to_string(), b, cfg, cmp));
}
fn s_find(n: String, b: String, cfg: Cfg, cmp: Cmp) -> Scen {
    scen!(n, Real, b, find, cfg, cmp)
}
fn s_find_r(n: String, b: String, cfg: Cfg, cmp: Cmp) -> Scen {
    scen!(n, Real, format!("{b}; radius free in [0,16], zero, or the exact distance of any datum"), find_r, cfg, cmp)
}
fn s_sorted(n: String, b: String, cfg: Cfg, cmp: Cmp) -> Scen {
    scen!(n, Real, b, sorted, cfg, cmp)
}
fn s_errors(n: String, b: String, cfg: Cfg, cmp: Cmp) -> Scen {
    scen!(n, Real, b, errors, cfg, cmp)
}
fn s_none(n: String, b: String, cfg: Cfg, cmp: Cmp) -> Scen {
    scen!(n, Real, b, no_method, cfg, cmp)
}
fn s_nan(n: String, _: String, cfg: Cfg, _: Cmp) -> Scen {
    scen!(n, Real, format!("{}; comparator point with a NaN coordinate", cfg.describe()), nowhere, cfg)
}
fn s_flat(n: String, _: String, cfg: Cfg, cmp: Cmp) -> Scen {
    scen!(n, Real, format!("{}; comparator without a segment to measure from (empty or one-point line string or polygon, polygon with such a hole) at every point of {:?}", cfg.describe(), cmp.area), flat_cmp, cfg, cmp)
}
fn line() -> Shape {
    Shape::Line([0.0, 0.0, 1.5, 1.0])
}
fn small_rect() -> Shape {
    Shape::Rect([0.0, 0.0, 1.0, 2.0])
}
fn zigzag() -> Shape {
    Shape::Ls(vec![(0.0, 0.0), (1.0, 1.0), (2.0, 0.5)])
}
fn triangle() -> Shape {
    Shape::Poly(vec![(0.0, 0.0), (2.0, 0.5), (0.5, 1.5), (0.0, 0.0)], vec![])
}
fn holed(s: f64) -> Shape {
    Shape::Poly(
        vec![(0.0, 0.0), (3.0 * s, 0.0), (3.0 * s, 3.0 * s), (0.0, 3.0 * s), (0.0, 0.0)],
        vec![vec![(s, s), (2.0 * s, s), (2.0 * s, 2.0 * s), (s, 2.0 * s), (s, s)]],
    )
}
/// Segments of offsets: generic slopes, so that ties, corners and tangencies are crossed one at a time.
const TR1: [f64; 4] = [0.0, 0.25, 6.5, 5.75];
const TR2: [f64; 4] = [6.25, 0.0, 0.5, 6.0];
const TR3: [f64; 4] = [4.25, -0.25, 4.25, 7.75];
const TR4: [f64; 4] = [-0.25, 2.5, 7.75, 3.25];
/// Comparators of the costly kinds on short segments (quick) and whole ones (thorough).
fn along(v: &mut Vec<Scen>, point: bool, kinds: &[(&str, Shape)], data: Vec<Shape>) {
    for (n, s) in kinds {
        for (i, tr) in [TR1, TR2, TR3, TR4].into_iter().enumerate() {
            let cfg = Cfg::new(point, data.clone(), "", &[2], &[1]);
            let whole = *n == "line" && point;
            let at = |a: f64| [tr[0] + (tr[2] - tr[0]) * a, tr[1] + (tr[3] - tr[1]) * a];
            let (a, b) = (at(0.5 * (i % 2) as f64 + 0.125), at(0.5 * (i % 2) as f64 + 0.25));
            let short = [a[0], a[1], b[0], b[1]];
            add(v, &format!("find-{n}-along{i}"), cfg.clone(), Cmp::along(s.clone(), if whole { tr } else { short }), s_find);
            if !point && *n == "polygon" && i < 2 {
                let s = v.pop().unwrap().secs(400.0).thorough();
                v.push(s);
            }
            if !whole {
                let l = v.len();
                add(v, &format!("find-{n}-whole{i}"), cfg, Cmp::along(s.clone(), tr), s_find);
                let s = v.pop().unwrap().secs(400.0).thorough();
                v.insert(l, s);
            }
        }
    }
}
/// Away from the origin, neither square nor on one side of an axis.
const NEG: [f64; 4] = [-6.0, -3.0, 10.0, 5.0];
fn neg_pts(n: usize, seed: u64) -> Vec<Shape> {
    pts(&scatter(n, seed, NEG))
}
fn neg_boxes(n: usize, seed: u64) -> Vec<Shape> {
    boxes(n, seed, NEG, 3.0).into_iter().map(Shape::Rect).collect()
}
/// Trees of many data, searched from every place of a short segment; trees with bounds elsewhere.
fn many(v: &mut Vec<Scen>, f: fn(String, String, Cfg, Cmp) -> Scen) {
    let old = v.len();
    for (i, seg) in [[1.0, 1.25, 2.0, 1.5], [3.75, 3.875, 4.375, 4.25], [6.0, 7.5, 7.75, 6.5]].into_iter().enumerate() {
        add(v, &format!("point-many{i}"), Cfg::new(true, scattered(24, 21), "", &[3], &[2]), Cmp::along(pt(), seg), f);
        add(v, &format!("bounds-many{i}"), Cfg::new(false, rects(18, 22), "", &[3], &[1]), Cmp::along(pt(), seg), f);
    }
    // all data in one cell; data in a corner of a deep tree
    let corner = |n: usize, seed| pts(&scatter(n, seed, [0.0, 0.0, 2.0, 2.0]));
    add(v, "point-fat", Cfg::new(true, scattered(80, 27), "", &[0], &[1]), Cmp::along(pt(), [2.0, 3.0, 2.125, 3.0625]), f);
    add(v, "bounds-fat", Cfg::new(false, rects(30, 28), "", &[2], &[9]), Cmp::along(pt(), [5.0, 3.0, 5.25, 3.125]), f);
    add(v, "point-deep", Cfg::new(true, corner(16, 29), "", &[6], &[1]), Cmp::along(pt(), [0.5, 0.75, 0.5625, 0.78125]), f);
    add(v, "point-deep-far", Cfg::new(true, corner(16, 29), "", &[6], &[1]), Cmp::along(pt(), [6.5, 6.75, 7.0, 6.875]), f);
    add(v, "point-rect-many", Cfg::new(true, scattered(16, 23), "", &[3], &[1]), Cmp::along(small_rect(), [2.5, 5.25, 3.5, 5.0]), f);
    add(v, "bounds-rect-many", Cfg::new(false, rects(12, 24), "", &[3], &[1]), Cmp::along(small_rect(), [4.5, 1.25, 5.5, 1.5]), f);
    add(v, "bounds-mixed-short", Cfg::new(false, mixed(), "", &[3], &[1]), Cmp::along(pt(), [2.5, 1.25, 3.0, 1.75]), f);
    for (i, seg) in [TR1, TR2, TR3, TR4].into_iter().enumerate() {
        add(v, &format!("point-whole-many{i}"), Cfg::new(true, scattered(40, 25), "", &[4], &[2]), Cmp::along(pt(), [seg[0], seg[1].max(0.0), seg[2], seg[3]]), f);
        deep(v);
        add(v, &format!("bounds-whole-many{i}"), Cfg::new(false, rects(30, 26), "", &[4], &[2]), Cmp::along(pt(), [seg[0].max(0.0), seg[1].max(0.0), seg[2], seg[3]]), f);
        deep(v);
    }
    add(v, "point-negative", Cfg::new(true, neg_pts(9, 31), "", &[3], &[1]).root(NEG), Cmp::along(pt(), [-5.5, -2.5, -2.0, 1.0]), f);
    add(v, "bounds-negative", Cfg::new(false, neg_boxes(7, 32), "", &[3], &[1]).root(NEG), Cmp::along(pt(), [-1.0, 1.5, 3.0, -0.5]), f);
    add(v, "point-moved", Cfg::new(true, scattered(5, 33), "", &[2], &[1]).shifted(), Cmp::along(pt(), [1.0, 6.0, 3.0, 5.0]), f);
    add(v, "bounds-moved", Cfg::new(false, rects(4, 34), "", &[2], &[1]).shifted(), Cmp::along(pt(), [1.0, 6.0, 3.0, 5.0]), f);
    // one worker may have to go through most paths of such a tree
    for s in &mut v[old..] {
        s.secs = s.secs.max(600.0);
    }
}
pub fn p07() -> Vec<Scen> {
    let mut v = vec![];
    let cm = Cmp::moving(pt(), AREA);
    add(&mut v, "find-negative", Cfg::new(true, neg_pts(9, 31), "", &[3], &[1]).root(NEG), Cmp::moving(pt(), NEG), s_find);
    add(&mut v, "find-moved", Cfg::new(true, cluster(), "", &[2], &[1]).shifted(), cm.clone(), s_find);
    add(&mut v, "find-moved-line", Cfg::new(true, pts(&[(1.0, 1.0), (6.0, 1.5), (4.0, 4.0)]), "", &[2], &[1]).shifted(), Cmp::along(line(), TR1), s_find);
    add(&mut v, "find-cluster", Cfg::new(true, cluster(), "", &[0, 1, 2, 4], &[0, 1, 4]), cm.clone(), s_find);
    add(&mut v, "find-sym1", Cfg::new(true, pts(&[(2.0, 2.0)]), "p", &[1, 2], &[0, 1]), cm.clone(), s_find);
    add(&mut v, "find-sym2", Cfg::new(true, vec![], "pp", &[1, 2], &[1]), Cmp::fixed(Shape::Pt(2.5, 4.0)), s_find);
    add(&mut v, "find-sym2-corner", Cfg::new(true, pts(&[(7.0, 7.0), (4.0, 4.0)]), "pp", &[1, 2], &[1]), Cmp::fixed(Shape::Pt(8.0, 4.5)), s_find);
    add(&mut v, "find-scatter", Cfg::new(true, scattered(14, 5), "", &[3], &[1]), cm.clone(), s_find);
    add(&mut v, "find-line", Cfg::new(true, pts(&[(1.0, 1.0), (6.0, 1.5), (4.0, 4.0), (6.5, 6.25)]), "", &[2], &[1]), Cmp::moving(line(), AREA), s_find);
    add(&mut v, "find-rect", Cfg::new(true, cluster(), "", &[2], &[1]), Cmp::moving(small_rect(), AREA), s_find);
    along(&mut v, true, &[("line", line()), ("linestring", zigzag()), ("polygon", triangle()), ("holed", holed(1.0))], cluster());
    add(&mut v, "find-rect-sym", Cfg::new(true, pts(&[(1.0, 6.0), (6.0, 2.0)]), "p", &[1, 2], &[1]), Cmp::fixed(Shape::Rect([2.0, 3.0, 5.0, 4.0])), s_find);
    many(&mut v, s_find);
    v.retain(|s| !s.name.starts_with("bounds-"));
    v
}
pub fn p08() -> Vec<Scen> {
    let mut v = vec![];
    let cm = Cmp::moving(pt(), AREA);
    add(&mut v, "find-negative", Cfg::new(false, neg_boxes(7, 32), "", &[3], &[1]).root(NEG), Cmp::moving(pt(), NEG), s_find);
    add(&mut v, "find-moved", Cfg::new(false, rects(6, 3), "", &[2], &[1]).shifted(), cm.clone(), s_find);
    add(&mut v, "find-mixed", Cfg::new(false, mixed(), "", &[0, 1, 3], &[1]), cm.clone(), s_find);
    add(&mut v, "find-rects", Cfg::new(false, rects(8, 3), "", &[2], &[1, 3]), cm.clone(), s_find);
    add(&mut v, "find-sym-rect", Cfg::new(false, vec![sq(1.0, 1.0, 1.0, 1.0)], "t", &[1], &[0]), cm.clone(), s_find);
    add(&mut v, "find-rect-rects", Cfg::new(false, rects(6, 4), "", &[2], &[1]), Cmp::moving(small_rect(), AREA), s_find);
    along(&mut v, false, &[("line", line()), ("rect", small_rect())], mixed());
    along(&mut v, false, &[("linestring", zigzag()), ("polygon", triangle()), ("holed", holed(1.0))], vec![sq(0.5, 0.5, 1.0, 0.75), Shape::Line([5.0, 1.0, 6.5, 2.5]), Shape::Pt(6.0, 6.0)]);
    add(&mut v, "find-holed", Cfg::new(false, vec![holed(2.0), Shape::Pt(3.0, 3.0), sq(7.0, 7.0, 0.5, 0.5)], "", &[1], &[0]), Cmp::moving(pt(), [1.0, 1.0, 5.0, 5.0]), s_find);
    add(&mut v, "find-rect-symrect", Cfg::new(false, vec![sq(1.0, 1.0, 1.0, 1.0), sq(6.0, 5.0, 1.0, 2.0)], "r", &[1], &[1]), Cmp::fixed(Shape::Rect([3.0, 3.0, 5.0, 4.5])), s_find);
    many(&mut v, s_find);
    v.retain(|s| !s.name.starts_with("point-"));
    v
}
pub fn p09() -> Vec<Scen> {
    let mut v = vec![];
    let cm = Cmp::moving(pt(), AREA);
    add(&mut v, "point", Cfg::new(true, pts(&[(1.0, 1.0), (6.0, 1.5), (4.0, 4.0), (6.5, 6.25)]), "", &[0, 2], &[1]), cm.clone(), s_find_r);
    add(&mut v, "point-sym", Cfg::new(true, pts(&[(2.0, 2.0)]), "p", &[1], &[1]), Cmp::fixed(Shape::Pt(3.0, 5.0)), s_find_r);
    add(&mut v, "point-line", Cfg::new(true, pts(&[(1.0, 1.0), (4.0, 4.0)]), "", &[2], &[0]), Cmp::moving(line(), MID), s_find_r);
    add(&mut v, "point-line-wide", Cfg::new(true, pts(&[(1.0, 1.0), (4.0, 4.0), (6.5, 6.25)]), "", &[2], &[0]), Cmp::moving(line(), AREA), s_find_r);
    deep(&mut v);
    add(&mut v, "bounds", Cfg::new(false, vec![sq(1.0, 1.0, 1.0, 1.0), Shape::Line([5.0, 1.0, 6.5, 2.5]), sq(4.0, 4.0, 3.0, 1.0)], "", &[0, 2], &[0]), cm.clone(), s_find_r);
    add(&mut v, "bounds-sym", Cfg::new(false, vec![sq(1.0, 1.0, 1.0, 1.0)], "t", &[1], &[0]), Cmp::fixed(Shape::Pt(3.0, 5.0)), s_find_r);
    add(&mut v, "bounds-rect", Cfg::new(false, rects(3, 4), "", &[2], &[1]), Cmp::moving(small_rect(), AREA), s_find_r);
    add(&mut v, "empty-cells", Cfg::new(true, vec![Shape::Pt(8.0, 8.0), Shape::Pt(0.0, 0.0)], "", &[3], &[0]), cm.clone(), s_find_r);
    many(&mut v, s_find_r);
    v
}
fn s_knn(n: String, b: String, cfg: Cfg, cmp: Cmp) -> Scen {
    scen!(n, Real, format!("{b}; k in 0..=5 or the largest there is"), knn, cfg, cmp, false, KS)
}
fn s_knn_r(n: String, b: String, cfg: Cfg, cmp: Cmp) -> Scen {
    scen!(n, Real, format!("{b}; k in {{0, 1, 2, the largest there is}}; radius free in [0,16], zero, or the exact distance of any datum"), knn, cfg, cmp, true, KR)
}
fn s_knn_many(n: String, b: String, cfg: Cfg, cmp: Cmp) -> Scen {
    scen!(n, Real, format!("{b}; k in {{3, 7, the largest there is}}"), knn, cfg, cmp, false, KM)
}
static KM: &[usize] = &[3, 7, usize::MAX];
static KS: &[usize] = &[0, 1, 2, 3, 4, 5, usize::MAX];
static KR: &[usize] = &[0, 1, 2, usize::MAX];
pub fn p10() -> Vec<Scen> {
    let mut v = vec![];
    let cm = Cmp::moving(pt(), AREA);
    add(&mut v, "point", Cfg::new(true, pts(&[(1.0, 1.0), (6.0, 1.5), (4.0, 4.0), (6.5, 6.25)]), "", &[0, 2], &[1]), cm.clone(), s_knn);
    add(&mut v, "point-r", Cfg::new(true, pts(&[(1.0, 1.0), (6.0, 1.5), (4.0, 4.0)]), "", &[0, 2], &[1]), cm.clone(), s_knn_r);
    add(&mut v, "point-sym", Cfg::new(true, pts(&[(2.0, 2.0), (6.0, 3.0)]), "p", &[1, 2], &[1]), Cmp::fixed(Shape::Pt(3.0, 5.0)), s_knn);
    add(&mut v, "point-sym-r", Cfg::new(true, pts(&[(2.0, 2.0)]), "p", &[1], &[1]), Cmp::fixed(Shape::Pt(3.0, 5.0)), s_knn_r);
    add(&mut v, "point-line", Cfg::new(true, pts(&[(1.0, 1.0), (4.0, 4.0)]), "", &[2], &[1]), Cmp::moving(line(), MID), s_knn);
    add(&mut v, "point-line-wide", Cfg::new(true, pts(&[(1.0, 1.0), (4.0, 4.0), (6.5, 6.25)]), "", &[2], &[1]), Cmp::moving(line(), AREA), s_knn);
    deep(&mut v);
    add(&mut v, "bounds", Cfg::new(false, vec![sq(1.0, 1.0, 1.0, 1.0), Shape::Pt(5.5, 1.5), sq(4.0, 4.0, 3.0, 1.0)], "", &[0, 2], &[0]), Cmp::moving(pt(), MID), s_knn);
    add(&mut v, "bounds-wide", Cfg::new(false, vec![sq(1.0, 1.0, 1.0, 1.0), Shape::Line([5.0, 1.0, 6.5, 2.5]), sq(4.0, 4.0, 3.0, 1.0)], "", &[0, 2], &[0]), cm.clone(), s_knn);
    deep(&mut v);
    add(&mut v, "bounds-r", Cfg::new(false, vec![sq(1.0, 1.0, 1.0, 1.0), sq(4.0, 4.0, 3.0, 1.0)], "", &[2], &[0]), Cmp::moving(pt(), MID), s_knn_r);
    add(&mut v, "bounds-r-wide", Cfg::new(false, vec![sq(1.0, 1.0, 1.0, 1.0), sq(4.0, 4.0, 3.0, 1.0)], "", &[2], &[0]), cm.clone(), s_knn_r);
    deep(&mut v);
    add(&mut v, "bounds-sym", Cfg::new(false, vec![sq(1.0, 1.0, 1.0, 1.0)], "t", &[1], &[0]), Cmp::fixed(Shape::Pt(3.0, 5.0)), s_knn);
    add(&mut v, "bounds-rect", Cfg::new(false, rects(3, 4), "", &[2], &[1]), Cmp::moving(small_rect(), AREA), s_knn);
    many(&mut v, s_knn_many);
    v
}
pub fn p11() -> Vec<Scen> {
    let mut v = vec![];
    let cm = Cmp::moving(pt(), AREA);
    add(&mut v, "point", Cfg::new(true, pts(&[(1.0, 1.0), (6.0, 1.5), (4.0, 4.0), (6.5, 6.25)]), "", &[0, 2], &[1]), cm.clone(), s_sorted);
    add(&mut v, "point-sym", Cfg::new(true, pts(&[(2.0, 2.0), (6.0, 3.0)]), "p", &[1, 2], &[1]), Cmp::fixed(Shape::Pt(3.0, 5.0)), s_sorted);
    add(&mut v, "point-rect", Cfg::new(true, pts(&[(1.0, 1.0), (4.0, 4.0), (6.5, 6.25)]), "", &[2], &[1]), Cmp::moving(small_rect(), AREA), s_sorted);
    add(&mut v, "bounds", Cfg::new(false, vec![sq(1.0, 1.0, 1.0, 1.0), Shape::Pt(5.5, 1.5), sq(4.0, 4.0, 3.0, 1.0)], "", &[0, 2], &[0]), Cmp::moving(pt(), MID), s_sorted);
    add(&mut v, "bounds-wide", Cfg::new(false, vec![sq(1.0, 1.0, 1.0, 1.0), Shape::Line([5.0, 1.0, 6.5, 2.5]), sq(4.0, 4.0, 3.0, 1.0)], "", &[0, 2], &[0]), cm.clone(), s_sorted);
    deep(&mut v);
    add(&mut v, "bounds-sym", Cfg::new(false, vec![sq(1.0, 1.0, 1.0, 1.0)], "t", &[1], &[0]), Cmp::fixed(Shape::Pt(3.0, 5.0)), s_sorted);
    add(&mut v, "bounds-rect", Cfg::new(false, rects(3, 4), "", &[2], &[1]), Cmp::moving(small_rect(), AREA), s_sorted);
    many(&mut v, s_sorted);
    v
}
static FLAT: &[usize] = &[1, 3, 4, 5];
pub fn p12() -> Vec<Scen> {
    const WIDE: [f64; 4] = [-4.0, -4.0, 12.0, 12.0];
    let mut v = vec![];
    for (n, point) in [("point", true), ("bounds", false)] {
        let data = if point { pts(&[(1.0, 1.0), (4.0, 4.0), (8.0, 8.0)]) } else { vec![sq(1.0, 1.0, 1.0, 1.0), sq(3.0, 4.0, 4.0, 1.0)] };
        for (m, s) in [("point", pt()), ("rect", small_rect()), ("line", line()), ("linestring", zigzag()), ("polygon", triangle())] {
            let costly = m == "linestring" || m == "polygon";
            let data = if costly { data[..1].to_vec() } else { data.clone() };
            // the costly kinds leave the bounds through one side in each of these
            let cm = if m == "point" || m == "rect" {
                vec![Cmp::moving(s.clone(), WIDE)]
            } else if costly {
                vec![Cmp::along(s.clone(), [-2.25, 2.0, -1.875, 2.25]), Cmp::along(s.clone(), [5.0, 7.75, 5.25, 8.25]), Cmp::along(s.clone(), [7.75, 3.0, 8.25, 2.5])]
            } else { vec![Cmp::along(s.clone(), [-4.0, -3.0, 11.0, 12.0]), Cmp::along(s.clone(), [10.0, -3.0, -5.0, 11.5])] };
            for (i, cm) in cm.into_iter().enumerate() {
                add(&mut v, &format!("{n}-empty-{m}{i}"), Cfg::new(point, vec![], "", &[0, 3], &[0]), cm.clone(), s_errors);
                add(&mut v, &format!("{n}-data-{m}{i}"), Cfg::new(point, data.clone(), "", &[2], &[0]), cm, s_errors);
            }
            add(&mut v, &format!("{n}-none-{m}"), Cfg::new(point, data.clone(), "", &[2], &[0]), Cmp::moving(s.clone(), WIDE), s_none);
        }
        for (i, seg) in [[-2.0, 1.5, 10.0, 6.0], [3.0, 10.0, 6.5, -1.0]].into_iter().enumerate() {
            add(&mut v, &format!("{n}-flat{i}"), Cfg::new(point, data.clone(), "", &[0, 2], &[0]), Cmp::along(pt(), seg), s_flat);
            add(&mut v, &format!("{n}-flat-empty{i}"), Cfg::new(point, vec![], "", &[2], &[0]), Cmp::along(pt(), seg), s_flat);
        }
        add(&mut v, &format!("{n}-nan"), Cfg::new(point, data.clone(), "", &[0, 2], &[0]), Cmp::fixed(pt()), s_nan);
        add(&mut v, &format!("{n}-nan-empty"), Cfg::new(point, vec![], "", &[2], &[0]), Cmp::fixed(pt()), s_nan);
        add(&mut v, &format!("{n}-none-empty"), Cfg::new(point, vec![], "", &[2], &[0]), Cmp::moving(pt(), WIDE), s_none);
    }
    for (n, s, seg) in [("rect", small_rect(), [0.5, 6.0, 6.0, 0.5]), ("linestring", zigzag(), [2.5, 3.0, 2.625, 3.0625]), ("polygon", triangle(), [4.5, 1.0, 4.625, 1.0625])] {
        for md in [0, 2] {
            let cmp = Cmp::along(s.clone(), seg);
            v.push(scen!(format!("bounds-flat-datum-{n}-{md}"), Real, format!("a bounds tree of depth {md} with two rectangles and a line string or polygon without a segment; {}", cmp.describe()), flat_datum, md, cmp, FLAT));
            if md > 0 && n != "rect" {
                deep(&mut v);
            }
        }
    }
    v
}
