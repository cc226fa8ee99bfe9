//! Data, trees and reference oracles shared by the scenarios.
use crate::dom::*;
use crate::engine::Rel;
use geo::{coord, Coord, Line, LineString, Point, Polygon, Rect};
use quadtree::*;

/// A stored datum with an identity.
#[derive(Debug, Clone)]
pub struct D<T: geo::GeoNum> {
    pub id: usize,
    pub g: quadtree::Geometry<T>,
}
impl<T: geo::GeoNum> AsGeom<T> for D<T> {
    fn as_geom(&self) -> GeometryRef<'_, T> {
        self.g.as_geom()
    }
}
impl<T: geo::GeoNum> AsPoint<T> for D<T> {
    fn as_point(&self) -> Point<T> {
        match &self.g {
            quadtree::Geometry::Point(p) => *p,
            _ => panic!("not a point"),
        }
    }
}
pub fn c<T: Num0>(x: T, y: T) -> Coord<T> {
    coord! {x: x, y: y}
}
pub fn ck<T: Num0>(x: f64, y: f64) -> Coord<T> {
    c(T::k(x), T::k(y))
}
pub fn dpt<T: Num0>(id: usize, p: Coord<T>) -> D<T> {
    D { id, g: quadtree::Geometry::Point(Point(p)) }
}
pub fn drect<T: Num0>(id: usize, r: Rect<T>) -> D<T> {
    D { id, g: quadtree::Geometry::Rect(r) }
}
pub fn rk<T: Num0>(r: [f64; 4]) -> Rect<T> {
    Rect::new(ck::<T>(r[0], r[1]), ck::<T>(r[2], r[3]))
}
pub fn vpt<T: Num0>(n: &str, lo: f64, hi: f64) -> Coord<T> {
    c(T::var(&format!("{n}x"), lo, hi), T::var(&format!("{n}y"), lo, hi))
}
/// A symbolic rectangle with ordered corners.
pub fn vrect<T: Num0>(n: &str, lo: f64, hi: f64) -> Rect<T> {
    let (x1, y1) = (T::var(&format!("{n}x1"), lo, hi), T::var(&format!("{n}y1"), lo, hi));
    let (x2, y2) = (T::var(&format!("{n}x2"), lo, hi), T::var(&format!("{n}y2"), lo, hi));
    x1.assume_le(x2);
    y1.assume_le(y2);
    Rect::new(c(x1, y1), c(x2, y2))
}
/// A geometry shape given by constants, to be translated.
#[derive(Clone, Debug)]
pub enum Shape {
    Pt(f64, f64),
    Line([f64; 4]),
    Ls(Vec<(f64, f64)>),
    Rect([f64; 4]),
    Poly(Vec<(f64, f64)>, Vec<Vec<(f64, f64)>>),
}
impl Shape {
    pub fn at<T: Num0>(&self, o: Coord<T>) -> quadtree::Geometry<T> {
        use quadtree::Geometry as G;
        let p = |x: f64, y: f64| c(o.x + T::k(x), o.y + T::k(y));
        let ls = |v: &[(f64, f64)]| LineString::new(v.iter().map(|q| p(q.0, q.1)).collect());
        match self {
            Shape::Pt(x, y) => G::Point(Point(p(*x, *y))),
            Shape::Line(l) => G::Line(Line::new(p(l[0], l[1]), p(l[2], l[3]))),
            Shape::Ls(v) => G::LineString(ls(v)),
            Shape::Rect(r) => G::Rect(Rect::new(p(r[0], r[1]), p(r[2], r[3]))),
            Shape::Poly(e, i) => G::Polygon(Polygon::new(ls(e), i.iter().map(|r| ls(r)).collect())),
        }
    }
    pub fn fixed<T: Num0>(&self) -> quadtree::Geometry<T> {
        self.at(ck(0.0, 0.0))
    }
}
pub fn sq(x: f64, y: f64, w: f64, h: f64) -> Shape {
    Shape::Rect([x, y, x + w, y + h])
}

pub enum Tree<T: geo::GeoNum> {
    P(PointQuadTree<D<T>, T>),
    B(BoundsQuadTree<D<T>, T>),
}
impl<T: Num0> Tree<T> {
    pub fn new(point: bool, root: Rect<T>, cm: CalcMethod, md: u8, mc: usize) -> Tree<T> {
        if point {
            Tree::P(PointQuadTree::new(root, cm, md, mc))
        } else {
            Tree::B(BoundsQuadTree::new(root, cm, md, mc))
        }
    }
    pub fn from_bounds(point: bool, root: Rect<T>, cm: CalcMethod) -> Tree<T> {
        if point {
            Tree::P(PointQuadTree::from_bounds(root, cm))
        } else {
            Tree::B(BoundsQuadTree::from_bounds(root, cm))
        }
    }
    pub fn insert(&mut self, d: D<T>) -> Result<(), Error> {
        match self {
            Tree::P(t) => t.insert(d),
            Tree::B(t) => t.insert(d),
        }
    }
    pub fn size(&self) -> usize {
        match self {
            Tree::P(t) => t.size(),
            Tree::B(t) => t.size(),
        }
    }
    pub fn data(&self) -> Vec<D<T>> {
        match self {
            Tree::P(t) => t.into_iter().cloned().collect(),
            Tree::B(t) => t.into_iter().cloned().collect(),
        }
    }
    pub fn ids(&self) -> Vec<usize> {
        match self {
            Tree::P(t) => t.into_iter().map(|d| d.id).collect(),
            Tree::B(t) => t.into_iter().map(|d| d.id).collect(),
        }
    }
    pub fn retrieve(&self, q: &D<T>) -> Vec<usize> {
        match self {
            Tree::P(t) => t.retrieve(q).map(|d| d.id).collect(),
            Tree::B(t) => t.retrieve(q).map(|d| d.id).collect(),
        }
    }
    pub fn show(&self) -> String {
        match self {
            Tree::P(t) => format!("{t}"),
            Tree::B(t) => format!("{t}"),
        }
    }
}
pub type Found<T> = Result<(usize, T), Error>;
impl<T: Dom> Tree<T> {
    pub fn find(&self, x: &quadtree::Geometry<T>) -> Found<T> {
        match self {
            Tree::P(t) => t.find(x).map(|(d, r)| (d.id, r)),
            Tree::B(t) => t.find(x).map(|(d, r)| (d.id, r)),
        }
    }
    pub fn find_r(&self, x: &quadtree::Geometry<T>, r: T) -> Found<T> {
        match self {
            Tree::P(t) => t.find_r(x, r).map(|(d, r)| (d.id, r)),
            Tree::B(t) => t.find_r(x, r).map(|(d, r)| (d.id, r)),
        }
    }
    pub fn knn(&self, x: &quadtree::Geometry<T>, k: usize) -> Result<Vec<(usize, T)>, Error> {
        match self {
            Tree::P(t) => t.knn(x, k).map(|v| v.into_iter().map(|(d, r)| (d.id, r)).collect()),
            Tree::B(t) => t.knn(x, k).map(|v| v.into_iter().map(|(d, r)| (d.id, r)).collect()),
        }
    }
    pub fn knn_r(&self, x: &quadtree::Geometry<T>, k: usize, r: T) -> Result<Vec<(usize, T)>, Error> {
        match self {
            Tree::P(t) => t.knn_r(x, k, r).map(|v| v.into_iter().map(|(d, r)| (d.id, r)).collect()),
            Tree::B(t) => t.knn_r(x, k, r).map(|v| v.into_iter().map(|(d, r)| (d.id, r)).collect()),
        }
    }
    pub fn sorted(&self, x: &quadtree::Geometry<T>, limit: usize) -> Vec<(usize, T)> {
        match self {
            Tree::P(t) => t.sorted(x).take(limit).map(|(d, r)| (d.id, r)).collect(),
            Tree::B(t) => t.sorted(x).take(limit).map(|(d, r)| (d.id, r)).collect(),
        }
    }
}
pub fn sorted_ids(mut v: Vec<usize>) -> Vec<usize> {
    v.sort();
    v
}
pub fn distinct(v: &[usize]) -> bool {
    let mut s = v.to_vec();
    s.sort();
    s.windows(2).all(|w| w[0] != w[1])
}
/// Closed containment, written independently of the library.
pub fn pt_in<T: Num0>(r: &Rect<T>, p: Coord<T>) -> bool {
    r.min().x <= p.x && p.x <= r.max().x && r.min().y <= p.y && p.y <= r.max().y
}
pub fn pt_strictly_in<T: Num0>(r: &Rect<T>, p: Coord<T>) -> bool {
    r.min().x < p.x && p.x < r.max().x && r.min().y < p.y && p.y < r.max().y
}
pub fn rect_in<T: Num0>(o: &Rect<T>, i: &Rect<T>) -> bool {
    o.min().x <= i.min().x && i.max().x <= o.max().x && o.min().y <= i.min().y && i.max().y <= o.max().y
}
pub fn rect_strictly_in<T: Num0>(o: &Rect<T>, i: &Rect<T>) -> bool {
    o.min().x < i.min().x && i.max().x < o.max().x && o.min().y < i.min().y && i.max().y < o.max().y
}
/// Overlap in more than a shared border.
pub fn overlap<T: Num0>(a: &Rect<T>, b: &Rect<T>) -> bool {
    a.min().x < b.max().x && b.min().x < a.max().x && a.min().y < b.max().y && b.min().y < a.max().y
}
pub type Conj<T> = Vec<(T, Rel, T)>;
pub fn overlap_conj<T: Num0>(a: &Rect<T>, b: &Rect<T>) -> Conj<T> {
    vec![(a.min().x, Lt, b.max().x), (b.min().x, Lt, a.max().x), (a.min().y, Lt, b.max().y), (b.min().y, Lt, a.max().y)]
}
pub fn same_conj<T: Num0>(a: &Rect<T>, b: &Rect<T>) -> Conj<T> {
    vec![(a.min().x, Eq, b.min().x), (a.max().x, Eq, b.max().x), (a.min().y, Eq, b.min().y), (a.max().y, Eq, b.max().y)]
}
pub fn inside_conj<T: Num0>(o: &Rect<T>, i: &Rect<T>) -> Conj<T> {
    vec![(o.min().x, Lt, i.min().x), (i.max().x, Lt, o.max().x), (o.min().y, Lt, i.min().y), (i.max().y, Lt, o.max().y)]
}
pub fn touches<T: Num0>(a: &Rect<T>, b: &Rect<T>) -> bool {
    a.min().x <= b.max().x && b.min().x <= a.max().x && a.min().y <= b.max().y && b.min().y <= a.max().y
}
pub fn same_rect<T: Num0>(a: &Rect<T>, b: &Rect<T>) -> bool {
    a.min().x == b.min().x && a.max().x == b.max().x && a.min().y == b.min().y && a.max().y == b.max().y
}
/// The quadrants of a cell in the order low/low, high/low, high/high, low/high.
pub fn quadrants(r: [f64; 4]) -> [[f64; 4]; 4] {
    let (mx, my) = ((r[0] + r[2]) / 2.0, (r[1] + r[3]) / 2.0);
    [[r[0], r[1], mx, my], [mx, r[1], r[2], my], [mx, my, r[2], r[3]], [r[0], my, mx, r[3]]]
}
pub const ROOT: [f64; 4] = [0.0, 0.0, 8.0, 8.0];

/// Deterministic pseudo-random quarter-grid points in a box.
pub fn scatter(n: usize, seed: u64, r: [f64; 4]) -> Vec<(f64, f64)> {
    let mut s = seed.wrapping_mul(0x9E3779B97F4A7C15) | 1;
    let mut next = move || {
        s ^= s << 13;
        s ^= s >> 7;
        s ^= s << 17;
        s
    };
    (0..n)
        .map(|_| {
            let q = |v: u64, lo: f64, hi: f64| lo + ((v >> 20) % (((hi - lo) * 8.0) as u64 + 1)) as f64 / 8.0;
            let x = q(next(), r[0], r[2]);
            let y = q(next(), r[1], r[3]);
            (x, y)
        })
        .collect()
}
/// Deterministic small boxes in a region.
pub fn boxes(n: usize, seed: u64, r: [f64; 4], size: f64) -> Vec<[f64; 4]> {
    let lo = scatter(n, seed, r);
    let sz = scatter(n, seed + 77, [0.0, 0.0, size, size]);
    lo.iter().zip(sz).map(|(p, s)| [p.0, p.1, (p.0 + s.0).min(r[2]), (p.1 + s.1).min(r[3])]).collect()
}

// ---------------------------------------------------------------- the printout
#[derive(Debug, Clone)]
pub struct Cell {
    pub depth: usize,
    pub corner: String,
    pub count: usize,
    /// position of this cell's own data in iteration order
    pub first: usize,
    /// number of data in this cell and below
    pub total: usize,
    pub divided: bool,
    /// index of the quadrants, if divided
    pub kids: Vec<usize>,
    pub path: Vec<usize>,
}
/// Read the printout back into a cell structure; None if it is not one.
pub fn parse(show: &str) -> Option<Vec<Cell>> {
    let mut lines = show.lines();
    let head = lines.next()?;
    if !head.contains("Quadtree Root") {
        return None;
    }
    let mut cells: Vec<Cell> = vec![];
    for l in lines {
        if l.trim().is_empty() {
            continue;
        }
        let ind = l.len() - l.trim_start().len();
        let body = l.trim_start();
        if ind % 4 != 0 || !body.starts_with('(') {
            return None;
        }
        let close = body.find("):")?;
        let rest = body[close + 2..].trim();
        let count = if rest.is_empty() {
            0
        } else {
            let mut w = rest.split_whitespace();
            let n: usize = w.next()?.parse().ok()?;
            match (n, w.next()?) {
                (1, "child") => {}
                (_, "children") if n != 1 => {}
                _ => return None,
            }
            n
        };
        cells.push(Cell { depth: ind / 4, corner: body[1..close].to_string(), count, first: 0, total: 0, divided: false, kids: vec![], path: vec![] });
    }
    if cells.is_empty() {
        return None;
    }
    // structure
    fn build(cells: &mut Vec<Cell>, i: usize, depth: usize, at: &mut usize, path: &[usize]) -> Option<usize> {
        if i >= cells.len() || cells[i].depth != depth {
            return None;
        }
        cells[i].first = *at;
        *at += cells[i].count;
        cells[i].path = path.to_vec();
        let start = cells[i].first;
        let mut next = i + 1;
        if next < cells.len() && cells[next].depth == depth + 1 {
            cells[i].divided = true;
            for q in 0..4 {
                cells[i].kids.push(next);
                let mut p = path.to_vec();
                p.push(q);
                next = build(cells, next, depth + 1, at, &p)?;
            }
        }
        cells[i].total = *at - start;
        Some(next)
    }
    let mut at = 0;
    let n = build(&mut cells, 0, 0, &mut at, &[])?;
    if n != cells.len() {
        return None;
    }
    Some(cells)
}
pub fn cell_rect(root: [f64; 4], path: &[usize]) -> [f64; 4] {
    let mut r = root;
    for q in path {
        r = quadrants(r)[*q];
    }
    r
}
