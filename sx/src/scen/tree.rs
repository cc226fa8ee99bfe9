//! Storage: P01-P06, P23, P24.
use super::util::*;
use crate::dom::*;
use crate::run::Scen;
use crate::scen;
use geo::{coord, BoundingRect, Coord, LineString, Point, Rect};
use quadtree::*;

#[derive(Clone)]
pub struct Cfg {
    pub point: bool,
    pub root: [f64; 4],
    /// concrete data inserted first
    pub pre: Vec<Shape>,
    /// symbolic data inserted afterwards: 'p' point, 'r' rectangle, 'l' line, 't', 's', 'g' small translated box, line
    /// string, polygon, 'e' geometry without a box, 'n' point with a NaN coordinate
    pub sym: &'static str,
    pub lo: f64,
    pub hi: f64,
    pub md: &'static [u8],
    pub mc: &'static [usize],
    /// made by `from_bounds`, which promises the published default limits
    pub defaults: bool,
    /// bounds, data and comparator are moved together by a symbolic offset
    pub shift: bool,
}
impl Cfg {
    pub fn new(point: bool, pre: Vec<Shape>, sym: &'static str, md: &'static [u8], mc: &'static [usize]) -> Cfg {
        Cfg { point, root: ROOT, pre, sym, lo: 0.0, hi: 8.0, md, mc, defaults: false, shift: false }
    }
    pub fn shifted(mut self) -> Cfg {
        self.shift = true;
        self
    }
    pub fn range(mut self, lo: f64, hi: f64) -> Cfg {
        self.lo = lo;
        self.hi = hi;
        self
    }
    pub fn root(mut self, r: [f64; 4]) -> Cfg {
        self.root = r;
        self
    }
    pub fn describe(&self) -> String {
        format!(
            "{} tree, root {:?}{}, {} concrete data then {} symbolic ({}) with every coordinate in [{}, {}], max_depth in {:?}, max_children in {:?}",
            if self.point { "point" } else { "bounds" },
            self.root,
            if self.shift { " (and everything else with it) moved by every offset in [-64,64]^2" } else { "" },
            self.pre.len(),
            self.sym.len(),
            self.sym,
            self.lo,
            self.hi,
            self.md,
            self.mc
        )
    }
}
pub fn sym_datum<T: Num0>(kind: char, n: &str, id: usize, lo: f64, hi: f64) -> D<T> {
    let g = match kind {
        'p' => quadtree::Geometry::Point(Point(vpt::<T>(n, lo, hi))),
        'r' => quadtree::Geometry::Rect(vrect::<T>(n, lo, hi)),
        'l' => quadtree::Geometry::Line(geo::Line::new(vpt::<T>(&format!("{n}a"), lo, hi), vpt::<T>(&format!("{n}b"), lo, hi))),
        't' => Shape::Rect([0.0, 0.0, 1.0, 0.5]).at(vpt::<T>(n, lo, hi)),
        's' => Shape::Ls(vec![(0.0, 0.0), (1.0, 0.25), (0.5, 1.0)]).at(vpt::<T>(n, lo, hi)),
        'g' => Shape::Poly(vec![(0.0, 0.0), (1.0, 0.25), (0.5, 1.0), (0.0, 0.0)], vec![]).at(vpt::<T>(n, lo, hi)),
        'e' => match choice(2) {
            0 => Shape::Ls(vec![]).fixed(),
            _ => Shape::Poly(vec![], vec![]).fixed(),
        },
        'n' => {
            let (v, nan) = (T::var(n, lo, hi), T::nan());
            quadtree::Geometry::Point(Point(match choice(3) {
                0 => c(nan, v),
                1 => c(v, nan),
                _ => c(nan, nan),
            }))
        }
        _ => unreachable!(),
    };
    D { id, g }
}
pub struct Built<T: geo::GeoNum> {
    pub tree: Tree<T>,
    pub stored: Vec<D<T>>,
    pub rejected: Vec<D<T>>,
    pub md: u8,
    pub mc: usize,
}
pub fn build<T: Num0>(cfg: &Cfg, cm: CalcMethod) -> Built<T> {
    build_at(cfg, cm, ck(0.0, 0.0))
}
fn moved<T: Num0>(g: quadtree::Geometry<T>, o: Coord<T>) -> quadtree::Geometry<T> {
    use geo::MapCoords;
    use quadtree::Geometry as G;
    let f = |p: Coord<T>| c(p.x + o.x, p.y + o.y);
    match g {
        G::Point(p) => G::Point(Point(f(p.0))),
        G::Line(l) => G::Line(geo::Line::new(f(l.start), f(l.end))),
        G::LineString(l) => G::LineString(l.map_coords(f)),
        G::Polygon(p) => G::Polygon(p.map_coords(f)),
        G::Rect(r) => G::Rect(Rect::new(f(r.min()), f(r.max()))),
    }
}
/// Bounds and data moved by an offset.
pub fn build_at<T: Num0>(cfg: &Cfg, cm: CalcMethod, o: Coord<T>) -> Built<T> {
    let md = cfg.md[choice(cfg.md.len())];
    let mc = cfg.mc[choice(cfg.mc.len())];
    let r = cfg.root;
    let root = Rect::new(c(o.x + T::k(r[0]), o.y + T::k(r[1])), c(o.x + T::k(r[2]), o.y + T::k(r[3])));
    let mut tree = if cfg.defaults { Tree::<T>::from_bounds(cfg.point, root, cm) } else { Tree::<T>::new(cfg.point, root, cm, md, mc) };
    let mut stored = vec![];
    let mut rejected = vec![];
    for (i, s) in cfg.pre.iter().enumerate() {
        let d = D { id: i, g: s.at(o) };
        chk(tree.insert(d.clone()).is_ok(), "a datum inside the bounds is accepted");
        stored.push(d);
    }
    for (i, kind) in cfg.sym.chars().enumerate() {
        let mut d = sym_datum::<T>(kind, &format!("d{i}"), cfg.pre.len() + i, cfg.lo, cfg.hi);
        if cfg.shift {
            d.g = moved(d.g, o);
        }
        match tree.insert(d.clone()) {
            Ok(()) => stored.push(d),
            Err(_) => rejected.push(d),
        }
    }
    Built { tree, stored, rejected, md, mc }
}
fn same_geom<T: Num0>(a: &quadtree::Geometry<T>, b: &quadtree::Geometry<T>) -> bool {
    use geo::CoordsIter;
    let cs = |g: &quadtree::Geometry<T>| -> (u8, Vec<Coord<T>>) {
        match g {
            quadtree::Geometry::Point(p) => (0, vec![p.0]),
            quadtree::Geometry::Line(l) => (1, vec![l.start, l.end]),
            quadtree::Geometry::LineString(l) => (2, l.0.clone()),
            quadtree::Geometry::Polygon(p) => (3, p.coords_iter().collect()),
            quadtree::Geometry::Rect(r) => (4, vec![r.min(), r.max()]),
        }
    };
    let ((ka, a), (kb, b)) = (cs(a), cs(b));
    ka == kb && a.len() == b.len() && a.iter().zip(&b).all(|(p, q)| p.x == q.x && p.y == q.y)
}

// ------------------------------------------------------------------ P01
fn check_contents<T: Num0>(tree: &Tree<T>, stored: &[D<T>]) {
    chk(tree.size() == stored.len(), "size() equals the number of accepted inserts");
    let data = tree.data();
    let ids: Vec<usize> = data.iter().map(|d| d.id).collect();
    let mut want: Vec<usize> = stored.iter().map(|d| d.id).collect();
    want.sort();
    chk(sorted_ids(ids) == want, "iteration yields exactly the accepted data, each once");
    for d in &data {
        let s = stored.iter().find(|s| s.id == d.id).unwrap();
        chk(same_geom(&s.g, &d.g), "an iterated datum is the one inserted");
    }
}
fn conserve<T: Num0>(cfg: Cfg) {
    let md = cfg.md[choice(cfg.md.len())];
    let mc = cfg.mc[choice(cfg.mc.len())];
    let mut tree = Tree::<T>::new(cfg.point, rk(cfg.root), CalcMethod::Euclidean, md, mc);
    let mut stored: Vec<D<T>> = vec![];
    check_contents(&tree, &stored);
    let n = cfg.pre.len();
    for i in 0..n + cfg.sym.len() {
        let d = if i < n {
            D { id: i, g: cfg.pre[i].fixed::<T>() }
        } else {
            sym_datum::<T>(cfg.sym.chars().nth(i - n).unwrap(), &format!("d{}", i - n), i, cfg.lo, cfg.hi)
        };
        let before = tree.ids();
        match tree.insert(d.clone()) {
            Ok(()) => {
                stored.push(d);
                chk(tree.size() == stored.len(), "size() counts accepted inserts");
                observe(1);
            }
            Err(_) => {
                observe(0);
                chk(tree.size() == stored.len(), "a rejected insert leaves size() unchanged");
                chk(tree.ids() == before, "a rejected insert leaves the contents unchanged");
            }
        }
        if i + 1 >= n {
            check_contents(&tree, &stored);
        }
    }
    // queries do not change the contents
    let before = tree.ids();
    if let Some(d) = stored.last().cloned() {
        let r = tree.retrieve(&d);
        observe(r.len() as i64);
        chk(tree.ids() == before && tree.size() == stored.len(), "retrieve leaves the contents unchanged");
    }
}
fn conserve_search<T: Dom>(cfg: Cfg) {
    let b = build::<T>(&cfg, CalcMethod::Euclidean);
    let before = b.tree.ids();
    let x = Shape::Pt(3.0, 4.0).fixed::<T>();
    let _ = b.tree.find(&x);
    let _ = b.tree.knn(&x, 2);
    let _ = b.tree.sorted(&x, 3);
    chk(b.tree.ids() == before, "searches leave the contents unchanged");
    check_contents(&b.tree, &b.stored);
}

// ------------------------------------------------------------------ P02
fn accept_point<T: Num0>(pre: Vec<Shape>, md: u8, mc: usize) {
    let root = vrect::<T>("b", -64.0, 64.0);
    let mut tree = Tree::<T>::new(true, root, CalcMethod::Euclidean, md, mc);
    // concrete data only fit when the bounds happen to hold them
    for (i, s) in pre.iter().enumerate() {
        let _ = tree.insert(D { id: i, g: s.fixed::<T>() });
    }
    let n = tree.size();
    let mut p = vpt::<T>("p", -128.0, 128.0);
    match choice(4) {
        1 => p.x = T::nan(),
        2 => p.y = T::nan(),
        3 => p = c(T::nan(), T::nan()),
        _ => {}
    }
    let inside = pt_in(&root, p);
    observe(inside as i64);
    let d = dpt(100, p);
    if !inside {
        chk(tree.retrieve(&d).is_empty(), "retrieving with a position outside yields nothing");
    }
    match tree.insert(d.clone()) {
        Ok(()) => chk(inside, "a position outside the bounds is rejected"),
        Err(e) => {
            chk(!inside, "a position inside the bounds, border included, is accepted");
            chk(e == Error::OutOfBounds, "the rejection is OutOfBounds");
        }
    }
    chk(tree.size() == n + inside as usize, "only accepted data are counted");
}
fn accept_bounds<T: Num0>(kind: u8, pre: Vec<Shape>, md: u8, mc: usize) {
    let root = vrect::<T>("b", -64.0, 64.0);
    let mut tree = Tree::<T>::new(false, root, CalcMethod::Euclidean, md, mc);
    for (i, s) in pre.iter().enumerate() {
        let _ = tree.insert(D { id: i, g: s.fixed::<T>() });
    }
    let n = tree.size();
    use quadtree::Geometry as G;
    let p: Vec<Coord<T>> = (0..3).map(|i| vpt::<T>(&format!("p{i}"), -128.0, 128.0)).collect();
    let (g, used) = match kind {
        0 => (G::Point(Point(p[0])), &p[..1]),
        1 => (G::Line(geo::Line::new(p[0], p[1])), &p[..2]),
        2 => (G::LineString(LineString::new(p[..2].to_vec())), &p[..2]),
        3 => (G::LineString(LineString::new(p.clone())), &p[..3]),
        4 => (G::Polygon(geo::Polygon::new(LineString::new(p.clone()), vec![])), &p[..3]),
        5 => (G::Rect(Rect::new(p[0], p[1])), &p[..2]),
        6 => (G::LineString(LineString::new(vec![])), &p[..0]),
        _ => (G::Polygon(geo::Polygon::new(LineString::new(vec![]), vec![])), &p[..0]),
    };
    let empty = used.is_empty();
    let inside = !empty && used.iter().all(|q| pt_in(&root, *q));
    observe(inside as i64);
    let d = D { id: 100, g };
    if !inside {
        chk(tree.retrieve(&d).is_empty(), "retrieving with a datum that does not fit yields nothing");
    }
    match tree.insert(d) {
        Ok(()) => chk(inside, "a datum not wholly inside the bounds is rejected"),
        Err(e) => {
            chk(!inside, "a datum inside the bounds, border included, is accepted");
            chk(e == if empty { Error::CannotMakeBbox } else { Error::OutOfBounds }, "the rejection has the documented error");
        }
    }
    chk(tree.size() == n + inside as usize, "only accepted data are counted");
}
fn accept_bounds_nan<T: Num0>(which: usize) {
    let mut tree = Tree::<T>::new(false, rk(ROOT), CalcMethod::Euclidean, 2, 1);
    let mut p = vpt::<T>("p", -1.0, 9.0);
    match choice(3) {
        0 => p.x = T::nan(),
        1 => p.y = T::nan(),
        _ => p = c(T::nan(), T::nan()),
    }
    let g = match which {
        0 => quadtree::Geometry::Point(Point(p)),
        _ => quadtree::Geometry::Rect(Rect::new(p, p)),
    };
    let d = D { id: 0, g };
    chk(tree.retrieve(&d).is_empty(), "a NaN position retrieves nothing");
    chk(tree.insert(d) == Err(Error::OutOfBounds), "a NaN position is rejected with OutOfBounds");
    chk(tree.size() == 0, "a rejected datum is not counted");
}
/// Acceptance does not depend on what the tree already holds.
fn accept_full<T: Num0>(cfg: Cfg, kind: char) {
    let mut b = build::<T>(&cfg, CalcMethod::Euclidean);
    let d = sym_datum::<T>(kind, "q", 1000, -4.0, 12.0);
    let bb = d.g.bounding_rect().unwrap();
    let inside = rect_in(&rk(cfg.root), &bb);
    observe(inside as i64);
    let n = b.tree.size();
    if !inside {
        chk(b.tree.retrieve(&d).is_empty(), "retrieving with a datum outside yields nothing");
    }
    let r = b.tree.insert(d);
    chk(r == if inside { Ok(()) } else { Err(Error::OutOfBounds) }, "accepted exactly when inside, otherwise OutOfBounds");
    chk(b.tree.size() == n + inside as usize, "only accepted data are counted");
}

// ------------------------------------------------------------------ P03
/// The data of the smallest undivided cell holding q; None when a datum or q lies on a dividing
/// line, where the cell is a matter of convention.
fn ref_leaf<T: Num0>(root: [f64; 4], data: &[D<T>], q: Coord<T>, md: u8, mc: usize) -> Option<Vec<usize>> {
    let mut r = root;
    let mut depth = 0;
    let mut cur: Vec<(usize, Coord<T>)> = data.iter().map(|d| (d.id, d.as_point().0)).collect();
    while cur.len() > mc && depth < md {
        let qs = quadrants(r);
        let (mx, my) = (T::k(qs[0][2]), T::k(qs[0][3]));
        if q.x == mx || q.y == my || cur.iter().any(|(_, p)| p.x == mx || p.y == my) {
            return None;
        }
        let (hx, hy) = (q.x > mx, q.y > my);
        cur.retain(|(_, p)| (p.x > mx) == hx && (p.y > my) == hy);
        r = qs[match (hx, hy) {
            (false, false) => 0,
            (true, false) => 1,
            (true, true) => 2,
            (false, true) => 3,
        }];
        depth += 1;
    }
    Some(sorted_ids(cur.iter().map(|c| c.0).collect()))
}
fn retrieve_point<T: Num0>(cfg: Cfg) {
    let b = build::<T>(&cfg, CalcMethod::Euclidean);
    let q = vpt::<T>("q", cfg.lo, cfg.hi);
    if !pt_in(&rk(cfg.root), q) {
        prune();
    }
    let qd = dpt(9999, q);
    let got = b.tree.retrieve(&qd);
    observe(got.len() as i64);
    chk(distinct(&got), "each datum is retrieved at most once");
    chk(got.iter().all(|i| b.stored.iter().any(|d| d.id == *i)), "only stored data are retrieved");
    for d in &b.stored {
        let p = d.as_point();
        if !got.contains(&d.id) {
            chk_never(&[(p.x(), Eq, q.x), (p.y(), Eq, q.y)], "a datum at the query position is retrieved");
        }
    }
    if let Some(want) = ref_leaf(cfg.root, &b.stored, q, b.md, b.mc) {
        chk(sorted_ids(got) == want, "retrieve yields exactly the data of the query cell");
    }
}

// ------------------------------------------------------------------ P04
fn division<T: Num0>(cfg: Cfg) {
    let b = build::<T>(&cfg, CalcMethod::Euclidean);
    let cells = parse(&b.tree.show());
    chk(cells.is_some(), "the printout lists a cell structure");
    let cells = cells.unwrap();
    observe(cells.len() as i64);
    chk(cells[0].total == b.stored.len(), "the cells hold the stored data");
    for x in &cells {
        chk(x.depth <= b.md as usize, "no cell is deeper than max_depth");
        let below = x.depth < b.md as usize;
        chk(x.divided == (x.total > b.mc && below), "a cell is divided exactly when it holds more than max_children data above max_depth");
        if cfg.point {
            chk(!x.divided || x.count == 0, "a divided point cell holds no data itself");
        }
        chk(!x.divided || x.kids.len() == 4, "a divided cell has four quadrants");
    }
}

// ------------------------------------------------------------------ P05 / P06
fn retrieve_complete<T: Num0>(cfg: Cfg, qkind: char) {
    let b = build::<T>(&cfg, CalcMethod::Euclidean);
    let q = sym_datum::<T>(qkind, "q", 9999, cfg.lo, cfg.hi);
    let qb = q.g.bounding_rect().unwrap();
    if !rect_in(&rk(cfg.root), &qb) {
        prune();
    }
    let got = b.tree.retrieve(&q);
    observe(got.len() as i64);
    chk(distinct(&got), "each datum is retrieved at most once");
    chk(got.iter().all(|i| b.stored.iter().any(|d| d.id == *i)), "only stored data are retrieved");
    let missed: Vec<Rect<T>> = b.stored.iter().filter(|d| !got.contains(&d.id)).map(|d| d.g.bounding_rect().unwrap()).collect();
    chk_none(&missed.iter().map(|d| overlap_conj(d, &qb)).collect::<Vec<_>>(), "a datum whose box overlaps the query box is retrieved");
    chk_none(&missed.iter().map(|d| same_conj(d, &qb)).collect::<Vec<_>>(), "a datum with the query's box is retrieved");
}
fn retrieve_selective<T: Num0>(cfg: Cfg, qkind: char) {
    let b = build::<T>(&cfg, CalcMethod::Euclidean);
    let q = sym_datum::<T>(qkind, "q", 9999, cfg.lo, cfg.hi);
    let qb = q.g.bounding_rect().unwrap();
    if !rect_in(&rk(cfg.root), &qb) {
        prune();
    }
    let got = b.tree.retrieve(&q);
    observe(got.len() as i64);
    let boxes: Vec<(usize, Rect<T>)> = b.stored.iter().map(|d| (d.id, d.g.bounding_rect().unwrap())).collect();
    // walk down the cells holding the query for as long as they are certainly divided
    let mut r = cfg.root;
    let mut depth = 0;
    loop {
        let cell = rk::<T>(r);
        let inside = boxes.iter().filter(|(_, d)| rect_strictly_in(&cell, d)).count();
        if inside <= b.mc || depth >= b.md {
            break;
        }
        let qs = quadrants(r);
        let mut bad = vec![];
        for s in qs {
            let sc = rk::<T>(s);
            for away in [(qb.max().x, Lt, sc.min().x), (sc.max().x, Lt, qb.min().x), (qb.max().y, Lt, sc.min().y), (sc.max().y, Lt, qb.min().y)] {
                for (_, d) in boxes.iter().filter(|b| got.contains(&b.0)) {
                    let mut c = inside_conj(&sc, d);
                    c.push(away);
                    bad.push(c);
                }
            }
        }
        chk_none(&bad, "data of an untouched cell are not retrieved");
        match qs.iter().find(|s| rect_strictly_in(&rk::<T>(**s), &qb)) {
            Some(s) => r = *s,
            None => break,
        }
        depth += 1;
    }
    chk(true, "");
}

// ------------------------------------------------------------------ P23
fn preorder<T: Num0>(cfg: Cfg) {
    let b = build::<T>(&cfg, CalcMethod::Euclidean);
    let cells = parse(&b.tree.show());
    chk(cells.is_some(), "the printout lists each cell once, indented by depth");
    let cells = cells.unwrap();
    observe(cells.len() as i64);
    let data = b.tree.data();
    chk(data.len() == b.stored.len(), "iteration yields every datum");
    chk(cells.iter().map(|c| c.count).sum::<usize>() == b.tree.size(), "the printed counts add up to size()");
    for x in &cells {
        let r = cell_rect(cfg.root, &x.path);
        chk(x.corner == format!("{:.2}, {:.2}", r[0], r[1]), "a cell is printed with its low corner");
        let cell = rk::<T>(r);
        // the data of a cell are contiguous and lie in it
        for d in &data[x.first..x.first + x.total] {
            let bb = d.g.bounding_rect().unwrap();
            chk(rect_in(&cell, &bb), "iteration is in preorder: the data of a cell are contiguous");
        }
    }
}

// ------------------------------------------------------------------ P26
/// The same data inserted in different orders: the same cells, the same answers.
fn any_order<T: Num0>(cfg: Cfg, qkind: char) {
    let b = build::<T>(&cfg, CalcMethod::Euclidean);
    let n = b.stored.len();
    let q = sym_datum::<T>(qkind, "q", 9999, cfg.lo, cfg.hi);
    let (show, x, v) = (b.tree.show(), b.tree.ids(), b.tree.retrieve(&q));
    observe(show.lines().count() as i64);
    observe(v.len() as i64);
    let cells = parse(&show);
    chk(cells.is_some(), "the printout lists a cell structure");
    let cells = cells.unwrap();
    for k in 0..4 {
        let mut order: Vec<usize> = (0..n).collect();
        match k {
            0 => order.reverse(),
            1 => order.rotate_right(1),
            2 => order.rotate_left(n / 2),
            _ => order.sort_by_key(|i| (i % 3, n - i)),
        }
        let mut other = Tree::<T>::new(cfg.point, rk(cfg.root), CalcMethod::Euclidean, b.md, b.mc);
        for i in order {
            chk(other.insert(b.stored[i].clone()).is_ok(), "a datum accepted in one order is accepted in another");
        }
        chk(other.size() == b.tree.size(), "the size does not depend on the order of inserts");
        chk(show == other.show(), "the cells and their numbers of data do not depend on the order of inserts");
        let y = other.ids();
        let same = cells.iter().all(|cell| {
            let r = cell.first..cell.first + cell.count;
            sorted_ids(x[r.clone()].to_vec()) == sorted_ids(y[r].to_vec())
        });
        chk(same, "each cell holds the same data whatever the order of inserts");
        chk(sorted_ids(v.clone()) == sorted_ids(other.retrieve(&q)), "retrieve yields the same data whatever the order of inserts");
    }
}

// ------------------------------------------------------------------ P24
fn sym_root<T: Num0>(lo: f64, hi: f64, int: bool) -> Rect<T> {
    if !int {
        return vrect::<T>("b", lo, hi);
    }
    // the width and height of the bounds must be representable
    let axis = |n: &str| -> (T, T) {
        let (a, b) = (T::var(&format!("{n}1"), lo, hi), T::var(&format!("{n}2"), lo, hi));
        a.assume_le(b);
        if a < T::k(0.0) {
            b.assume_le(a + T::k(2147483647.0));
        }
        (a, b)
    };
    let (x1, x2) = axis("bx");
    let (y1, y2) = axis("by");
    Rect::new(c(x1, y1), c(x2, y2))
}
/// The coordinates left symbolic: both axes, or one of them.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Axes {
    Both,
    X,
    Y,
}
fn on_axes<T: Num0>(ax: Axes, r: Rect<T>) -> Rect<T> {
    match ax {
        Axes::Both => r,
        Axes::X => Rect::new(c(r.min().x, T::k(0.0)), c(r.max().x, T::k(8.0))),
        Axes::Y => Rect::new(c(T::k(0.0), r.min().y), c(T::k(8.0), r.max().y)),
    }
}
fn pt_axes<T: Num0>(ax: Axes, p: Coord<T>, other: f64) -> Coord<T> {
    match ax {
        Axes::Both => p,
        Axes::X => c(p.x, T::k(other)),
        Axes::Y => c(T::k(other), p.y),
    }
}
fn robust_point<T: Num0>(n: usize, md: u8, mc: usize, (int, ax): (bool, Axes)) {
    let (lo, hi) = if int { (-2147483648.0, 2147483647.0) } else { (-1152921504606846976.0, 1152921504606846976.0) };
    let root = on_axes(ax, sym_root::<T>(lo, hi, int));
    let mut tree = Tree::<T>::new(true, root, CalcMethod::None, md, mc);
    let mut stored: Vec<D<T>> = vec![];
    for i in 0..n {
        let p = pt_axes(ax, vpt::<T>(&format!("p{i}"), lo, hi), 1.0);
        let inside = if i == 0 {
            pt_in(&root, p)
        } else {
            // further points are taken inside
            root.min().x.assume_le(p.x);
            p.x.assume_le(root.max().x);
            root.min().y.assume_le(p.y);
            p.y.assume_le(root.max().y);
            true
        };
        let d = dpt(i, p);
        let r = tree.insert(d.clone());
        chk(r == if inside { Ok(()) } else { Err(Error::OutOfBounds) }, "accepted exactly when inside the bounds");
        if inside {
            stored.push(d);
        }
    }
    chk(tree.size() == stored.len(), "size() equals the number of accepted inserts");
    chk(sorted_ids(tree.ids()) == stored.iter().map(|d| d.id).collect::<Vec<_>>(), "iteration yields exactly the accepted data");
    // every datum is retrieved by its own position, and so are data at an equal position
    for d in &stored {
        let got = tree.retrieve(d);
        chk(got.contains(&d.id), "a datum is retrieved by its position");
        chk(distinct(&got), "each datum is retrieved at most once");
    }
    if let (Some(d), true) = (stored.first(), stored.len() == n) {
        let q = pt_axes(ax, vpt::<T>("q", lo, hi), 1.0);
        if let quadtree::Geometry::Point(p) = &d.g {
            q.x.assume_eq(p.x());
            q.y.assume_eq(p.y());
        }
        chk(tree.retrieve(&dpt(77, q)).contains(&d.id), "a datum is retrieved by an equal position");
    }
}
/// A point or rectangle inside the bounds.
fn robust_datum<T: Num0>(root: &Rect<T>, n: &str, kind: char, id: usize, (lo, hi): (f64, f64), ax: Axes) -> D<T> {
    let put = |p: Coord<T>| {
        root.min().x.assume_le(p.x);
        p.x.assume_le(root.max().x);
        root.min().y.assume_le(p.y);
        p.y.assume_le(root.max().y);
    };
    let a = pt_axes(ax, vpt::<T>(&format!("{n}a"), lo, hi), 1.0);
    put(a);
    if kind == 'p' {
        return dpt(id, a);
    }
    let z = pt_axes(ax, vpt::<T>(&format!("{n}b"), lo, hi), 5.0);
    put(z);
    a.x.assume_le(z.x);
    a.y.assume_le(z.y);
    drect(id, Rect::new(a, z))
}
/// P26 under rounding and truncation: the tree filled in two orders.
fn robust_order<T: Num0>(kinds: &'static str, point: bool, (md, mc): (u8, usize), (int, ax): (bool, Axes)) {
    let (lo, hi) = if int { (-2147483648.0, 2147483647.0) } else { (-1152921504606846976.0, 1152921504606846976.0) };
    let root = on_axes(ax, sym_root::<T>(lo, hi, int));
    let data: Vec<D<T>> = kinds.chars().enumerate().map(|(i, k)| robust_datum(&root, &format!("d{i}"), k, i, (lo, hi), ax)).collect();
    let fill = |order: &[usize]| {
        let mut t = Tree::<T>::new(point, root, CalcMethod::None, md, mc);
        for i in order {
            chk(t.insert(data[*i].clone()).is_ok(), "a datum inside the bounds is accepted");
        }
        t
    };
    let n = data.len();
    let first: Vec<usize> = (0..n).collect();
    let a = fill(&first);
    let mut order = first.clone();
    if flag() {
        order.rotate_left(1);
    } else {
        order.reverse();
    }
    let b = fill(&order);
    chk(a.size() == b.size(), "the size does not depend on the order of inserts");
    let show = a.show();
    chk(show == b.show(), "the cells and their numbers of data do not depend on the order of inserts");
    let cells = parse(&show);
    chk(cells.is_some(), "the printout lists a cell structure");
    let (x, y) = (a.ids(), b.ids());
    let same = cells.unwrap().iter().all(|cell| {
        let r = cell.first..cell.first + cell.count;
        sorted_ids(x[r.clone()].to_vec()) == sorted_ids(y[r].to_vec())
    });
    chk(same, "each cell holds the same data whatever the order of inserts");
    for d in &data {
        chk(sorted_ids(a.retrieve(d)) == sorted_ids(b.retrieve(d)), "retrieve yields the same data whatever the order of inserts");
    }
}
fn robust_bounds<T: Num0>(kinds: &'static str, md: u8, mc: usize, (int, ax): (bool, Axes)) {
    let (lo, hi) = if int { (-2147483648.0, 2147483647.0) } else { (-1152921504606846976.0, 1152921504606846976.0) };
    let root = on_axes(ax, sym_root::<T>(lo, hi, int));
    let mut tree = Tree::<T>::new(false, root, CalcMethod::None, md, mc);
    let mut stored: Vec<D<T>> = vec![];
    for (i, k) in kinds.chars().enumerate() {
        let d = robust_datum(&root, &format!("d{i}"), k, i, (lo, hi), ax);
        chk(tree.insert(d.clone()).is_ok(), "a datum inside the bounds is accepted");
        stored.push(d);
    }
    chk(tree.size() == stored.len(), "size() equals the number of accepted inserts");
    chk(sorted_ids(tree.ids()) == (0..stored.len()).collect::<Vec<_>>(), "iteration yields exactly the accepted data");
    for d in &stored {
        let got = tree.retrieve(d);
        chk(got.contains(&d.id), "a datum is retrieved by its own box");
        chk(distinct(&got), "each datum is retrieved at most once");
        let qb = d.g.bounding_rect().unwrap();
        let missed: Vec<_> = stored.iter().filter(|e| !got.contains(&e.id)).map(|e| overlap_conj(&qb, &e.g.bounding_rect().unwrap())).collect();
        chk_none(&missed, "a datum whose box overlaps the query box is retrieved");
    }
}

// ------------------------------------------------------------------ lists
fn pts(v: &[(f64, f64)]) -> Vec<Shape> {
    v.iter().map(|p| Shape::Pt(p.0, p.1)).collect()
}
fn rects(v: &[[f64; 4]]) -> Vec<Shape> {
    v.iter().map(|r| Shape::Rect(*r)).collect()
}
fn mixed(n: usize, seed: u64) -> Vec<Shape> {
    boxes(n, seed, ROOT, 3.0)
        .iter()
        .enumerate()
        .map(|(i, b)| match i % 5 {
            0 => Shape::Rect(*b),
            1 => Shape::Pt(b[0], b[1]),
            2 => Shape::Line(*b),
            3 => Shape::Ls(vec![(b[0], b[1]), (b[2], b[1]), (b[2], b[3])]),
            _ => Shape::Poly(vec![(b[0], b[1]), (b[2], b[1]), (b[2], b[3]), (b[0], b[1])], vec![]),
        })
        .collect()
}
/// Points spread so that every quadrant down to depth two is divided for max_children <= 1.
fn spread() -> Vec<Shape> {
    let mut v = vec![];
    for i in 0..8 {
        for j in 0..8 {
            if (i + j) % 2 == 0 {
                v.push(Shape::Pt(i as f64 + 0.4375, j as f64 + 0.5625));
            }
        }
    }
    v
}
/// Many points, some on dividing lines, some coincident.
fn lattice() -> Vec<Shape> {
    let mut v = vec![];
    for (x, y) in [(4.0, 4.0), (4.0, 4.0), (2.0, 4.0), (4.0, 6.0), (0.0, 0.0), (8.0, 8.0), (6.0, 6.0), (2.0, 2.0), (1.0, 7.0), (8.0, 0.0), (0.0, 8.0), (3.0, 4.0), (4.0, 1.0)] {
        v.push(Shape::Pt(x, y));
    }
    v
}
/// Data ever closer to two corners, so that a tree of limit one is two chains of nested cells.
fn nested(n: usize, point: bool) -> Vec<Shape> {
    (0..n)
        .map(|i| {
            let s = 4.0 / (1u64 << (i / 2)) as f64;
            let (x, y, w) = if i % 2 == 0 { (0.75 * s, 0.5625 * s, s / 16.0) } else { (8.0 - 0.625 * s, 8.0 - 0.875 * s, s / 8.0) };
            if point || i % 3 > 0 { Shape::Pt(x, y) } else { Shape::Rect([x, y, x + w, y + w]) }
        })
        .collect()
}
const NEG: [f64; 4] = [-6.0, -3.0, 10.0, 5.0];

pub fn p01() -> Vec<Scen> {
    let mut v = vec![];
    let put = |v: &mut Vec<Scen>, name: &str, c: Cfg, secs: f64, slow: bool| {
        let d = c.describe();
        let s = scen!(name, Real, d, conserve, c).secs(secs);
        v.push(if slow { s.thorough() } else { s });
    };
    let mut late = vec![];
    let mut add = |name: &str, c: Cfg, secs: f64| put(&mut v, name, c, secs, false);
    let mut slow = |name: &str, c: Cfg, secs: f64| put(&mut late, name, c, secs, true);
    for (n, pt) in [("point", true), ("bounds", false)] {
        add(&format!("{n}-2sym-any-limits"), Cfg::new(pt, vec![], "pp", &[0, 1, 2, 3], &[0, 1, 2]), 40.0);
        add(&format!("{n}-sym-rejects"), Cfg::new(pt, vec![], "pp", &[1, 2], &[1]).range(-2.0, 10.0), 40.0);
        add(&format!("{n}-3sym"), Cfg::new(pt, vec![], "ppp", &[2], &[1]), 40.0);
        add(&format!("{n}-lattice-2sym"), Cfg::new(pt, lattice(), "pp", &[2], &[1, 3]), 40.0);
        add(&format!("{n}-lattice-sym-deep"), Cfg::new(pt, lattice(), "p", &[0, 1, 4], &[0, 1, 4]), 40.0);
        slow(&format!("{n}-lattice-sym-deeper"), Cfg::new(pt, lattice(), "p", &[2, 6, 9], &[0, 1, 2, 4]), 100.0);
        slow(&format!("{n}-4sym"), Cfg::new(pt, vec![], "pppp", &[2], &[1, 2]), 100.0);
        add(&format!("{n}-40-sym"), Cfg::new(pt, pts(&scatter(40, 3, ROOT)), "p", &[3, 4], &[1, 4]).range(-1.0, 9.0), 40.0);
        add(&format!("{n}-300-coincident"), Cfg::new(pt, vec![Shape::Pt(2.5, 2.5); 300], "p", &[0, 4], &[4, 255, 400]), 40.0);
        add(&format!("{n}-300-spread"), Cfg::new(pt, pts(&scatter(300, 5, ROOT)), "p", &[2], &[255, 256, 4]), 40.0);
        add(&format!("{n}-nested"), Cfg::new(pt, nested(48, pt), "p", &[12, 40], &[1]), 40.0);
        add(&format!("{n}-negative-root"), Cfg::new(pt, pts(&scatter(12, 9, NEG)), "pp", &[2], &[2]).root(NEG).range(-8.0, 11.0), 40.0);
    }
    add("bounds-rect-sym", Cfg::new(false, vec![], "rr", &[1], &[0, 1]), 40.0);
    slow("bounds-rect-sym-deep", Cfg::new(false, vec![], "rr", &[0, 2], &[0, 1]), 300.0);
    slow("bounds-rect-3", Cfg::new(false, vec![], "rrr", &[1], &[2]), 300.0);
    add("bounds-rect-any-limits", Cfg::new(false, mixed(10, 1), "r", &[0, 1, 2, 3], &[0, 1, 4]).range(-1.0, 9.0), 40.0);
    add("bounds-mixed-30", Cfg::new(false, mixed(30, 2), "t", &[4], &[1, 4]), 40.0);
    slow("bounds-mixed-30-2", Cfg::new(false, mixed(30, 2), "tp", &[4], &[1, 4]), 200.0);
    add("bounds-line-sym", Cfg::new(false, mixed(6, 4), "l", &[2], &[1]).range(-1.0, 9.0), 40.0);
    add("bounds-linestring-polygon", Cfg::new(false, mixed(6, 4), "sg", &[2], &[1]).range(-1.0, 9.0), 40.0);
    add("bounds-without-box", Cfg::new(false, vec![Shape::Pt(3.0, 3.0)], "epe", &[0, 2], &[0, 1, 4]), 40.0);
    add("bounds-nan", Cfg::new(false, lattice(), "npn", &[2], &[1]), 40.0);
    add("point-nan", Cfg::new(true, lattice(), "npn", &[2], &[1]), 40.0);
    for (n, pt, c) in [
        ("point-then-search", true, Cfg::new(true, lattice(), "p", &[2], &[1])),
        ("bounds-then-search", false, Cfg::new(false, lattice(), "p", &[2], &[1])),
    ] {
        let _ = pt;
        let d = c.describe();
        v.push(scen!(n, Real, d, conserve_search, c).secs(30.0));
    }
    v.extend(late);
    for (n, pt) in [("point", true), ("bounds", false)] {
        let c = Cfg::new(pt, vec![Shape::Pt(3.0, 3.0); 3], "p", &[254, 255], &[0, 2, 3]);
        let d = c.describe() + ", 32-bit integers";
        v.push(scen!(format!("{n}-int-depth-255"), Int, d, conserve, c).secs(60.0));
    }
    v
}
pub fn p02() -> Vec<Scen> {
    let mut v = vec![];
    let corner = pts(&[(0.0, 0.0), (1.0, 1.0), (-1.0, 2.0)]);
    for md in [0u8, 2] {
        let pre = if md == 0 { vec![] } else { corner.clone() };
        let (b1, b2) = ("root bounds and position symbolic in [-64,64] and [-128,128], NaN coordinates", "root bounds and every coordinate symbolic");
        v.push(scen!(format!("point-md{md}"), Real, b1, accept_point, pre, md, 1usize).secs(60.0));
        for kind in 0..8u8 {
            if md == 2 && kind != 5 {
                continue;
            }
            v.push(scen!(format!("bounds-kind{kind}-md{md}"), Real, b2, accept_bounds, kind, pre, md, 1usize).secs(60.0));
        }
    }
    for w in 0..2usize {
        v.push(scen!(format!("bounds-nan-{w}"), Real, "NaN in either coordinate", accept_bounds_nan, w));
    }
    for (n, pt, k) in [("point", true, 'p'), ("bounds-point", false, 'p'), ("bounds-rect", false, 'r'), ("bounds-line", false, 'l')] {
        let c = Cfg::new(pt, lattice(), "", &[0, 3], &[0, 2, 20]);
        let d = c.describe() + ", further datum symbolic in [-4,12]";
        v.push(scen!(format!("{n}-in-filled-tree"), Real, d, accept_full, c, k).secs(60.0));
    }
    v
}
pub fn p03() -> Vec<Scen> {
    let mut v = vec![];
    let mut add = |name: &str, c: Cfg| {
        let d = c.describe() + ", query position symbolic";
        v.push(scen!(name, Real, d, retrieve_point, c).secs(60.0));
    };
    add("1sym-any-limits", Cfg::new(true, vec![], "p", &[0, 1, 2, 3], &[0, 1]));
    add("2sym-any-limits", Cfg::new(true, vec![], "pp", &[0, 1, 2], &[0, 1, 2]));
    add("3sym-depth1", Cfg::new(true, vec![], "ppp", &[1], &[1, 2]));
    add("lattice-query", Cfg::new(true, lattice(), "", &[0, 1, 2, 3, 6], &[0, 1, 2, 4, 13]));
    add("lattice-sym", Cfg::new(true, lattice(), "p", &[2], &[1]));
    add("spread-query", Cfg::new(true, spread(), "", &[2, 3, 4], &[1, 2, 4]));
    add("scatter-sym", Cfg::new(true, pts(&scatter(12, 11, ROOT)), "p", &[3], &[3]));
    add("scatter-40-query", Cfg::new(true, pts(&scatter(40, 12, ROOT)), "", &[4, 5], &[1, 4]));
    add("nested-query", Cfg::new(true, nested(56, true), "", &[20, 40], &[1]));
    add("nested-sym", Cfg::new(true, nested(8, true), "p", &[5], &[1]));
    add("negative-root", Cfg::new(true, pts(&scatter(10, 13, NEG)), "p", &[2], &[2]).root(NEG).range(-6.0, 10.0));
    v
}
pub fn p04() -> Vec<Scen> {
    let mut v = vec![];
    let mut add = |name: &str, c: Cfg| {
        let d = c.describe();
        v.push(scen!(name, Real, d, division, c).secs(60.0));
    };
    for (n, pt) in [("point", true), ("bounds", false)] {
        add(&format!("{n}-2sym-any-limits"), Cfg::new(pt, vec![], "pp", &[0, 1, 2, 3], &[0, 1, 2]));
        add(&format!("{n}-3sym"), Cfg::new(pt, vec![], "ppp", &[1, 2], &[2]));
        add(&format!("{n}-3sym-1"), Cfg::new(pt, vec![], "ppp", &[1], &[0, 1]));
        add(&format!("{n}-lattice-sym"), Cfg::new(pt, lattice(), "p", &[0, 1, 2, 3, 5], &[0, 1, 2, 4, 12, 13, 14]));
        add(&format!("{n}-40-sym"), Cfg::new(pt, pts(&scatter(40, 21, ROOT)), "p", &[2, 4], &[1, 4, 39, 40]));
        add(&format!("{n}-nested"), Cfg::new(pt, nested(48, pt), "p", &[12, 40], &[1, 2]));
        add(&format!("{n}-300-coincident"), Cfg::new(pt, vec![Shape::Pt(2.5, 2.5); 300], "p", &[0, 3], &[4, 255, 256, 300]));
    }
    static MD: &[u8] = &[DEFAULT_MAX_DEPTH];
    static MC: &[usize] = &[DEFAULT_MAX_CHILDREN];
    for (n, pt) in [("point", true), ("bounds", false)] {
        for (m, pre) in [("coincident", vec![Shape::Pt(2.5, 2.5); 6]), ("scatter", pts(&scatter(24, 22, ROOT))), ("few", pts(&scatter(4, 23, ROOT)))] {
            add(&format!("{n}-defaults-{m}"), Cfg { defaults: true, ..Cfg::new(pt, pre, "p", MD, MC) });
        }
    }
    add("bounds-rect-sym", Cfg::new(false, vec![], "rr", &[0, 1, 2], &[0, 1]));
    add("bounds-mixed-rect", Cfg::new(false, mixed(10, 31), "r", &[2], &[0, 1, 3]));
    for (n, pt) in [("point", true), ("bounds", false)] {
        let c = Cfg::new(pt, vec![Shape::Pt(3.0, 3.0); 3], "p", &[254, 255], &[0, 2, 3]);
        let d = c.describe() + ", 32-bit integers";
        v.push(scen!(format!("{n}-int-depth-255"), Int, d, division, c).secs(60.0));
    }
    v
}
pub fn p05() -> Vec<Scen> {
    let mut v = vec![];
    let mut add = |name: &str, c: Cfg, q: char, secs: f64| {
        let d = c.describe() + &format!(", query symbolic ({q})");
        v.push(scen!(name, Real, d, retrieve_complete, c, q).secs(secs));
    };
    add("rect-vs-rect-any-limits", Cfg::new(false, vec![], "r", &[0, 1, 2], &[0, 1]), 'r', 60.0);
    add("two-rects-depth1", Cfg::new(false, vec![], "rp", &[1], &[0, 1]), 'r', 60.0);
    add("spread-rect-query", Cfg::new(false, spread(), "", &[2, 3], &[1, 2]), 'r', 60.0);
    add("mixed-rect-query", Cfg::new(false, mixed(25, 41), "", &[1, 3, 5], &[0, 1, 4]), 'r', 60.0);
    add("spread-box-and-box", Cfg::new(false, spread(), "t", &[2], &[1]), 't', 60.0);
    add("mixed-rect-vs-box", Cfg::new(false, mixed(8, 42), "r", &[2], &[1]), 't', 60.0);
    add("lattice-point-vs-rect", Cfg::new(false, lattice(), "p", &[2], &[1]), 'r', 60.0);
    add("lattice-rect-vs-point", Cfg::new(false, lattice(), "r", &[2], &[1]), 'p', 60.0);
    add("mixed-line-query", Cfg::new(false, mixed(15, 43), "", &[3], &[1, 2]), 'l', 60.0);
    add("nested-query", Cfg::new(false, nested(40, false), "", &[12, 40], &[1]), 't', 60.0);
    add("nested-point", Cfg::new(false, nested(30, false), "", &[40], &[1]), 'p', 60.0);
    add("negative-root", Cfg::new(false, rects(&boxes(12, 44, NEG, 4.0)), "", &[3], &[1]).root(NEG).range(-6.0, 10.0), 'r', 60.0);
    v
}
pub fn p06() -> Vec<Scen> {
    let mut v = vec![];
    let mut add = |name: &str, c: Cfg, q: char| {
        let d = c.describe() + &format!(", query symbolic ({q})");
        v.push(scen!(name, Real, d, retrieve_selective, c, q).secs(60.0));
    };
    add("spread-rect-query", Cfg::new(false, spread(), "", &[1, 2, 3], &[1, 2]), 'r');
    add("spread-point-query", Cfg::new(false, spread(), "", &[2, 3, 4], &[1, 4]), 'p');
    add("lattice-point-and-rect", Cfg::new(false, lattice(), "p", &[2], &[1]), 'r');
    add("spread-box-and-box", Cfg::new(false, spread(), "t", &[2], &[1]), 't');
    add("mixed-rect-query", Cfg::new(false, mixed(25, 51), "", &[2, 4], &[0, 1, 4]), 'r');
    add("2sym-rect-query", Cfg::new(false, vec![], "pp", &[1], &[0, 1]), 'r');
    add("nested-query", Cfg::new(false, nested(40, false), "", &[12, 40], &[1]), 't');
    add("negative-root", Cfg::new(false, rects(&boxes(20, 52, NEG, 1.0)), "", &[3], &[1]).root(NEG).range(-6.0, 10.0), 'r');
    v
}
pub fn p23() -> Vec<Scen> {
    let mut v = vec![];
    let mut add = |name: &str, c: Cfg| {
        let d = c.describe();
        v.push(scen!(name, Real, d, preorder, c).secs(60.0));
    };
    for (n, pt) in [("point", true), ("bounds", false)] {
        add(&format!("{n}-2sym-any-limits"), Cfg::new(pt, vec![], "pp", &[0, 1, 2], &[0, 1, 2]));
        add(&format!("{n}-3sym"), Cfg::new(pt, vec![], "ppp", &[1], &[1]));
        add(&format!("{n}-lattice-sym"), Cfg::new(pt, lattice(), "p", &[1, 3, 5], &[0, 1, 4]));
        add(&format!("{n}-40-sym"), Cfg::new(pt, pts(&scatter(40, 61, ROOT)), "p", &[3], &[1, 4]));
        add(&format!("{n}-nested"), Cfg::new(pt, nested(40, pt), "p", &[12, 40], &[1]));
        add(&format!("{n}-negative-root"), Cfg::new(pt, pts(&scatter(14, 62, NEG)), "p", &[2], &[1, 3]).root(NEG).range(-6.0, 10.0));
    }
    add("bounds-rect-sym", Cfg::new(false, vec![], "rr", &[1, 2], &[0, 1]));
    add("bounds-mixed-rect", Cfg::new(false, mixed(20, 63), "r", &[3], &[1, 3]));
    v
}
pub fn p26() -> Vec<Scen> {
    let mut v = vec![];
    let mut add = |name: &str, c: Cfg, q: char| {
        let d = c.describe() + &format!("; query symbolic ({q}); four other orders of the same inserts");
        v.push(scen!(name, Real, d, any_order, c, q).secs(90.0));
    };
    for (n, pt) in [("point", true), ("bounds", false)] {
        add(&format!("{n}-2sym-any-limits"), Cfg::new(pt, vec![], "pp", &[0, 1, 2], &[0, 1]), 'p');
        add(&format!("{n}-3sym"), Cfg::new(pt, vec![], "ppp", &[1], &[1, 2]), 'p');
        add(&format!("{n}-lattice-sym"), Cfg::new(pt, lattice(), "p", &[0, 2], &[1, 4]), 'p');
        add(&format!("{n}-40-sym"), Cfg::new(pt, pts(&scatter(40, 61, ROOT)), "p", &[3], &[4]), 'p');
        add(&format!("{n}-nested"), Cfg::new(pt, nested(16, pt), "", &[6, 40], &[1]), 'p');
        add(&format!("{n}-negative-root"), Cfg::new(pt, pts(&scatter(14, 62, NEG)), "p", &[3], &[1, 3]).root(NEG).range(-6.0, 10.0), 'p');
        let c = Cfg::new(pt, vec![Shape::Pt(3.0, 5.0); 6], "p", &[3, 6], &[1, 4]);
        add(&format!("{n}-coincident"), c, 'p');
    }
    add("bounds-rect-sym", Cfg::new(false, vec![], "rr", &[1], &[0, 1]), 'p');
    add("bounds-mixed-rect", Cfg::new(false, mixed(20, 63), "r", &[3], &[1, 3]), 'p');
    add("bounds-spread-rect-query", Cfg::new(false, spread(), "", &[2, 3], &[1, 2]), 'r');
    add("bounds-mixed-rect-query", Cfg::new(false, mixed(25, 41), "", &[1, 3, 5], &[0, 1, 4]), 'r');
    add("bounds-spread-box-and-box", Cfg::new(false, spread(), "t", &[2], &[1]), 't');
    use Axes::*;
    for (k, point, lim, ax, quick) in [
        ("pp", true, (1u8, 1usize), X, true),
        ("pp", true, (1, 1), Y, true),
        ("ppp", true, (1, 1), X, true),
        ("ppp", true, (1, 2), Y, true),
        ("rp", false, (1, 1), X, true),
        ("rp", false, (1, 1), Y, true),
        ("rr", false, (1, 1), X, true),
        ("rr", false, (1, 1), Y, true),
        ("pp", false, (2, 1), X, true),
        ("ppp", true, (2, 1), X, true),
        ("rrp", false, (1, 1), X, true),
        ("rrr", false, (1, 1), Y, false),
        ("pp", true, (2, 1), Both, false),
        ("rr", false, (1, 1), Both, false),
    ] {
        let name = format!("{}-{k}-{lim:?}-{ax:?}", if point { "point" } else { "bounds" });
        let (rb, ib) = (format!("{ROUND}; symbolic axes: {ax:?}; two other orders"), format!("{INT}; symbolic axes: {ax:?}; two other orders"));
        for s in [
            scen!(format!("{name}-round"), Round, rb, robust_order, k, point, lim, (false, ax)),
            scen!(format!("{name}-int"), Int, ib, robust_order, k, point, lim, (true, ax)),
        ] {
            v.push(if quick { s.secs(45.0) } else { s.secs(200.0).thorough() });
        }
    }
    v
}
const ROUND: &str = "root bounds and every datum symbolic, |coordinate| <= 2^60, every operation followed by an arbitrary monotone rounding (covers f32 and f64 without underflow)";
const INT: &str = "root bounds and every datum symbolic over all 32-bit integers whose width and height are representable; overflow is an error";
pub fn p24() -> Vec<Scen> {
    let mut v = vec![];
    let (rb, ib) = (ROUND, INT);
    let _ = coord! {x: 0.0, y: 0.0};
    use Axes::*;
    let mut put = |name: String, s: Scen, slow: bool| v.push(if slow { s.secs(200.0).thorough() } else { let mut s = s.secs(45.0); s.name = name; s });
    for (n, md, mc, ax, quick) in [
        (1usize, 2u8, 0usize, Both, true),
        (2, 1, 1, Both, true),
        (3, 2, 1, X, true),
        (3, 2, 1, Y, true),
        (2, 3, 1, X, false),
        (2, 3, 1, Y, false),
        (2, 2, 1, Both, false),
        (3, 1, 1, Both, false),
    ] {
        let name = format!("point-{n}-md{md}-mc{mc}-{ax:?}");
        let rb = format!("{rb}; symbolic axes: {ax:?}");
        let ib = format!("{ib}; symbolic axes: {ax:?}");
        put(format!("{name}-round"), scen!(format!("{name}-round"), Round, rb, robust_point, n, md, mc, (false, ax)), !quick);
        put(format!("{name}-int"), scen!(format!("{name}-int"), Int, ib, robust_point, n, md, mc, (true, ax)), !quick);
    }
    for (k, md, mc, ax, quick) in [
        ("r", 1u8, 0usize, Both, true),
        ("r", 2, 0, X, true),
        ("r", 2, 0, Y, true),
        ("rp", 1, 0, X, true),
        ("rp", 1, 0, Y, true),
        ("rr", 1, 1, X, true),
        ("rr", 1, 1, Y, true),
        ("pp", 2, 1, X, true),
        ("r", 2, 0, Both, false),
        ("r", 3, 0, X, false),
        ("rp", 1, 0, Both, false),
        ("rr", 1, 1, Both, false),
        ("pp", 2, 1, Both, false),
        ("rrr", 1, 1, X, false),
        ("rrr", 1, 1, Y, false),
    ] {
        let name = format!("bounds-{k}-md{md}-mc{mc}-{ax:?}");
        let rb = format!("{rb}; symbolic axes: {ax:?}");
        let ib = format!("{ib}; symbolic axes: {ax:?}");
        put(format!("{name}-round"), scen!(format!("{name}-round"), Round, rb, robust_bounds, k, md, mc, (false, ax)), !quick);
        put(format!("{name}-int"), scen!(format!("{name}-int"), Int, ib, robust_bounds, k, md, mc, (true, ax)), !quick);
    }
    v
}
