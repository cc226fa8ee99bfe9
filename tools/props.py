#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (regenerate: python3 tools/props.py)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
                   state=[dict(name=n,meaning=m,where=w) for n,m,w in state],
                   observe_at=list(observe),hook_needed=hook)))
PT='src/quadtrees/point/mod.rs'; PN='src/quadtrees/point/node.rs'
BT='src/quadtrees/bounds/mod.rs'; BN='src/quadtrees/bounds/node.rs'
ND='src/node.rs'; IT='src/iter.rs'; KN='src/quadtrees/knn.rs'; SO='src/quadtrees/sorted.rs'
QM='src/quadtrees/mod.rs'; GM='src/geom/mod.rs'; GG='src/geom/geometry.rs'
ED='src/geom/euclidean/dist.rs'; EM='src/geom/euclidean/math.rs'
SD='src/geom/spherical/dist.rs'; SM='src/geom/spherical/math.rs'; TR='src/geom/spherical/to_radians.rs'; MA='src/geom/math.rs'

p('P01','Nothing inserted is lost, duplicated or invented',
  'After any sequence of inserts into a point or bounds quadtree, size() equals the number of inserts that returned Ok, and iterating the tree yields exactly those accepted data, each once, for every max_depth and max_children. An insert that returns an error leaves the size and the iterated contents unchanged. Queries never change the contents.',
  ['histories','inputs','configurations'],'every sequence of inserts of any data (in or out of bounds, coincident, on cell boundaries), every tree bounds, max_depth and max_children',
  'The tests insert a handful of fixed points with two or three configurations; data is moved between cells at every subdivision, so a loss shows only for particular sequences, positions and limits.',
  [PN,BN,ND,IT,PT,BT],[('take/replace of sub-nodes and re-insertion of children on subdivide','PointNode::insert, BoundsNode::insert'),('descendant iteration','DescendantIter::next'),('size counter','PointQuadTree::insert, BoundsQuadTree::insert')],
  [('children / stuck_children / nodes','data held per cell',PN+', '+BN),('size','count of accepted data',PT+', '+BT)],['size()','into_iter()'])
p('P02','Only data inside the tree bounds is accepted',
  'A point quadtree accepts a datum exactly when its position lies in the tree bounds, edges and corners included; a bounds quadtree accepts a datum exactly when its whole bounding box lies in the tree bounds, edges included. Everything else, including NaN positions, is rejected with the OutOfBounds error, or CannotMakeBbox for a geometry without a bounding box. Retrieving with a datum that would be rejected yields nothing.',
  ['inputs','configurations'],'every datum position/box relative to every tree bounds',
  'The tests try one point well inside and two points outside; boundary equality on each of four sides and the containment of every box side are input regions they do not reach.',
  [MA,PT,BT],[('inclusive containment tests','pt_in_rect, rect_in_rect'),('guards','PointQuadTree::insert/retrieve, BoundsQuadTree::insert/retrieve')],(),['insert()','retrieve()','size()'])
p('P03','Point retrieve returns exactly the data of the query cell',
  'For a point quadtree, retrieve(q) yields every stored datum at the position of q, and only stored data, each at most once. More precisely it yields exactly the stored data in the smallest undivided cell that contains q, where cells arise by halving the tree bounds in both axes: data strictly inside that cell are returned and data strictly outside it are not.',
  ['histories','inputs','configurations'],'every insert history, query position, bounds, max_depth, max_children',
  'Tests query three hand-picked points; whether insert and retrieve agree on the cell of a position must hold for every position, including those on cell borders and those moved by later subdivisions.',
  [ND,PN],[('quadrant selection shared by insert and retrieve','Node::find_sub_node'),('cell geometry','Node::subdivide'),('leaf lookup','PointNode::retrieve')],(),['retrieve()'])
p('P04','Cells divide exactly as max_children and max_depth require',
  'In a point quadtree a cell is divided exactly when more than max_children data fall in it and its depth is below max_depth; in a bounds quadtree exactly when it and its sub-cells hold more than max_children data and its depth is below max_depth. No cell lies deeper than max_depth, for any max_depth (including 0 and 255) and max_children (including 0), and divided point cells hold no data themselves. A tree made without limits has the published default ones.',
  ['histories','inputs','configurations'],'every insert history and every limit configuration',
  'One test looks at one five-point subdivision and one at depth 2; the limits have to hold along every history and for extreme limit values.',
  [PN,BN,ND,PT,BT],[('subdivision condition','PointNode::insert, BoundsNode::insert'),('depth propagation','Node::subdivide')],[('depth, max_depth, max_children','limits per node',PN+', '+BN)],['Display','retrieve()'])
p('P05','Bounds retrieve misses no overlapping datum',
  'For a bounds quadtree, retrieve(q) yields every stored datum whose bounding box overlaps the bounding box of q in more than a shared border, and every stored datum with the same bounding box as q; each stored datum is yielded at most once and nothing else is yielded.',
  ['histories','inputs','configurations'],'every insert history of boxes and every query box, bounds, max_depth, max_children',
  'One test checks four queries against seven fixed boxes; boxes that straddle cell borders, get stuck, or are pushed down by a later subdivision give unboundedly many arrangements.',
  [BN,ND,BT,IT],[('straddling data stay at the parent','BoundsNode::insert (stuck_children)'),('query descends or fans out','BoundsNode::retrieve'),('centre position picks quadrant','BoundsNode::datum_position, Node::find_sub_node')],(),['retrieve()'])
p('P06','Bounds retrieve is selective',
  'For a bounds quadtree, a datum held in a cell that the bounding box of the query does not touch is not returned by retrieve: once the root is divided, data lying strictly inside one quadrant are returned only for queries that touch that quadrant, and the same at every deeper divided cell on the way of a query that fits inside the cell.',
  ['histories','inputs','configurations'],'every insert history of boxes and every query box',
  'A retrieve that returned the whole tree would still satisfy completeness; the single test checks four fixed queries.',
  [BN,ND],[('descend into containing quadrant / fan out over touched quadrants','BoundsNode::retrieve')],(),['retrieve()'])
p('P07','find returns a nearest datum (point tree, Euclidean)',
  'For a Euclidean point quadtree and a comparator that touches the tree bounds, find returns a stored datum together with its true distance to the comparator, and no stored datum is nearer. This holds for every tree shape, that is for every insert history, max_depth and max_children.',
  ['histories','inputs','configurations'],'every set of stored points, comparator (point, line, rectangle), bounds and limits',
  'The existing tests try a few fixed comparators on 5-9 fixed points; a wrong pruning decision only shows where the nearest datum lies across a cell border from the comparator.',
  [PT,ND,ED,GM],[('branch-and-bound traversal','PointQuadTree::find_r'),('cell distance as lower bound','GeomCalc::dist_bbox')],(),['find()'])
p('P08','find returns a nearest datum (bounds tree, Euclidean)',
  'For a Euclidean bounds quadtree holding points, lines, line strings, rectangles or polygons and a comparator of any of these kinds that touches the tree bounds, find returns a stored datum together with its true distance to the comparator, and no stored datum is nearer.',
  ['histories','inputs','configurations'],'every set of stored geometries, every comparator kind and position, bounds and limits',
  'One test has five lines and point comparators only; rectangles as data or comparators are never searched, and stuck data at every level have to be considered.',
  [BT,BN,ED,EM,GM],[('branch-and-bound traversal with bounding-box shortcut','BoundsQuadTree::find_r'),('rect distances','euclidean::math::dist_rect_rect')],(),['find()'])
p('P09','find_r honours the radius inclusively',
  'find_r(cmp, r) returns the same distance as find when the nearest datum is at distance at most r, r itself and r = 0 included, and returns the NoneInRadius error when every stored datum is farther than r.',
  ['inputs','histories','configurations'],'every r, comparator and stored data, both tree kinds',
  'One test calls find_r once with a radius that excludes everything; equality with r and pruning by r in every cell are never exercised.',
  [PT,BT],[('radius seeds the branch-and-bound limit','find_r')],(),['find_r()'])
p('P10','knn returns the k nearest data in order',
  'knn(cmp, k) and knn_r(cmp, k, r) return exactly min(k, number of stored data within distance r) entries (none for k = 0), each a distinct stored datum with its true distance, in non-decreasing distance order, and no datum left out is nearer than one returned. Data at distance exactly r count as within r.',
  ['inputs','histories','configurations'],'every k, r, comparator, stored data and limits, both tree kinds',
  'Two tests use four points with k = 3; ordering and completeness depend on the interleaving of cell and datum distances on the work stack.',
  [KN],[('distance-ordered work stack','knn')],(),['knn()','knn_r()'])
p('P11','sorted yields every datum in distance order',
  'Iterating sorted(cmp) yields every stored datum exactly once, with its true distance, in non-decreasing distance order, and then ends; its first k items have the same distances as knn(cmp, k).',
  ['inputs','histories','configurations'],'every comparator and stored data, both tree kinds',
  'One test sorts nine fixed points from one corner.',
  [SO],[('distance-ordered stack with lazy expansion','SortIter::next')],(),['sorted()'])
p('P12','Searches fail in the documented way',
  'When the comparator does not touch the tree bounds, find, find_r, knn and knn_r return OutOfBounds and sorted is empty; on an empty tree find returns Empty, knn an empty list and sorted nothing; with CalcMethod::None every find or knn call returns CalcMethodNotSet and sorted is empty; when all data are beyond the radius find_r returns NoneInRadius and knn_r an empty list. A comparator without a segment to measure from (an empty or one-point line string or polygon ring) gives InvalidDistance and an empty sorted; a stored one gives InvalidDistance when it is measured to a comparator with area or length of its own and is skipped by sorted. No search panics on these, and none fails otherwise for Euclidean trees of valid geometries.',
  ['inputs','histories','configurations'],'every comparator position, radius, calc method, empty and non-empty trees of both kinds',
  'Single fixed comparators are tested for a few of these; the out-of-bounds decision depends on the exact position of the comparator.',
  [PT,BT,KN,SO,GM],[('early checks','find_r, knn, sorted'),('method dispatch','GeomCalc::dist_geom, GeomCalc::dist_bbox')],(),['find()','knn()','sorted()'])
p('P13','Euclidean rectangle distance is the true gap',
  'The Euclidean distance between two rectangles is never negative, is zero exactly when they share a point, is symmetric, equals the length of the gap between them (the hypotenuse of the gaps in x and y), and does not increase when a rectangle is enlarged.',
  ['inputs'],'every pair of rectangles, degenerate ones included',
  'There is no test of it (the module says TODO).',
  [EM],[('case split on axis overlap','euclidean::math::dist_rect_rect')],(),['euclidean::math::dist_rect_rect','DistEuclidean','GeomCalc::dist_bbox'])
p('P14','Euclidean distances agree across argument order, wrappers and bounding boxes',
  'For every pair of supported geometry kinds the Euclidean distance is symmetric in its arguments, non-negative, zero for a geometry and itself, and the same whether the arguments are plain geometries, borrowed or owned geometry wrappers; a rectangle has the distances of its polygon. The distance to the bounding box of a geometry is never greater than the distance to the geometry.',
  ['inputs'],'every pair of kinds and coordinates',
  'Each of the 25 kind pairs is dispatched by its own match arm and tests touch two of them.',
  [ED,GM,GG],[('per-kind dispatch','DistEuclidean impls'),('calc wrappers','GeomCalc')],(),['DistEuclidean','GeomCalc'])
p('P15','Haversine point distance is a great-circle distance',
  'The spherical distance between two points in radians is symmetric, zero for identical points, at most pi, never NaN, unchanged when both longitudes shift equally, equals the angle between the two directions, the latitude difference on one meridian and the longitude difference on the equator, and is monotone in the longitude difference up to pi.',
  ['inputs'],'every pair of points with latitudes in [-pi/2, pi/2] and longitudes in [-pi, pi]',
  'Tests use it as their own oracle.',
  [SM],[('haversine formula','spherical::math::dist_pt_pt')],(),['spherical::math::dist_pt_pt'])
p('P16','Spherical distance to lines, line strings and polygons',
  'The spherical distance from a point to a segment is the great-circle distance to the point of the segment that is nearest in the coordinate plane (an end point when the projection falls outside, the single point of a degenerate segment); to a line string it is the least over its segments; to a polygon it is zero exactly when the point is inside or on a ring, holes excluded, and otherwise the least over all its rings.',
  ['inputs'],'every point and every segment, line string and polygon with holes',
  'Three tests with one polygon and one expected projection each.',
  [SM],[('planar projection','dist_pt_line'),('min over segments/rings','dist_pt_linestring, dist_pt_poly')],(),['spherical::math'])
p('P17','Spherical point-rectangle distance never overestimates',
  'The spherical distance from a point to a rectangle is zero exactly when the point is inside or on it, and otherwise is the great-circle distance to the nearest point of the rectangle: it is attained by some point of the rectangle and is never greater than the distance to any point of the rectangle, also across the antimeridian and near the poles.',
  ['inputs'],'every point and rectangle on the sphere',
  'It is not tested directly; searches rely on it as a lower bound for everything in a cell.',
  [SM],[('nearest edge selection','spherical::math::dist_pt_rect')],(),['spherical::math::dist_pt_rect','GeomCalc::dist_bbox'])
p('P18','Spherical rectangle-rectangle distance',
  'The spherical distance between two rectangles is non-negative, symmetric and zero when they share a point; with overlapping longitudes it is the latitude gap; otherwise it is the great-circle distance across the smaller longitude gap, measured the short way round the antimeridian, at the shared latitude farthest from the equator, or between the facing corners when latitudes do not overlap.',
  ['inputs'],'every pair of rectangles with longitudes in [-pi, pi] and latitudes in [-pi/2, pi/2]',
  'About a dozen fixed pairs; wrap-around and the choice of latitude depend on sign and order of eight coordinates.',
  [SM],[('overlap case split and wrapping longitude difference','spherical::math::dist_rect_rect, Lng')],(),['spherical::math::dist_rect_rect'])
p('P19','Spherical distance dispatch is symmetric and explicit',
  'For every pair of geometry kinds the spherical distance gives the same answer in both argument orders, either the same value or an error in both; every pair with a point is supported, rectangle-rectangle is supported, and every other pair returns InvalidDistance. Owned and borrowed wrappers give the same answers as the plain geometries.',
  ['inputs'],'all kind pairs, all coordinates',
  'Tests touch point-point and point-line only.',
  [SD],[('per-kind dispatch','DistHaversine impls')],(),['DistHaversine'])
p('P20','Spherical searches return the nearest data',
  'For a spherical quadtree and a point comparator inside the tree bounds, find (and find_r within its radius) returns a stored datum at its true spherical distance with no stored datum nearer, knn and knn_r return the k nearest in order and sorted yields all data in distance order, whenever the coordinates are valid longitudes and latitudes in radians.',
  ['histories','inputs','configurations'],'every set of stored points or shapes, every point comparator, bounds and limits',
  'Two small fixed examples away from the antimeridian and the poles.',
  [PT,BT,KN,SO,SM,GM],[('search algorithms with spherical cell distance','find_r, knn, sorted, dist_pt_rect')],(),['find()','knn()','sorted()'])
p('P21','Radian conversion converts every coordinate once',
  'to_radians and to_radians_in_place multiply every coordinate of a point, line, line string, polygon (interior rings included), rectangle or geometry wrapper by pi/180 exactly once, keep kind, order and number of coordinates, and agree with each other.',
  ['inputs'],'every geometry kind and coordinates',
  'Only points and one rectangle are converted in one example.',
  [TR],[('per-kind mapping','ToRadians impls')],(),['ToRadians'])
p('P22','Geometry wrappers are faithful',
  'Converting a point, line, line string, polygon or rectangle into the owned wrapper, from a geo geometry, or into the borrowed wrapper preserves its kind and every coordinate, other geo geometries are refused with UnsupportedGeometry, and the bounding rectangle reported by the wrappers is the smallest rectangle containing every coordinate of the geometry.',
  ['inputs'],'every geometry kind and coordinates',
  'Not tested.',
  [GG,GM],[('conversions','From/TryFrom/AsGeom/BoundingRect impls')],(),['Geometry','GeometryRef'])
p('P23','Iteration is preorder and the printout shows the tree',
  'Iterating a quadtree walks cells in preorder, a cell before its sub-cells, sub-cells in the order low-x/low-y, high-x/low-y, high-x/high-y, low-x/high-y, so the data of each quadrant are contiguous at every level. The printout lists each cell once in the same order with indentation by depth, its low corner and its number of data, and these numbers add up to size().',
  ['histories','inputs','configurations'],'every insert history and limits, both tree kinds',
  'One test iterates six points in two quadrants.',
  [IT,ND],[('descendant iterator','DescendantIter'),('display','Node::display')],(),['into_iter()','Display'])
p('P24','Guarantees survive rounding and integer coordinates',
  'Conservation, acceptance at the bounds, retrieval of equal positions and of overlapping boxes hold for floating point coordinates although cell midpoints and box centres are rounded, and for integer coordinates although they are truncated, for any bounds whose width and height are representable; no operation overflows or panics on them.',
  ['inputs','histories','configurations'],'all f32/f64 coordinates without overflow, all i32 coordinates with representable spans',
  'Tests use tiny f64 trees with exact midpoints; integer trees are never built.',
  [ND,BN,PN,MA],[('midpoint arithmetic','Node::subdivide, Node::find_sub_node, BoundsNode::datum_position')],(),['insert()','retrieve()'])
p('P25','Spherical searches say what they cannot measure',
  'On a spherical quadtree a line, line string or polygon as comparator gives InvalidDistance from find, find_r, knn and knn_r and an empty sorted, whatever is stored. A point or rectangle comparator that does not touch the tree bounds gives OutOfBounds and an empty sorted, and on an empty tree find gives Empty, knn an empty list and sorted nothing. With a rectangle comparator touching the bounds, sorted yields exactly the stored points and rectangles, each once with its spherical distance, and leaves out the data of other kinds; when some stored datum has no distance to it, a knn over all data gives InvalidDistance, and when none has, find does too. With a point comparator, stored line strings and polygon rings without a segment are likewise left out by sorted and make that knn InvalidDistance.',
  ['inputs','configurations'],'every comparator kind and place, every mix of stored kinds, both tree kinds',
  'No test uses a spherical tree with a comparator other than a point inside it.',
  [PT,BT,KN,SO,GM,SD],[('error propagation of find and knn, skipping by sorted','find_r, knn, SortIter::next, GeomCalc, DistHaversine')],(),['find()','knn()','sorted()'])
p('P26','The order of inserts does not matter',
  'Inserting the same data in another order into a quadtree with the same bounds and limits gives the same size, the same division into cells with the same data in each cell, and so the same printout and the same data from every retrieve; only the order of data within one cell may differ. This holds for both kinds of tree and whether data lie inside a quadrant, on a border or across one.',
  ['histories','inputs','configurations'],'every set of data, every order of inserting it, every limit and query, both tree kinds',
  'Each test inserts its data in one order.',
  [PN,BN,ND],[('insertion and division','Node::insert, Node::subdivide, BoundsNode stuck children')],(),['insert()','retrieve()','Display'])
p('P27','Every supported type of datum and comparator is treated alike',
  'A tree of points holds, retrieves and finds the same whether its data are plain coordinates, plain points or a user type giving those points; a bounds quadtree does the same for plain lines, line strings, polygons, rectangles and points, for owned and borrowed wrappers of them and for a user type. A search gives the same distances whether its comparator is a plain geometry, an owned or borrowed wrapper or a user type. calc_method() reports the method the tree was made with, and a new tree is empty.',
  ['inputs','configurations'],'every supported datum and comparator type, all positions, all limits and methods',
  'The tests use one datum type per tree; each type has its own conversion to a point or geometry, and every comparator type its own instance of the search code.',
  [PT,BT,GM,GG,QM],[('conversions of data and comparators','AsPoint and AsGeom impls'),('generic search methods','QuadTreeSearch')],(),['insert()','retrieve()','find()','knn()','sorted()','calc_method()'])
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here,'properties.jsonl'),'w') as f:
    for q in P: f.write(json.dumps(q)+'\n')
import jsonschema
sch=json.load(open('/root/.vp/PROPERTIES.schema.json')) if os.path.exists('/root/.vp/PROPERTIES.schema.json') else None
if sch:
    for q in P: jsonschema.validate(q,sch)
print(len(P))
