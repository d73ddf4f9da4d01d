"""The properties (source of properties.jsonl and MANIFEST.json)."""

GEO = 'plycutter/geometry/'
IMP = 'plycutter/geometry/impl2d/'
PROPS = []
NOT_APPLICABLE = {}
NOTES = ('Everything is decided by /verif/symq, a symbolic executor for the '
         'real Python code with z3; see DESIGN.md. VERIF_REPO selects '
         'another source tree for experiments.')


def P(id, title, statement, quant, why, files, mech, **kw):
    PROPS.append(dict(id=id, title=title, statement=statement, quant=quant,
                      why=why, files=files, mech=mech, **kw))


P('G01', '1-D set algebra along a joint is exact',
  'A set of ranges on a line built from any list of ranges is the union of '
  'those ranges, kept sorted, disjoint and merged. Union, intersection, '
  'difference, symmetric difference and complement of two such sets contain '
  'a point exactly when the pointwise definition says so, for every point '
  'that is not an end of a range.',
  'every choice of range ends (touching, nested, empty, unbounded, out of '
  'order) and every point of the line',
  'The unit tests compare a handful of fixed ranges; the merge and flip '
  'logic is decided by the order of the ends, of which there are too many '
  'to sample.',
  [GEO + 'geom1d.py'],
  [('range normalisation', GEO + 'geom1d.py:Geom1D.__init__'),
   ('set operators', GEO + 'geom1d.py:Geom1D.__and__/__or__/__sub__/'
    '__xor__/__invert__')])

P('G02', '1-D buffering grows and shrinks ranges exactly',
  'Growing a set of ranges by r contains a point exactly when the set has a '
  'point within r; shrinking by r keeps a point exactly when everything '
  'within r of it is in the set. The result is again sorted, disjoint and '
  'merged.',
  'every set of ranges, every amount of either sign',
  'Tests use a few amounts; whether ranges merge or vanish depends on the '
  'amount relative to every gap and length.',
  [GEO + 'geom1d.py'],
  [('buffer', GEO + 'geom1d.py:Geom1D.buffer')])

P('G03', '1-D queries and filters agree with the set',
  'Length, emptiness, point location and filtering of a set of ranges '
  'report what the set is: the length is the sum of the range lengths, a '
  'point is inside, on the edge or outside exactly when it is, and '
  'filtering keeps whole ranges only.',
  'every set of ranges and every point',
  'Sampled points cannot cover the cases at and around every end, nor '
  'unbounded ranges.',
  [GEO + 'geom1d.py'],
  [('queries', GEO + 'geom1d.py:Geom1D.locate/measure1d/is_empty/filter')])

P('A01', 'Bounding boxes contain their points and detect overlap exactly',
  'A bounding box built from points contains exactly the points between the '
  'extremes in both coordinates, and two boxes are reported to overlap '
  'exactly when they share a point. An empty box contains and overlaps '
  'nothing.',
  'every set of points and every pair of boxes',
  'Tests use fixed boxes; the answer depends on the order of eight numbers '
  'with every tie.',
  [GEO + 'aabb.py'],
  [('box', GEO + 'aabb.py:AABB.include_point/contains/intersects_aabb')])

P('A02', 'The segment-against-box test is exact',
  'A segment is reported to meet a box exactly when some point of the '
  'segment lies in the closed box. Touching a corner or a side counts, in '
  'every direction of the segment.',
  'every box and every segment, degenerate ones included',
  'The existing tests sample random segments, which never touch a corner '
  'exactly.',
  [GEO + 'aabb.py'],
  [('segment test', GEO + 'aabb.py:AABB.intersects_segment')])

P('F01', 'Rational angles order directions like real angles do',
  'The rational angle given to a direction orders directions in the same '
  'rotational order as their real angle, is the same for equal directions '
  'of any length, and opposite directions are half a turn apart.',
  'every pair and triple of directions, axis and diagonal ones included',
  'Tests compare sampled vectors with floating-point angles; ties at '
  'quadrant borders and near-equal directions are not reached.',
  [IMP + 'frangle2d.py'],
  [('angle of a vector', IMP + 'frangle2d.py:vector_frangle')])

P('F02', 'Turning an angle back into a direction inverts it',
  'The direction produced for a rational angle lies on the unit square and '
  'has that angle again, up to full turns.',
  'every rational angle over a full turn and every direction',
  'Sampled angles miss the quadrant borders and cannot show the inverse for '
  'all values.',
  [IMP + 'frangle2d.py'],
  [('vector of an angle',
    IMP + 'frangle2d.py:frangle_unit_square_vector')])

P('V01', 'Line intersection and position along a segment are exact',
  'The computed intersection of two non-parallel lines lies exactly on both '
  'of them, and the computed fraction places a point exactly where it is '
  'along its segment. No rounding happens at any magnitude.',
  'all end points of both segments',
  'Tests sample fixed and random values; a wrong sign or swapped term that '
  'cancels for symmetric inputs survives them.',
  [IMP + 'primitive2d.py'],
  [('intersection', IMP + 'primitive2d.py:segment_segment_general_'
    'intersection'),
   ('fraction', IMP + 'primitive2d.py:segment_point_fraction')])

P('V02', 'Polygon area, orientation and point-in-ring are exact',
  'The signed area of a ring equals the exact cross-product sum, and a '
  'point is reported inside, on or outside a simple ring exactly when it '
  'is, including points level with vertices and horizontal edges.',
  'every point, and rings with symbolic vertices',
  'Ray casting goes wrong only where the ray meets vertices or horizontal '
  'edges, which random sampling does not hit.',
  [IMP + 'primitive2d.py'],
  [('area', IMP + 'primitive2d.py:simple_polygon_area'),
   ('location', IMP + 'primitive2d.py:locate_point_polygon_winding_number')])

P('T01', 'Stabbing queries return exactly the segments over a value',
  'A stabbing query returns exactly the stored closed intervals that '
  'contain the queried value, each once, whatever the intervals are.',
  'every set of intervals and every queried value, ends included',
  'Tests use fixed sets; errors would sit at equal ends and at values '
  'between the stored ends.',
  [IMP + 'segment_tree.py'],
  [('tree', IMP + 'segment_tree.py:SegmentTree1D')])

P('S01', 'The sweep finds every intersection of every segment set',
  'The intersection sweep reports exactly the points at which at least two '
  'of the given segments meet, each point once, together with exactly the '
  'segments through it. Overlapping, vertical, touching and concurrent '
  'segments are handled like any other.',
  'all end points of small segment sets, and one segment anywhere among '
  'fixed larger ones',
  'The sweep order depends on the relative order of all computed points; '
  'random tests do not produce exact coincidences.',
  [IMP + 'scan2d.py'],
  [('sweep', IMP + 'scan2d.py:all_segment_intersections')])

P('Q01', 'The quadtree never misses a segment that a query touches',
  'A spatial query returns every stored segment that meets the query '
  'segment or box, and after a segment is removed it is never returned '
  'again. Splitting of the tree does not change answers.',
  'all positions of stored and query segments, add and remove histories',
  'Misses occur when a segment runs along or through the border of a tree '
  'cell, which sampled coordinates do not do.',
  [IMP + 'pmr_quadtree.py'],
  [('tree', IMP + 'pmr_quadtree.py:SegmentPMRQuadTree')],
  over=['inputs', 'histories'])

P('M01', 'Merging cells cancels exactly the shared borders',
  'Adding cells of one arrangement and extracting the outline gives rings '
  'that consist of exactly the borders belonging to one added cell and '
  'not shared, so area and borders of the merged region are those of the '
  'union, in whatever order cells are added. Each ring of the result '
  'names the added cells it was merged from, those whose outline cancelled '
  'around it included.',
  'all orders of additions and removals; symbolic coordinates',
  'Tests merge a few fixed cells in one order.',
  [IMP + 'cell_merger.py'],
  [('merge', IMP + 'cell_merger.py:CellMergerSlow')],
  over=['inputs', 'histories'])

P('D01', '2-D union, intersection and difference are exact pointwise',
  'For two shapes in any relative position, union, intersection and '
  'difference contain a point exactly when the pointwise definition says '
  'so, for every point off the input borders. This includes positions in '
  'which edges overlap, vertices touch or one shape fills a hole of the '
  'other.',
  'every relative displacement of the shape pairs (continuous, so every '
  'coincidence is included) and every query point',
  'Property tests sample displacements; exact coincidences of edges and '
  'vertices have probability zero.',
  [GEO + 'geom2d.py', IMP + 'geom2d_simple_holes.py',
   IMP + 'arrangement2d.py'],
  [('set operators', GEO + 'geom2d.py:Geom2D.__and__/__or__/__sub__'),
   ('cell classification', IMP + 'geom2d_simple_holes.py'),
   ('arrangement', IMP + 'arrangement2d.py:Arrangement2D')])

P('D02', 'The union of any number of pieces is the pointwise union',
  'Joining a list of shapes in one call gives exactly the points covered by '
  'at least one of them, whatever their number, order and positions. The '
  'empty list gives the empty shape.',
  'every position of the moving piece, lists shorter and longer than the '
  'batch size, every query point',
  'The batch and merge recursion only shows up for long lists, which the '
  'tests cover with one or two fixed layouts.',
  [GEO + 'geom2d.py', IMP + 'geom2d_simple_holes.py'],
  [('n-ary union', GEO + 'geom2d.py:Geom2D.union'),
   ('batched union', IMP + 'geom2d_simple_holes.py')])

P('D03', 'Results are well-formed polygons with holes and right areas',
  'Every result of a set operation consists of simple outer rings and holes '
  'with consistent orientation, without zero-length or duplicate edges, '
  'holes inside their outer ring, and pieces that do not overlap. Areas '
  'obey inclusion-exclusion exactly.',
  'every relative displacement of the shape pairs',
  'Malformed rings appear at exact coincidences (pinch points, filled '
  'holes), which sampling does not reach.',
  [IMP + 'geom2d_simple_holes.py', IMP + 'cell_merger.py'],
  [('reassembly', IMP + 'geom2d_simple_holes.py'),
   ('ring extraction', IMP + 'cell_merger.py:CellMergerSlow')])

P('D04', 'Point location in a shape is right for every point',
  'A point is reported inside, on the border or outside of a shape exactly '
  'when it is, for shapes with holes, several pieces and computed borders.',
  'every point of the plane; moving shapes',
  'Ray directions through vertices or along edges are exact coincidences.',
  [GEO + 'geom2d.py', IMP + 'geom2d_simple_holes.py'],
  [('location', GEO + 'geom2d.py:Geom2D.locate')])

P('D05', 'Growing a shape adds exactly what lies within the radius',
  'Growing a shape by r gives the shape swept by a fixed octagon inscribed '
  'in the circle of radius r: nothing further than r away is added and '
  'everything within the octagon reach is. Holes shrink and vanish and '
  'gaps close accordingly.',
  'every radius in the stated ranges and every query point',
  'Topology changes when the radius equals a hole or gap size exactly; '
  'tests use a few radii and compare areas with a tolerance.',
  [IMP + 'geom2d_simple_holes.py'],
  [('buffer', IMP + 'geom2d_simple_holes.py:Geom2D_Py.buffer')])

P('D06', 'Shrinking a shape removes exactly what is near its outside',
  'Shrinking a shape by r keeps exactly the points whose octagon of radius '
  'r lies in the shape: parts thinner than that vanish, holes grow, and '
  'nothing outside the shape is ever added.',
  'every radius in the stated ranges and every query point',
  'Parts vanish or split at exact radii; tests use a few radii.',
  [IMP + 'geom2d_simple_holes.py'],
  [('buffer', IMP + 'geom2d_simple_holes.py:Geom2D_Py.buffer')])

P('D07', 'Projecting a shape onto a line gives its extent',
  'The projection of a shape onto a direction is the union over its pieces '
  'of the range between the smallest and largest coordinate along the '
  'direction, shifted by the offset.',
  'every position of the pieces, every direction and offset in the stated '
  'family',
  'Tests project one or two fixed shapes.',
  [GEO + 'geom2d.py', IMP + 'geom2d_simple_holes.py'],
  [('projection', IMP + 'geom2d_simple_holes.py:Geom2D_Py.project_to_1d')])

P('D08', 'Shapes are built with exactly the points that were given',
  'A shape made from a polygon, a rectangle, a coordinate transformation or '
  'imported float polygons covers exactly the given region. Float '
  'coordinates are taken over exactly; no coordinate is rounded or lost.',
  'all coordinates and transformation coefficients',
  'Tests use small integers, which hide rounding and orientation errors.',
  [GEO + 'geom2d.py', IMP + 'geom2d_simple_holes.py'],
  [('constructors', GEO + 'geom2d.py:Geom2D.polygon/rectangle/'
    'from_shapely/transform_with')])

P('X01', 'Joint coordinates and sheet coordinates agree',
  'Ranges along a joint become exactly the rectangles of those ranges '
  'across the joint strip of the sheet, and projecting them back returns '
  'the same ranges. This holds for every joint direction, origin and strip '
  'width.',
  'every range, origin and strip; six exact directions',
  'Only end-to-end tests touch this code, with axis-aligned joints.',
  ['plycutter/sheetplex.py'],
  [('fingers', 'plycutter/sheetplex.py:InterSide.make_fingers'),
   ('projection', 'plycutter/sheetplex.py:InterSide.project_to_1d')])

P('X02', 'Looking up joints and restricting a model keeps it consistent',
  'Sheets, joints and the two sides of each joint can be looked up '
  'consistently by their names. Restricting a model to some sheets keeps '
  'exactly those sheets and exactly the joints between them.',
  'every set of joints among the sheets and every selection',
  'No test restricts a model.',
  ['plycutter/sheetplex.py'],
  [('lookups', 'plycutter/sheetplex.py:SheetPlex.interside/intersides'),
   ('restriction', 'plycutter/sheetplex.py:SheetPlex.limit')],
  over=['inputs', 'configurations'])

SB = 'plycutter/sheetbuild.py:'
HE = 'plycutter/heuristics.py:'

P('B01', 'The starting state leaves exactly the joint positions open',
  'At the start no joint position is decided, and the open positions of a '
  'joint are exactly those where both plates reach, the same on both sides. '
  'What is decided for a plate is possible for it and visible on both of '
  'its faces or close to such material. Nothing outside the outline of the '
  'plate is possible, and nothing inside an open joint is decided. Material '
  'beyond the support radius of the solid part of the plate is not '
  'possible.',
  'every thickness, length, joint position and support radius (one at a '
  'time in the stated ranges), every point of every plate',
  'Tests run one fixed model; the start depends on all sizes.',
  ['plycutter/sheetbuild.py', 'plycutter/sheetplex.py'],
  [('start', SB + 'create_sheetbuild')])

P('B02', 'Choosing a joint range updates exactly what it must',
  'When a range of a joint is given to one plate, that range is added to '
  'the choices of the plate and its fingers to the material of the plate. '
  'The range stops being available to the other plate, along the joint and '
  'as material. Excluding a range or an area removes exactly that. Nothing '
  'else changes, the earlier state is not modified, and a choice that '
  'contradicts an earlier one is refused with an AssertionError.',
  'every range and area, in each of the stated joint states',
  'The state is only tested through whole runs; a wrong update shows for '
  'particular overlaps with earlier choices only.',
  ['plycutter/sheetbuild.py', 'plycutter/geometry/geom1d.py'],
  [('choose', SB + 'SheetBuild.choose_interside/choose_intersides'),
   ('exclude', SB + 'SheetBuild.unchoose_interside/unchoose_intersides/'
    'unchoose_sheet_area')], over=['inputs', 'histories'])

P('B03', 'The self-check refuses contradictory states and no others',
  'The self-check of a state fails exactly when the state is contradictory: '
  'a joint range or area is decided but not possible, a joint range is '
  'decided for one side and still possible for the other, or the material '
  'does not agree with the joint ranges. Sound states are accepted. Checks '
  'that are not forced may be left out, but not more often in a row than '
  'the stated interval.',
  'every end of each of the ranges that make up the state of a joint',
  'No test builds a contradictory state.',
  ['plycutter/sheetbuild.py'],
  [('self-check', SB + 'SheetBuild.check/_check')])

P('H01', 'Random finger widths fill the range within their limits',
  'A range divided into n random fingers is divided into exactly n '
  'consecutive fingers that start at the beginning, end at the end, leave '
  'no gap, and are each between the minimum and the maximum width. This '
  'holds for every possible division and everything that the random '
  'generator may return.',
  'every pair of limits, every length that n fingers can fill, every '
  'outcome of the random generator',
  'Tests see the draws of one seed; limits break for rare draws only.',
  ['plycutter/heuristics.py'],
  [('division', HE + 'random_min_max')], over=['inputs', 'schedules'])

P('H02', 'Every open joint position goes to exactly one of the two sides',
  'Dividing the open ranges of the joints into fingers gives every open '
  'position to exactly one of the two sides, alternating, with widths '
  'within the limits where the range is long enough, and the first and '
  'last finger differ from what is chosen next to them. Earlier choices '
  'stay, and all randomness comes from the given seed.',
  'every length of the open range, every neighbourhood, every outcome of '
  'the random generator within the bounds',
  'Tests see one seed and a few models; the number of fingers changes at '
  'particular lengths.',
  ['plycutter/heuristics.py', 'plycutter/sheetbuild.py'],
  [('fingers', HE + 'single_fingers_random')], over=['inputs', 'schedules'])

P('H03', 'Positions possible for one plate only are given to that plate',
  'A joint range that is still possible for one side only is given to that '
  'side. Nothing else is chosen and earlier choices stay. Afterwards what '
  'is left open is open to both sides.',
  'every arrangement of the possible ranges of both sides, with earlier '
  'choices',
  'Depends on how the ranges of the two sides overlap; tests see a few '
  'models.',
  ['plycutter/heuristics.py'],
  [('one-sided ranges', HE + 'choose_the_ok_side')])

P('H04', 'Joint possibilities and plate possibilities are kept consistent',
  'A joint position where a plate has no possible material stops being '
  'possible for it, and material in a joint range that is not possible '
  'stops being possible. Possible material that does not hang together '
  'with the solid part of its plate is removed. A joint range where only '
  'one side has material beside it is closed to the other. Everything '
  'else stays as it was.',
  'every range of missing material and of excluded joint positions in the '
  'stated states',
  'Only whole runs with fixed models exercise these rules.',
  ['plycutter/heuristics.py'],
  [('irrelevant sides', HE + 'choose_obviously_irrelevant'),
   ('loose parts', HE + 'remove_loose'),
   ('from plate to joint', HE + 'update_intersection_ok'),
   ('from joint to plate', HE + 'update_sheet_ok')])

P('P01', 'The finished plates of a joint fit together',
  'For a model of two plates that meet in a corner or a T joint the whole '
  'process succeeds. No joint position is then cut from both plates, every '
  'joint position away from the ends is cut from one of them, each plate '
  'is one piece, complete beside the joint, and nothing is cut outside the '
  'outline of the model.',
  'every size within the stated ranges, every point of both plates',
  'Tests cut a few fixed models and only look whether it runs.',
  ['plycutter/canned.py', 'plycutter/heuristics.py',
   'plycutter/sheetbuild.py'],
  [('process', 'plycutter/canned.py:canned_1')],
  over=['inputs', 'configurations'])

P('E01', 'Put together, the finished plates are the model again',
  'For a solid model made of plates that meet in corner, T or cross joints, '
  'in any place and orientation, reading the plates from the mesh and making '
  'the joints succeeds, and the finished plates, placed where the model has '
  'them, fill the model: no place is filled by two plates, every place in '
  'the model by one, and no place outside the model (the ends of joints and '
  'fingers excepted by 1/50).',
  'every size, place and support radius in the stated ranges, every point of '
  'space',
  'No test puts the plates together; the parts are tested one by one.',
  ['plycutter/create_sheetplex.py', 'plycutter/canned.py',
   'plycutter/heuristics.py', 'plycutter/sheetbuild.py'],
  [('reading', 'plycutter/create_sheetplex.py:create_sheetplex'),
   ('process', 'plycutter/canned.py:canned_1')],
  over=['inputs', 'configurations'])

P('P02', 'Where three plates meet exactly one of them gets the corner',
  'At the corner of a box, where three joints overlap, exactly one of the '
  'three plates gets the shared corner, entirely, and it is closed to the '
  'other two. At most one joint is extended beyond the corner, by a usable '
  'length, exactly if the corner would not be held by its plate else, and the rest of the joints stays open. The finished plates do '
  'not collide there and leave no hole.',
  'every box size in the stated ranges, every point of the plates',
  'Tests look at a fixed box for one seed; a wrong decision appears for '
  'particular proportions.',
  ['plycutter/heuristics.py', 'plycutter/canned.py'],
  [('decision', HE + 'heuristic_multi_inter_single_decisions'),
   ('clusters', HE + '_find_interactions/_find_interaction_clusters')],
  over=['inputs', 'configurations'])

P('W01', 'The drawing shows every outline of every plate, apart from the others',
  'The written drawing holds exactly the outlines and holes of every plate, '
  'as closed lines, each plate moved as a whole to stand on one common base '
  'line, and nothing else. '
  'The drawings of two plates do not overlap, and plates without material '
  'disturb nothing.',
  'every plate outline and size within the stated shapes, every number and '
  'order of plates within the bound',
  'Tests write no file at all.',
  ['plycutter/writer.py'],
  [('layout', 'plycutter/writer.py:write_dxf')])

P('L01', 'The command line hands on what was asked for and writes what was cut',
  'Every numeric option reaches the process with the value typed, and the '
  'defaults are the documented ones. The file written holds exactly the '
  'plates of the result, each grown by the final dilation (shrunk by a '
  'negative one), under its name, '
  'at the place asked for. When a step fails, no file is written and the '
  'error reaches the caller.',
  'every value of every numeric option in the stated ranges, every failing '
  'step, every point of the plates',
  'One smoke test with one set of options looks only whether it runs.',
  ['plycutter/command_line.py'],
  [('main', 'plycutter/command_line.py:main')],
  over=['inputs', 'configurations', 'fault_sequences'])

P('L02', 'The joint process hands every result on and hides no failure',
  'Every step works on the result of the step before, with the parameters '
  'given, and the result of the process is the state after the last step; '
  'the history holds the state each step started from. '
  'When a step fails, no further step is run and the caller gets that very '
  'error, or, if it asked for one, a result marked as failed that holds the '
  'last completed state. A final state that contradicts itself is refused. '
  'Showing the steps changes nothing.',
  'every step that can fail, every size of an inconsistency, every setting '
  'of the switches',
  'The tests make only complete, successful runs.',
  ['plycutter/canned.py', 'plycutter/sheetbuild.py'],
  [('process', 'plycutter/canned.py:canned_1')],
  over=['inputs', 'fault_sequences'])

P('L03', 'The same model, options and seed give the same plates',
  'The result depends on the model, the options and the random seed only. '
  'It does not depend on the order in which names of plates and joints '
  'happen to be enumerated in maps and sets, which is different in every '
  'run of Python: the same joints with the same coordinates are found, the '
  'same joint positions and corner areas go to the same plates, and '
  'everything is drawn at the same place.',
  'every size and length in the stated ranges, the stated orders of the '
  'names, every position and point of the result',
  'The tests do not compare two runs, and within one process the order of '
  'given names never changes.',
  ['plycutter/heuristics.py', 'plycutter/sheetplex.py',
   'plycutter/create_sheetplex.py', 'plycutter/command_line.py'],
  [('draws', 'plycutter/heuristics.py:single_fingers_random'),
   ('clusters', 'plycutter/heuristics.py:heuristic_multi_inter_single_decisions'),
   ('joints', 'plycutter/create_sheetplex.py:create_intersections'),
   ('drawing', 'plycutter/command_line.py:main')],
  over=['inputs', 'configurations', 'schedules'])

P('I01', 'Shapes, ranges and states are values',
  'Nothing that is done with a shape, a range of a joint, a model or a state '
  'changes it, nor the lists, parameters and other values that are handed '
  'over: operations give new values. So the states in the history stay what '
  'they were, a later run leaves earlier results alone, and the same '
  'question asked again, whatever was asked in between, has the same answer.',
  'every value of the symbolic sizes and places in the stated ranges; every '
  'operation of the stated list',
  'A unit test uses its operands once and does not look at them again.',
  ['plycutter/geometry/geom1d.py',
   'plycutter/geometry/impl2d/geom2d_simple_holes.py',
   'plycutter/sheetbuild.py', 'plycutter/canned.py'],
  [('ranges', 'plycutter/geometry/geom1d.py:Geom1D'),
   ('shapes', 'plycutter/geometry/impl2d/geom2d_simple_holes.py:Geom2D_Py_Simple_Holes'),
   ('lists', 'plycutter/geometry/impl2d/geom2d_simple_holes.py:union_tree'),
   ('process', 'plycutter/heuristics.py:single_fingers_random'),
   ('history', 'plycutter/canned.py:canned_1')],
  over=['inputs', 'histories'])

P('C01', 'The plates of a model are found with their outlines and faces',
  'Every plate of the model that has the given thickness is found exactly '
  'once, where it lies, and nothing of another thickness is taken for a '
  'plate. Its outline holds all of its material, its inner outline what is '
  'there at every depth, its two faces are where the surface of the model '
  'is on that side, and what stands on it outside is recorded. When only '
  'some plates are asked for by name, exactly these are made, and the '
  'joints between them. This does '
  'not depend on how the model is turned or placed.',
  'every size, place and thickness in the stated ranges, every point of '
  'every plate',
  'Tests read one model file and only look whether it runs.',
  ['plycutter/create_sheetplex.py'],
  [('finding plates', 'plycutter/create_sheetplex.py:create_sheets'),
   ('facets', 'plycutter/create_sheetplex.py:find_all_facets')])

P('C02', 'Where two plates meet there is one joint, seen alike from both',
  'Two plates that are not parallel have exactly one joint, parallel ones '
  'none. A joint has a side on each of its plates, and every point of space '
  'has the same coordinate along the joint from both. A point that lies in '
  'both plates lies in the joint strip on both, and the strips are no wider '
  'than that.',
  'every position and thickness, every point of space, the stated '
  'orientations and every tilt about an axis in range',
  'Tests use one model; an error of sign or origin appears only for '
  'particular orientations.',
  ['plycutter/create_sheetplex.py', 'plycutter/sheetplex.py'],
  [('joint', 'plycutter/create_sheetplex.py:create_intersection'),
   ('side', 'plycutter/create_sheetplex.py:create_inter_side')])

P('H05', 'Joint positions that depend on each other are decided together',
  'Two joints of a plate meet exactly where both are still possible. '
  'Meetings that depend on each other, directly or through others, form one '
  'group, and independent ones form different groups. A group holds exactly '
  'the positions of its meetings. When parts of a plate that are too thin '
  'to hold are removed at the end, everything wide enough and everything '
  'decided stays.',
  'every place of two to five meetings, every width of a part, the stated '
  'sizes of a box corner',
  'Which joints depend on each other changes with the proportions; tests '
  'use a few models and look at no group.',
  ['plycutter/heuristics.py'],
  [('meetings', HE + '_find_interactions'),
   ('groups', HE + '_find_interaction_clusters'),
   ('thin parts', HE + 'clean_up_thin_ok_parts')])

P('R01', 'Outlines that cross cut the plane into exactly the pieces between',
  'Cutting the plane along any set of closed outlines gives edges that meet '
  'only in common end points and cover every segment completely, in its '
  'direction. Every edge borders exactly one piece on each side. The point '
  'given for a piece lies in that piece, in no other, and on no border. A '
  'group of pieces that lies inside another piece is assigned to the '
  'innermost piece around it.',
  'every position of one outline relative to another, touching, collinear '
  'and nested ones included',
  'All set operations on shapes are decided by one point per piece: a wrong '
  'point or border for one special position gives a wrong part.',
  [IMP + 'arrangement2d.py'],
  [('arrangement', IMP + 'arrangement2d.py:SegmentArrangement'),
   ('points of the pieces', IMP +
    'arrangement2d.py:SegmentArrangement._find_point_in_cell')])

P('W02', 'Pictures show exactly the shapes and the state of a plate',
  'The picture made of a shape, filled by non-zero winding, covers exactly '
  'the shape, its holes left out, with every outline closed; an empty shape '
  'has no picture and can be shown without failure. The picture of a plate '
  'shows in green what the plate may have, in cyan what it has, and in the '
  'middle of the strip of each of its own joints the chosen positions in red '
  '(from 4/10 to 6/10 across) and the possible ones in blue (3/10 to 7/10).',
  'every position of a shape with holes, islands or several pieces; every '
  'range chosen or possible; every point of the picture',
  'No test looks at a picture; a hole filled in or a joint at the wrong '
  'place only shows for shapes that have one.',
  [GEO + 'geom2dbase.py', 'plycutter/sheetbuild.py'],
  [('patches', GEO + 'geom2dbase.py:Geom2DBase.to_mpatch/show2d'),
   ('plates', 'plycutter/sheetbuild.py:show_sheet')])

P('C03', 'The planes and the coordinates of a plate describe the same plate',
  'The two sides of a plate face away from each other, at the places where '
  'the plate begins and ends; its middle plane faces along the normal and '
  'lies half-way between them. A point of space, whatever the weight of its '
  'homogeneous coordinates, is given the coordinates it has on the plate; a '
  'direction is turned but not shifted. Asking changes nothing.',
  'every turn, place and thickness of a plate, every point and direction',
  'Tests use plates along the axes, where mixed up axes, signs and weights '
  'do not show.',
  ['plycutter/sheetplex.py'],
  [('planes', 'plycutter/sheetplex.py:Sheet.normal/offset/midplane'),
   ('coordinates', 'plycutter/sheetplex.py:Sheet.project_point4')])
