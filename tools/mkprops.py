import json
P=[]
def p(id,title,st,over,qt,why,files,mech,state=(),obs=(),hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(obs),hook_needed=hook)))
p("C01","Interval arithmetic encloses every exact result, tightly",
"For finite interval (and scalar) operands in single and double precision, the interval returned by addition, subtraction, multiplication, division, negation, squaring, square root (of the non-negative members of an interval that has some) and their in-place forms is well ordered, NaN-free and contains the exact real result for every choice of members of the operands; dividing by something that contains zero gives the whole real line. Each returned bound is within two units in the last place of the exact extreme, and a chain of such operations still encloses the exact value of the expression.",
["inputs","programs"],"every pair of finite intervals over the whole exponent range (subnormals, overflow, signed zeros, degenerate, all sign combinations) and every expression built from the operations",
"The three interval unit tests run fixed iterations of a few expressions on f64 with mostly positive operands; they never compare against exact arithmetic, never multiply two sign-straddling intervals and never use f32, which is the renderer's scalar.",
["src/math/interval.rs","src/math/interval_as_gfloat.rs","src/math/scalar.rs"],
[("outward step of one ulp after each rounded operation","src/math/interval.rs Add/Sub/Mul/Div/square/sqrt"),("sign case analysis for products and quotients","src/math/interval.rs Mul, Div"),("next_up/next_down","src/math/scalar.rs")],
[("inf, sup","inclusive bounds","Interval in src/math/interval.rs")],["return value of each interval operator"])
p("C02","Interval trigonometric functions enclose every pointwise value",
"For every finite interval argument, sine, cosine, their joint form and tangent return an interval containing the function value at every member of the argument (tangent may be the whole line when a pole is possible); arcsine and arccosine do so for every argument inside [-1,1], arctangent for every argument, and the two-argument arctangent for every pair of members other than (0,0), with values in (-pi,pi]. The interval constants for pi, 2pi, pi/2 and pi/4 and the scalar lower/upper constants strictly bracket the real constants. Sine, cosine, arcsine, arccosine and arctangent bounds exceed the true range by no more than a few ulps, and the two-argument arctangent does so when neither argument contains zero.",
["inputs"],"every interval of every width (including wider than pi and than 2pi, endpoints exactly zero, negative arguments, all quadrants and quadrant-straddling boxes), in f32 and f64",
"The tests sample widths of at most pi with non-zero endpoints for sine/cosine, only single points for the two-argument arctangent, and never call arcsine, arccosine, tangent or the f32 constants.",
["src/math/interval_as_gfloat.rs","src/math/interval.rs","src/math/scalar.rs"],
[("critical-point detection by derivative sign","src/math/interval_as_gfloat.rs sin, cos"),("monotone mapping plus range clipping","asin, acos, atan, map_monotonic_inc/dec"),("quadrant case analysis","atan2"),("boost pi brackets","src/math/scalar.rs pi_lower/pi_upper ...")],
[],["return value of each interval function"])
p("C03","Interval comparisons and set operations assert only what is certain",
"Comparing two intervals (or an interval and a scalar) reports less, greater or equal exactly when the relation holds for every choice of members, and reports no order otherwise; sign predicates, containment, range, exactness and sameness tests answer exactly according to the bounds. Intersection and union are the exact set intersection and convex hull, interval minimum and maximum (also taken together), clamping, sign and absolute value contain the pointwise results, stepping moves bounds to adjacent values, and conversions into an interval contain the converted number while conversions out return the midpoint, a member of the interval.",
["inputs"],"every pair of intervals (disjoint, touching, nested, equal, degenerate, infinite endpoints) and every scalar; exhaustive over a small endpoint grid",
"No test exercises interval comparison, union, intersection, abs, min/max or the conversions.",
["src/math/interval.rs","src/math/interval_as_gfloat.rs"],
[("certain-order PartialOrd/PartialEq","src/math/interval.rs"),("set operations","Interval::intersect, union, contains, in_range"),("conversions","From impls, GFloat::from_*/to_* for Interval")],[],["return values"])
p("C04","Scalar contract: adjacent floats, constants, predicates, tolerant equality",
"Stepping a float up or down returns exactly the adjacent representable value (the zeros count as one point, the matching infinity and NaN are fixed points). Extreme values, constants, classification (NaN, finite, infinite), sign predicates, minimum/maximum/ordering/clamping/range tests, conversions and elementary functions mean the same thing for every scalar type as the mathematical definition. Tolerant equality is symmetric, is reflexive on finite values, and holds when the difference is below 1e-6 or below 1e-4 (single) / 1e-6 (double) of the larger magnitude and fails otherwise; for integers it is plain equality, for vectors, matrices and transforms it is component-wise, and for intervals it compares the bounds.",
["inputs"],"every bit pattern of f32 (exhaustively for stepping), hostile and random f64 patterns, every integer scalar type, intervals as a scalar type, every pair of values",
"No test calls stepping or the predicates directly; interval tests sample a few hundred ordinary magnitudes.",
["src/math/scalar.rs","src/math/vector.rs","src/math/transform.rs"],
[("bit-level next_up/next_down","src/math/scalar.rs"),("trait default methods","Scalar, SignedScalar, GFloat"),("fequals","GFloat::fequals")],[],["trait methods through generic code"])
p("C05","Vectors, points and normals obey component-wise and metric algebra",
"For every scalar type and dimension, arithmetic between vectors/points/normals and with scalars, in-place forms, min/max, negation, equality, indexing, named component access and mutation, default value and conversions act on each component independently and exactly as the scalar operation does, and mixing kinds follows affine rules (point-point is a vector, point plus or minus vector is a point). Dot product, squared norm, norm, distance, cross product and normalisation agree with their mathematical definitions (exactly for integers, to rounding for floats), so cross products are orthogonal to both operands and right handed and a normalised non-zero vector is parallel to the original with unit length.",
["inputs"],"every pair of vectors of dimension 2, 3, 4 (and larger where generic) over integer and float scalars, including zeros, signed zeros, huge/tiny components",
"Four tests check unit axes and a few literals in 3-D f64.",
["src/math/vector.rs","src/math/vector_traits.rs"],
[("component loops over the const dimension","src/math/vector.rs operator impls"),("kind markers","VectorMarker/PointMarker/NormalMarker"),("Norm/InnerProduct","src/math/vector_traits.rs")],[],["operator results"])
p("C06","Matrix algebra and inversion are correct",
"4x4 matrix product, scalar product, transpose, identity, zero, equality, and row/column/element access and assignment agree with linear algebra for every matrix, exactly for integers and to rounding for floats. The inverse of every well-conditioned matrix multiplied by the matrix on either side is the identity up to rounding amplified by the conditioning, and inverting an interval matrix encloses the inverse of every member matrix whose determinant is certainly non-zero.",
["inputs"],"every integer matrix without overflow and every float matrix of moderate condition number, including permutations, triangular, affine, projective and sparse matrices",
"One literal product and one literal transpose are tested; inversion is only reached through one perspective test that never looks at the inverse.",
["src/math/transform.rs","src/math/transform_inverse_impl.rs"],
[("adjugate inverse","src/math/transform_inverse_impl.rs"),("triple loop product","Mul for Matrix4x4")],[],["Matrix4x4 public API"])
p("C07","Transform constructors perform their documented geometric action",
"Translation, scaling, axis rotations, axis-angle rotation, look-at and perspective transforms act on points and vectors as documented for every parameter: translations move points and leave vectors alone, scalings multiply components, rotations are right-handed turns by the given angle about the given (not necessarily unit) axis, look-at sends the eye to the origin, the target to the negative z axis and the up direction to the positive-y half of the yz plane while preserving lengths and handedness, and perspective sends the frustum between -near and -far to [-1,1]x[-1,1]x[0,1]. In every case the stored inverse undoes the forward action.",
["inputs"],"every parameter value: all angles (any magnitude, sign, multiples of pi/2), axes of any length, eye/target/up triples not degenerate, near<far, 0<fov<pi; f32 and f64",
"Tests sample 20 parameter sets per constructor in f64 only, with eye/target/up in the unit cube, and never check translation, scaling, or the stored inverses other than for rotations about axes.",
["src/math/transform.rs"],
[("explicit forward/inverse matrices per constructor","Transform::translate/scale/rotate_*/rotate/look_at/perspective"),("orthogonal basis","init_from_orthogonal_basis")],
[("m, minv","forward and inverse matrices","Transform")],["Transform::map, map_inverse, matrix, inverse_matrix"])
p("C08","Composed and inverted transforms act coherently on every geometric kind",
"For any chain of transforms, mapping by the product equals mapping by the factors in turn, mapping back by the inverse (or by the inverted transform) returns the original, and identity changes nothing, for points, vectors, normals and rays. Mapped normals stay perpendicular to mapped tangents and keep their side, the map is linear on vectors and normals, differences of mapped points equal mapped differences for affine transforms, and a mapped ray keeps its parameter: the point at parameter t maps to the point at parameter t, with the same parameter limit.",
["inputs","programs"],"every chain of affine transforms (rotations, non-uniform and mirroring scales, translations, look-at) of bounded length and conditioning, applied to every point, vector, normal and ray; f32 and f64",
"Tests never map a normal or a ray and compose transforms only as a rotation times its opposite.",
["src/math/transform.rs","src/geometry/ray.rs"],
[("map_point/map_vector/map_normal","src/math/transform.rs"),("product composes inverses in reverse order","Mul for Transform"),("ray mapping","src/geometry/ray.rs")],[],["Transform::map/map_inverse/inverse/*"])
p("C09","Interval-valued geometry encloses every member geometry",
"Vector, point, normal and ray computations carried out on interval components (component arithmetic, dot, cross, norm, distance, normalisation, evaluation of a ray, and mapping by scalar or interval transforms, forwards and backwards) succeed and return components containing the exact result for every choice of members; transforms built from interval parameters contain the transform built from any member parameters. Converting a scalar vector to intervals contains it, and converting back returns the midpoints.",
["inputs","programs"],"every interval vector/point/ray (including degenerate and zero-containing components) and every affine transform chain, every member sample",
"No test instantiates vectors, rays or transforms with intervals.",
["src/math/vectori.rs","src/math/vector.rs","src/math/transform.rs","src/geometry/ray.rs","src/math/interval.rs"],
[("generic instantiation with interval scalars","src/math/vectori.rs, Ray<Interval>, TransformMap impls")],[],["component bounds of results"])
p("C10","Bounding boxes form an exact lattice with consistent queries",
"A box built from any two points has the component-wise minimum and maximum as corners; union is the smallest box containing both (commutative, associative, idempotent, with the default box as neutral element) and is what both addition forms compute; intersection contains exactly the common points. Point membership is closed containment, overlap is symmetric, holds for any two boxes sharing interior volume and fails for separated or merely touching ones; per-axis bounds, diagonal, centre and the longest axis with its extent agree with the corners.",
["inputs"],"every pair/triple of boxes and points, including flat, nested, touching, disjoint and default boxes",
"The only box test is about ray intersection.",
["src/geometry/bbox.rs","src/geometry/primitive.rs"],
[("component min/max","Bbox3::new, union, intersect"),("queries","overlaps, inside, max_extent, Bounded3 defaults")],[],["Bbox3 public API"])
p("C11","A transformed box is the tight bound of the transformed contents",
"Mapping a box by any affine transform, forwards or backwards, yields a well-ordered axis-aligned box that contains the image of every point of the original box and whose every face touches the image of some corner, up to rounding.",
["inputs","programs"],"every box (flat, off-centre, any octant) and every affine transform chain including rotations, mirrors and non-uniform scales",
"No test maps a box.",
["src/geometry/bbox.rs","src/math/transform.rs"],
[("Arvo's method","map_bbox in src/geometry/bbox.rs")],[],["Transform::map/map_inverse on Bbox3"])
p("C12","Ray/box intersection reports exactly the parameter period inside the box",
"A ray limited to parameters [0, limit] intersects a box exactly when some point of that segment lies in the closed box (touching included, also for rays parallel to faces, lying in a face plane, axis-aligned with positive or negative zero components, starting inside, or with an infinite limit), and the reported period is the exact sub-range of parameters inside the box, up to rounding. The yes/no query always agrees with the period query.",
["inputs"],"every box (including flat boxes) and every ray with non-zero direction",
"One test samples 100 generic rays through two faces; no axis-aligned, parallel, in-plane, grazing or flat-box cases.",
["src/geometry/bbox.rs"],
[("slab test","Bbox3::intersect_ray")],[],["Bbox3::intersect_ray, do_intersect"])
p("C13","Box hit records describe the entry point on the box surface",
"Whenever a ray hits a box, the hit record's point lies on the box surface and on the ray at the record's parameter, its normal is the outward unit normal of a face containing that point, and its two tangents are unit, mutually orthogonal and orthogonal to the normal, up to rounding. For a ray starting outside the box the parameter is the start of the period inside the box, and when it enters through the interior of a face the normal is that face's and faces the ray. A hit is recorded exactly when the yes/no query says so.",
["inputs"],"every non-flat box and every ray (any entry face, edges and corners, non-unit directions; origins inside the box are a recorded defect)",
"No test looks at box hit records.",
["src/geometry/bbox.rs"],
[("nearest-face selection","IntersectsRay::intersect for Bbox3")],[],["Bbox3::intersect"])
p("C14","Ray/sphere intersection returns the first visible hit, or none",
"For a sphere clipped by a z range and a maximum azimuth, the query returns the smallest parameter in [0, limit] at which the ray meets the part of the sphere inside the clip ranges (bounds included), and returns nothing exactly when there is none, up to rounding; clip planes at or beyond the poles clip nothing. The hit point lies on the sphere, inside the clip ranges and on the ray at that parameter, and the yes/no query always agrees; origins inside, outside and on the sphere, any direction length and infinite limits are all valid.",
["inputs"],"every sphere (full, partial in z on either hemisphere, partial in azimuth) and every ray, up to cases undecidable within rounding; exact decisions on inputs where the arithmetic is exact",
"One test samples partial spheres in the upper hemisphere only, with origins on a chord, and never uses lower hemispheres, full spheres near the poles or boundary-exact hits.",
["src/geometry/sphere.rs"],
[("stable quadratic solver with ordered roots","solve_quadratic"),("clip tests then fall back to second root","Sphere::intersect_ray")],[],["Sphere::intersect, do_intersect"])
p("C15","Sphere surface records match the documented parameterisation",
"At every hit on a (partial) sphere the surface coordinates are in [0,1]^2 up to rounding and the documented spherical parameterisation evaluated at them gives back the hit point; the tangents are the partial derivatives of that parameterisation, the normal is finite, unit length, outward, and perpendicular to both tangents, everywhere on the sphere including the lower hemisphere and the poles. The sphere's reported area is the area of the visible part (for clip planes between the poles), its stored angle range matches its z range, its box contains it, a record built from two independent tangents has their unit right-handed normal, and a sphere with an empty z range is refused.",
["inputs"],"every hit on every sphere with a visible part of positive area: both hemispheres, any z range within the sphere and any azimuth limit in (-pi, pi]",
"Tests only look at the hit parameter, only on the upper hemisphere.",
["src/geometry/sphere.rs","src/geometry/primitive.rs"],
[("theta/phi from clamped arccosine and atan2","Sphere::new, Sphere::intersect"),("tangent formulae","Sphere::intersect"),("area formula","Sphere::area")],[],["Sphere::intersect record, Sphere::area, fields, bbox"])
p("C16","A primitive list behaves as the union of its members",
"For any number of members of any kind, in any insertion order and nesting, a list's intersection is the record of the member with the smallest hit parameter within the ray's limit (any of them on ties) and is empty exactly when every member misses; its yes/no query holds exactly when some member is hit. Its box is the union of the members' boxes (the default box when empty), and each member added is kept alive with the list and released exactly once.",
["inputs","programs","histories"],"every sequence of insertions and every ray; members are spheres, boxes, transformed primitives, nested lists and user-defined primitives",
"No test uses a list.",
["src/geometry/primitive.rs"],
[("linear scan with shrinking limit","IntersectsRay for PrimitiveList"),("bbox accumulation","Bounded3 for PrimitiveList"),("Rc handles","alloc_primitive")],[("primitives","members in insertion order","PrimitiveList")],["PrimitiveList trait methods, user-defined spy primitive"])
p("C17","A transformed primitive is the primitive moved to world space",
"Intersecting a ray with a primitive placed by a transform hits exactly when the same ray expressed in object space hits the primitive, at the same parameter and with the same surface coordinates, and the yes/no query agrees. The record is in world space: its point lies on the world ray at that parameter, its tangents are the mapped tangents, and its normal is unit length, perpendicular to the mapped tangent plane and on the same side of the ray as in object space; the primitive itself is shown a ray with the same parameter limit, and its box is the mapped box.",
["inputs","programs"],"every affine placement (rotation, mirror, non-uniform scale, nested placements) of every primitive kind and every ray",
"No test uses a transformed primitive.",
["src/geometry/primitive.rs","src/math/transform.rs","src/geometry/ray.rs"],
[("ray to object space, record back to world","IntersectsRay for TransformedPrimitive")],[("otow","object-to-world transform","TransformedPrimitive")],["TransformedPrimitive trait methods, spy primitive"])
p("C18","Bounds never cull a visible hit, for any scene tree",
"For every scene built from spheres, boxes, lists and placements, whenever a ray hits the scene the hit point lies in the box of every enclosing node and the ray intersects each of those boxes at a period containing the hit parameter, up to rounding. Consequently testing a node's box before descending never changes what a ray sees, including for axis-aligned rays lying in a bounding plane.",
["inputs","programs"],"every scene tree up to the generated depth and every ray",
"No test combines primitives with bounds.",
["src/geometry/primitive.rs","src/geometry/sphere.rs","src/geometry/bbox.rs"],
[("conservative boxes","Bounded3 impls"),("slab test","Bbox3::intersect_ray"),("box mapping","map_bbox")],[],["trait methods of every node"])
p("C19","Thin-lens camera rays obey the field of view and the focal plane",
"In camera space every generated ray starts at the point of the lens disc (z=0) that the concentric disk sampler assigns to the lens sample, has unit direction, an unrestricted parameter limit, and passes through the point of the plane z=-focal distance that the film position sees through the lens centre: film x from 0 to 1 spans the full horizontal field of view from left to right and film y spans the same tangent divided by the aspect ratio from bottom to top. Hence all lens samples of one film position meet in that one point, the central lens sample gives the pinhole ray, and the world ray is this ray carried by the inverse of the view transform.",
["inputs","configurations"],"every rigid view, 0<fov<pi, focal length below focal distance, lens radius >= 0 and aspect ratio > 0, and every film/lens sample in the unit square",
"There is no camera test.",
["src/cameras/thin_lens.rs","src/cameras/camera.rs"],
[("Gaussian lens equation for the film distance","ThinLensCamera::new"),("film to lens centre to focal plane","ThinLensCamera::generate_ray"),("lens sampling","concentric_sample_disk")],[],["ThinLensCamera::generate_ray"])
p("C20","Disk sampling maps the unit square onto the unit disk uniformly",
"Both samplers send every point of the unit square into the closed unit disk and preserve relative area, so equally sized regions of the square cover equally sized regions of the disk and together the whole disk once. The concentric sampler additionally sends concentric squares to concentric circles of the same relative size, the centre to the centre, and is continuous everywhere including the diagonals; the polar sampler uses radius sqrt(y) and angle 2*pi*x.",
["inputs"],"every point of [0,1]^2, including edges, corners, diagonals and the centre",
"There is no sampling test.",
["src/cameras/camera.rs"],
[("polar map","uniform_sample_disk"),("Shirley concentric map","concentric_sample_disk")],[],["sampler outputs"])
p("C21","Valid use never panics, misuse is refused, memory stays safe",
"No call of the public API with valid, finite, non-degenerate arguments panics or makes an invalid memory access, and results are a deterministic function of the arguments. Accessing a component, row, column or element outside a vector or matrix always panics instead of returning data; mapping a point to infinity, or mapping a vector by a projection under which it has no direction, is refused rather than silently answered.",
["inputs","histories"],"every sequence of public calls on valid data, and every out-of-range index",
"Tests only make in-range accesses and run without sanitizers.",
["src/math/vector.rs","src/math/transform.rs","src/geometry/primitive.rs"],
[("bounds-checked array indexing","vector.rs, transform.rs"),("assertions on homogeneous weight","map_vector, map_point")],[],["panics, AddressSanitizer and Miri reports"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
