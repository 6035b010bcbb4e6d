import json
P=[]
def prop(id,title,stmt,qtext,why,files,mech,over=("inputs",)):
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=list(over),text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=[w for n,w in mech][:3],hook_needed=None)))
I="src/math/interval.rs"; IG="src/math/interval_as_gfloat.rs"; S="src/math/scalar.rs"; V="src/math/vector.rs"; T="src/math/transform.rs"; TI="src/math/transform_inverse_impl.rs"; B="src/geometry/bbox.rs"; SP="src/geometry/sphere.rs"; PR="src/geometry/primitive.rs"; R="src/geometry/ray.rs"; CA="src/cameras/camera.rs"; TL="src/cameras/thin_lens.rs"
prop("C01","Interval arithmetic encloses every real result",
 "For intervals with finite endpoints, the sum, difference, product, quotient and negation (with another interval, with a scalar on the right, and in the assigning forms) contain the exact real result of every choice of members, whatever the signs; the quotient is the whole line when the divisor contains 0. The result is no wider than one rounding step beyond the exact range of the operation.",
 "every pair of finite intervals and every pair of reals in them, all sign combinations, rounding included",
 "tests pick a few intervals; the sign cases, the rounding direction of each end and the divisor-contains-zero cases are not sampled together",
 [I,S],[("Add/Sub/Mul/Div/Neg for Interval",I),("next_up/next_down",S)])
prop("C02","Interval roots, squares, abs, min/max, set ops and conversions enclose",
 "Square root, square, absolute value, min, max, monotone maps and one-step widening of an interval contain the exact image of every member and keep the endpoints ordered; the union and intersection are those of the sets of members. Converting an integer or a float of any precision gives an interval that contains the exact value, an interval's approximate value is one of its members, and classification (NaN, finite, infinite) follows the endpoints.",
 "every finite interval (inside the function's domain) and every real member; every i64/f64 converted",
 "no test covers these functions on intervals that straddle zero, or conversions of values a float cannot hold",
 [I,IG,S],[("GFloat/Scalar for Interval",IG),("from_i64/from_f64",S)])
prop("C03","Interval trigonometry encloses every real result",
 "Sine, cosine, tangent, arcsine, arccosine and atan2 of intervals contain the exact image of every member, including intervals holding extrema, wider than a half or full turn, touching the ends of the domain, or containing the origin (atan2); sine and cosine stay within [-1,1]. The interval constants for pi and its fractions contain the exact constants.",
 "every finite interval and every real member",
 "tests use a few angles; the extremum detection, the wide-interval cases and the branch cut need particular combinations of endpoints",
 [I,IG,S],[("sin/cos/tan/asin/acos/atan2 for Interval",IG),("pi constants",S)])
prop("C04","Interval comparisons and predicates are certain",
 "An order comparison or sign predicate on intervals (against an interval or a scalar) answers true exactly when it is true of every choice of members; equality, containment, range, exactness and sameness tests answer exactly for the sets of members, and approximate equality means that corresponding endpoints are approximately equal (against a scalar, also that it is contained).",
 "every pair of finite intervals and every choice of members",
 "tests do not compare touching, overlapping and degenerate intervals systematically",
 [I,IG],[("PartialOrd for Interval",I),("Interval predicates",IG)])
prop("C05","next_up and next_down are the adjacent floats",
 "For every float that is not NaN, next_up returns the smallest float greater than it and next_down the largest float smaller than it (crossing zero and the subnormals correctly, infinities staying put in the outward direction), in single and double precision.",
 "all 2^32 single precision and all 2^64 double precision values",
 "tests try a handful of values; signed zeros, subnormals, binade borders and infinities are bit-pattern cases",
 [S],[("next_up/next_down",S)])
prop("C06","Scalar helpers, limits, constants and classification are right",
 "The scalar helpers (min, max, clamp, signum, abs, square, rounding to limits, classification as zero/NaN/infinite/finite, approximate equality, conversions and mathematical constants) return exactly what their names say for single and double precision and for the integer types.",
 "every bit pattern of every argument",
 "tests sample a few values; NaN, infinities, signed zeros and integer limits are not covered",
 [S],[("Scalar/GFloat/GInteger trait impls",S)])
prop("C07","Vector, point and normal algebra is exact linear algebra",
 "Addition, subtraction, scaling, dot and cross products, norms, normalisation, distances, component-wise min and max, and conversions between vectors, points and normals of any dimension equal the textbook definitions component by component, for the operator and the assigning forms, and normalising a non-zero vector gives a unit vector in the same direction.",
 "every vector of real components (dimensions 2 to 4 instantiated)",
 "tests use small integer vectors with no wrong-index, wrong-sign or tie cases",
 [V,"src/math/vector_traits.rs","src/math/vectori.rs"],[("operators and methods of GenericVector",V)])
prop("C08","Matrix products and inverses are right",
 "Matrix product, transpose and identity follow the definitions for rows, columns and vectors, and whenever a matrix is invertible the computed inverse multiplied by it on either side is the identity. Exact equality of matrices means equality of every entry.",
 "every 4x4 matrix of reals",
 "tests invert a few matrices; a cofactor with a wrong index or sign needs a dense matrix to show",
 [T,TI],[("Mul for Matrix4x4",T),("inverse",TI)])
prop("C09","A transform's two matrices stay inverses of each other",
 "Every way of making a transform (identity, translation, scaling, rotations, look-at, perspective, from a matrix) gives a matrix and inverse matrix whose product is the identity in both orders, and composing or inverting transforms keeps that so.",
 "every parameter for which the transform exists and every composition of such transforms",
 "tests check single constructors on sample parameters",
 [T],[("Transform constructors, Mul, inverse",T)],("inputs","histories"))
prop("C10","Mapping objects by transforms is consistent and invertible",
 "Mapping a point, vector, normal or ray by a transform and then by its inverse gives it back; mapping by a product equals mapping by its factors in turn; points are translated, vectors are not, a mapped ray's points are the mapped points of the ray, and a mapped normal stays perpendicular to mapped tangents.",
 "every affine (and where stated projective) invertible transform and every object",
 "tests map axis-aligned samples by simple transforms, where transposing or confusing the two matrices does not show",
 [T,R],[("Map impls for Transform",T)])
prop("C11","Rotations are rigid and turn the right way",
 "Rotations about the axes and about an arbitrary non-zero axis preserve lengths and angles, keep the axis fixed, have determinant one, turn counter-clockwise by the given angle, and their inverse matrix is the transpose.",
 "every angle and every non-zero axis",
 "tests try a few angles and the coordinate axes only",
 [T],[("rotate_x/y/z, rotate",T)])
prop("C12","look_at and perspective place the view and the frustum",
 "look_at maps the eye to the origin, the direction to the target onto the negative z axis and the up vector into the upper half of the yz plane, rigidly; perspective maps the view frustum between the near and far planes onto x and y in [-1,1] and depth in [0,1], with depth 0 at the near and 1 at the far plane.",
 "every eye, target and up vector not collinear; every field of view in (0, pi) and 0 < near < far",
 "tests use one axis-aligned camera",
 [T],[("look_at",T),("perspective",T)])
prop("C13","Box algebra: union, intersection, containment, measures",
 "A box made from two corners holds exactly the points between them; the union of boxes is the smallest box holding both and the default box is neutral for it, the intersection holds exactly the common points, and containment, overlap, diagonal, centre and longest extent agree with the set of points the box stands for.",
 "every pair of boxes with ordered corners and every point",
 "tests use a few boxes without touching, nested or degenerate positions",
 [B],[("methods of Bbox2/Bbox3",B)])
prop("C14","Ray-box test finds exactly the parameters inside the box",
 "The parameter interval reported for a ray and a box is exactly the set of parameters in [0, tmax] at which the ray is in the box, nothing is reported when that set is empty, and the yes/no test agrees; rays parallel to faces, in a face plane, or starting inside are included.",
 "every ray (zero direction components included) and every box with ordered corners",
 "tests shoot a few rays; slabs with a zero direction component on a face, negative directions and tmax cut-offs are special inputs",
 [B],[("intersect_ray, do_intersect",B)])
prop("C15","Box hit record is the nearest face hit",
 "For a ray starting outside the box, the hit is at the smallest parameter at which the ray is in the box, the hit point is on the ray and on a face, the normal is that face's outward unit normal facing the ray, and the surface derivatives are the unit vectors in the face along which u and v grow in the unfolding of the box that the code documents (four sides in a row, top and bottom attached to the front).",
 "every box with ordered corners and every ray that starts outside it",
 "tests look at a few faces; each of the six faces and sign combinations has its own code",
 [B],[("IntersectsRay for Bbox3",B)])
prop("C16","A mapped box encloses every mapped point",
 "Mapping a box by an affine transform gives a box with ordered corners that contains the image of every point of the box and is the smallest such axis-aligned box.",
 "every affine matrix and every box and point in it",
 "tests map boxes by translations and scalings, where most matrix entries are zero",
 [B,T],[("Map<Bbox3> for Transform",T)])
prop("C17","Ray-sphere intersection is the nearest valid hit",
 "A hit is reported exactly when the ray meets the existing piece of the sphere (between its z limits and below its phi limit) at some parameter in [0, tmax], the reported parameter is the smallest such one, the yes/no test agrees, and the hit point is on the ray and the sphere.",
 "every ray with non-zero direction and every (partial) sphere",
 "tests use full spheres and central rays; the second root, the clipped piece and the tmax cut interact",
 [SP],[("IntersectsRay for Sphere",SP)])
prop("C18","Sphere hit record, bounds and area describe the sphere",
 "At a hit off the poles the texture coordinates follow the sphere's angles scaled to its limits, the surface derivatives are those of the parametrisation and perpendicular to the unit normal, the bounding box holds every point of the piece, and the area is that of the piece; the polar angles stored are those of the given z limits clipped to the sphere.",
 "every (partial) sphere and every hit point off the poles",
 "tests do not look at derivatives, texture coordinates or partial spheres",
 [SP],[("Sphere::new, intersect, area, bbox",SP)])
prop("C19","A list of primitives hits like the nearest member",
 "A list reports a hit exactly when some member is hit within the ray's range, with the smallest parameter and that member's record; the yes/no test agrees; its bounding box is the smallest box holding all members' boxes. The order of the members does not matter.",
 "every list (proved for up to 8 members) of primitives, in every order, and every ray",
 "tests have no list with several overlapping members in different orders",
 [PR],[("PrimitiveList",PR)],("inputs","configurations"))
prop("C20","A placed primitive hits as its object does in object space",
 "A transformed primitive is hit exactly when the object is hit by the ray mapped to object space, at the same parameter, and its record is the object's record mapped to world space: the point on the world ray, mapped tangents, a unit normal perpendicular to them, unchanged texture coordinates; its bounding box is the mapped box.",
 "every affine invertible transform, every primitive and ray",
 "tests do not place primitives under non-rigid transforms",
 [PR,T],[("TransformedPrimitive",PR)])
prop("C21","Disk sampling maps the unit square onto the unit disk",
 "Both disk samplings map every point of the unit square into the unit disk: the uniform one to the polar point with radius sqrt(y) and angle 2 pi x, the concentric one each concentric square to the circle of the same radius, each quarter to its quarter sector proportionally, and the centre to the centre.",
 "every point of the unit square",
 "there are no tests; the diagonal, centre and border cases are special inputs",
 [CA],[("uniform_sample_disk, concentric_sample_disk",CA)])
prop("C22","Thin-lens camera rays start on the lens and meet in focus",
 "For every film and lens sample the generated ray starts at the sampled lens point, has unit direction in view space, is unbounded, and passes through the point of the plane of focus that the film sample sees through the lens centre, so all lens samples of one film sample meet there; field of view, aspect ratio and the view transform have their usual meaning.",
 "every camera (focal distance beyond the focal length, field of view in (0, pi), any affine view) and every sample",
 "there are no camera tests",
 [TL,CA],[("ThinLensCamera::new, generate_ray",TL)])
prop("C23","Vectors and transforms over intervals keep enclosing",
 "Vector operations and mappings of points, vectors, normals and rays whose components are intervals give intervals that contain the result for every choice of real components inside the operands; converting a vector to intervals contains it, and converting an interval vector to scalars picks members.",
 "every vector and point of intervals, every transform of intervals, every choice of members",
 "no test maps interval vectors with a choice of members",
 [V,T,I],[("GenericVector<Interval>, Transform<Interval>",V)])
open('/verif/properties.jsonl','w').write("".join(json.dumps(p)+"\n" for p in P))
