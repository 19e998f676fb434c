#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (run by hand; the output is committed)."""
import json, os
V="src/vector.rs"; M="src/matrix.rs"; Q="src/misc.rs"; C="src/convert.rs"; P="src/packed_vector.rs"; K="src/collision.rs"; L="src/lib.rs"; G="src/globals.rs"; B="build.rs"
CFG=" in every build configuration (scalar fallback, SSE2 ... AVX2/FMA/F16C)"
P_=[]
def p(id,title,statement,over,text,why,files,mech,observe=None):
    assert len(title)<=80,(id,len(title))
    P_.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe or ["return values and out-parameters of the public functions"],hook_needed=None)))
IC=["inputs","configurations"]
p("C01","Lane routing moves exactly the named lanes, bit for bit",
 "Permute, swizzle (run-time and type-level forms), select, select-control, merge, shift, rotate, insert and splat return, in each output lane, a bit-exact copy of the input lane the documentation names for those indices. This holds for every legal index or control combination and every 32-bit lane content (signalling NaNs and integer patterns included)"+CFG+".",
 IC,"all 4^4 swizzles, all 8^4 permutes, all 16 select controls (and arbitrary bit controls), all shift/rotate/insert arguments x all lane tags x all configurations",
 "The tests try a handful of index tuples on 1.0..8.0; the shuffles are separately coded per instruction set and per special-cased tuple.",
 [V,L],[("XMVectorSwizzle / XMVectorPermute / XMVectorSelect bodies per cfg",V),("XMVectorPermute and XMVectorSwizzle traits with specializations",L)])
p("C02","Vectors, matrices and memory behave as independent 32-bit cells",
 "Any sequence of component gets, sets (by name, by index, float or integer), constructors, loads and stores behaves as if a vector were four and a matrix sixteen independent cells: each operation changes exactly the components it names, and bits survive unchanged (the 3x3 matrix load may normalise the sign of zero). Loads fill absent components as documented (zeros, or the identity row/column; 3x4 is transposed) and stores write exactly the bytes of the destination structure and nothing beside it.",
 ["histories","inputs","configurations"],"all operation sequences up to a depth over a small alphabet of bit patterns, all load/store forms x all cell tags, all configurations",
 "Tests load or store one constant each and never check neighbouring memory, untouched lanes, special bit patterns or sequences.",
 [C,V,L],[("XMLoad*/XMStore*",C),("XMVectorGet*/XMVectorSet*",V),("xm_struct conversions and constants",L)],["returned vectors, destination memory and the bytes around it"])
p("C03","Comparison and classification results agree with IEEE-754 lane semantics",
 "Every comparison (equal, integer equal, near-equal, greater, less, in-bounds, NaN, infinity, identity) returns per-lane all-ones/all-zeros masks, booleans or records that match the IEEE-754 (or integer) comparison of exactly the lanes the function covers; lanes outside a 2D/3D form never influence it. The recording forms report all-true, all-false or mixed exactly, and the record query helpers read them consistently.",
 IC,"all operand pairs over an alphabet of special floats in every lane position, all true/false lane patterns, all configurations",
 "Tests cover EqualR-style functions on a few finite constants; NaN, signed zero, infinities, unused lanes and the ordered forms are not exercised.",
 [V,Q,M,L],[("XMVector{,2,3,4}Equal... families",V),("XMComparison* helpers",L),("XMQuaternion*/XMPlane* predicates",Q),("XMMatrixIs*",M)])
p("C04","Bitwise, min/max, clamp, saturate, abs and negate are lane-exact",
 "The integer logic operations (and, and-complement, or, nor, xor) compute the exact 32-bit result in every lane; minimum, maximum, clamp, saturate, absolute value and negation return the exact value for every non-NaN lane including infinities and denormals. No lane depends on another lane.",
 IC,"all operand tuples over the special-value alphabet in every lane position, all 2^32 values for the unary ones (thorough), all configurations",
 "No test calls these functions at all except indirectly.",
 [V],[("XMVectorAndInt..XMVectorXorInt, XMVectorMin/Max/Clamp/Saturate/Abs/Negate",V)])
p("C05","Round, truncate, floor and ceiling are exact for every float",
 "For every 32-bit float in every lane, round returns the nearest integer with ties to even, truncate rounds toward zero, floor toward minus infinity and ceiling toward plus infinity, numerically exactly (the sign of a zero result is unspecified). Infinities map to themselves and NaN to NaN; all build configurations agree.",
 IC,"all 2^32 float bit patterns (thorough; a complete exponent x structured-mantissa grid in quick), all lanes, all configurations",
 "There are no tests of the rounding functions; the SSE2, SSE4.1 and scalar bodies are three different algorithms with thresholds at 2^23 and .5.",
 [V,L],[("XMVectorRound/Truncate/Floor/Ceiling",V),("round_to_nearest, floorf/ceilf/modff helpers",V)])
p("C06","Number format conversions are correct for every encoding",
 "Half-to-float is exact for all 65536 half encodings and float-to-half rounds to nearest-even with correct overflow and denormals for every float. Integer-to-float conversions scale by the exact power of two and are correctly rounded (unsigned: within one unit in the last place); float-to-integer conversions truncate after scaling and saturate at both ends; splatted integer and binary constants and degree/radian conversion have their documented value.",
 IC,"all 65536 halves, all 2^32 floats (thorough) for half rounding, all exponents 0..31 x integer/float boundary alphabets x lanes x configurations",
 "The tests convert -1, 0 and 1 to half and back and never call the integer conversions.",
 [P,C,L],[("XMConvertHalfToFloat/XMConvertFloatToHalf software and F16C bodies",P),("XMConvertVector*",C),("XMVectorSplatConstant, XMVectorSetBinaryConstant, XMConvertTo*",L)])
p("C07","Lane arithmetic and interpolation compute the documented formula",
 "Add, subtract, multiply, divide, fused/unfused multiply-add, negative-multiply-subtract, scale, sum, reciprocal, square root, reciprocal square root and the overloaded vector operators compute the IEEE result in each lane independently (estimates within their advertised relative error); division by zero, infinities and NaN propagate as IEEE prescribes. Linear, Hermite, Catmull-Rom and barycentric interpolation, scalar and per-lane weight forms, equal their defining polynomial.",
 IC,"all operand tuples over small exact and special-value alphabets per lane position, every binary exponent, all configurations",
 "No test checks the arithmetic functions; FMA and non-FMA, SSE3/SSE4 bodies differ.",
 [V],[("XMVectorAdd..XMVectorReciprocalSqrt, XMVectorLerp..BaryCentricV, operator impls",V)])
p("C08","Transcendental functions stay within their error bounds on all inputs",
 "Sine, cosine, tangent, their inverses, two-argument arctangent, hyperbolics, exponentials and power - vector, scalar, combined and estimate forms - return, in each lane independently, a value within the documented accuracy of the mathematical function over its whole stated domain. Documented special values (signed zeros, infinities and the quadrant table of the two-argument arctangent, domain ends of the inverse functions, exponential overflow/underflow) are honoured"+CFG+".",
 IC,"a complete exponent x mantissa grid (thorough: far denser) of the domain in every lane, all quadrant/special combinations, all configurations",
 "Tests check sin/cos/tan at a few angles of one lane in the default tolerance.",
 [V,Q,G],[("XMVectorSin..XMVectorATan2Est",V),("XMScalar*",Q),("polynomial coefficients",G)])
p("C09","Angle wrapping and modulo return the congruent value in range",
 "Wrapping an angle (vector and scalar forms, and after adding or subtracting two angles in range) yields a value in [-pi, pi] up to rounding that differs from the exact angle by a whole number of turns. The vector modulo returns V1 - V2*truncate(V1/V2) in each lane.",
 IC,"a complete grid of angles across many turns including the exact wrap boundaries, all lane positions, all configurations",
 "No test calls these functions.",
 [V,Q],[("XMVectorModAngles/AddAngles/SubtractAngles/Mod",V),("XMScalarModAngle",Q)])
p("C10","Dot, cross, length and normalisation are right in 2, 3 and 4 dimensions",
 "Dot, cross, squared length, length, reciprocal length (exact and estimate), normalisation, length clamping and orthogonal vectors equal their mathematical definition using exactly the lanes of their dimension, with scalar results replicated to all lanes. Normalising a zero vector gives zero, and results scale correctly over the whole exponent range where squares neither overflow nor underflow.",
 IC,"all vectors over an exact integer alphabet in all lanes incl. junk in unused lanes, all binary exponents, all configurations",
 "No test covers these; each has up to four instruction-set specific bodies with different shuffle patterns.",
 [V],[("XMVector{2,3,4}Dot/Cross/Length*/Normalize*/ClampLength*/Orthogonal",V)])
p("C11","Derived geometry (reflect, refract, angles, lines) matches its definition",
 "Reflection, refraction (including total internal reflection returning zero), angles between vectors or normals, point-line distance, 2D line intersection (parallel lines give NaN, coincident ones infinity), splitting into parallel and perpendicular components and the Fresnel term (absolute value under its root) equal their mathematical definition. Lanes beyond the function's dimension do not influence the documented result.",
 IC,"all configurations of vectors/lines over a small lattice including degenerate and parallel ones, all refraction indices of a menu, all configurations",
 "No test covers these functions.",
 [V,Q],[("XMVector{2,3,4}Reflect/Refract/Angle*, LinePointDistance, IntersectLine, ComponentsFromNormal",V),("XMFresnelTerm",Q)])
p("C12","Vector-by-matrix transforms and viewport projection are exact row-vector maths",
 "Transforming a 2D, 3D or 4D vector, coordinate or normal by a matrix equals the row-vector product with the documented implicit w and, for coordinates, division by the resulting w. Projecting to a viewport composes world, view and projection with the viewport mapping, and unprojecting is its inverse.",
 IC,"all unit-vector/matrix-cell probes, all exact integer operand combinations of a small alphabet, a lattice of viewport/camera set-ups, all configurations",
 "No test calls the transform functions; FMA, SSE and scalar bodies differ.",
 [V],[("XMVector{2,3,4}Transform*, XMVector3Rotate, XMVector3Project/Unproject",V)])
p("C13","Matrix algebra: product, transpose, determinant and inverse obey matrix laws",
 "Matrix product, product-transpose, transpose, tensor product, determinant, inverse, identity and the overloaded matrix operators equal their mathematical definition cell by cell for every cell position. An invertible matrix times its inverse is the identity within conditioning-scaled rounding, and the reported determinant matches.",
 ["inputs","configurations","histories"],"all pairs of elementary/sparse integer matrices, all signed permutation matrices, products of generator sequences, all configurations",
 "Tests multiply one pair of matrices and never invert; the AVX2, SSE and scalar products are separate code.",
 [M],[("XMMatrixMultiply/MultiplyTranspose/Transpose/Inverse/Determinant and operators",M)])
p("C14","Transform, view and projection builders produce the documented matrices",
 "Translation, scaling, axis and arbitrary rotations, roll-pitch-yaw, the 2D/3D (affine) transformation composites, reflection, shadow, look-at/look-to and all perspective and orthographic projections (left- and right-handed) produce the documented row-vector matrix in every cell. Consequently each maps its defining points (pivot, eye, focus, near/far plane corners, plane points) where the documentation says.",
 IC,"a complete parameter grid of each builder including axis-aligned, negative and mixed-sign parameters, all cells, all configurations",
 "No test calls the builders (one doc-test aside).",
 [M],[("XMMatrixTranslation..XMMatrixOrthographicRH",M)])
p("C15","Quaternion algebra and interpolation obey quaternion laws",
 "Multiplication (documented order), conjugate, inverse, length, normalisation, exponential and logarithm equal their algebraic definition. Slerp, squad and barycentric interpolation of unit quaternions follow the shortest arc, hit their end points, move with constant angular velocity and stay unit length, for any pair including identical, nearly identical, negated and opposite ones.",
 IC,"all quaternion tuples of exact integer alphabets and of the 24/48-element rotation group plus small-angle neighbours, a grid of weights, all configurations",
 "No test calls them apart from one squad-setup doc example.",
 [Q],[("XMQuaternion*",Q)])
p("C16","Matrix, quaternion, axis-angle and Euler forms describe the same rotation",
 "A rotation built from an axis and angle, from roll-pitch-yaw, or from a quaternion acts identically on every vector through its matrix, its quaternion (rotate/inverse-rotate) and its converted forms; converting matrix to quaternion to matrix, or quaternion to axis-angle and back, returns the same rotation. Composing rotations in any sequence gives the same result in every representation.",
 ["histories","inputs","configurations"],"all states of the octahedral rotation group reached by all generator sequences in each representation, plus a dense grid of rotations covering every branch of the conversions, all configurations",
 "No test converts between representations.",
 [Q,M,V],[("XMQuaternionRotation*/ToAxisAngle/RotationMatrix",Q),("XMMatrixRotation*",M),("XMVector3Rotate/InverseRotate",V)])
p("C17","Decomposing an affine matrix recovers scale, rotation and translation",
 "Decomposing a matrix built from non-zero scale, rotation and translation succeeds and returns parts that recompose to the same matrix, with the rotation a unit quaternion, for every ordering and sign of the scales. A scale that vanishes (below the documented 1e-4 threshold) still decomposes, with the missing axis filled in. Matrices that contain no rotation (sheared or singular beyond tolerance) are rejected.",
 IC,"all scale orderings/ties/signs x all rotations of a grid x translations, a menu of sheared matrices, all configurations",
 "One test decomposes one matrix; the axis-ranking has 6+ branches.",
 [M],[("XMMatrixDecompose, RANKDECOMPOSE",M)])
p("C18","Plane construction, evaluation, intersection and transform are consistent",
 "A plane built from points or point and normal contains those points; plane dots, normalisation, line and plane-plane intersection return the mathematically defined values (points lying on the plane, documented NaN for parallel cases), and transforming a plane by the inverse transpose keeps it attached to transformed points.",
 IC,"all lattice planes, points and lines of a bounded lattice incl. parallel/degenerate ones, a menu of transforms, all configurations",
 "No test calls the plane functions.",
 [Q],[("XMPlane*",Q)])
p("C19","Intersection tests between volumes and triangles are geometrically correct",
 "Intersects between any two of sphere, axis-aligned box, oriented box, frustum and triangle returns true exactly when the closed solids share a point (away from rounding-level tangency and near-coplanarity), independent of argument order where both orders exist. Exactly representable contact (touching axis-aligned faces, edges and corners, tangent spheres) counts as sharing a point.",
 IC,"all relative placements of a bounded lattice of positions, sizes and orientations that exercises every separating-axis and closest-feature case, all configurations",
 "No test calls any Intersects function.",
 [K],[("Intersects* of BoundingSphere/BoundingBox/BoundingOrientedBox/BoundingFrustum and triangle_tests",K)])
p("C20","Containment classification is geometrically correct",
 "Contains on sphere, box, oriented box and frustum, given a point, triangle or any other volume, reports CONTAINS exactly when the argument lies entirely inside, DISJOINT exactly when they share no point, and INTERSECTS otherwise (away from rounding-level tangency). A frustum as container classifies other volumes by its six planes (DISJOINT when wholly beyond one of them, CONTAINS when inside all). CONTAINS is never reported where the matching intersection test says no. With exactly representable contact the boundary belongs to the volume: a point on it is contained, and so is a shape reaching it from inside (a frustum as container reports INTERSECTS for such a shape); a shape touching from outside INTERSECTS.",
 IC,"all relative placements of a bounded lattice of positions, sizes and orientations, all configurations",
 "No test calls any Contains function.",
 [K],[("Contains* of all four volumes",K)])
p("C21","Ray tests report the true hit and nearest distance",
 "Casting a ray with unit direction at a sphere, box, oriented box, frustum or triangle reports a hit exactly when the half-line meets the solid, and the distance reported on a hit from outside is the distance to the first point of the solid (misses leave distance zero). From an origin inside, the sphere reports its exit distance, the frustum zero and boxes a non-positive entry parameter. Axis-parallel rays running exactly along a face or edge, or starting exactly on a box, frustum end plane or triangle, count as meeting the solid.",
 IC,"all origins and directions of a lattice (axis-parallel, zero components, origins inside/behind included) against each volume, all configurations",
 "No test casts a ray.",
 [K],[("IntersectsRay of all volumes and triangle_tests",K)])
p("C22","Plane-side classification and six-plane containment are correct",
 "Classifying a sphere, box, oriented box, frustum or triangle against a plane reports front, back or intersecting exactly per the signed distances of its points; testing against six planes reports disjoint when entirely outside some plane, contains when entirely inside all, otherwise intersects; a shape exactly touching a plane intersects it.",
 IC,"all planes and volumes of a lattice of orientations and offsets, all six plane slots, all configurations",
 "No test calls these functions.",
 [K],[("IntersectsPlane, ContainedBy, internal FastIntersect*Plane",K)])
p("C23","Constructed and merged bounding volumes enclose their sources tightly",
 "A volume created from points, from another volume, by merging two volumes, or by any sequence of such steps encloses everything it was built from (within rounding). Axis-aligned boxes and merges are the minimal ones; a sphere from points has radius at most the largest point distance and is the minimal one when its farthest pair spans it and is extremal along an axis, an oriented box from points has unit orientation and touches a point on each of its sides.",
 ["histories","inputs","configurations"],"all point sequences of a small lattice up to a length (duplicates, collinear, coplanar, reversed included), all merge sequences up to a depth, all configurations",
 "Two tests build a sphere and an oriented box from one fixed point set.",
 [K],[("CreateFromPoints/CreateMerged/CreateFrom* of all volumes",K)])
p("C24","Corners, frustum planes and transformed volumes describe the same solid",
 "Corner lists are the eight corners of the volume in the documented order (boxes: --+, +-+, +++, -++, then the same at -z; frustum: left-top, right-top, right-bottom, left-bottom at near, then far), and frustum planes bound exactly the frustum spanned by its corners. A frustum created from any perspective matrix (left- or right-handed) spans the unprojected clip-space corners. Transforming a volume by a scale-rotate-translate matrix or by scale/rotation/translation gives the volume of the transformed solid (the enclosing one for axis-aligned boxes and non-uniform sphere scales; a frustum under non-uniform scale keeps its slopes and has its depths scaled by the largest factor).",
 IC,"all projection and transform parameter grids, all corners and planes incl. each optional output alone, all configurations",
 "No test calls these functions.",
 [K],[("GetCorners/GetPlanes/CreateFromMatrix/TransformMatrix/TransformDecomposed",K)])
p("C25","Every build configuration gives the same answers",
 "For the same inputs every public function returns, in every supported build configuration (scalar fallback, SSE2, SSE3, SSE4.1, AVX, F16C, FMA, AVX2, the favour-Intel variant), the same predicate results, the same bits for data movement and logic, and numerically the same values within the precision of the function.",
 IC,"every public function x an alphabet of operands x all supported configurations, compared pairwise",
 "The suite runs per configuration but its assertions sample constants and never compare configurations with each other.",
 [B,V,M,Q,C,P,K,L],[("cfg selection in build.rs",B),("per-cfg function bodies","src/*.rs")])
p("C26","No public function panics, hangs or corrupts memory on any lane contents",
 "Called with arguments that respect the documented index and size preconditions, every public function returns normally for arbitrary lane contents - zeros, denormals, huge values, infinities and NaN included - without panicking, looping forever or writing outside its out-parameters. Arithmetic inside the library never trips integer overflow checks.",
 IC,"every public function x special-value alphabets in every lane, overflow checks on, watchdogged, all configurations",
 "Tests use ordinary finite constants only.",
 [V,M,Q,C,P,K,L],[("all public functions","src/*.rs")],["normal return, panic hook, guard bytes, wall-clock watchdog"])
out=os.path.join(os.path.dirname(__file__),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P_: f.write(json.dumps(x)+"\n")
import jsonschema
s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for x in P_: jsonschema.validate(x,s)
print(len(P_))
