import json
P=[]
def p(id,title,st,over,q,why,files,mech,observe=None):
    d=dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=q),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe or [],hook_needed=None))
    assert len(title)<=80,(id,len(title))
    P.append(d)
PF='src/primefield/mod.rs'; QF='src/quadraticfield/mod.rs'
W='src/weierstrass/';M='src/montgomery/';E='src/edwards/';I='src/instances/'
I_=["inputs"]
p("C01","Prime-field ring operations are exact modulo p",
"Adding, subtracting, multiplying, negating and squaring elements of GF(p) returns exactly the corresponding residue modulo p, always as the canonical representative in [0, p). This holds for every pair of elements, every modulus, and identically for every by-value and by-reference form of the operators; building an element from any integer likewise reduces it to [0, p), and two elements of a field compare equal exactly when their residues coincide.",
I_,"all p>=2, all pairs of elements (also reached by earlier operations), all operand forms",
"No test exercises field arithmetic directly: it is only reached with generator coordinates of a few curves.",
[PF],[("operator implementations and the reduction helper",PF),("element construction from an integer",PF)],["operator results, equality and serialisation of the result"])
p("C02","Operands of different structures are never combined",
"Arithmetic between elements of different prime fields, elements of different quadratic fields, scalars of different group orders, points of different curves, or a point and a scalar of another group order is refused by a panic instead of yielding a value, whichever operand form is used. Operands of the same structure are never refused. Comparing elements or points of different structures for equality answers false rather than panicking.",
I_,"all pairs of structures and all values in them, all operators and operand forms",
"No test ever mixes two structures; the number of operator forms (by value and by reference) is far above what is called.",
[PF,QF,W+"scalar.rs",M+"scalar.rs",E+"scalar.rs",W+"point.rs",M+"point.rs",E+"point.rs"],[("equality guard in front of each operator","all operator implementations"),("equality implementations","point.rs, primefield, quadraticfield")])
p("C03","Prime-field inversion and division",
"For p an odd prime, the inverse of a nonzero element times that element is 1, the inverse of zero is zero, and a/b equals a times the inverse of b; the three ways of inverting (one divided by x, x to the power minus one, and division) agree. The shorthand powers accept only the exponents 2 (square) and -1 (inverse), and the reciprocal accepts only the numerator 1; any other value is refused by a panic.",
I_,"all primes p, all elements including zero, all 32-bit exponents and numerators",
"Tests do not call inversion directly and never with zero or a refused exponent.",
[PF],[("inversion by exponentiation with p-2",PF),("division, exponent and reciprocal operators",PF)])
p("C04","Prime-field exponentiation matches the power function",
"Raising an element of GF(p), p prime, to a big unsigned or signed integer exponent e returns x^e: e = 0 gives 1, negative exponents use the inverse, zero raised to any positive exponent (and to any negative one) is zero. The signed and the unsigned forms agree on nonnegative exponents.",
I_,"all primes p, all elements including zero, all big-integer exponents including 0, multiples of p-1 and negative ones",
"Exponentiation is reached only through fixed exponents used by square roots and inversions.",
[PF],[("exponentiation operators",PF)])
p("C05","Prime-field square test and square root",
"For an odd prime p an element is reported as a square exactly when it is zero or a quadratic residue. For every p congruent to 3 modulo 4 or 5 modulo 8 the root returned for a square really squares back to it; for the other residue classes, which are documented as unsupported, the root is refused by a panic and never returned wrong.",
I_,"all odd primes p by residue class modulo 16, all elements including zero",
"Tests take roots of a handful of curve values over three fixed primes; zero and the sign branch of the 5 mod 8 method are not reached.",
[PF],[("Euler-criterion test",PF),("precomputed exponents per residue class and root computation",PF)])
p("C06","Prime-field byte strings are fixed-width and invertible",
"Serialising an element yields exactly ceil(bitlen(p)/8) bytes, big-endian or little-endian (each the reverse of the other), padded with zeros on the most significant side; deserialising them with the matching byte order returns the same element. Deserialising an arbitrary byte string of any length returns the value of that string modulo p and never fails.",
I_,"all moduli, all elements (in particular those with leading zero bytes and zero), all byte strings",
"Only generator coordinates, which have full width, are serialised by tests.",
[PF],[("fixed-width padding",PF),("byte-order conversions",PF)])
p("C07","Prime-field construction from integers and numerals",
"Converting any signed or unsigned 8- to 64-bit integer yields its residue modulo p, negative values included. Converting text yields the residue of the numeral it denotes: optional leading minus, then decimal or a 0x / 0o / 0b prefixed numeral, and the empty text denotes zero; a text with no digits after its sign or prefix, or with a character foreign to its radix after its digits, is refused by a panic. The field reports its modulus unchanged and its width as ceil(bitlen(p)/8) bytes.",
I_,"all integers of the eight machine types, all well-formed numerals in the four radices with either sign, all moduli",
"Tests only build the constants of the shipped curves.",
[PF,"src/ops.rs"],[("integer and text factories",PF),("lifting of native values",'src/ops.rs')])
p("C08","Quadratic-field ring operations are exact",
"Elements of GF(p^2) behave as a+b*i with i^2 = -1: sums, differences, products, negation and squares of any two elements equal the component formulas modulo p. This holds for every operand form, every modulus and every pair of elements, and zero, one and embedded integers are the elements they name; two elements of a field compare equal exactly when both components agree.",
I_,"all p, all pairs of elements, all operand forms",
"There is no test of the quadratic field other than constructing it in a doc example.",
[QF],[("component-wise operators",QF)])
p("C09","Quadratic-field inversion and division",
"For a prime p congruent to 3 modulo 4, the inverse of a nonzero element of GF(p^2) times that element is 1, the inverse of zero is zero, and a/b is a times the inverse of b, in every way of writing it. The shorthand powers accept only 2 and -1 and the reciprocal only numerator 1; anything else is refused by a panic.",
I_,"all primes p = 3 mod 4, all elements including zero and purely imaginary ones",
"No test inverts a quadratic-field element.",
[QF],[("inversion via the norm",QF)])
p("C10","Quadratic-field exponentiation matches the power function",
"Raising an element of GF(p^2) to a big unsigned or signed exponent e returns x^e for every e, including 0, exponents of any number of machine words with any bit pattern, and negative exponents (powers of the inverse).",
I_,"all primes p = 3 mod 4, all elements, all big-integer exponents",
"No test exponentiates a quadratic-field element.",
[QF],[("square-and-multiply over the exponent words",QF)])
p("C11","Quadratic-field square test and square root",
"For a prime p congruent to 3 modulo 4, an element of GF(p^2) is reported as a square exactly when it is one (zero included), and the root returned for a square squares back to it, including when the element lies in the base field. For any other prime the root of a nonzero element is refused by a panic.",
I_,"all primes p = 3 mod 4, all elements including zero, base-field elements and the exceptional case of the method",
"No test takes a root in the quadratic field.",
[QF],[("norm-based square test",QF),("root by precomputed exponents",QF)])
p("C12","Quadratic-field byte strings and conversions",
"An element a+b*i serialises to the fixed-width encodings of a then b, and deserialising that string with the same byte order returns the element; byte strings of any other length are rejected with an error, never a panic. Integers embed as a+0*i and the text form \"a,b\" denotes a+b*i, each reduced modulo p; a text with fewer or more than two components is refused by a panic.",
I_,"all moduli, all elements, all byte strings of every length, all integers, well-formed pairs and texts with another number of components",
"No test serialises or parses a quadratic-field element.",
[QF],[("component serialisation and the length check",QF)])
p("C13","The sign function separates every value from its negative",
"The sign of an element is always +1 or -1, the sign of zero is +1, and for odd p the signs of x and of -x differ for every nonzero x. In a prime field the sign is +1 exactly when the canonical representative is even; in the quadratic field it is decided by the real component unless that is zero, then by the imaginary one.",
I_,"all odd p, all elements of both kinds of field, including those with a zero component",
"Tests see the sign of a few generator coordinates only.",
[PF,QF],[("sign implementations","both field modules")])
p("C14","Conditional selection, constants and their predicates agree",
"Conditional selection returns its second operand exactly when the condition is true and its first otherwise, unmodified. Field zero and one are the neutral elements, the is-zero and is-one predicates hold exactly for them, and setting an element to zero or one produces those values while keeping its field.",
I_,"both kinds of fields, all elements, both conditions",
"Tests never assert on these helpers; they are reached with few values.",
["src/field.rs",PF,QF],[("conditional move",'src/field.rs'),("zero/one predicates","field modules")])
p("C15","Fields, curves and elements can be shared between threads",
"Values of every public type can be sent to and shared with other threads, and any number of threads may use the same field, curve, points or maps at once, in any interleaving, with the same results as sequential use: no operation panics, deadlocks or answers differently because another thread is inside an operation on the same field.",
["schedules"],"all interleavings of any operations by any number of threads on shared values, including first use of lazily computed data",
"All tests are single-threaded, and the window of contention in lazily computed data is tiny.",
[PF,QF],[("lazily computed square-root data in shared field parameters","both field modules")])
p("C16","Dropping the last handle releases the field's memory",
"No value of the library keeps itself alive: after any history of operations, once all elements, fields, curves, points and maps have been dropped nothing they allocated stays reachable through reference cycles, so repeated use of square roots or curve construction does not accumulate memory.",
["histories"],"all histories of operations on all types, in particular those that fill cached data",
"Tests do not observe reference counts or memory.",
[PF,QF],[("reference-counted field parameters and the cached data stored in them","both field modules")])
p("C17","Scalar arithmetic is exact modulo the group order",
"For each of the three curve families, building a scalar reduces any integer (negative too) into [0, r), and addition, subtraction, multiplication and negation return the exact residue modulo r in every operand form. For r an odd prime, the reciprocal of a nonzero scalar times the scalar is 1, the reciprocal of zero is zero, division is multiplication by the reciprocal, and a reciprocal with a numerator other than 1 is refused. Where scalars of a family can be compared, two scalars of the same order are equal exactly when their residues coincide.",
I_,"all orders r, all scalars, all operand forms, three families",
"Scalars are never combined in any test.",
[W+"scalar.rs",M+"scalar.rs",E+"scalar.rs"],[("scalar operators and reduction","three scalar modules")])
p("C18","Scalar byte strings are fixed-width",
"Serialising a scalar yields exactly ceil(bitlen(r)/8) bytes holding its value in [0, r), big-endian or little-endian, zero-padded on the most significant side; one order is the reverse of the other. This holds for every scalar, including zero and scalars with leading zero bytes.",
I_,"all orders, all scalars, three families",
"No test serialises a scalar.",
[W+"scalar.rs",M+"scalar.rs",E+"scalar.rs"],[("fixed-width padding","three scalar modules")])
p("C19","Scalar bit iteration yields the binary expansion",
"Left-to-right iteration over a scalar yields exactly its bits from the most significant set bit down to bit 0, and right-to-left iteration the same bits in the opposite order; both yield nothing for zero and terminate without panicking. This holds for scalars of any size and across machine-word boundaries.",
I_,"all scalars (zero, one, word-boundary lengths), three families",
"Iteration is only driven by no more than incidental multiplications; zero is never iterated.",
[W+"scalar.rs",M+"scalar.rs",E+"scalar.rs"],[("bit iterator over 32-bit digits","three scalar modules")])
p("C20","Curve membership is decided exactly by the curve equation",
"For each curve family the membership test accepts a coordinate tuple exactly when it satisfies the homogenised equation of the model: y^2 z = x^3 + a x z^2 + b z^3 for Weierstrass, b y^2 z = x^3 + a x^2 z + x z^2 for Montgomery, and both a x^2 + y^2 = z^2 + d t^2 and x y = t z for twisted Edwards curves.",
I_,"all curve coefficients, all coordinate tuples",
"Tests only ask about valid points; no rejected tuple is tried.",
[W+"curve.rs",M+"curve.rs",E+"curve.rs"],[("membership predicate","three curve modules")])
p("C21","No point off the curve is ever handed out",
"Every way the library offers to obtain a point (construction from coordinates, identity, generator, arithmetic, decoding, maps to curves, rational maps and isogenies) either returns a point that was checked against, or provably satisfies, the equation of the curve it names, or fails; construction from coordinates that do not satisfy the equation is always refused.",
["inputs","histories"],"all inputs to all point-producing operations, in every sequence",
"Tests never offer coordinates off the curve and never inspect the points of most operations.",
[W+"curve.rs",M+"curve.rs",E+"curve.rs",W+"point.rs",M+"point.rs",E+"point.rs",I+"rational_maps.rs"],[("checked constructors","three curve modules"),("all sites that build a point","whole crate")])
p("C22","Weierstrass addition, doubling and negation follow the group law",
"On a short Weierstrass curve without points of order two, adding any two points, doubling, negating and subtracting give the group-law result for every pair of inputs in any projective scaling: equal points, opposite points and the identity included, with no exceptional case. All operand forms agree.",
I_,"all curve coefficients, all pairs of points and projective representatives",
"Tests add generators of shipped curves at most; exceptional inputs are not tried.",
[W+"point.rs"],[("complete addition and doubling formulas",W+"point.rs")])
p("C23","Montgomery addition and negation follow the group law",
"On a Montgomery curve admissible for its complete formula (the shipped ones are), adding any two points, negating and subtracting give the group-law result in any projective scaling: equal points, opposite points, the identity and the point of order two included. All operand forms agree.",
I_,"all curve coefficients, all pairs of points and projective representatives",
"Tests add generators at most; exceptional inputs are not tried.",
[M+"point.rs",I+"mont.rs"],[("complete addition formula",M+"point.rs"),("formula parameter s of each curve",I+"mont.rs")])
p("C24","Edwards addition and negation follow the group law",
"On a twisted Edwards curve with a square and d non-square, adding any two points, negating and subtracting give the group-law result in any projective scaling and leave consistent extended coordinates, with no exceptional case. All operand forms agree.",
I_,"all curve coefficients, all pairs of points and projective representatives",
"Tests add generators at most; exceptional inputs are not tried.",
[E+"point.rs"],[("unified addition formula in extended coordinates",E+"point.rs")])
p("C25","Scalar multiplication is repeated addition",
"For each curve family, multiplying a point by a scalar k returns the sum of k copies of the point: 0 times P and k times the identity are the identity, and the result is the same written point-times-scalar or scalar-times-point, by value or by reference. It holds for every point and every scalar of the curve's order and never panics on them.",
I_,"all scalars including zero, all points including the identity and points of small order, three families, all operand forms",
"Tests multiply by a few scalars; 0 and boundary patterns are not tried.",
[W+"point.rs",M+"point.rs",E+"point.rs",W+"scalar.rs",M+"scalar.rs",E+"scalar.rs"],[("double-and-add loop","three point modules"),("scalar-times-point forms","three scalar modules")])
p("C26","Identity detection and point equality ignore representation",
"The identity test answers true exactly for the neutral element of the curve, in every projective scaling, and false for every other point (the points of small order included). Two points compare equal exactly when they are the same group element of the same curve, whatever their projective representatives. On Montgomery curves the two-torsion test answers true exactly for the finite points with y = 0.",
I_,"all points and all scalings on the three families",
"Tests compare freshly normalised generators only.",
[W+"point.rs",M+"point.rs",E+"point.rs"],[("identity predicate and cross-multiplied equality","three point modules")])
p("C27","Normalisation keeps the point and fixes its representative",
"Normalising any point leaves it the same group element on the same curve; if it is not at infinity its z coordinate becomes one (and, for Edwards, t becomes the product of x and y), so equal points become coordinate-wise identical. Normalising the identity leaves it the identity.",
I_,"all points including the identity and points of order two, any scaling, three families",
"Tests only normalise generator multiples.",
[W+"point.rs",M+"point.rs",E+"point.rs"],[("normalisation","three point modules")])
p("C28","Weierstrass and Montgomery point encoding follows SEC1",
"Encoding a point yields the single byte 00 for the identity, 04 followed by fixed-width big-endian affine x and y when uncompressed, and 02 or 03 (even or odd affine y) followed by fixed-width x when compressed. The result depends only on the group element, not on its projective representative, and encoding does not alter the point.",
I_,"all points including identity and points of order two, both forms, any scaling",
"Tests encode generators only.",
[W+"point.rs",M+"point.rs"],[("encoders","two point modules")])
p("C29","Weierstrass and Montgomery decoding is total, strict and inverts encoding",
"Decoding accepts exactly the SEC1 encodings of points on the curve and returns the encoded point, so decoding what was encoded returns an equal point in both forms, the identity included. Every other non-empty byte string (wrong length, unknown tag, coordinate not below p, no such point) yields an error: it is never accepted and never makes the decoder panic.",
I_,"all byte strings of every length, all points, fields with p = 3 mod 4 or 5 mod 8",
"Tests decode valid encodings of generators; no malformed input is tried.",
[W+"curve.rs",M+"curve.rs"],[("decoders","two curve modules")])
p("C30","Edwards point encoding and decoding follow RFC 8032",
"Encoding yields the affine y in little-endian with the parity of affine x in the top bit of the last byte, of length ceil((bitlen(p)+1)/8), independent of the projective representative. Decoding inverts it for every point, and every byte string that is not such an encoding (wrong length, y not below p, no such point, x zero with sign bit set) yields an error, never a wrong point and never a panic.",
I_,"all points, all byte strings of every length",
"Tests round-trip the generators only.",
[E+"curve.rs",E+"point.rs"],[("encoder",E+"point.rs"),("decoder",E+"curve.rs")])
p("C31","The simplified SWU map computes its specification",
"For valid parameters and every field element u, the simplified SWU map returns the point of the specification: x is the first of the two candidates whose curve value is a square, y its root with the sign of u. It is defined for every u, the exceptional ones included, and lands on the curve.",
I_,"all curves with a and b nonzero over supported primes, all valid z, all u including 0 and exceptional values",
"Tests map a handful of field elements on few curves; the exceptional inputs do not occur.",
[W+"sswu.rs"],[("straight-line map with conditional moves",W+"sswu.rs")])
p("C32","The Shallue-van de Woestijne map computes its specification",
"For valid parameters and every field element u, the map returns the point of the specification: x is the first of the three candidates whose curve value is a square, y its root with the sign of u. It is defined for every u, the exceptional ones included, and lands on the curve.",
I_,"all Weierstrass curves over supported primes, all valid z, all u including exceptional values",
"Tests map a handful of field elements; exceptional inputs do not occur.",
[W+"svdw.rs"],[("constants and straight-line map",W+"svdw.rs")])
p("C33","The Elligator 2 map computes its specification",
"For a Montgomery curve with any nonzero a and b, z non-square and every field element u, the map returns the point whose x is the first candidate with a square curve value and whose y has the sign prescribed by which candidate was taken, on the given curve. It is defined for every u, the exceptional ones included.",
I_,"all Montgomery curves over supported primes (b = 1 or not), all u",
"Tests map few elements on curves with b = 1.",
[M+"elligator2.rs"],[("constants and straight-line map",M+"elligator2.rs")])
p("C34","Composed maps apply the inner map, then the transfer",
"The simplified-SWU map for curves with a or b zero returns the isogeny image of the simplified SWU point of the isogenous curve, and the Edwards Elligator map returns the image under the given rational map of the Montgomery Elligator point, for every field element and with the parameters given. The result always lies on the curve the map was built for.",
I_,"all u, all supplied isogenies and rational maps",
"Tests evaluate a few elements.",
[W+"sswuab0.rs",E+"elligator2.rs"],[("composition","sswuab0 and edwards elligator2")])
p("C35","Map constructors reject invalid parameters",
"Building a map succeeds exactly for parameters that meet its conditions: simplified SWU needs a and b nonzero, z a non-square other than -1 and a square curve value at b/(z a); SvdW needs its three conditions on z; Elligator 2 needs a and b nonzero and z non-square; the composed maps need matching curves. All other parameters are refused by a panic at construction time.",
I_,"all curves, all z, all supplied isogenies and rational maps",
"Tests only construct maps with valid parameters.",
[W+"sswu.rs",W+"svdw.rs",W+"sswuab0.rs",M+"elligator2.rs",E+"elligator2.rs"],[("parameter verification in constructors","map modules")])
p("C36","The edwards25519 to curve25519 map is a birational group isomorphism",
"Pushing a point of edwards25519 and pulling the image back returns the same point, and the converse, for every point in every projective scaling, with the identity and the point of order two corresponding to each other. Generators correspond, and images always lie on the target curve.",
I_,"all points of both curves including the identity and the points of order 2",
"Tests map few points, none of small order.",
[I+"rational_maps.rs"],[("push and pull formulas with exceptional cases",I+"rational_maps.rs")])
p("C37","The edwards448 / curve448 maps are dual 4-isogenies",
"Pushing a point of edwards448 to curve448 and pulling it back (and the converse) multiplies it by four, for every point in every projective scaling; kernel points and the identity go to the identity, and images always lie on the target curve. The maps are those of RFC 7748, in particular generators correspond as specified.",
I_,"all points of both curves including the identity and small-order points",
"Tests map few points, none of small order.",
[I+"rational_maps.rs"],[("push and pull formulas",I+"rational_maps.rs")])
p("C38","The secp256k1 and BLS12-381 isogenies are the standard ones",
"The degree-3 and degree-11 isogenies map every point of their domain, in any projective scaling, to the point of the codomain given by the standard rational functions; the identity and the kernel points go to the identity. They are defined everywhere, land on the codomain and therefore respect the group law.",
I_,"all points of the two domains in any scaling, including identity and kernel points",
"Tests push few normalised points.",
[I+"rational_maps.rs"],[("coefficient tables and evaluation loops",I+"rational_maps.rs")])
p("C39","Shipped curve parameters are the standard, consistent ones",
"Each of the shipped curves has the published prime, coefficients, generator, order and cofactor (for BLS12-381 G1 the effective cofactor of RFC 9380): the generator lies on the curve and has the stated prime order, the order and cofactor are consistent with the size of the curve, and the conditions that make its addition formulas complete hold. Each public identifier selects the curve it names.",
["configurations"],"all eleven shipped curves and all their parameters",
"Tests exercise some generators; a wrong cofactor, an isogenous curve or the formula parameter of one curve goes unnoticed.",
[I+"weier.rs",I+"mont.rs",I+"edw.rs"],[("parameter tables","instances")])
p("C40","Curve objects report the parameters they were built from",
"A curve built from a parameter set uses exactly those values: order, cofactor, field, generator and coefficients reported or used are the ones given, new scalars are reduced by that order, the generator has affine coordinates as given, and the identity is the neutral element. Curves compare equal exactly when all parameters agree.",
["inputs","configurations"],"all parameter sets of the three families, all accessors",
"Tests use the accessors on a few shipped curves without comparing to the tables.",
[W+"curve.rs",M+"curve.rs",E+"curve.rs"],[("construction from parameters and accessors","three curve modules")])
p("C41","Operations are pure: operands unchanged, results deterministic",
"Apart from the explicit in-place operations (normalise, set-zero, set-one), no operation changes the value of an operand or of any other value, and every result depends only on the operand values: there is no global mutable state, no input/output, clock, randomness or environment access, and no unsafe code.",
["histories","inputs"],"all operations, in every order and number of repetitions",
"Tests do not repeat operations or compare operands before and after.",
["src/lib.rs",PF,QF],[("shared parameters are immutable except for write-once caches","field modules")])
p("C42","Text rendering shows canonical values",
"Displaying an element, field, scalar, point or curve shows its canonical decimal values (\"a+i*b\" for the quadratic field, the coordinates of a point in order, the coefficients of a curve in order), and a curve identifier displays its own name. Rendering a prime-field element and parsing it back returns the same element.",
I_,"all values of all displayable types",
"No test checks rendered text.",
[PF,QF,W+"point.rs",M+"point.rs",E+"point.rs"],[("Display implementations","whole crate")])
p("C43","Secret-independent running time",
"The running time of scalar multiplication and field operations does not reveal scalar bits or field values.",
I_,"all secrets","Tests do not measure time; the library explicitly disclaims this guarantee.",
["src/lib.rs",W+"point.rs"],[("none: the crate documents that it is not protected","src/lib.rs")])
p("C44","Hash-to-curve outputs are well distributed",
"For uniformly distributed field elements, the maps to curves reach a constant fraction of the curve and their outputs (as used in hash constructions) are indistinguishable from the distribution the specification claims.",
I_,"distribution over all u","Distributions cannot be settled by examples.",
[W+"sswu.rs",W+"svdw.rs",M+"elligator2.rs"],[("the maps themselves","map modules")])
p("C45","Operations finish within a stated time bound",
"Every operation on the shipped curves finishes within a fixed, practical time bound on ordinary hardware.",
I_,"all inputs and machines","Tests do not bound time and timing depends on the machine.",
["benches/curve.rs"],[("none","benches")])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
print(len(P))
