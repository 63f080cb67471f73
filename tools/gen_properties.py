#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one source for titles/statements)."""
import json
P=[]
def p(id,title,statement,qtext,why,files,mech,over=("inputs",),state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":list(over),"text":qtext},
      "why_tests_cant":why,"anchors":a})
RAT="src/core/num/rat.rs"; INT="src/core/num/int.rs"; TR="src/core/num/traits.rs"
MD="src/poly/mdeg.rs"; OR="src/poly/ord.rs"; EL="src/poly/elts.rs"; CO="src/poly/comp.rs"; DI="src/poly/display.rs"
MA="src/linalg/mat.rs"; AL="src/linalg/algorithm.rs"; UT="src/linalg/util.rs"
ST=[("Rational","numerator and denominator; value is numer/denom",RAT)]
p("C01","Rationals are always in lowest terms with a positive denominator",
 "Every rational number obtained from the public constructors, conversions and arithmetic (including powers, reciprocals, negation, assignment operators, sums and products) has a positive denominator that shares no common factor with its numerator, zero being 0/1. Equal rationals therefore compare equal and hash equal however they were computed.",
 "all operand values whose exact intermediate results fit in 64 bits, all operations, all sequences of operations",
 "test_rational checks seven constructions, none of which needs a reduction after an addition, a negative power or a reciprocal.",
 [RAT,INT,TR],[("Rational::new normalises with gcd and the sign of the denominator",RAT),("raw constructor only used where lowest terms is preserved",RAT)],over=("inputs","histories"),state=ST)
p("C02","Rational arithmetic computes the exact value",
 "Addition, subtraction, multiplication, division, negation, reciprocal, integer powers of either sign, the assignment forms, sums and products of rationals denote exactly the corresponding operation on the fractions. Converting an integer or a pair of integers to a rational denotes that integer or that fraction.",
 "all operand values whose exact intermediate results fit in 64 bits",
 "test_rational has one example per binary operator and none for powers, reciprocals, signs, sums, products or the assignment operators.",
 [RAT,TR],[("numerator/denominator formulas of each operator impl",RAT)])
p("C03","A rational with denominator zero is never produced",
 "Every public operation on rationals that would need a zero denominator (constructing n/0, dividing by zero, the reciprocal, inverse or a negative power of zero) panics instead of returning a value.",
 "all public operations that return rationals, all operands",
 "No test exercises a zero divisor; the guard sits in one constructor, and any other way of building a rational bypasses it.",
 [RAT,TR],[("zero test in Rational::new and Rational::recip",RAT)])
p("C04","Comparing rationals is the numeric order",
 "The comparison of two rationals gives less, equal or greater exactly when the first fraction is numerically less than, equal to or greater than the second, and the partial comparison never fails and always agrees with the total one.",
 "all pairs of rationals whose cross products fit in 64 bits",
 "No test compares two rationals by order.",
 [TR],[("Ord::cmp by cross multiplication; PartialOrd delegates to it",TR)])
p("C05","Zero and one of every numeric type are the true identities",
 "For every numeric type of the library and every primitive type it supports, the zero constant is the number 0 and the one constant the number 1, the zero test accepts exactly the values equal to 0, and the one test exactly the values equal to 1.",
 "all 16 supported numeric types, all values",
 "The tests never call the tests for zero or one on anything but values that flow through a polynomial computation, and not for most primitive types.",
 [TR],[("Zero and One impls (macro generated and hand written)",TR)],over=("inputs","configurations"))
p("C06","Integer sign, absolute value, gcd, lcm and powers are mathematically right",
 "For integers, the greatest common divisor is the nonnegative greatest common divisor for operands of any sign (and the absolute value of the other operand when one is 0), the least common multiple is the smallest nonnegative common multiple (0 when an operand is 0), and sign, absolute value, sign tests, powers and the arithmetic operators agree with ordinary integer arithmetic.",
 "all integers for which the exact result fits in 64 bits",
 "test_gcd samples five pairs; lcm, sign, absolute value, powers and operators have no test.",
 [INT],[("Euclid's loop",INT),("lcm from gcd",INT),("operator macro",INT)])
p("C07","Field inverse and powers agree with the field's own arithmetic",
 "For every field type (both float types and rationals) the inverse of a nonzero element is the reciprocal, and raising to an integer power gives the repeated product for positive exponents, one for exponent zero, and the power of the reciprocal for negative exponents.",
 "all three field types, all elements, all exponents",
 "Powers of field elements are only reached through polynomial evaluation, which no test calls; the inverse only through division of a polynomial by a constant.",
 [TR,RAT],[("Field impl macro",TR),("Rational::powi / pow",RAT)],over=("inputs","configurations"))
p("C08","Zero is never preferred over a nonzero element as a pivot",
 "For every field type the comparison used to choose pivots ranks zero strictly below every nonzero element, whichever side it is on, and can compare any two finite elements, and the pivot search of the elimination algorithms returns the largest element of the searched part of the column under that comparison together with its true row, reporting no pivot only if that element is zero up to the approximate equality.",
 "all pairs of elements of every field type; all matrices, columns and starting rows",
 "The elimination tests pass whenever some nonzero pivot is chosen on a small grid of matrices; ranking and index arithmetic are never observed directly.",
 [TR,AL,UT],[("StabilityCmp impls",TR),("get_stable_column_index_under_row",AL),("get_max_index",UT)],over=("inputs","configurations"))
p("C09","Approximate equality is exact for rationals and symmetric for floats",
 "Approximate equality of rationals is exact equality; for floats it holds exactly when the absolute difference is below the machine epsilon of the type; two matrices of the same shape are approximately equal exactly when the sum of the squared differences of their entries is approximately zero.",
 "all pairs of elements, all pairs of equally shaped matrices",
 "Tests only use it as the oracle of other tests: a comparison that is too loose makes them pass.",
 [TR,MA],[("EpsilonEquality impls",TR),("frobenius norm of the difference",MA)])
p("M01","Multidegrees never carry trailing zero exponents",
 "Every multidegree produced by the public constructors and operations (from a vector, a single variable, trimming, addition, checked subtraction, the monic lcm of terms) from multidegrees without trailing zeros has no trailing zero exponent, so equal monomials are structurally equal and the zero multidegree is the empty one.",
 "all multidegrees of any length, all operations and sequences of operations",
 "test_mdeg has all its assertions commented out; trailing zeros only matter for operands whose last exponents cancel or vanish.",
 [MD,CO],[("zero cache in add and checked_sub",MD),("rposition+truncate",MD)],over=("inputs","histories"),state=[("MultiDegree","exponent vector without trailing zeros",MD)])
p("M02","Exponents are added and subtracted component by component",
 "Adding multidegrees adds the exponents of each variable; checked subtraction returns the exact componentwise difference, and nothing exactly when some exponent would become negative; a single-variable multidegree has the given exponent at the given index and zero elsewhere; building from a vector keeps every exponent at its index; the total degree is the sum of all exponents.",
 "all multidegrees of any (also different) lengths",
 "test_mdeg has no live assertion; products in the tests have at most three variables.",
 [MD],[("zip_longest loops of add and checked_sub",MD),("var, from_vec, total_deg",MD)])
p("M03","Monomial divisibility, quotient and lcm agree with the exponents",
 "A nonzero term divides another nonzero term exactly when each of its exponents is at most the corresponding one; the quotient of two nonzero terms exists exactly when the divisor's exponents are all at most the dividend's, and then has the quotient coefficient and the exponent differences; the monic lcm of two nonzero terms has coefficient one and the componentwise maximum of the exponents.",
 "all nonzero terms over every field, multidegrees of any (also different) lengths",
 "Divisibility is only exercised inside division tests with two variables and degrees up to three.",
 [MD,EL,CO],[("is_succ",MD),("checked_sub",MD),("Term::divides / try_div",EL),("monic_lcm",CO)])
p("M04","Monomial orders are the documented ones",
 "For multidegrees without trailing zeros, the lexicographic, reverse lexicographic, graded lexicographic and graded reverse lexicographic comparisons give exactly the documented order: first difference from the left, lexicographic with indices reversed, total degree first with lexicographic tie break, and total degree first with the negated reverse lexicographic tie break. They are therefore total orders in which only equal multidegrees compare equal.",
 "all pairs of multidegrees of any lengths and any exponents",
 "The order tests sample about forty pairs of three-variable multidegrees with exponents up to 5.",
 [OR],[("Lex, RevLex, grad, GrLex, GRevLex",OR)])
p("M05","Degrees never wrap around silently",
 "When the sum of two exponents, or the total degree of a multidegree, does not fit the type it is returned in, the operation panics in every build profile rather than returning a wrapped value; comparing total degrees in the graded orders never panics or wraps for any exponents.",
 "all multidegrees, both debug and release builds",
 "Tests run in the debug profile only and never use exponents above 9.",
 [MD,OR],[("checked_add in add and total_deg",MD),("widened sum in grad",OR)],over=("inputs","configurations"))
p("P01","Polynomials never contain zero terms or repeated monomials",
 "Adding, subtracting, negating, multiplying and dividing by a nonzero constant, starting from polynomials and terms that are well formed (no zero coefficient, all monomials distinct), always gives a well formed polynomial; so do the conversions from a coefficient or a term, the constants zero and one, variables, sorting, and both results of polynomial division.",
 "all well formed polynomials over every field, all sequences of operations",
 "Only term-by-term equality of a reconstructed polynomial is tested; a zero term or split monomial shows up only for particular cancellations.",
 [EL,CO],[("position/push/remove in Polynomial + Term",EL),("zero tests in conversions and products",EL)],over=("inputs","histories"),state=[("Polynomial.terms","list of nonzero terms with pairwise distinct multidegrees",EL)])
p("P02","Term arithmetic is exact",
 "The sum and difference of two terms denote the sum and difference of the monomials, including equal monomials, cancellation and zero operands; the product multiplies coefficients and adds exponents, and is zero if an operand is; negation negates the coefficient and keeps the exponents.",
 "all pairs of terms over every field",
 "Terms are combined in tests only to print them.",
 [EL],[("operator impls for &Term",EL)])
p("P03","Polynomial ring operations denote the ring operations",
 "Sum, difference, negation and product of polynomials, their mixed forms with terms and field elements, and division by a nonzero field element denote exactly the corresponding operation of the polynomial ring over the field, including zero operands, cancellation and repeated monomials across operands.",
 "all well formed polynomials over every field",
 "test_poly prints results without asserting; the division test reaches products and sums of at most a few two-variable terms with coefficients up to 2.",
 [EL],[("operator impls for &Polynomial",EL)])
p("P04","Owned, borrowed and swapped operator forms agree",
 "For every binary operator on multidegrees, terms, polynomials and matrices, the forms taking owned or borrowed operands, and the forms with the two operand types exchanged, return the same value as the borrowed form, and subtraction and division forms never exchange their operands.",
 "every generated operator form, all operands",
 "Tests use a handful of the roughly seventy generated forms.",
 [EL,MD,MA],[("binop attribute expansions",EL)],over=("programs","inputs"))
p("P05","Evaluating a polynomial substitutes the point into every term",
 "Evaluating a term gives its coefficient times the product of the coordinates raised to the corresponding exponents, evaluating a polynomial gives the sum over its terms (zero for the zero polynomial), and a point with fewer coordinates than the highest variable used is rejected with a panic.",
 "all polynomials over every field and all points",
 "No test evaluates a polynomial.",
 [EL],[("Term::eval, Polynomial::eval",EL)])
p("P06","Leading terms and sorting follow the chosen monomial order",
 "The leading term of a nonzero polynomial is one of its terms and no other term is larger under the chosen order, the leading coefficient is its coefficient, both are absent exactly for the zero polynomial, and sorting returns the same terms in ascending order.",
 "all polynomials over every field, every monomial order",
 "The tests only use the lexicographic order and only observe leading terms through division.",
 [CO],[("leading_term, leading_coef, sort_terms",CO)],over=("inputs","programs"))
p("P07","Division satisfies f = q1*g1 + ... + qm*gm + r",
 "For every polynomial and every list of divisors, the returned remainder and quotients satisfy the division identity exactly (over exact fields), there is exactly one quotient per divisor in the order of the divisors, and a zero divisor gets quotient zero.",
 "all dividends, all lists of divisors of any length, every field, every monomial order",
 "The division test compares the reconstructed sum on two-variable polynomials with degree up to three, two divisors and lexicographic order.",
 [CO],[("loop of divide: each step keeps f + sum q*g + r",CO)])
p("P08","No remainder term is divisible by a leading term of a divisor",
 "When polynomial division returns, no term of the remainder is divisible by the leading term of any divisor, and every quotient term times its divisor was used to cancel the then leading term, so no quotient-divisor product exceeds the dividend's leading monomial.",
 "all dividends, all lists of divisors, every exact field, every monomial order",
 "No test inspects the remainder's terms or the size of the quotients.",
 [CO],[("divide moves a leading term to the remainder only after trying every divisor",CO)])
p("P09","The S-polynomial cancels the leading terms symmetrically",
 "For nonzero polynomials, the S-polynomial is the monic lcm of the leading terms divided by the first leading term times the first polynomial, minus the monic lcm divided by the second leading term times the second polynomial; it is absent exactly when an operand is zero.",
 "all pairs of polynomials over every field, every monomial order",
 "The reduction test prints one S-polynomial without asserting anything.",
 [CO],[("try_reduce",CO)])
p("P10","Buchberger's algorithm preserves the ideal",
 "Running Buchberger's algorithm on any list of generators leaves a list that generates the same ideal: everything added is a combination of the current generators, everything removed or replaced remains a combination of those that stay.",
 "all lists of generators (including zero polynomials), every exact field, every monomial order",
 "The buchberger test prints bases without asserting.",
 [CO],[("extend pushes remainders of S-polynomials",CO),("minimize removes redundant generators",CO),("reduce replaces by remainder",CO)])
p("P11","Buchberger's algorithm and criterion consider every pair",
 "The criterion accepts a list exactly when the S-polynomial of every pair of distinct nonzero members has remainder zero on division by the whole list, and the algorithm stops extending the list only when every pair of the current list has that property.",
 "all lists of generators, every monomial order",
 "The buchberger test prints two bases; a skipped pair would show only for ideals that need it.",
 [CO],[("pair loops of buchberger_criterion and buchberger_extend",CO)],over=("inputs","histories"))
p("P12","The returned basis is minimal, interreduced and monic",
 "After Buchberger's algorithm no leading term of the basis divides the leading term of another element, no term of an element is divisible by the leading term of another element, and every element has leading coefficient one; zero generators leave no trace.",
 "all lists of generators, every exact field, every monomial order",
 "The buchberger test prints bases without asserting.",
 [CO],[("pair scans of minimize and reduce, restarted after each change",CO),("final normalisation",CO)])
p("P13","Printed polynomials show every term with its sign and exponents",
 "The printed form of a multidegree in at most five variables shows every variable with nonzero exponent exactly once, in variable order, with the exponent in superscript digits omitted only when it is one, and one in more variables shows the list of all its exponents; a term prints its coefficient, or only its sign when the coefficient is plus or minus one and a variable follows; a polynomial prints its terms in order joined by plus or minus according to the sign of each coefficient, and 0 if it has none; a rational prints its numerator, followed by a slash and its denominator unless that is one.",
 "all multidegrees, terms, rationals, and polynomials over rationals and 64-bit floats (coefficients nonzero, finite)",
 "The tests print polynomials but never compare the text.",
 [DI],[("Display impls and superscript",DI)])
p("L01","Every matrix holds exactly rows times columns entries",
 "Every matrix that any public constructor or operation returns has exactly as many entries as its number of rows times its number of columns, the documented shape for that operation, and no operation on an existing matrix changes its shape or number of entries; a constructor given another number of entries panics.",
 "all shapes (including 0 and 1 dimensions), all operations and sequences of operations",
 "The tests construct 3x4, 4x1 and 3x3 matrices; a mismatch goes unnoticed until an access out of range.",
 [MA,AL],[("private fields; Mat::new check; constructors",MA)],over=("inputs","histories"),state=[("Mat","row-major entries, rows, cols",MA)])
p("L02","Entry, row and column access address the same row-major cell",
 "For in-range positions, indexing, unchecked access, mutable access, row and column iterators (shared and mutable), row and column extraction, the index iterators (of a matrix and of a box of positions) and entry swapping all refer to the entry in that row and column, in increasing order and visiting each exactly once.",
 "all matrices of any shape, all in-range rows and columns",
 "Tests only use square or single shapes for a few accessors; several mutable iterators have no test.",
 [MA,UT],[("r * cols + c addressing",MA),("get_box_iter",UT)])
p("L03","Operations on incompatible shapes are rejected",
 "Adding matrices of different shapes, multiplying matrices whose inner dimensions differ, and taking the dot product of matrices with different numbers of entries panics; for compatible shapes none of these operations panics because of shape.",
 "all pairs of shapes",
 "No test passes incompatible shapes.",
 [MA],[("dimension tests in Add, Mul, dot",MA)])
p("L04","Matrix constructors produce the documented entries",
 "Identity, zero, standard basis vector, scaling, row-exchange, permutation and row-replacement (with distinct rows) matrices, transposition, assembly from column or row vectors and collection from an iterator have exactly the documented entry at every position.",
 "all dimensions, all row and column indices, all scalars",
 "test_matrix_constructions checks one or two sizes per constructor, mostly square and symmetric.",
 [MA],[("constructor closures over get_box_iter",MA)])
p("L05","Matrix arithmetic is entrywise and row-by-column",
 "The sum of matrices adds corresponding entries, scaling (all forms) multiplies every entry by the scalar, the matrix product has at each position the sum over the inner index of row entry times column entry, the dot product is the sum of products of corresponding entries, and the Frobenius norm the sum of squared entries; operands are not changed.",
 "all matrices of compatible shapes over every field",
 "test_matrix_operations multiplies one 3x4 by a 4x1 matrix and adds one pair.",
 [MA],[("operator impls",MA)])
p("L06","Row operations change exactly the named rows as documented",
 "Scaling a row, exchanging two rows, adding a multiple of one row to another, and scaling in place change exactly the rows named, in every column, to the documented combination of the old entries, and leave every other entry unchanged; the triangularity tests are true exactly when all entries below (above) the diagonal are zero.",
 "all matrices, rows and scalars",
 "Row operations are tested only through LU and echelon tests on 3x3 grids.",
 [MA],[("scale_row, permute_rows, replace_row, scale",MA),("is_upper_triangular, is_lower_triangular",MA)])
p("L07","The LU decomposition multiplies back to the permuted matrix",
 "For every matrix over an exact field, of any shape, the returned p is a permutation matrix, l is square lower triangular with nonzero diagonal, u is in row echelon form with leading ones, and p times the matrix equals l times u.",
 "all matrices of any shape, all pivoting sequences",
 "test_lu enumerates 3x3 matrices over three float values; other shapes, fields and pivot sequences are not reached.",
 [AL,MA],[("each elimination step updates l, u and p consistently",AL)])
p("L08","Row reduction applies the same invertible operations throughout",
 "Row echelon and reduced row echelon forms of a matrix over an exact field are obtained by invertible row operations, the recorded transformation times the original equals the form at every step, pivots are one with zeros below (and, when reduced, also above) them, and rows without pivot are zero and come last.",
 "all matrices of any shape, all pivoting sequences",
 "The echelon tests enumerate 3x3 matrices over a few values.",
 [AL,MA],[("permute/scale/replace helpers act on both matrices",AL),("row_echelon, to_rref",AL)])
p("L09","Rank, nullity, kernel and range follow from the reduced form",
 "The rank is the number of nonzero rows of the echelon form and the nullity the number of columns minus the rank; the kernel basis has one vector per non-pivot column, with one at that column, minus the reduced form's entries at the pivot columns and zero elsewhere; the range basis consists of the original columns at the pivot columns, in order.",
 "all matrices of any shape over an exact field",
 "test_compute_kernel checks products with 3x3 matrices only; the range is marked untested.",
 [AL],[("rank, nullity, zero_rows, compute_kernel, compute_range",AL)])
p("L10","Enumerating matrices visits every combination exactly once",
 "The matrix enumeration over a nonempty list of values yields, for every assignment of values to positions, exactly one matrix of the requested shape, then ends; the digit sequence of a number in a base of at least two is its exact positional expansion, least significant digit first, with no leading zero digit.",
 "all shapes, value lists and numbers that do not overflow",
 "It is only used as input generator of other tests; a missing matrix makes them weaker, not fail.",
 [UT],[("MatIterator, BaseSeqIterator",UT)])
p("E01","Values compare equal exactly when they are the same",
 "Two integers, rationals in lowest terms, multidegrees without trailing zeros, terms or matrices compare equal exactly when they agree in every component: integers in their value, rationals in numerator and denominator, multidegrees in every exponent, terms in coefficient and multidegree, matrices in shape and every entry; a copy (clone) of such a value agrees with the original in every component; comparing and copying never panic.",
 "all pairs of values, of any length and shape",
 "Comparisons in the tests mostly expect equality of values that are equal; a comparison that ignores a component would let those tests pass.",
 [INT,RAT,MD,EL,MA],[("derived PartialEq/Clone",MA),("PartialEq for Term",EL)])
p("P14","Constructors of terms and polynomials make what they name",
 "The zero, one, constant, monic, variable and general constructors of terms (checked and unchecked), conversion of a field element and the default give the term with exactly the coefficient and exponents named, without trailing zero exponents, and the checked constructor gives the constant zero term for coefficient zero; the zero test of terms accepts exactly those with coefficient zero; the constructors of a polynomial from one term, a constant or a variable give exactly that one term, the checked constructor from a list keeps exactly the terms with nonzero coefficient, and the unchecked one the list as it is.",
 "all coefficients of every field, all multidegrees, variable indices and exponents, all lists of terms",
 "Variables 0 to 2 with small exponents are used in the tests; nothing checks a constructor by itself.",
 [EL,MD],[("constructors of Term and Polynomial",EL)])
p("X01","Results depend only on the arguments",
 "Every public function of the library returns a result that depends only on the values of its arguments: no global or thread-local state, input or output, randomness, time, address values, spare capacity of a vector or hash-iteration order influences a result, so repeated calls give identical results.",
 "all public functions, all call histories, runs and threads",
 "A test sees one run; hash iteration order changes between runs and usually agrees on small sets.",
 ["src/lib.rs",AL,MA,CO,EL],[("pure functions over owned values; hash sets used for membership only",AL)],over=("histories","schedules","programs"))
p("N01","Division and Buchberger's algorithm terminate",
 "Polynomial division and Buchberger's algorithm finish on every input over an exact field and an admissible monomial order.",
 "all inputs, every admissible order","Tests sample small inputs.",[CO],[("well-ordering of monomials, Noetherian ideals",CO)])
p("N02","Float factorisations are accurate to rounding error",
 "For 32-bit and 64-bit float matrices the LU product differs from the permuted matrix only by an error proportional to the machine epsilon and the size of the matrix.",
 "all float matrices","test_lu compares 3x3 matrices of small integers.",[AL],[("pivoting by absolute value",AL)])
p("N03","The facets of a cone are its facets",
 "Constructing a cone from generators computes exactly its facets, its dimension and a basis of the orthogonal complement.",
 "all lists of generators","No test; the documentation says it very likely does not work, and nothing of the result is observable.",["src/linalg/cone.rs"],[("Cone::new",'src/linalg/cone.rs')])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
import sys
for x in P:
    assert len(x['title'])<=80,(x['id'],len(x['title']))
    n=x['statement'].count('. ')+1
    assert n<=3,x['id']
print(len(P))
