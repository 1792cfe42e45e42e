#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the committed list of properties)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

prop("P01", "Index pools and labelled sets behave as finite sets under any history",
 "After any history of adding, removing, filling, resizing, uniting, intersecting and copying, an index pool (and a labelled set) reports exactly the members, the cardinality, the fullness, the subset relation, the equality and the iteration order of the finite set that the history denotes. Growing a pool keeps its members, asking for a smaller size changes nothing. Out-of-range indices, unregistered labels and operands of different sizes are refused without changing any pool.",
 ["histories", "inputs"], "every finite history of operations over any number of pools of any size, including sizes and indices on machine-word boundaries",
 "The tests run three short histories on pools of ten indices, all inside one machine word; the claim is about all histories and all sizes.",
 ["util/src/lib.rs"], [("BinaryPool (bit words plus cached cardinality)", "util/src/lib.rs"), ("LabeledSet", "util/src/lib.rs")],
 ["return values and iteration of the public pool and labelled-set operations"])
prop("P02", "Fixed-size subset enumeration is complete, duplicate-free and in order",
 "Enumerating the k-element sub-tuples of a slice yields every choice of k positions exactly once, each in increasing position order and the choices in lexicographic order, and then ends for good. It yields nothing when k exceeds the length and exactly one empty tuple when k is zero.",
 ["inputs"], "every slice length and every k", "The tests list one (5,3) enumeration and count one (20,10); the claim is for every length and size.",
 ["util/src/lib.rs"], [("TupleIterator state machine", "util/src/lib.rs")], ["sequence of tuples returned by the iterator"])
prop("P03", "Integer principal-ideal operations obey their laws",
 "For all integers, Euclidean division returns a quotient and a remainder that recompose the dividend with the remainder smaller in size than the divisor, the extended gcd returns a common divisor together with coefficients that produce it, and divisibility, the associate normal form, units, primality, the number of prime factors and absolute value agree with their arithmetic definitions.",
 ["inputs"], "every pair of representable integers of either sign, zero included where defined", "The tests exercise the operations on a few random or positive values only, and never primality or zero or mixed signs.",
 ["alg/src/commutative.rs"], [("PID for i64 (euclid_div, divides, simplify)", "alg/src/commutative.rs"), ("bezout_identity", "alg/src/commutative.rs")],
 ["return values of the public PID operations"])
prop("P04", "Rational numbers form an ordered field in canonical form",
 "Every rational value produced by any expression is in lowest terms with a positive denominator, and addition, subtraction, multiplication, division, negation, sums, products, absolute value, equality and ordering agree with exact rational arithmetic. In particular zero has one representation, and every pair of values is comparable and exactly one of less, equal, greater holds.",
 ["inputs", "programs"], "all rationals whose operands and results are representable, and all expressions over them, including zero and negative operands and operands given unreduced",
 "The tests check a handful of concrete sums and comparisons; field and order laws quantify over all triples of values.",
 ["alg/src/commutative/rational_impl.rs", "alg/src/commutative.rs"], [("Rational arithmetic with sign flag", "alg/src/commutative/rational_impl.rs")],
 ["numerator, denominator, display and comparison results"])
prop("P05", "Sparse permutations form a group acting faithfully on sequences and graphs",
 "Permutations built from any product of cycles, swaps, products, powers and inverses denote the corresponding bijection: composition is function composition, the inverse undoes it, powers of either sign agree with repeated composition, equal bijections compare equal and the identity is recognised however it was built. Acting on a sequence or on the vertices of a graph moves every item to its image, and acting by a product equals acting by the factors one after another.",
 ["histories", "inputs"], "every finite history of group operations over any permutations, and every action on any sequence or graph large enough",
 "The tests compose a few fixed cycles; group and action laws quantify over all pairs and all ways of writing the same permutation.",
 ["alg/src/non_commutative/permutation.rs", "topo_spaces/src/graph.rs"], [("Permutation product, power, inverse, swap", "alg/src/non_commutative/permutation.rs"), ("Gset actions on Vec and on graphs", "topo_spaces/src/graph.rs")],
 ["images of points, equality, permuted sequences and edge sets"])
prop("P06", "Dense permutations agree with the bijections they list",
 "Fixed-size and growable one-line permutations evaluate, multiply, invert, compare to the identity and report their order exactly as the bijections they list: the product is composition, a permutation times its inverse on either side is the identity, and the order is the least positive power that gives the identity.",
 ["inputs", "programs"], "every permutation of every size and all products of them", "The tests look at very few permutations; the laws quantify over all pairs.",
 ["alg/src/non_commutative/permutation.rs"], [("ConstPermutation and VecPermutation products, inverse and order", "alg/src/non_commutative/permutation.rs")], ["images of points, equality, order"])
prop("P07", "Formal sums are canonical elements of a free module",
 "A formal sum built by any history of additions, subtractions, negations, scalings, sums and removals holds each basis element at most once, never with coefficient zero, in increasing order of basis elements, with the coefficient that exact arithmetic gives. Hence two histories that denote the same element give equal formal sums.",
 ["histories", "inputs"], "every finite history over any basis and any integer coefficients, every grouping and every order of summation", "The tests add a few fixed two-term vectors; canonical form has to survive every order and grouping of additions.",
 ["alg/src/lin_alg.rs"], [("Vector merge-based addition and summation", "alg/src/lin_alg.rs")], ["terms of the formal sum in order, its length, display, equality"])
prop("P08", "Matrix views and elementwise algebra match the mathematical matrix",
 "Any history of writes, row and column swaps and row and column operations through any nest of rectangular views changes exactly the viewed entries of the underlying matrix, and reading through any view returns the entries of the rectangle it denotes. Transpose, sums, differences, products, scalings, dot products, equality and building from rows agree with the textbook definitions, and operands of unfit or ragged shape are refused.",
 ["histories", "inputs"], "every matrix shape, every nest of views and every history of writes", "The tests read and write a few fixed views; aliasing faults show only for particular offsets, nestings and shapes.",
 ["alg/src/lin_alg/matrix_impl.rs", "alg/src/lin_alg.rs", "alg/src/lin_alg/const_matrix_impl.rs"], [("SubMatrix offset arithmetic over a shared buffer", "alg/src/lin_alg/matrix_impl.rs")], ["entries read through matrices and views"])
prop("P09", "Sparse matrices agree with the dense matrices they encode",
 "A sparse matrix built from any entry function reports, by rows and by columns, exactly the entries the function defines, in increasing order; its transpose, its products with sparse and dense matrices and vectors, and its equality with a dense matrix agree with dense arithmetic. This includes matrices with empty rows, empty columns or no non-zero entry at all.",
 ["inputs"], "every shape and every pattern of zeros", "The tests use fixed patterns with non-empty rows; linked row and column lists break on particular patterns of empty rows and columns.",
 ["alg/src/lin_alg/sparse_matrix_impl.rs"], [("linked row and column lists", "alg/src/lin_alg/sparse_matrix_impl.rs")], ["row and column iterators, products, equality"])
prop("P10", "Smith normal form is a correct unimodular diagonalisation",
 "For every integer matrix, the Smith normal form routine terminates and returns matrices of which the two outer ones are mutually inverse unimodular pairs, whose product with the input is the returned middle matrix, and that middle matrix is diagonal with each diagonal entry dividing the next and zeros last.",
 ["inputs"], "every integer matrix of every shape, including zero, non-square, singular and negative ones, as long as intermediate entries are representable", "The tests check one random family with the product identity only; termination, divisibility and invertibility must hold for every matrix.",
 ["alg/src/lin_alg/matrix_impl.rs"], [("smith_normal_form reduction and recorded operations", "alg/src/lin_alg/matrix_impl.rs")], ["the five returned matrices"])
prop("P11", "Rank over a field is the dimension of the image",
 "For every matrix over the rationals, the rank routine returns the dimension of the column space: it is unaffected by transposition, by permuting rows or columns and by adding multiples of rows, and equals the number of non-zero diagonal entries of the Smith form when the entries are integers. Homology with field coefficients therefore reports the true Betti numbers.",
 ["inputs"], "every rational matrix of every shape, in particular those whose leading entries vanish", "The tests use a few matrices where the first pivots are non-zero.",
 ["alg/src/lin_alg/matrix_impl.rs", "topo_spaces/src/lib.rs"], [("rank_as_linear_map elimination", "alg/src/lin_alg/matrix_impl.rs")], ["returned rank and homology with field coefficients"])
prop("P12", "A simplicial complex is the downward closure of what was attached",
 "After attaching any sequence of simplices in any order, with repetitions and with faces of earlier ones, the complex consists of exactly the non-empty faces of the attached simplices: its vertices, dimension, number of cells in each dimension, connectivity, chain bases and boundary maps are those of this set. The boundary of a boundary is zero, and the result does not depend on the order of attachment.",
 ["histories", "inputs"], "every finite attachment history over any number of vertices", "The tests attach a few fixed simplices; closure, maximality bookkeeping and boundary signs must hold for every history and every number of vertices.",
 ["topo_spaces/src/simplicial/mod_impl.rs", "topo_spaces/src/simplicial/mod.rs"], [("attach keeps maximal cells as bit words", "topo_spaces/src/simplicial/mod_impl.rs"), ("boundary_map", "topo_spaces/src/simplicial/mod_impl.rs")], ["cell counts, dimension, connectivity, boundary matrices with their bases"])
prop("P13", "Computed simplicial homology is the true integral homology",
 "For every finite simplicial complex the reported homology modules are, dimension by dimension, the free rank and torsion coefficients of its integral homology, independent of how the complex was built and of vertex names. The listed cycle generators are cycles that, modulo boundaries, generate the reported module.",
 ["inputs", "histories"], "every finite simplicial complex, with and without torsion, connected or not", "The tests compare a few spaces against textbook answers; the result must be right for every complex.",
 ["topo_spaces/src/lib.rs", "topo_spaces/src/simplicial/mod_impl.rs", "alg/src/lin_alg/matrix_impl.rs", "alg/src/lin_alg.rs"], [("IntegralHomology from Smith normal forms", "topo_spaces/src/lib.rs")], ["displayed homology, descriptions of cycles and boundaries"])
prop("P14", "A simple graph behaves as a set of undirected edges under any history",
 "After any history of adding edges, removing edges and swapping vertices, a simple graph reports exactly the edges, their number, adjacency, degrees, connectivity (of two or more vertices) and edge iteration of the undirected edge set that the history denotes, with each edge listed once. Clones are independent, equality is equality of edge sets, and a permutation acting on the graph renames its vertices.",
 ["histories", "inputs"], "every finite history over any number of vertices", "The tests build a few graphs by adding edges; removal, repeated addition, swapping and iteration corner cases quantify over all histories.",
 ["topo_spaces/src/graph.rs"], [("RawSimpleGraph triangular adjacency pool", "topo_spaces/src/graph.rs")], ["containment, counts, degrees, iterators"])
prop("P15", "Subdivision and spanning-tree labelling represent the given graph",
 "Subdividing a connected multigraph for a given number of tokens gives a simple graph homeomorphic to the input, with every input vertex kept under its name and every arc between essential vertices and every cycle long enough for that number of tokens. The chosen maximal tree spans the graph and is labelled depth first from the base point, every vertex larger than its parent, so that every edge outside the tree joins a vertex to one of its ancestors; the base point does not separate the graph. A straight-line embedding of the input vertices places every new vertex at the point of its edge that its name states.",
 ["inputs"], "every connected multigraph with loops and parallel edges, every number of tokens and every insertion order of edges", "The tests check a few named graphs; sufficiency of subdivision and the tree order quantify over all graphs and token counts.",
 ["topo_spaces/src/graph.rs"], [("subdivided_graph_from and modify_embedding", "topo_spaces/src/graph.rs")], ["vertex list, edge list, maximal-tree membership, base point"])
prop("P16", "The cubical configuration complex has exactly the disjoint-cell cubes",
 "For every connected graph and positive number of tokens the cells of the discretised unordered configuration space are exactly the sets of that many pairwise disjoint closed vertices and edges of the graph, graded by the number of edges. The boundary maps are the alternating face maps (the i-th edge contributes its terminal face minus its initial face with the sign of i), their square is zero, and the homology computed from them is the homology of that complex.",
 ["inputs"], "every graph, every number of tokens", "The tests count cells for a few graphs and never compare boundary maps or homology.",
 ["topo_spaces/src/cubical.rs"], [("CubicalCplx::udc", "topo_spaces/src/cubical.rs"), ("Cube::get_boundary", "topo_spaces/src/cubical.rs")], ["cell counts, boundary matrices with bases, homology"])
prop("P17", "The discrete Morse complex is faithful to the configuration space",
 "For every connected graph, subdivided for the given positive number of tokens, the Morse complex consists of exactly the critical cells of the tree-order gradient field, its boundary is the flow of the cubical boundary with square zero, and its homology equals the homology of the full configuration complex.",
 ["inputs"], "every connected graph, number of tokens, and spanning-tree choice the library makes", "The tests compare a few Morse boundaries and counts; the gradient field, flow and pruned enumeration must be right on every graph.",
 ["topo_spaces/src/cubical.rs"], [("UdnMorseCplx critical-cell enumeration", "topo_spaces/src/cubical.rs"), ("Cube::flow", "topo_spaces/src/cubical.rs")], ["critical cells, flow images, boundary matrices, homology"])
prop("P18", "Edge paths are legal collision-free motions with group structure",
 "Every edge path obtained from a one-cell runs between configurations in which every token is blocked (the base configuration, where that is the only one) through that cell along the gradient field, and each of its moves slides one token along one graph edge while every other token stays off that closed edge; moves made at the same time have disjoint closed edges. Reduction, inversion and composition of legal paths keep them legal and keep their homotopy class (up to cancelling a move with its reverse and exchanging moves along disjoint edges), reduced paths are shortest in that class, and the permutation read off a path is the permutation that its moves induce on the tokens, multiplicatively under composition.",
 ["inputs", "histories"], "every graph, token number, critical one-cell and history of composing, reducing and inverting", "The tests print or compare a few paths; legality of every move holds for all paths or not at all.",
 ["topo_spaces/src/cubical.rs", "topo_spaces/src/graph.rs"], [("EdgePath construction, reduction and permutation", "topo_spaces/src/cubical.rs")], ["moves of a path and its permutation"])
prop("P19", "Multigraphs and weighted graphs count and weigh what they were given",
 "A multigraph built from any list of vertex pairs reports the numbers of vertices, of edges that are not loops with and without multiplicity, and of loops of that list. A weighted graph built from any non-empty list of weighted pairs of different vertices holds the last weight given to each pair; its Laplacian has the weighted degrees on its diagonal and minus the edge weight off it, is symmetric, and has zero row sums.",
 ["inputs"], "every list of pairs, with loops and parallel pairs in any order, and every weighting", "The tests build a few graphs; counting with loops and parallel edges must be right for every list.",
 ["topo_spaces/src/graph.rs"], [("Graph::from", "topo_spaces/src/graph.rs"), ("WeightedSimpleGraph::laplacian", "topo_spaces/src/graph.rs")], ["counts and Laplacian entries"])
prop("P20", "Delaunay triangulation satisfies the empty-circumcircle property",
 "For every finite set of planar points without four on a circle (there may be many on a line), in every order, the result lists each triangle of given points whose circumcircle contains no other given point exactly once, and nothing else; so its triangles do not overlap, fill the convex hull and use every point unless all are on one line. The circumcircle test of a triangle is right for every point that is not on the circle.",
 ["inputs"], "every finite set of distinct points, no four on a circle, within the supported coordinate range, in every order", "The one test draws a picture; the empty-circle condition quantifies over all triangles and points.",
 ["geom/src/lib.rs"], [("incremental Bowyer-Watson insertion", "geom/src/lib.rs")], ["returned triangles and index triples"])
prop("P21", "Symbolic functions evaluate and differentiate correctly",
 "Building a symbolic function by any combination of constants, variables, sums, products, negations, powers and elementary functions and evaluating it at a point gives the value of the denoted function, and the symbolic partial derivatives (also repeated ones) and the Jacobians evaluate to the values given by the rules of calculus; the order of the terms of a sum or product does not matter, and functions that compare equal have equal values.",
 ["inputs", "programs"], "every expression of any depth and every variable", "The tests differentiate a few fixed expressions; the chain, product and sum rules quantify over all expressions.",
 ["analysis/src/lib.rs"], [("AtomicSmoothFn construction and partial_derivative", "analysis/src/lib.rs")], ["values of evaluated functions and derivatives"])
prop("P22", "Determinants, linear systems, factors, norms agree with exact arithmetic",
 "For every small real matrix (singular, with zeros on the diagonal, or not): the determinant is the exact one; solving a system with an invertible matrix gives the exact solution; the LU factors of a matrix with non-vanishing leading minors multiply back to it; orthogonalising independent columns gives orthogonal (or orthonormal) columns that span the same flags; Householder vectors and Givens rotations map the given vector to the first axis; the norms have their defining values; random orthogonal, unit and symmetric matrices are what they are called. All up to rounding of the doubles, and nothing outside of the window a routine is applied to changes.",
 ["inputs"], "every matrix of doubles of moderate size and condition", "The tests use a few random matrices; a zero pivot, a dependent column or a negative multiple of a unit vector is met by chance only, yet the routines are claimed for all matrices.",
 ["alg/src/lin_alg/matrix_impl.rs"], [("det, solve, lu, gram_schmidt, householder_vec, givens_rotation, norms", "alg/src/lin_alg/matrix_impl.rs")], ["returned matrices and numbers"])
prop("P23", "Eigenvalues, eigenvectors and orthogonal reductions are accurate",
 "For every symmetric real matrix (repeated eigenvalues included), and every real matrix with real and simple eigenvalues, the computed spectrum is in ascending order and is that of the matrix; the eigenvectors computed for simple eigenvalues are unit vectors with A v = lambda v; Hessenberg forms, tridiagonal forms, symmetric and general QR iterations, Francis steps and Wilkinson steps produce matrices of the promised shape that are orthogonally conjugate to the input, by the operator they return when they return one; every one of these routines terminates.",
 ["inputs"], "every matrix of doubles of moderate size", "The tests run each iteration on one or two random matrices: deflation in the middle, repeated eigenvalues, shifts that hit an eigenvalue, sizes one and two and invariant start vectors are special inputs they do not reach.",
 ["alg/src/lin_alg/matrix_impl.rs"], [("spectrum*, hessenberg_form, householder_tridiagonalization, symmetric_qr, qr, francis_step, implicit_symmetric_qr_with_wilkinson_shift", "alg/src/lin_alg/matrix_impl.rs")], ["returned matrices"])
prop("P24", "Lattice reduction yields a reduced basis of the same lattice",
 "For every integer matrix with independent columns and every delta between 1/4 and 1, lll_lattice_reduce terminates with a basis of the lattice spanned by the columns (integer combinations of them by a matrix of determinant one or minus one) that is size-reduced and satisfies the Lovasz condition for delta.",
 ["inputs"], "every basis and every admissible delta", "The two tests compare with one known basis each; that a basis is reduced and that it spans the same lattice quantifies over all pairs of vectors.",
 ["alg/src/lin_alg/matrix_impl.rs"], [("lll_lattice_reduce, gram_schmidt_coeff_update", "alg/src/lin_alg/matrix_impl.rs")], ["returned basis"])
prop("P25", "Printed forms denote the value that is printed",
 "The text of a matrix, an index pool and a module is that of its mathematical value: entries row by row with the requested number of decimals correctly rounded, exactly the members, the free rank and the torsion summands other than trivial ones with their multiplicities. Modules given by invariant factors are isomorphic exactly when their ranks and non-trivial factors agree, and zero exactly when there are none. The text of a symbolic function, read back by the usual rules, is an expression for the same function.",
 ["inputs", "programs"], "every matrix, window of a matrix, precision, pool, module and every symbolic expression", "The tests print a few objects to the console, and four modules; a text that hides a sign, an exponent, a bracket or a summand appears only for particular values.",
 ["alg/src/lin_alg.rs", "alg/src/lin_alg/matrix_impl.rs", "util/src/lib.rs", "analysis/src/lib.rs"], [("Display and Debug of SubMatrix, Module, BinaryPool, AtomicSmoothFn, MultiVarFn, Vector", "alg/src/lin_alg.rs")], ["printed texts"])
prop("P26", "Factors of a cell relate to each other as the graph says",
 "For every graph with a chosen maximal tree: two factors (vertices or closed edges) are disjoint exactly when they share no vertex, disjoint ones are ordered by their smaller ends and others are not comparable, so that sorting the factors of a cell puts them in order; an edge is in the maximal tree exactly when its smaller end is the parent of the other; a vertex flows to the edge towards its parent, is blocked exactly at the base point or when its parent belongs to another factor, and disrespects exactly the edges that end at its parent and straddle it; iteration lists every vertex and every edge once, and questions without an answer are refused. The two example graphs of the library are complete and cube graphs subdivided enough for four tokens and numbered depth first.",
 ["inputs"], "every graph, numbering, factor, pair of factors and cell", "The tests look at a few factors of one graph.",
 ["topo_spaces/src/graph.rs"], [("CubeFactor relations, RawSimpleGraph iterators and maximal_tree_contains", "topo_spaces/src/graph.rs")], ["answers of the public questions about factors"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
