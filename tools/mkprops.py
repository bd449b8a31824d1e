#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source: this table)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
AG, GR, IG, OG = ('schubertpy/abstract_grassmannian.py', 'schubertpy/grassmannian.py',
                  'schubertpy/isotropic_grassmannian.py', 'schubertpy/orthogonal_grassmannian.py')
QC, LC, SC, PA = 'schubertpy/qcalc.py', 'schubertpy/lc.py', 'schubertpy/schur.py', 'schubertpy/partition.py'
KS, MX, HA = 'schubertpy/utils/kstrict.py', 'schubertpy/utils/mix.py', 'schubertpy/utils/hash.py'
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
        why_tests_cant=why, anchors=dict(files=files, state=state or [],
        mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe or [], hook_needed=None)))

pieri_why = ('It must hold for every Grassmannian, special class and Schubert class; the tests fix a handful of '
             'products on the smallest varieties (%s), so most branches of the rule are reached by at most one sample.')
prop('C01', 'Pieri rule on ordinary Grassmannians, classical and quantum',
 'On Gr(m,N), multiplying any linear combination of Schubert classes by a special class (pieri, qpieri) returns exactly the '
 'classical Pieri product, respectively the quantum Pieri product including every q-term with its coefficient, as an element '
 'of the Schubert basis of that Grassmannian. Special classes S[p] are numbered p = 1..N-m.',
 ['inputs', 'configurations'], 'all 1 <= m <= N, all special classes, all linear combinations of Schubert classes with scalar coefficients',
 pieri_why % 'Gr(2,5)', [GR, AG, QC], [('pieriA_inner', GR), ('qpieriA_inner', GR), ('_pieri_fillA/_pieri_itrA', QC), ('_part_star', QC)],
 ['Grassmannian.pieri', 'Grassmannian.qpieri'])
prop('C02', 'Pieri rule on symplectic Grassmannians, classical and quantum',
 'On IG(m,2n), multiplying any linear combination of Schubert classes by a special class (pieri, qpieri) returns exactly the '
 'classical, respectively quantum, Pieri product of Buch-Kresch-Tamvakis: the right k-strict partitions with the right powers of two, '
 'and the right q-terms. Every term lies in the Schubert basis of that Grassmannian.',
 ['inputs', 'configurations'], 'all IG(m,2n) with 1 <= m <= n, all special classes, all linear combinations of Schubert classes',
 pieri_why % 'IG(2,6)', [IG, AG, QC], [('pieriC_inner/qpieriC_inner', IG), ('pieri_set', QC), ('count_comps', QC)],
 ['IsotropicGrassmannian.pieri', 'IsotropicGrassmannian.qpieri'])
prop('C03', 'Pieri rule on odd orthogonal Grassmannians, classical and quantum',
 'On OG(m,2n+1), multiplying any linear combination of Schubert classes by a special class (pieri, qpieri) returns exactly the '
 'classical, respectively quantum, Pieri product, including the terms in q and q^2 and the special form on maximal Grassmannians. '
 'Every term lies in the Schubert basis of that Grassmannian.',
 ['inputs', 'configurations'], 'all OG(m,2n+1) with 1 <= m <= n, all special classes, all linear combinations of Schubert classes',
 pieri_why % 'OG(2,7)', [OG, AG, QC], [('pieriB_inner/qpieriB_inner', OG), ('pieri_set', QC), ('_part_tilde', QC)],
 ['OrthogonalGrassmannian.pieri', 'OrthogonalGrassmannian.qpieri'])
prop('C04', 'Pieri rule on even orthogonal Grassmannians, classical and quantum',
 'On OG(m,2n+2), multiplying any linear combination of (typed) Schubert classes by a special class, including the second class of codimension k, '
 'returns exactly the classical, respectively quantum, Pieri product with the right types. On OG(n,2n+2) the quantum terms carry '
 'the right monomials in the two parameters q1 and q2; elsewhere the right powers of q.',
 ['inputs', 'configurations'], 'all OG(m,2n+2) with 1 <= m <= n+1, all special classes (both of codimension k), all linear combinations of Schubert classes',
 pieri_why % 'OG(2,6), OG(2,8)', [OG, AG, QC], [('pieriD_inner/_dcoef/qpieriD_inner', OG), ('pieri_set', QC), ('type_swap_inner', QC), ('_part_tilde', QC)],
 ['OrthogonalGrassmannian.pieri', 'OrthogonalGrassmannian.qpieri'])
prop('C05', 'Giambelli expressions evaluate back to their class',
 'giambelli and qgiambelli rewrite any polynomial expression in Schubert classes as a polynomial in special classes only (with scalars q, q1, q2), '
 'and evaluating that polynomial with the classical, respectively quantum, product gives back the value of the input. '
 'Consequently toS, respectively qtoS, returns every linear combination of Schubert classes unchanged.',
 ['inputs', 'configurations'], 'all four families and both product structures, all Schubert classes, linear combinations and products',
 'A Giambelli polynomial is only right or wrong through the whole ring structure; the tests compare a few printed polynomials on one variety per family.',
 [AG, QC], [('giambelli_rec/giambelli_rec_inner', AG), ('num2spec', AG)], ['giambelli', 'qgiambelli', 'toS', 'qtoS'])
prop('C06', 'Classical products are the Schubert structure constants',
 'mult, act and toS return the product in the cohomology ring: for every pair of classes each structure constant of the Grassmannian, no term missing, no extra term, '
 'and bilinearly: in mult the first factor may be any polynomial expression in Schubert classes and the second any linear combination of them, in act the operator any polynomial in special classes.',
 ['inputs', 'configurations'], 'all four families, all pairs of classes / expressions',
 'The structure constants form an N^2 table per variety; tests sample at most a dozen entries on the smallest varieties.',
 [AG, LC], [('act_lc', AG), ('mult/toS/act', AG), ('LinearCombination.apply', LC)], ['mult', 'act', 'toS'])
prop('C07', 'Quantum products are the Gromov-Witten structure constants',
 'qmult, qact and qtoS return the product in the small quantum cohomology ring: every coefficient of every power of q (or monomial in q1, q2 on OG(n,2n+2)), '
 'bilinearly (first factor any polynomial expression in Schubert classes, second any linear combination of them), including inputs that already contain q, q1 or q2.',
 ['inputs', 'configurations'], 'all four families, all pairs of classes / expressions, scalars in the quantum parameters',
 'As for the classical product; in addition the higher q-degrees only appear for large classes that no test multiplies.',
 [AG, LC], [('act_lc', AG), ('qmult/qtoS/qact', AG)], ['qmult', 'qact', 'qtoS'])
prop('C08', 'Ring laws across chained computations',
 'For every Grassmannian the products are commutative, associative and distributive over sums and scalars with S[] as the unit, when results of one call are fed into the next in any order. '
 'This holds for the classical and the quantum product alike, on varieties of every size the library can handle. Multiplying by a special class gives the same result with pieri, act and mult (qpieri, qact, qmult).',
 ['inputs', 'histories'], 'all triples of classes / combinations, all ways of chaining calls',
 'Tests never feed a result into a further product, and check no algebraic law.',
 [AG, LC], [('mult/qmult', AG), ('LinearCombination.apply/__add__/__mul__', LC)], ['mult', 'qmult', 'act', 'qact'])
prop('C09', 'Products are graded, positive, integral, and specialise at q=0',
 'Every term of a product of two Schubert classes is a Schubert class of the Grassmannian with a positive integer coefficient, and codimension plus the degree of its quantum monomial equals the sum of the codimensions. '
 'Setting the quantum parameters to zero in a quantum product gives the classical product.',
 ['inputs', 'configurations'], 'all varieties (well beyond the sizes tests use), all pairs of classes, pieri and mult alike',
 'No test relates the two products or looks at degrees.',
 [AG, GR, IG, OG], [('degree_q', GR), ('pieri_inner/qpieri_inner of each family', AG)], ['mult', 'qmult', 'pieri', 'qpieri', 'degree_q', 'schub_classes'])
prop('C10', 'Poincare duality',
 'dualize maps each Schubert class to the unique class of complementary codimension whose product with it is the point class, and every other class of that codimension has classical product zero with it. '
 'It is linear and an involution, and exchanges S[] and the point class.',
 ['inputs', 'configurations'], 'all Schubert classes of all varieties, all linear combinations',
 'Tests compare the dual of two sums per family; the pairing with the product is never checked.',
 [GR, IG, OG, QC], [('dualize', OG), ('dualize_index_inner', QC), ('part2index/index2part', QC)], ['dualize', 'mult', 'point_class'])
prop('C11', 'Schubert basis, generators, point class and type data',
 'schub_classes lists every Schubert class of the Grassmannian exactly once, in increasing order of their labels; generators lists the special classes in order of codimension, and point_class is the unique class of top codimension. '
 'The type data, the printed description and the degree of q are those of the given Grassmannian.',
 ['configurations'], 'all constructor arguments that denote a Grassmannian of positive-dimensional subspaces',
 'Tests check six small varieties; the enumeration order and box bounds depend on (k, n) in type-specific ways.',
 [GR, IG, OG, KS, QC], [('schub_classes', OG), ('all_kstrict', KS), ('part_gen', QC), ('point_class', OG)], ['schub_classes', 'generators', 'point_class', 'get_type_data', '__str__', 'degree_q'])
prop('C12', 'Partitions and Schubert symbols correspond one to one',
 'part2index maps the Schubert classes of a Grassmannian one to one onto its Schubert symbols (m-element index sets, isotropic where required), in the standard order-of-codimension indexing, and index2part is its inverse. '
 'Both act linearly and accept lists.',
 ['inputs', 'configurations'], 'all classes and all index sets of all varieties',
 'Tests fix a few conversions with hand-picked k and n; bijectivity and the type-dependent cases need the whole set.',
 [GR, IG, OG, QC], [('part2indexA/B/C/D_inner', QC), ('index2partA/B/C/D_inner', QC)], ['part2index', 'index2part'])
prop('C13', 'Partitions and partition pairs correspond one to one',
 'part2pair splits a class of an isotropic or orthogonal Grassmannian at column k into the conjugate of the left part (k entries) and the right part, keeping the type marker, and pair2part inverts it. '
 'Both act linearly and accept lists.',
 ['inputs', 'configurations'], 'all k-strict (typed) partitions, all k',
 'Tests fix a few pairs.', [IG, OG, QC], [('part2pair_inner/pair2part_inner', QC), ('part_conj', QC)], ['part2pair', 'pair2part'])
prop('C14', 'Types of Schubert classes in even orthogonal Grassmannians',
 'On OG(m,2n+2) schub_type returns 0 for a class without a part equal to k and otherwise its type 1 or 2, type_swap exchanges the two types and fixes classes without type, and miami_swap exchanges them exactly when an odd number of parts exceeds k. '
 'The swaps are linear involutions, and are the identity outside even orthogonal Grassmannians.',
 ['inputs', 'configurations'], 'all classes, combinations and input forms on all varieties',
 'Tests call the helper functions on a few lists and never the methods.',
 [OG, AG, QC], [('schub_type/type_swap', OG), ('miami_swap', AG), ('type_swap_inner', QC)], ['schub_type', 'type_swap', 'miami_swap'])
prop('C15', 'The rim-hook quantum product agrees with the quantum product',
 'On Gr(m,N), qmult_rh returns the quantum product of its arguments: the same linear combination as qmult, in every quantum degree and with the right signs.',
 ['inputs', 'configurations'], 'all Gr(m,N), all pairs of classes and linear combinations',
 'Tests compare the two algorithms on Gr(2,5) and a few products; sign and degree bookkeeping only matters from q-degree two on.',
 [GR, PA], [('qmult_rh', GR), ('Partition.remove_rim_hooks', PA), ('LinearCombination.apply2', LC)], ['qmult_rh', 'qmult'])
prop('C16', 'Rim-hook removal and partition containers',
 'Partition accepts exactly the weakly decreasing lists of non-negative integers and tells whether it fits a grid. For a partition that does not fit, remove_rim_hooks strips rim hooks of the given size ending in the first row until it fits and reports the remaining partition, the number of hooks and the sum of their heights (rows met), '
 'or reports that it is impossible; it never changes the partition it is called on. skew_partition_height counts the rows in which two nested partitions differ and raises ValueError when they are not nested.',
 ['inputs'], 'all partitions, hook sizes and grids',
 'Eight single removals are tested, and only the remaining partition is looked at.',
 [PA], [('remove_rim_hooks', PA), ('skew_partition_height', PA), ('is_valid_part', PA)], ['Partition', 'Partition.remove_rim_hooks', 'Partition.is_in_range'])
prop('C17', 'Results do not depend on history',
 'Every operation is a function of the Grassmannian and its arguments: the result of a call is the same whatever was computed before on this or any other Grassmannian object (same family or not), in whichever order, from whichever thread, whether earlier calls succeeded, were refused or were interrupted, and however earlier arguments or results were modified by the caller. '
 'No operation modifies its arguments or values it returned earlier.',
 ['histories', 'schedules'], 'all interleavings of calls on any number of objects, with repeated calls and caller-side mutation',
 'Tests run each call once on a fresh object; memoised intermediate results are shared between calls and objects.',
 [AG, GR, IG, OG, HA], [('hashable_lru_cache_method', HA), ('pieri_inner caches', OG), ('giambelli_rec_inner cache', AG), ('clone in qmult_rh', GR)],
 ['all public methods'], [dict(name='memo tables', meaning='results of Pieri and Giambelli computations, shared by all objects', where=HA)])
prop('C18', 'Every spelling of an argument means the same; text round-trips',
 'An operation gives the same result whether its argument is a list, a Schur object, a symbolic expression, a LinearCombination or text, and however the text is spelled (order of terms and factors, ^ or **, parentheses, spacing between terms). '
 'The printed form of a LinearCombination denotes the same element and parses back to it.',
 ['inputs'], 'all expressions and spellings', 'Tests use one spelling per call.',
 [LC, SC, 'schubertpy/utils/const.py', AG], [('LinearCombination.__init__/__str__', LC), ('toSchur/translate_schur', SC)], ['LinearCombination', 'pieri', 'mult', 'qmult', '...'])
prop('C19', 'LinearCombination and Schur arithmetic',
 'Sums, differences, products, powers and scalar multiples of LinearCombinations, Schur objects, symbols and numbers (integers, fractions, floats; in the supported orders) denote the corresponding polynomial in Schubert symbols, results stay usable as LinearCombinations, and operands keep their value. '
 'apply substitutes each Schubert symbol by the image under the given function and leaves scalars alone.',
 ['inputs', 'histories'], 'all expression trees over the operators', 'Tests build two-term sums and apply one function.',
 [LC, SC], [('LinearCombination operators', LC), ('LinearCombination.apply', LC), ('Schur operators', SC)], ['LinearCombination', 'Schur'])
prop('C20', 'Schur expansion and its drawing are faithful',
 'schur_expansion of a sum of scalar multiples of Schubert symbols lists exactly its (coefficient, partition) pairs ordered by partition (a number counting as multiple of S[]), can leave out exactly the terms containing q, and rejects products and powers of Schubert symbols with ValueError. '
 'draw_ascii_partition prints these terms side by side, each coefficient followed by a diagram with one row of boxes per part.',
 ['inputs'], 'all linear combinations', 'Tests look at five expansions and one drawing.',
 [LC, MX], [('schur_expansion', LC), ('draw_ascii_partition', LC), ('embed_partition', MX)], ['schur_expansion', 'draw_ascii_partition'])
prop('C21', 'Multiplication tables are complete and correct',
 'MultTable and QMultTable of a Grassmannian have one row and one column per Schubert class, labelled by the classes in basis order, and each cell is the classical, respectively quantum, product of its row and column labels. '
 'to_matrix returns, and printing shows, the same cells.',
 ['configurations'], 'all varieties', 'No test builds a table.', ['schubertpy/mult_table.py', AG], [('AbstractMultTable.__init__', 'schubertpy/mult_table.py')], ['MultTable', 'QMultTable', 'to_matrix'])
prop('C22', 'Schur polynomials',
 'The Schur polynomial of a partition in n variables has as coefficient of x^a the number of semistandard tableaux of that shape and content a (zero if it has more than n rows), both as polynomial object and as text, and computing it leaves the partition unchanged. '
 'Invalid partitions or numbers of variables are rejected with ValueError.',
 ['inputs'], 'all partitions and numbers of variables', 'Tests compare a couple of small polynomials.',
 [MX, SC], [('SchurPol', MX), ('Schur.to_polinomial_str', SC)], ['SchurPol', 'Schur.to_polinomial_str'])
prop('C23', 'Constructor and domain checks; clones',
 'The constructors accept exactly the arguments that denote a Grassmannian (0 <= m <= N; isotropic: N even, 2m <= N; orthogonal: 2m <= N, and m >= 1 for even N; TypeError for non-integers, ValueError otherwise), and operations outside their domain raise: partition pairs on ordinary Grassmannians, types outside even orthogonal ones, operators that are not polynomials in special classes, lists that are not partitions. '
 'clone returns an independent Grassmannian that behaves like the original.',
 ['inputs', 'configurations'], 'all integer arguments, all families', 'Tests try three bad argument pairs and never clone.',
 [GR, IG, OG, AG], [('__init__', OG), ('clone', AG), ('spec2num', AG)], ['constructors', 'clone', 'spec2num', 'act', 'part2pair', 'schub_type'])
prop('C24', 'Schur objects are values and render faithfully',
 'Two Schur objects are equal exactly when their labels are, equal objects hash alike, and they sort like their labels; symbol and text forms convert back to the same object. '
 'Printed, LaTeX and plotted diagrams have exactly one box per cell of the partition, in the right position, and none of these operations changes the object.',
 ['inputs'], 'all labels, construction paths and renderings', 'Tests render one partition.',
 [SC, PA, MX], [('Schur.__eq__/__hash__/__lt__', SC), ('_generate_tikzpicture/plot_partition/print_partition', SC), ('yd', MX), ('Partition.draw', PA)], ['Schur', 'yd', 'Partition.draw'])
prop('C25', 'CSV tables are compared as sets of algebraic rows',
 'check_bijection_with_permutation on two semicolon-separated tables returns True exactly when they contain the same set of rows (first two columns as text, third as algebraic expression in Schubert symbols), whatever the order of rows, duplicates, blank lines or the way each expression is written.',
 ['inputs'], 'all pairs of tables', 'The only test using it is disabled.', ['schubertpy/csv_bijection.py'], [('check_bijection_with_permutation', 'schubertpy/csv_bijection.py')], ['check_bijection_with_permutation'])
prop('C26', 'Partition enumeration and conjugation utilities',
 'all_kstrict(k, rows, cols) lists every k-strict partition in the rectangle exactly once, part_gen lists every partition contained in a rectangle exactly once, part_conj is conjugation (an involution), and part_clip removes exactly the trailing zeros. '
 'None of them changes its argument.',
 ['inputs'], 'all k, all rectangles, all partitions', 'Tests fix a few lists.', [KS, QC, PA], [('all_kstrict/_itr_kstrict', KS), ('part_gen/part_itr/part_conj', QC), ('part_clip', PA)], ['all_kstrict', 'part_gen', 'part_conj', 'part_clip'])
prop('C27', 'Sage conversions are inverse bijections',
 'Converting a Schur object to a Sage Schur function and back returns an equal object, the Sage function is the basis element of the same partition, and Sage elements of any other basis are rejected with ValueError.',
 ['inputs'], 'all partitions', 'No test imports the Sage bridge.', ['schubertsage/conversion.py'], [('schur_to_sage_schur/sage_schur_to_schur', 'schubertsage/conversion.py')], ['schur_to_sage_schur', 'sage_schur_to_schur'])
prop('C28', 'Memoising decorators behave as a least-recently-used cache',
 'A function or method wrapped by the caching decorators returns what the plain function returns for every sequence of calls, treating a list argument like the tuple with the same entries and different objects or keyword arguments as different; within the capacity no call is computed twice, and beyond it exactly the least recently used result is forgotten. '
 'Calls that raise are not remembered. With typed=True, top-level arguments of different types are different.',
 ['histories'], 'all call sequences over several keys, objects, capacities', 'Tests make three calls and never exceed the capacity or use two objects.',
 [HA], [('hashable_lru_cache', HA), ('hashable_lru_cache_method', HA)], ['hashable_lru_cache', 'hashable_lru_cache_method'],
 [dict(name='cache', meaning='recency-ordered keys', where=HA)])

prop('C29', 'Composed computations have the right value at every step',
 'In any computation on a Grassmannian that feeds results into further operations (classical and quantum products in all the ways the library offers, Pieri products, duals, type swaps, conversions to and from index sets and pairs, sums, scalar multiples, expansions, printing and parsing, clones), in whatever form the results are passed on, every intermediate result is the element of the ring the operations determine. '
 'Results obtained earlier keep their value.',
 ['histories', 'inputs'], 'all programs over the operations', 'Tests call single operations on fresh literals.',
 [AG, LC, GR, IG, OG], [('mult/qmult/act/qact/toS/qtoS', AG), ('apply_lc', QC)], ['all public methods of the Grassmannian classes'])
prop('C30', 'Isomorphic Grassmannians have corresponding products',
 'Products, classical and quantum, on Gr(m,N) and Gr(N-m,N) correspond under conjugation of partitions, those on OG(n,2n+1) and OG(n+1,2n+2) agree, those on IG(1,2n) agree with Gr(1,2n), those on IG(2,4), OG(2,5), OG(1,6), OG(4,8) correspond to OG(1,5), Gr(1,4), Gr(2,4), OG(1,8), and exchanging the two types (and q1 with q2) is a ring automorphism for OG(m,2n+2). '
 'Classical products on IG(m,2n) and OG(m,2n+1) correspond when each class of IG is identified with 2^(number of parts exceeding k) times the class of OG with the same label.',
 ['configurations', 'inputs'], 'all pairs of isomorphic varieties, all products', 'No test compares two varieties.',
 [GR, IG, OG, AG], [('pieriA_inner/qpieriA_inner', GR), ('pieriC_inner/qpieriC_inner', IG), ('pieriB_inner/pieriD_inner/qpieriB_inner/qpieriD_inner', OG)], ['mult', 'qmult', 'pieri', 'qpieri', 'type_swap'])
prop('C31', 'Inspecting linear combinations',
 'list_schur_oprands lists exactly the Schubert symbols occurring in an expression, has_part_zero_padding tells whether one of them carries a trailing zero, and is_operator names the outermost operation of an expanded expression. '
 'For an expanded expression with numbers as coefficients is_valid tells whether it is linear in the Schubert symbols, and len is the number of its terms if there are at least two.',
 ['inputs'], 'all expressions', 'Tests look at a handful of expressions.',
 [LC, SC], [('list_schur_oprands/has_part_zero_padding/is_valid/is_operator/__len__', LC)], ['LinearCombination'])

if __name__ == '__main__':
    import re
    for p in P:
        assert len(p['title']) <= 80, p['id']
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps(p) + '\n')
    print(len(P))
