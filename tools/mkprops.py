"""Writes properties.jsonl and MANIFEST.json from one table (run by hand when the table changes)."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HP = 'public/gal/'


def p(id, title, statement, over, qtext, why, files, mech, observe):
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                anchors=dict(files=[HP + f for f in files], mechanism=[dict(name=a, where=HP + b) for a, b in mech], observe_at=[observe]))


PROPS = [
 p('C01', 'Every product obeys the metric, in every signature',
   'For every metric signature (any mix of positive, negative and null generators, up to eight dimensions) and all multivectors a and b, '
   'the geometric, exterior, left-contraction and inner products a*b, a^b, a>>b and a|b have exactly the coefficients, signs and grades that the '
   'Clifford algebra of that signature assigns them. The inner product is zero when either factor is a scalar, the order of the factors is respected, '
   'and the scalar product is the grade-0 part of the geometric product.',
   ['inputs', 'configurations'], 'all signatures with dimension at most 8, all pairs of basis blades and of multivectors',
   'The tests multiply a few hand-picked blades in three algebras; a sign or a contraction that is wrong for one blade pair of one signature is never touched.',
   ['geometric_algebra.hpp', 'algebra.hpp', 'expr.hpp', 'dfa.hpp'],
   [('blade products per algebra', 'geometric_algebra.hpp'), ('multivector product and term collation', 'algebra.hpp'), ('product operators on expressions', 'expr.hpp')],
   'results of compute() on a product of entities holding any set of basis blades'),
 p('C02', 'A compound expression has its step-by-step value',
   'Whatever expression a user writes inside a compute call out of sums, differences, products, wedges, contractions, sandwiches, integer scalings and '
   'divisions, integer addends, blade literals and zero-valued parts, the result equals what evaluating it one operation at a time in exact algebra gives, '
   'up to floating-point rounding. Any such expression whose rational coefficients stay within range also compiles.',
   ['programs', 'inputs'], 'all expressions over the operators, all entity types, all input values',
   'Expressions are an infinite family and the compile-time rewrites (merging of sums, folding of scales, dropping of zeros) interact; tests contain a few dozen fixed ones.',
   ['expr.hpp', 'dfa.hpp', 'algebra.hpp', 'engine.hpp'],
   [('expression recording and algebraic simplification', 'expr.hpp'), ('evaluation of the recorded program', 'dfa.hpp'), ('polynomial sums and products', 'algebra.hpp'), ('numeric evaluation', 'engine.hpp')],
   'entities returned by compute()'),
 p('C03', 'Repeating a subexpression never changes a result',
   'When a subexpression occurs several times, inside one result or across several results, with different integer scales or signs, nested in other repeated '
   'subexpressions, or below a division, a root or a trigonometric function, every result equals the value obtained with each occurrence evaluated on its own. '
   'Two different subexpressions are never identified with each other.',
   ['programs', 'inputs'], 'all expressions containing repeated subexpressions in any arrangement',
   'Extraction of shared subexpressions depends on the position, multiplicity, scale and nesting of the repetitions; the tests cover a handful of arrangements.',
   ['dfa.hpp', 'expr.hpp', 'crc.hpp', 'engine.hpp'],
   [('subexpression registration and reshaping', 'dfa.hpp'), ('node checksums and equality', 'expr.hpp'), ('evaluation of extracted temporaries', 'engine.hpp')],
   'entities returned by compute()'),
 p('C04', 'Results hold exactly the components that can be non-zero',
   'For a polynomial expression without repeated subexpressions, the returned entity stores exactly the basis elements whose coefficient is not identically '
   'zero, each once and in increasing order: cancelling terms disappear and no other component is lost. An identically zero expression returns the empty entity.',
   ['programs'], 'all polynomial expressions free of repeated non-trivial subexpressions',
   'Exact cancellation is a statement about all coefficients of all expressions; tests look at the size of a few results.',
   ['algebra.hpp', 'expr.hpp', 'engine.hpp'],
   [('collation and cancellation of monomials', 'algebra.hpp'), ('selection of the result element list', 'engine.hpp')],
   'element list and size of the entity returned by compute()'),
 p('C05', 'Rational coefficients are exact',
   'Rational coefficients keep a positive denominator, and addition, subtraction, multiplication, division, negation, reciprocal and '
   'comparison agree with exact rational arithmetic, in lowest terms after +, -, * and / of two fractions, while denominators stay below 1024 and nothing exceeds 32 bits. Above that a coefficient may move, but by at most 1e-7, '
   'and a zero or non-zero coefficient of ordinary size is never confused with another value.',
   ['inputs', 'programs'], 'all pairs of in-range rationals; all expressions scaling by integers and dividing by integers',
   'The rounding of large fractions and the sign handling are arithmetic facts over millions of pairs; tests use halves and thirds.',
   ['numeric.hpp', 'algebra.hpp'],
   [('rational type and its operators', 'numeric.hpp'), ('fraction rounding', 'numeric.hpp')],
   'rational operators at run time and coefficients of compute() results'),
 p('C06', 'Reversion, dual, regressive and sandwich products obey their laws',
   'In every signature, degenerate ones included, ~ reverses the factors of every blade, ! maps each blade e to the complement with e^!e equal to the pseudoscalar, '
   'a&b is !(!a ^ !b), and a%b is b*a*~b. These hold for all multivectors, also nested, scaled, and '
   'applied to sums, literals, constants and empty entities.',
   ['inputs', 'programs', 'configurations'], 'all multivectors in all signatures and all nestings of these operators',
   'The signs depend on grade and on the permutation of every single blade; tests check selected blades.',
   ['geometric_algebra.hpp', 'algebra.hpp', 'expr.hpp', 'dfa.hpp'],
   [('reversion and dual of a multivector', 'algebra.hpp'), ('operators ~ ! & %', 'expr.hpp'), ('evaluation of the unary operations', 'dfa.hpp')],
   'entities returned by compute()'),
 p('C07', 'Component and grade extraction select exactly what was asked',
   'Inside an expression, reading component e of any subexpression yields that coefficient as a scalar, and selecting a grade keeps all and only the parts of '
   'that grade; absent components and grades give zero. This holds for every operand, however it was built, and the selected value can be used anywhere a scalar or multivector can.',
   ['programs', 'inputs'], 'all subexpressions, all basis elements, all grades',
   'Selection interacts with sparsity, scaling, term order and shared subexpressions; tests read one or two components.',
   ['expr.hpp', 'dfa.hpp', 'algebra.hpp'],
   [('component and grade nodes', 'expr.hpp'), ('evaluation of selections', 'dfa.hpp')],
   'entities returned by compute()'),
 p('C08', 'Division, roots, trigonometry and constants are exact functions',
   'Dividing by a scalar expression or an integer, dividing an integer by a scalar expression, and sqrt, sin, cos, tan, pi and e applied to or combined with any scalar '
   'subexpression give the mathematical value to rounding wherever it is defined. Nesting them, scaling their arguments or results, and mixing them with products never drops a factor or a sign.',
   ['programs', 'inputs'], 'all scalar subexpressions in the functions domain, all nestings',
   'A lost scale or sign depends on how the argument was built; tests evaluate each function on a bare input.',
   ['expr.hpp', 'dfa.hpp', 'algebra.hpp', 'engine.hpp', 'numeric.hpp'],
   [('scalar functions and division nodes', 'expr.hpp'), ('polynomial division and powers', 'algebra.hpp'), ('function application', 'engine.hpp')],
   'entities returned by compute()'),
 p('C09', 'Motor exponential and logarithm are inverse and unit-norm',
   'The exponential of any line with non-zero direction is a normalised motor satisfying M ~M = 1, equals the power series of the bivector, and its logarithm returns the line '
   'for every rotation angle inside the principal range; the exponential of a bivector of the vector algebra or the planar projective algebra is its power series too. Normalising any motor of non-zero norm yields unit norm without changing the motion.',
   ['inputs'], 'all lines (any direction, moment, pitch) and all motors with non-zero norm',
   'The formulas have separate rotation, moment and translation branches with sign conventions over six and eight reals; tests round-trip one or two lines.',
   ['pga.hpp'],
   [('line exponential', 'pga.hpp'), ('motor logarithm', 'pga.hpp'), ('motor normalisation', 'pga.hpp')],
   'values of motor and line objects and compute() on them'),
 p('C10', 'Named entities mean the same multivector in and out',
   'Every named type (vectors, rotors, planes, lines, points, motors, translators, in every algebra header) enters an expression as its documented multivector and is '
   'rebuilt from a result of that shape with the same coordinates: construct, pass through an identity, assign back gives the original for all values. Homogeneous points of the projective algebras divide out '
   'their weight, also when it is negative or not one, and components missing from a result read as zero.',
   ['inputs'], 'all named types, all coordinate values, all non-zero weights, all sparse result shapes',
   'Each mapping has its own element order and signs, and conversions must hold for every weight and missing element; tests use a few integer points.',
   ['vga.hpp', 'pga.hpp', 'pga2.hpp', 'cga.hpp', 'entity.hpp'],
   [('multivector form of each type', 'pga.hpp'), ('conversion constructors', 'pga.hpp'), ('two-dimensional types', 'pga2.hpp')],
   'coordinates of named objects built from compute() results'),
 p('C11', 'Joins, meets and motions have their Euclidean meaning',
   'In the projective algebras three planes (two lines in the plane) meet in the point solving their equations, points join into the line or plane through them, and parallel objects meet at infinity. '
   'Rotors, translators and motors applied by the sandwich operator move points, lines and planes rigidly: by the documented angle about the documented axis and by the documented distance, preserving distances, angles and incidence, and composing by multiplication.',
   ['inputs'], 'all points, lines, planes, axes, angles and distances',
   'Rigidity and incidence are statements over all configurations; tests move a few points.',
   ['pga.hpp', 'pga2.hpp', 'vga.hpp', 'engine.hpp'],
   [('entity definitions', 'pga.hpp'), ('rotors of the vector algebra', 'vga.hpp'), ('planar entities', 'pga2.hpp')],
   'coordinates of geometric results of compute()'),
 p('C12', 'Conformal algebra: null basis in, null basis out',
   'In the conformal algebra no*no = ni*ni = 0 and no|ni = -1, inputs, literals, component reads and results are all expressed in the null basis, and any compound expression agrees with '
   'the change of basis done by hand. A point embeds as no + p + p*p/2 ni, is null, and the inner product of two points is minus half their squared distance.',
   ['programs', 'inputs'], 'all expressions over conformal points, literals and general entities; all points',
   'Changes of basis happen around and inside every evaluation, temporaries included; tests check a few products.',
   ['cga.hpp', 'null_algebra.hpp', 'engine.hpp', 'dfa.hpp'],
   [('basis conversions', 'null_algebra.hpp'), ('conversion of inputs and results', 'dfa.hpp'), ('conformal point', 'cga.hpp')],
   'entities returned by conformal compute()'),
 p('C13', 'Inputs and results keep their positions',
   'The n-th parameter of the lambda denotes the n-th argument, for any number and mix of floats, scalars, named and generic entities, including empty ones, unused ones and '
   'the same object passed twice. When several results are returned they come back as a tuple in the order written, each with its own value, also when some are zero, repeated, bare inputs or literals.',
   ['programs', 'inputs'], 'all argument lists and result lists',
   'Index bookkeeping errors show only for particular mixes of sizes and positions; tests pass one to three entities of usual shape.',
   ['engine.hpp', 'dfa.hpp', 'expr.hpp'],
   [('input indexing', 'engine.hpp'), ('identifier assignment', 'dfa.hpp'), ('multiple results', 'engine.hpp')],
   'positions and values of compute() results'),
 p('C14', 'No memory error or undefined behaviour at run time',
   'Evaluating any compiled expression, constructing, converting, indexing, selecting, iterating and formatting entities, on any input bits including NaN, infinities, denormals and zero, performs '
   'no out-of-bounds or dangling access, reads nothing uninitialised, and executes no undefined behaviour. Hostile values produce IEEE results, never a trap or a hang.',
   ['inputs', 'programs'], 'all expressions, all bit patterns of inputs',
   'Out-of-bounds and uninitialised reads usually still give the right answer in a test; only instrumentation sees them.',
   ['engine.hpp', 'entity.hpp', 'pga.hpp', 'vga.hpp', 'format.hpp', 'algebra.hpp', 'expr.hpp', 'dfa.hpp'],
   [('pointer table of inputs and temporaries', 'engine.hpp'), ('element look-up', 'entity.hpp'), ('fixed-capacity polynomial buffers', 'algebra.hpp')],
   'sanitizer and valgrind reports'),
 p('C15', 'Evaluation allocates nothing and leaves inputs untouched',
   'Evaluating an expression, converting its result and reading entities never allocates heap memory and never writes to any input: every input object has the same bytes after the call as before, also when it is const or lives in '
   'read-only memory. Evaluation keeps no state: the same call with the same inputs gives bit-identical results every time.',
   ['inputs', 'histories'], 'all expressions, all inputs, all call sequences',
   'No test counts allocations or compares input bytes.',
   ['engine.hpp', 'entity.hpp', 'pga.hpp', 'vga.hpp', 'cga.hpp'],
   [('evaluation entry point', 'engine.hpp'), ('entities', 'entity.hpp')],
   'allocation counters, protected pages and byte snapshots around compute()'),
 p('C16', 'Concurrent evaluation is race-free and gives the same results',
   'Any number of threads may evaluate the same or different expressions at the same time over shared inputs: there is no data race, and each call returns bit for bit what it returns alone.',
   ['schedules', 'inputs'], 'all interleavings of concurrent evaluations',
   'The tests are single-threaded.',
   ['engine.hpp', 'dfa.hpp', 'entity.hpp', 'pga.hpp'],
   [('evaluation entry point and static tables', 'engine.hpp'), ('motor functions', 'pga.hpp')],
   'race detector reports and per-call results under threads'),
 p('C17', 'Results do not depend on precision, compiler or optimisation',
   'The same expression gives the same element list with float or double inputs and with any conforming compiler and optimisation level, and values that agree to the rounding of the chosen value type. '
   'The value type of the result is that of the inputs, and double inputs are never evaluated in single precision.',
   ['configurations', 'programs', 'inputs'], 'float and double, gcc and clang, all optimisation levels, all expressions',
   'The tests are built once, with one compiler, mostly in one precision and loose tolerances.',
   ['engine.hpp', 'numeric.hpp', 'expr.hpp', 'entity.hpp'],
   [('field inference', 'engine.hpp'), ('constants and rational conversion', 'numeric.hpp'), ('powers', 'numeric.hpp')],
   'results of the same program in several builds'),
 p('C18', 'Entities store, index, select and print faithfully',
   'Entities are exactly as large as the values they store; indexing, iteration, raw data and the coordinate names all address the same storage in the documented order; selecting elements returns the stored value or zero (null when asked for a writable place) '
   'for every element of the algebra. The printed form lists each stored value with its generators in order.',
   ['inputs', 'configurations'], 'all element subsets of all algebras, all named types, all values',
   'The look-up tables exist for every subset of elements of every algebra; tests read a few coordinates.',
   ['entity.hpp', 'format.hpp', 'vga.hpp', 'pga.hpp', 'pga2.hpp', 'cga.hpp'],
   [('element look-up', 'entity.hpp'), ('formatting', 'format.hpp'), ('aliased coordinates', 'pga.hpp')],
   'entity accessors'),
 p('C19', 'Compile-time containers and algorithms are correct for all inputs',
   'The sorting routines return an ordered permutation for every range and comparator, integer and fractional powers equal repeated multiplication for every exponent, bit helpers and checksums match their definitions, '
   'the stack is last-in first-out, and tuples preserve order and values through get, set, push, append, pop, split, apply and reversal.',
   ['inputs'], 'all ranges, exponents, words and tuple shapes',
   'Exhaustive small permutations, every exponent and every split position are beyond a few examples.',
   ['algorithm.hpp', 'numeric.hpp', 'tuple.hpp', 'stack.hpp', 'crc.hpp'],
   [('quicksort', 'algorithm.hpp'), ('powers and bit helpers', 'numeric.hpp'), ('tuple operations', 'tuple.hpp'), ('fixed stack', 'stack.hpp')],
   'direct calls'),
 p('C20', 'Size never matters: long sums, high powers, many inputs and results',
   'Expressions with many terms, high powers of a variable, many inputs, many results, deep nesting or fully dense multivectors obey the same laws as small ones: the result is complete and correct, and nothing is truncated, '
   'duplicated or left unmerged as the expression grows.',
   ['programs', 'inputs'], 'expressions up to dozens of summands and inputs, powers beyond twenty, dense multivectors up to dimension six',
   'Capacity, sorting and merging errors appear only beyond the sizes tests use.',
   ['algebra.hpp', 'expr.hpp', 'dfa.hpp', 'engine.hpp', 'algorithm.hpp', 'numeric.hpp'],
   [('fixed-capacity buffers and collation', 'algebra.hpp'), ('sorting of long ranges', 'algorithm.hpp'), ('powers', 'numeric.hpp')],
   'entities returned by compute()'),
 p('C21', 'A user-defined type enters with the polynomial it declares',
   'A type defined outside the library that declares its multivector as polynomials of its own stored numbers can be passed to any compute call, in any position, of any algebra and value type, next to built-in types: '
   'every expression then has exactly the value and element list of the declared polynomials evaluated at the stored numbers. This includes constant terms, rational factors, repeated and high powers, '
   'types that store nothing, storage laid out in any way behind the index operator, multivectors taken from the library (all even or all grade-two elements, an element list, the pseudoscalar or its inverse), and types of another algebra that declare a form for this one.',
   ['programs', 'inputs'], 'all declared polynomial multivectors, all expressions over them, all stored values',
   'The tests use two user-defined types with fixed polynomials, in one fixed computation with loose tolerances.',
   ['engine.hpp', 'algebra.hpp', 'dfa.hpp', 'expr.hpp', 'null_algebra.hpp'],
   [('binding of declared indeterminates to stored values', 'engine.hpp'), ('polynomial products and sums', 'algebra.hpp'), ('inputs of the recorded program', 'dfa.hpp')],
   'entities returned by compute()'),
 p('C22', 'Headers stand alone and combine in any order and number of files',
   'Every public header (but the planar conformal one) can be included by itself or with any others, in any order and repeatedly, in any number of source files built with either compiler: each file compiles, the files link into one program, '
   'and every expression, conversion, sorted range and printed text in it is the same as in a file that includes only the header it needs. Including a header replaces no word of the program outside the library\'s own prefix. '
   'The one intended interaction is that the conformal header gives the signature with four positive and one negative direction its conformal meaning.',
   ['programs', 'configurations'], 'all programs of any number of source files, all subsets and orders of headers',
   'The test files each include a fixed few headers, and the planar header and most combinations are in none of them.',
   ['pga.hpp', 'pga2.hpp', 'vga.hpp', 'cga.hpp', 'engine.hpp', 'opt.hpp', 'format.hpp', 'numeric.hpp', 'tuple.hpp'],
   [('planar types', 'pga2.hpp'), ('conformal types and null basis', 'cga.hpp'), ('shared macros', 'opt.hpp'), ('entry points', 'engine.hpp')],
   'compiled and linked programs'),
]

MON = 'runtime monitoring: '
TECH = {
 'C01': (MON + 'reference-algebra oracle over executed products, exhaustive blade tables', 'All blade pairs of the covered signatures are executed and compared; multivector products are sampled. Trusts the 350-line reference algebra.'),
 'C02': (MON + 'generated programs watched against an exact reference algebra', 'Held on the generated programs and values; reference algebra, tolerance model and compiler are trusted.'),
 'C03': (MON + 'generated programs with repetitions, plus a run-time interpreter monitor over reshaped expressions', 'Held on the generated arrangements; alarms of the internal monitor are confirmed through the public interface before they are reported.'),
 'C04': (MON + 'element lists of executed programs against exact modular-arithmetic supports', 'Support is decided by one random point of a 61-bit field (error probability below 1e-15 per coefficient).'),
 'C05': (MON + '128-bit integer oracle over executed rational operations, UBSan', 'Sampled and edge-case pairs; exact oracle.'),
 'C06': (MON + 'reference-algebra oracle over executed programs in many signatures', 'Dense operands execute every blade of the covered signatures; nestings are sampled.'),
 'C07': (MON + 'reference-algebra oracle over executed programs', 'Held on the generated programs.'),
 'C08': (MON + 'reference oracle in extended precision over executed programs', 'Held on the generated programs inside the functions domain.'),
 'C09': (MON + 'power-series and algebraic-law oracle over executed motor functions', 'Sampled lines and motors, including near-degenerate ones.'),
 'C10': (MON + 'round-trip monitor against an independent mapping table', 'Sampled values, all named types.'),
 'C11': (MON + 'independent vector-geometry oracle over executed geometry', 'Sampled configurations with condition guards.'),
 'C12': (MON + 'reference-algebra oracle with explicit change of basis', 'Held on the generated programs and points.'),
 'C13': (MON + 'generated argument and result lists watched against the reference', 'Held on the generated lists.'),
 'C14': ('AddressSanitizer, UndefinedBehaviorSanitizer and valgrind memcheck over generated and hostile workloads', 'Clean on the executed paths; red-zone tools miss intra-object overflow.'),
 'C15': (MON + 'allocation interposition, read-only pages and byte snapshots', 'Held on the executed calls.'),
 'C16': ('ThreadSanitizer plus result comparison under threads', 'Held on the schedules that occurred.'),
 'C17': (MON + 'differential runs across value types, compilers and optimisation levels', 'Held on the generated programs in the listed builds.'),
 'C18': (MON + 'accessor monitor against an independent layout table', 'Sampled element subsets plus all named types.'),
 'C19': (MON + 'exhaustive and random executions against standard-library oracles', 'Exhaustive to length 8, random beyond.'),
 'C21': (MON + 'generated user-defined types in generated programs watched against the reference', 'Held on the generated types and programs; division by a bare input of several monomials is a known finding.'),
 'C22': (MON + 'generated multi-file programs run against the same functions built from their header alone', 'Held on the generated header sets and orders; one build of each function serves as the reference.'),
 'C20': (MON + 'large generated programs watched against the reference', 'Held on the generated sizes.'),
}


def main():
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for x in PROPS:
            assert len(x['title']) <= 80, x['title']
            f.write(json.dumps(x) + '\n')
    import sys
    sys.path.insert(0, V)
    import check
    checks = [dict(property=x['id'], quick_cmd=f'python3 check.py {x["id"]} quick', thorough_cmd=f'python3 check.py {x["id"]} thorough',
                   evidence_file=f'evidence/{x["id"]}.json', technique=TECH[x['id']][0], level='exploration', level_note=TECH[x['id']][1])
              for x in PROPS if x['id'] in check.CHECKS]
    m = dict(version=1, setup_cmd='python3 check.py setup', hooks=dict(guard='none', enable='no hooks were added to the repository', source_commits=[]),
             checks=checks, not_applicable=[dict(property=x['id'], reason='check under construction') for x in PROPS if x['id'] not in check.CHECKS])
    with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


main()
