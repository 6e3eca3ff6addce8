"""Single source of properties.jsonl and MANIFEST.json:  python3 tools/props.py"""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = 'deterministic simulation'
P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), technique=None, note=None):
    P.append({
        'prop': {'id': id, 'title': title, 'statement': statement,
                 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
                 'anchors': {'files': files,
                             'state': [dict(zip(('name', 'meaning', 'where'), s)) for s in state],
                             'mechanism': [{'name': a, 'where': b} for a, b in mech],
                             'observe_at': list(observe), 'hook_needed': None}},
        'technique': technique, 'note': note})


prop('C01', 'Algebra results are the exact Clifford-algebra values in every session',
     'In every sequence of operations on any number of algebras (any metric: numeric, symbolic, diagonal, general, '
     'degenerate, null), every product, involution, inverse, dual, norm, projection, reflection, rotation and grade '
     'part returned is exactly the value the Clifford algebra of that metric defines for its operands. The value does '
     'not depend on which operations ran before (on lazily built tables, cached facts, printing, refused calls or '
     'other algebras in the process), and a call whose value is defined does not fail.',
     ['histories', 'inputs', 'configurations'],
     'all operation histories of one or more interleaved users over all algebras and multivectors',
     'Tests evaluate fixed expressions, each in a fresh algebra; the product tables and cached facts that later calls '
     'reuse depend on the history, which no test varies.',
     ['galgebra/ga.py', 'galgebra/mv.py', 'galgebra/metric.py', 'galgebra/interop/_cl.py', 'galgebra/interop/kingdon.py'],
     [('lazily filled product tables', 'Ga.mul/wedge/hestenes_dot/left_contract/right_contract tables, ga.py'),
      ('blade/base conversion dictionaries', 'Ga.base_expansion_dict, blade_expansion_dict, ga.py'),
      ('cached characterisation of a multivector', 'Mv.characterise_Mv, is_blade, is_versor, mv.py')],
     [('_dbases and product dictionaries', 'tables filled on first use', 'galgebra/ga.py'),
      ('Mv.char_Mv, i_grade, grades, blade_flg, versor_flg', 'cached facts about one multivector', 'galgebra/mv.py')],
     ['values returned by operators and methods of multivectors and algebras'],
     'seeded sessions of interleaved simulated users against a reference Clifford algebra and against their own '
     'backward slice in a fresh process',
     'Randomised exploration of sessions; exactness is judged at one rational point to 18 digits; trusts sympy '
     'arithmetic and the 290-line reference algebra.')

prop('C03', 'A failed or interrupted operation leaves everything usable and unchanged',
     'When an operation is cut short at any point (by an interrupt, exhausted memory or recursion depth, a failing '
     'function the caller supplied, or a refused argument), every multivector, algebra, transformation and operator '
     'that existed before still has its value. Repeating the operation and every later operation gives exactly the '
     'results of a session in which the failure never happened, and session-wide settings and the standard output are '
     'as they were.',
     ['crash_points', 'fault_sequences', 'histories'],
     'all operations, all calls out of the library at which a fault can surface, all later histories',
     'No test interrupts an operation; the first-use paths that fill tables run once per algebra, so a fault would '
     'have to land inside exactly that call.',
     ['galgebra/ga.py', 'galgebra/mv.py', 'galgebra/metric.py', 'galgebra/lt.py', 'galgebra/printer.py'],
     [('tables are stored after they are complete', 'Ga cached properties and dictionaries, ga.py'),
      ('temporary settings are undone in finally blocks', 'printer settings, metric.py, lt.py')],
     [('product tables, connection tables, Mlt slots', 'filled lazily', 'galgebra/ga.py, galgebra/lt.py')],
     ['later values', 'global modes', 'sys.stdout'],
     'seeded sessions with exceptions injected at seeded calls leaving the library, retried and compared with the '
     'fault-free session and the reference model',
     'Faults are KeyboardInterrupt, MemoryError and RecursionError at entries of Python functions outside the library '
     'called from it, failing caller-supplied functions and refused calls; faults between two bytecodes of the '
     'library itself are not injected.')

prop('C04', 'Concurrent use from several threads gives the single-threaded results',
     'When several threads use the library at the same time, on shared algebras and shared multivectors or on their '
     'own, every value a thread obtains is the value it would obtain running alone, and no call fails or deadlocks '
     'because of another thread. Session-wide mode switches made deliberately while others compute are excluded.',
     ['schedules', 'histories'],
     'all interleavings of the threads at source-line granularity, all programs',
     'The test-suite is single-threaded.',
     ['galgebra/ga.py', 'galgebra/mv.py', 'galgebra/metric.py', 'galgebra/lt.py', 'galgebra/_utils/parser.py',
      'galgebra/_utils/cached_property.py'],
     [('table entries are computed completely, then stored under their key', 'galgebra/ga.py'),
      ('no temporary change of shared objects', 'galgebra/lt.py, galgebra/mv.py')],
     [('shared algebra tables, module counters', 'mutable state reached by all threads', 'galgebra/ga.py, metric.py, lt.py, parser.py')],
     ['values returned in each thread'],
     'seeded scheduler over real threads that run one at a time and are preempted at seeded source lines',
     'Randomised schedules with few preemptions (mostly at lines that touch shared state); preemption inside sympy is not explored.')

prop('C05', 'Operations never change their operands or the caller\'s inputs',
     'No operation, print, comparison or evaluation changes the value, the printed form or the hash of any '
     'multivector, operator, transformation or algebra that existed before it, nor any list, matrix or dictionary the '
     'caller passed in; only the documented in-place setter changes its own object. A result never shares mutable '
     'state with an operand or argument, so later changes to one are not seen through the other.',
     ['histories', 'inputs'],
     'all operation histories, all live objects',
     'Tests look at the result of a call, never at every other live object before and after it.',
     ['galgebra/mv.py', 'galgebra/ga.py', 'galgebra/lt.py', 'galgebra/dop.py', 'galgebra/metric.py'],
     [('operators build new objects', 'Mv operators, mv.py'), ('constructors copy', 'Mv.__init__, Metric.__init__, Lt.__init__')],
     [], ['every live value before and after every step'],
     'seeded sessions in which every live object and every caller-owned container is compared before and after every step',
     'Objects are compared by exact value at a rational point, by printed form and by hash.')

prop('C06', 'Algebras with the same names but different metrics never influence each other',
     'Creating, using or discarding an algebra never changes the result of any operation in another one, even when '
     'both use the same basis names, coordinates and symbols with different metrics. An expression that mixes '
     'multivectors, operators or transformations of different algebras is refused, while objects of the same algebra '
     'always combine.',
     ['histories', 'configurations'],
     'all interleavings of operations over any set of similarly named algebras, including discarded ones',
     'Tests build one algebra per test function and rarely two with colliding names.',
     ['galgebra/ga.py', 'galgebra/metric.py', 'galgebra/mv.py', 'galgebra/lt.py'],
     [('per-instance tables', 'Ga.__init__, ga.py'), ('unique algebra names and equality', 'Metric.__init__, Ga.__eq__'),
      ('checks that operands belong to one algebra', 'Mv operators, Dop.Mul, Lt')],
     [('Metric.count', 'makes names unique', 'galgebra/metric.py')],
     ['values in each algebra', 'refusals'],
     'seeded sessions over families of colliding algebras against the reference model and against each algebra alone',
     'Randomised exploration; families share names, coordinates and symbols.')

prop('C07', 'Session-wide modes act exactly as declared, and only as declared',
     'The dual and undual of every multivector follow the dual mode in force when they are called (one of the eight '
     'documented modes), in every algebra old or new, and undual always reverses dual. A refused mode change or '
     'refused algebra construction leaves the mode as it was, and the simplification profile never changes the value '
     'of any result, only its form, and a profile function that fails only fails the call that used it.',
     ['histories', 'configurations', 'fault_sequences'],
     'all sequences of mode switches, algebra constructions, duals and simplifications',
     'Tests set a mode, evaluate one expression and set it back.',
     ['galgebra/ga.py', 'galgebra/mv.py', 'galgebra/metric.py', 'galgebra/interop/_cl.py', 'galgebra/interop/kingdon.py'],
     [('dual mode table', 'Ga.dual_mode, Mv.dual, Mv.undual'), ('simplification profile', 'metric.Simp')],
     [('Ga.dual_mode_value', 'session-wide dual mode', 'galgebra/ga.py'), ('Simp.modes', 'simplification profile', 'galgebra/metric.py')],
     ['dual and undual values', 'the current mode'],
     'seeded sessions of mode switches, refused switches and failing profile functions against a reference state machine',
     'Randomised exploration over all eight modes and all algebra kinds with an invertible pseudoscalar.')

prop('C08', 'Captured LaTeX reports hold exactly their own output and stdout comes back',
     'Between switching LaTeX capture on and producing the report, everything printed by the program goes into that '
     'report, once and in order, and nothing else does; outside that span printing goes to the real standard output. '
     'This holds for every sequence of reports in a process, with repeated or missing on/off calls and with errors in '
     'between, and after a report is produced standard output is the caller\'s own stream again. The gFormat/gprint '
     'family collects its output for the next gxpdf report in the same way.',
     ['histories', 'fault_sequences'],
     'all sequences of capture on/off, printing, report production and failures in one process',
     'Each test and example produces at most one report in a fresh process.',
     ['galgebra/printer.py', 'galgebra/gprinter.py'],
     [('stdout redirection', 'GaLatexPrinter.redirect, restore, Format, tex'), ('report buffers', 'GaLatexPrinter.latex_str, LaTeX.latex_str')],
     [('GaLatexPrinter.latex_flg, latex_str, capture', 'capture state', 'galgebra/printer.py')],
     ['sys.stdout', 'the text of each report'],
     'seeded sessions over a simulated terminal with failing streams, against a reference report buffer',
     'The terminal is an in-memory stream; report bodies are compared on marker lines and values, not on LaTeX layout.')

prop('C09', 'Exporting a report never loses it, whatever fails on the way',
     'If writing the report file fails, the captured output is still there and a later export contains all of it; if '
     'the typesetting or cropping program is missing or fails, the last good form of the report (the source file, or '
     'the uncropped document) is still on disk and complete. When nothing fails the report file holds the complete '
     'report and the intermediate files are cleaned up, and no file outside the report\'s own name is touched.',
     ['fault_sequences', 'crash_points'],
     'all failures (cannot open, short write, disk full, missing or failing program, failing cleanup) at each step of an export',
     'The tests never run an export that fails, and skip the typesetting step.',
     ['galgebra/printer.py', 'galgebra/gprinter.py'],
     [('export pipeline', 'xpdf, tex, gxpdf')],
     [('captured text', 'what has not been exported yet', 'galgebra/printer.py, galgebra/gprinter.py')],
     ['files in the working directory', 'a later export'],
     'seeded export sessions over a simulated disk and simulated external programs with injected failures',
     'open, os.system, subprocess, os.remove/rename/unlink, shutil and input are simulated; the disk is in memory.')

prop('C10', 'Results and printed output are the same in every run of a program',
     'Running the same program again in another process gives the same values, the same printed and LaTeX text and '
     'the same order of coefficients, whatever the seed of string hashing is.',
     ['configurations', 'histories'],
     'all programs, all hash seeds',
     'The test-suite runs with one hash seed and compares with stored text from that run.',
     ['galgebra/printer.py', 'galgebra/mv.py', 'galgebra/metric.py', 'galgebra/ga.py', 'galgebra/dop.py', 'galgebra/lt.py'],
     [('sorted output', 'printer.py, Mv._sympystr, Dop printing'), ('ordered tables', 'ga.py')],
     [], ['values', 'printed text', 'coefficient order'],
     'the same seeded sessions executed under several hash seeds (one interpreter each) and compared',
     'A few hash seeds per run; sympy itself is part of what is compared.')

prop('C12', 'String expressions evaluate with the declared operator precedence',
     'Evaluating an expression string gives the value of the fully parenthesised expression under the precedence '
     'order declared last, for every expression, nesting and declared order. It does not depend on earlier '
     'evaluations, refused declarations or failed evaluations, and evaluation never changes the variables it reads.',
     ['inputs', 'histories'],
     'all expression trees, all precedence orders, all sequences of declarations, evaluations and failures',
     'Tests evaluate a handful of fixed strings with the default order.',
     ['galgebra/printer.py', 'galgebra/_utils/parser.py'],
     [('precedence parser', 'galgebra/_utils/parser.py'), ('declared order and namespace', 'def_prec, GAeval')],
     [('_eval_global_dict, _eval_parse_order', 'declared order and namespace', 'galgebra/printer.py')],
     ['value of the evaluated string'],
     'seeded sessions of declarations, evaluations and failing evaluations against a reference precedence parser',
     'Expressions use the operators the evaluator documents, + and - at the lowest level, nesting up to 4.')

prop('C13', 'Answers about a multivector stay correct when a coefficient is set',
     'After any sequence of coefficient assignments on a multivector, interleaved with questions about it (grades, '
     'blade, versor, scalar, vector, zero, base), products, copies and prints, every question and every product '
     'answers for the coefficients it has now. Copies taken before an assignment keep the old coefficients.',
     ['histories'],
     'all sequences of assignments, questions, copies and products',
     'No test assigns a coefficient and asks again.',
     ['galgebra/mv.py'],
     [('coefficient setter', 'Mv.set_coef'), ('cached facts', 'Mv.characterise_Mv, is_blade, is_versor')],
     [('Mv.char_Mv, i_grade, grades, blade_flg, versor_flg', 'cached facts', 'galgebra/mv.py')],
     ['answers and products after each assignment'],
     'seeded histories on shared mutable multivectors against a reference object',
     'The setter is used on multivectors the caller constructed (those an algebra hands out are shared by design).')

prop('C14', 'Printing changes nothing and format settings stay where they were asked for',
     'The text of an object (plain, LaTeX or per-object format) depends only on the object and the settings in force, '
     'never on what was printed, computed or refused before. A format requested for one object or one call applies to '
     'that one only, including when printing fails half-way, and a session-wide setting applies until it is changed.',
     ['histories', 'fault_sequences', 'configurations'],
     'all sequences of prints with and without settings, computations and failing prints',
     'Tests print one object in a fresh state.',
     ['galgebra/printer.py', 'galgebra/mv.py', 'galgebra/lt.py', 'galgebra/dop.py'],
     [('per-object settings', 'printer._WithSettings, Mv.Fmt'), ('printer settings', 'GaPrinter, GaLatexPrinter')],
     [('global printer settings', 'defaults in force', 'galgebra/printer.py')],
     ['printed text'],
     'seeded sessions of prints with injected failures, compared with the same print alone in a fresh process',
     'Text is compared exactly with that of the backward slice of the printed object.')

prop('C15', 'The printed text denotes the value',
     'The plain and the LaTeX text of a multivector, a linear or multilinear map or a differential operator, read by the '
     'usual rules of mathematical notation, denotes exactly the value the object has when it is printed: no term, sign, '
     'factor, exponent, bracket or basis blade is dropped, repeated or changed, in any print format, under any '
     'combination of settings, at any point of any session, also after computations and prints that were interrupted or '
     'refused.',
     ['histories', 'inputs', 'configurations', 'fault_sequences'],
     'all printable objects reached by any session, all formats and settings, all histories of prints and failures',
     'Tests compare the text of a few objects with a stored text; whether the text still denotes the value depends on '
     'the coefficients, the format, the settings in force and on what was computed and cached before.',
     ['galgebra/printer.py', 'galgebra/mv.py', 'galgebra/lt.py', 'galgebra/dop.py'],
     [('multivector text by grade, blade or on one line', 'Mv._sympystr, Mv._latex, mv.py'),
      ('operator text', 'dop.py, mv.py Dop._sympystr, _latex'),
      ('expression text', 'GaPrinter, GaLatexPrinter, printer.py')],
     [('printer settings', 'defaults in force', 'galgebra/printer.py'),
      ('cached expansion and representation flags', 'Mv.is_blade_rep, obj', 'galgebra/mv.py')],
     ['printed text and value of the printed object'],
     'seeded sessions of computations, settings, prints and failures; every printed text is read back by an independent '
     'reader and compared with the reference value',
     'Texts are evaluated at one rational point to 18 digits; a text whose notation has no agreed reading (a component V^{2} '
     'against a square) is skipped and counted.')

prop('C11', 'Linear and multilinear maps are exact and consistent in every session',
     'A linear map applied to any multivector is the outermorphism of its action on vectors however it was given '
     '(matrix, dictionary, function, rotor, symbol), and its sums, compositions, adjoint, determinant, trace, inverse '
     'and matrix are those of linear algebra. A multilinear map evaluates, adds, multiplies, contracts and '
     'differentiates by slot as the tensor it stands for; none of this depends on maps or derivatives used before.',
     ['histories', 'inputs', 'configurations'],
     'all maps, arguments and algebras, all interleavings with other maps and derivatives on the same algebra',
     'Tests check a few maps on orthonormal bases, each in a fresh algebra.',
     ['galgebra/lt.py', 'galgebra/ga.py'],
     [('linear maps', 'Lt, lt.py'), ('multilinear maps with shared slot vectors', 'Mlt, lt.py')],
     [('Ga._mlt_a, _mlt_pdiffs, _mlt_acoefs', 'slot vectors shared by all multilinear maps of an algebra', 'galgebra/ga.py'),
      ('Lt.mv_dict, Lt.mat', 'cached', 'galgebra/lt.py')],
     ['values, matrices, scalars'],
     'seeded sessions of maps, tensors and derivatives against a reference model',
     'Randomised exploration; values judged at a rational point.')

prop('C02', 'Derivatives are exact on every manifold and in every session',
     'In curvilinear, general and embedded coordinates, with normalised bases or not, the gradient, divergence, curl, '
     'Laplacian, left and right, directional and partial derivatives of every field are the exact geometric '
     'derivatives, including the derivatives of the basis vectors. They do not depend on which derivatives, maps or '
     'submanifolds were computed before.',
     ['histories', 'inputs', 'configurations'],
     'all coordinate systems and fields, all histories',
     'Tests compare a few classical formulas printed for three or four coordinate systems.',
     ['galgebra/ga.py', 'galgebra/metric.py', 'galgebra/mv.py', 'galgebra/dop.py'],
     [('derivatives of basis vectors', 'Metric.derivatives_of_basis, Ga.blade_derivation'), ('operators', 'mv.Dop, Ga.pDiff')],
     [('Ga._dbases, Ga.de, Ga._agrads, Ga.connect', 'cached derivatives', 'galgebra/ga.py')],
     ['derivative fields'],
     'seeded sessions of derivatives against a reference model in truncated Taylor arithmetic',
     'Positive-definite orthogonal and general metrics in 2 and 3 dimensions; judged at a rational point.')

prop('C16', 'Differential operators compose, add and apply as operators in every session',
     'Sums, differences, scalar multiples, products and powers of scalar and multivector differential operators, acting to '
     'the right or to the left, act on every field as the combination of the actions of their parts. Equality, '
     'component splitting, simplification and printing of an operator never change what it does.',
     ['inputs', 'histories'],
     'all operator expressions and fields, all histories',
     'Tests check a few identities on fixed operators.',
     ['galgebra/dop.py', 'galgebra/mv.py'],
     [('operator algebra', 'dop.Pdop, dop.Sdop, mv.Dop')],
     [], ['operator applied to fields'],
     'seeded sessions building and applying operators against a reference operator algebra in truncated Taylor arithmetic',
     'Operators up to third order; judged at a rational point.')

prop('C17', 'The identities of geometric algebra hold for arbitrary inputs',
     'Associativity, distributivity, contraction identities, the duality and inversion laws hold for every choice of '
     'multivectors and metric.',
     ['inputs'], 'all multivectors and metrics, one call at a time',
     'Tests check the identities for fixed dimensions and symbolic vectors.',
     ['galgebra/ga.py', 'galgebra/mv.py'], [('products', 'galgebra/ga.py')])
prop('C18', 'The LaTeX emitted for any object is valid LaTeX',
     'Every object prints to LaTeX that a LaTeX compiler accepts.',
     ['inputs'], 'all objects',
     'Tests compare stored text; no compiler is available.',
     ['galgebra/printer.py', 'galgebra/mv.py'], [('LaTeX printers', 'galgebra/printer.py')])

NA = {
    'C17': 'A pure function of its arguments with no concurrency, time, I/O or history for a simulator to control; '
           'the history-dependent part (exact values in every session) is C01.',
    'C18': 'Needs a LaTeX compiler, which is not installed; and nothing nondeterministic for a simulator to decide.',
}


def main():
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for x in P:
            f.write(json.dumps(x['prop']) + '\n')
    checks, na = [], []
    for x in P:
        i = x['prop']['id']
        if i in NA:
            na.append({'property': i, 'reason': NA[i]})
        elif not os.path.exists(os.path.join(ROOT, 'dst', i.lower() + '.py')):
            na.append({'property': i, 'reason': 'check not built yet'})
        else:
            checks.append({'property': i, 'quick_cmd': './check %s quick' % i, 'thorough_cmd': './check %s thorough' % i,
                           'evidence_file': 'evidence/%s.json' % i, 'technique': TECH + ': ' + x['technique'],
                           'level': 'exploration', 'level_note': x['note']})
    m = {'version': 1, 'setup_cmd': './check setup',
         'hooks': {'guard': 'GALGEBRA_DST (reserved; the simulator needs no hook in the library)',
                   'enable': 'nothing to enable: every seam is an interpreter facility (sys.monitoring, sys.stdout, '
                             'builtins, os, subprocess) replaced inside the simulated process', 'source_commits': []},
         'checks': checks, 'not_applicable': na,
         'notes': 'Replay a violation with ./check replay FILE. ./check selftest checks determinism of the simulator.'}
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')
    for x in P:
        assert len(x['prop']['title']) <= 80, x['prop']['id']


main()
