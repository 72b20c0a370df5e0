#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json.  Run after editing: python3 tool/props.py"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = 'sources/interpreter/'
P = []
def prop(id, title, statement, over, text, why, files, mech, technique=None, note=None, na=None, observe=None, state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  technique=technique, note=note, na=na, observe=observe, state=state))

prop('C01', 'Built-in functions and conversions deliver what their declared types promise',
 'Every built-in function of the atlas language, and every implicit conversion, when called with arguments of its declared '
 'parameter types takes exactly those arguments, treats each of them as a value of its declared type, and delivers exactly one '
 'result of its declared result type. The result is delivered as a single value, as separate components, or not at all, '
 'according to how the calling expression wants it.',
 ['inputs', 'programs'],
 'every registered built-in and conversion, every control-flow path through its implementation, each of the three ways in which '
 'the result may be wanted, all argument values of the declared types',
 'The test scripts call a minority of the nearly 500 built-ins, mostly with the result wanted as one value, and never on the '
 'paths for rare argument values; a wrong component count or type on another path only shows up as a corrupted evaluation later.',
 [W + 'global.w', W + 'atlas-types.w', W + 'axis-types.w', W + 'axis.w'],
 [('registration table pairing each function with a type string', W + 'global.w, atlas-types.w: install_function'),
  ('push_value / push_expanded / wrap_tuple / get', W + 'axis-types.w')],
 'path-sensitive abstract interpretation of every wrapper against its registered type',
 'Every path of every wrapper is interpreted over symbolic stacks; argument tuples, rows and unions are tracked component-wise. '
 'Trusts that value classes correspond to primitive types as tabled, and does not follow values through opaque library code.',
 observe=['value and type printed for a call', 'behaviour of a call whose result is destructured or discarded'])

prop('C03', 'Evaluating any expression yields exactly the form of result requested',
 'For every form of expression and every kind of function value, evaluation that completes normally leaves on the evaluation '
 'stack exactly what was requested and consumes nothing else: nothing when no value is wanted, one value when a single value is '
 'wanted, and the separate components of that value when components are wanted.',
 ['programs', 'inputs'],
 'all programs: every expression form and function kind, every control-flow path of its evaluation, each of the three request '
 'modes, by induction on expression nesting',
 'Programs nest expressions without bound, and a stray or missing value is invisible until an enclosing expression of another '
 'kind picks it up; tests evaluate a few hundred fixed programs.',
 [W + 'axis.w', W + 'axis-types.w'],
 [('virtual evaluation methods with a level argument', W + 'axis.w: every struct derived from expression_base'),
  ('function application methods', W + 'axis.w, axis-types.w')],
 'path-sensitive abstract interpretation with assume/guarantee over sub-expressions',
 'Every path of every evaluation and application method, at each of the three levels, with sub-expressions replaced by the '
 'contract being proved; component types of results are not tracked here.',
 observe=['results of enclosing expressions', 'growth of the evaluation stack'])

U='sources/utilities/'; ST='sources/structure/'; GK='sources/gkmod/'; IO='sources/io/'; IF='sources/interface/'
prop('C10', 'Results depend only on the arguments, never on hidden state',
 'The outcome of every library computation depends only on its arguments and on the object it is applied to. It is not influenced by '
 'values that earlier computations, for the same or for other groups, left in variables that outlive a call, nor by members that may change '
 'in operations that only inspect an object; and never by memory addresses, the clock, the environment or random numbers.',
 ['inputs', 'histories'],
 'every function of the library and of Fokko, every sequence of earlier calls in the same session',
 'A leak of state between computations shows only for particular sequences of calls with particular pairs of arguments; each test '
 'runs a fixed sequence from a fresh start, and dependence on addresses varies from one run to the next.',
 [U + 'abelian.cpp', U + 'constants.cpp', ST + 'innerclass.h', ST + 'tits.cpp', GK + 'standardrepk.cpp', GK + 'ext_block.cpp'],
 [('objects of static storage duration and static locals', 'all of sources outside interpreter'),
  ('mutable members, removal of const', ST + 'innerclass.h, ' + U + 'ratvec.cpp, ' + U + 'free_abelian.h')],
 'whole-program effect analysis of static storage; taint analysis of nondeterminism sources; rules on address order and const removal',
 'All library functions; writes are resolved through references, pointers and callees. Lazily built members in the table are trusted to '
 'be functions of the object.', observe=['results of repeated calls', 'results of a second group in one session'])
prop('C11', 'Comparisons and hash codes see every component and agree with each other',
 'For every value type of the library, two values compare equal exactly when all their components are equal, and inequality is exactly '
 'the negation. Every ordering, including those passed to sorting and searching, is irreflexive, asymmetric and transitive, never takes '
 'values that differ for equivalent, and for numbers and polynomials goes in the natural direction; hash codes depend only on what equality compares.',
 ['inputs'],
 'every comparison operator, comparison object and hash function of the library; all outcomes of comparing each pair of corresponding components',
 'A comparison that skips one component is wrong only for two values that differ nowhere else, and a broken ordering only misplaces '
 'particular values in sorted tables and hash tables, far from the comparison itself.',
 [U + 'polynomials.h', U + 'ratvec.cpp', U + 'bigint.cpp', GK + 'repr.h', GK + 'K_repr.h', GK + 'standardrepk.cpp', ST + 'tits.h', ST + 'weyl.h'],
 [('operator==, operator!=, operator<, hashCode', 'all value classes'), ('HashTable::match', U + 'hashtable_def.h')],
 'exhaustive decision over the finite domain of component relations (abstract evaluation of the comparison functions)',
 'All two-operand comparisons of the library are decided over all outcome combinations except those listed as undecided in the evidence; '
 'components tabled as derived from others are exempt.', observe=['results of lookups, sorting and merging'])

prop('C12', 'Output goes entirely to the chosen destination and leaves it as found',
 'An operation that is given an output stream writes to that stream and to no other (in particular nothing to standard output), hands that same '
 'stream back, and leaves its formatting settings (base, fill, alignment, precision) as it found them. When a Fokko command has let the user choose '
 'an output file, all data produced from then on goes to that file; standard output receives at most fixed messages.',
 ['inputs', 'configurations'],
 'every function with an output stream parameter, every command that opens a user-chosen output file, every path through them and through what they call',
 'Tests capture standard output, where stray output to the wrong destination looks correct; only a run that writes to a file or string shows it, '
 'for that one command and input.',
 [IF + 'mainmode.cpp', IF + 'realmode.cpp', IF + 'blockmode.cpp', IO + 'block_io.cpp', IO + 'realform_io.cpp', IO + 'prettyprint.cpp', IO + 'basic_io.cpp', IO + 'ioutils.cpp'],
 [('print functions taking a stream', IO), ('OutputFile', IO + 'ioutils.h; used in ' + IF)],
 'interprocedural output-effect analysis (which streams a function may write) and must-restore rule for stream settings',
 'Output effects are computed through calls; messages to standard error are outside the property.', observe=['contents of a chosen output file', 'standard output'])

prop('C13', 'Copies, assignments and exchanges carry the whole value and share no ownership',
 'Copying, moving, assigning or swapping an object of any library type transfers every component of the value to the corresponding component of the '
 'target (lazily computed caches may be left to be rebuilt). Resources an object releases on destruction are never owned by two objects at once, and assigning an object to itself leaves it unchanged.',
 ['inputs', 'histories'],
 'every copy or move constructor, assignment operator and swap of every library class, all members, all later uses of either object',
 'A component that is lost in one of these operations keeps a plausible default or stale value; only a program that copies such an object and later uses just that component notices.',
 [GK + 'blocks.cpp', GK + 'ext_block.h', GK + 'kgb.h', ST + 'cartanclass.cpp', ST + 'subsystem.h', ST + 'bitvector.h', ST + 'weyl.h', ST + 'realredgp.cpp', U + 'bitmap.cpp', U + 'sl_list.h'],
 [('user-written copy/move constructors, operator=, swap', 'all library classes'), ('classes with owning pointers', 'destructors containing delete')],
 'member-wise transfer (dataflow) analysis of special member functions; ownership rule for classes with releasing destructors',
 'Decides that each member gets its value from the corresponding source member; expressions computed from the source are trusted to be the right ones.',
 observe=['any use of the copied, assigned or swapped objects'])

prop('C14', 'Nothing is used before it has been given a value',
 'On every path through every operation of the library, a variable, or component of an object, is given a value before it is read. Every constructor gives a value to every '
 'component of the object under construction (except placeholder default constructors whose objects must be assigned before use), and uses no component before that component has been initialised.',
 ['inputs', 'configurations'],
 'every function and constructor of the library and of Fokko, every local variable and member of scalar, array or plain structure type, every control-flow path',
 'An uninitialised value is often zero, or left over from an earlier identical call, so a test passes by luck; whether it does depends on compiler, optimisation and history, and the paths concerned are the rare ones.',
 [GK + 'blocks.cpp', GK + 'ext_block.cpp', GK + 'kgb.cpp', GK + 'standardrepk.cpp', ST + 'tits.cpp', ST + 'rootdata.cpp', ST + 'dynkin.cpp', U + 'matreduc.cpp', U + 'bitmap.cpp', IO + 'filekl_in.cpp'],
 [('constructors and their initialiser lists', 'all library classes'), ('local variables without initialiser, output parameters', 'all library functions')],
 'definite-assignment dataflow over control-flow graphs, interprocedural through output parameters and member functions; initialisation-order rule',
 'Arrays count as assigned once an element is; functions in which assignment and use are guarded by one condition are tabled after reading. Elements of containers and memory behind pointers are not tracked.',
 observe=['any result computed from the variable'])

prop('C15', 'No reference outlives what it designates; no value is used after it is moved',
 'No operation uses a reference, pointer or iterator after the container element it designates may have been moved, removed or released by a later operation, including growth of a shared '
 'table during a recursive computation. No reference to a local variable or to part of a temporary is returned or kept, and no variable is read after its value has been moved elsewhere.',
 ['inputs', 'histories'],
 'every reference, pointer and iterator variable of the library and of Fokko, every path between its binding and its uses, every container operation on those paths including those inside callees',
 'Released memory usually still holds the old contents, and a table moves only when it happens to be full, so the misuse shows for particular sizes and histories, often as silently wrong data.',
 [GK + 'repr.cpp', GK + 'kl.cpp', GK + 'ext_kl.cpp', GK + 'kgb.cpp', GK + 'kgp.cpp', GK + 'blocks.cpp', GK + 'standardrepk.cpp', ST + 'involutions.cpp', U + 'hashtable_def.h', U + 'sl_list.h', U + 'bigint.h'],
 [('references to elements of tables that grow', GK + 'repr.cpp, kl.cpp, blocks.cpp, kgb.cpp'), ('hash tables over shared pools', U + 'hashtable.h'), ('queues and lists of work to do', GK + 'kgp.cpp, ' + ST + 'innerclass.cpp')],
 'borrow-style flow-sensitive dataflow over interprocedural access-path and growth summaries',
 'Containers reached through different members are taken to be different objects; containers reserved earlier in the same function are taken to be large enough; references stored in members are not followed.',
 observe=['contents of tables and results after growth'])

prop('C16', 'Failures are contained, reported, and leave what was in force in force',
 'No failure escapes the Fokko command loop or a destructor, and the atlas language only sees kinds of failure it recognises. No handler lets a computation continue as if nothing had happened: it passes the '
 'failure on, reports it to the user, or computes what is needed by other means. A Fokko command that fails leaves the group, real form and parameter chosen before in force, a mode becomes current only when entering it '
 'succeeded, and Kazhdan-Lusztig tables never treat a column as computed unless it was completely computed.',
 ['inputs', 'faults', 'histories'],
 'every throw expression and what can be thrown by every call, every handler, every command and mode of Fokko, every path on which Kazhdan-Lusztig columns are filled',
 'Failures arise from exhausted memory, arithmetic overflow, user interruption and abandoned dialogues, which tests do not provoke; the damage appears only in later commands or later look-ups in tables.',
 [IF + 'commands.cpp', IF + 'mainmode.cpp', IF + 'realmode.cpp', IF + 'blockmode.cpp', IF + 'reprmode.cpp', IO + 'interactive.cpp', GK + 'kl.cpp', GK + 'ext_kl.cpp', GK + 'wgraph.cpp', ST + 'alcoves.cpp'],
 [('command loop and mode stack', IF + 'commands.cpp'), ('commands that change the session state', IF + '*mode.cpp, ' + IO + 'interactive.cpp'), ('filling of tables', GK + 'kl.cpp, ext_kl.cpp')],
 'interprocedural exception-type analysis, path-sensitive handler analysis and write-before-throw dataflow over control-flow graphs',
 'Exhaustion of memory inside standard containers is considered only for the filling of Kazhdan-Lusztig tables; state built on first use is not taken as session state.',
 observe=['state after a failed command', 'messages to the user'])

prop('C17', 'No result depends on the order in which operands are evaluated',
 'In no expression of the library, of Fokko or of the interpreter does one operand or argument change a variable, stream position, table or evaluation stack that another operand of the same expression uses, '
 'unless the language fixes the order of the two. Every result is therefore the same whatever order a compiler chooses.',
 ['inputs', 'configurations'],
 'every operator expression, call, constructor call and subscript whose operands the C++14 rules leave unordered; all effects of the operands through all callees',
 'A test exercises the one order that one compiler happened to choose; another compiler, or another optimisation level of the same one, may choose the other.',
 [IO + 'basic_io_def.h', IO + 'filekl_in.cpp', GK + 'kl.cpp', GK + 'repr.cpp', GK + 'kgb.cpp', ST + 'weyl.cpp', U + 'bigint.cpp', 'sources/interpreter/axis.w'],
 [('expressions with side effects in operands', 'all source files'), ('reading multi-byte values', IO + 'basic_io_def.h')],
 'interprocedural side-effect analysis over access paths; pairwise conflict rule for unsequenced operands',
 'Containers and objects reached through different members are taken to be different; state that const operations fill on first use is left to C10.',
 observe=['any result computed by the expression'])

prop('C18', 'Numbers are used only in the sense in which they were produced',
 'A number that identifies one kind of object (simple generator, root, KGB element, block element, involution, Cartan class, real form, polynomial) is never used where a number of another kind belongs. '
 'This holds for arguments, results, array indices, comparisons, loop bounds and assignments; in particular simple generators are not taken for numbers of roots, and elements of a group not for elements of its dual.',
 ['inputs'],
 'every assignment, comparison, subscript, loop bound, argument and return value of the library, of Fokko and of the interpreter in which such a number occurs',
 'All these numbers are small unsigned integers, so a mix-up compiles, stays in range, and gives right answers for small or self-dual cases.',
 [ST + 'rootdata.cpp', ST + 'innerclass.cpp', ST + 'cartanclass.cpp', ST + 'tits.cpp', ST + 'subsystem.cpp', GK + 'kgb.cpp', GK + 'blocks.cpp', GK + 'repr.cpp', GK + 'ext_block.cpp', GK + 'standardrepk.cpp', IO + 'output.cpp'],
 [('the named index types', 'sources/Atlas.h'), ('numbering of roots', ST + 'rootdata.h')],
 'sense (kind) inference for numbers from declared type names, flowed through the program; consistency rule at every use, with senses of untyped places inferred from all their uses',
 'Relies on the names of types in declarations of functions, parameters and members; roots known to be simple may serve as generators.',
 observe=['any result computed with the number'])

prop('C19', 'Builds with and without run-time checks compute the same',
 'Whatever is compiled only when run-time checks (assertions and consistency checks for debugging) are on, or only when they are off, has no influence on any result: as long as the checks pass, '
 'both builds take the same course, change the same data and produce the same output.',
 ['inputs', 'configurations'],
 'every assertion condition and every conditionally compiled statement of the library and of Fokko, with all effects through all callees',
 'The tests run one of the two builds; work hidden in an assertion is done in one and silently omitted in the other.',
 [GK + 'ext_block.cpp', GK + 'ext_kl.cpp', GK + 'kl.cpp', GK + 'blocks.cpp', GK + 'repr.cpp', ST + 'alcoves.cpp', ST + 'weyl.cpp', U + 'matreduc.cpp', U + 'polynomials_def.h', U + 'bigint.cpp'],
 [('assert and NDEBUG sections', 'all source files')],
 'differential analysis of the two preprocessed programs with interprocedural effect summaries and liveness of locals',
 'Checks that fail, messages on standard error, and state that const operations fill on first use are outside the property.',
 observe=['any result, in either build'])

prop('C20', 'No operation ignores what it is given or throws away what it computes',
 'The result or the effects of every operation depend on each of the arguments it names, except those documented as not needed. No operation computes a value without using it, '
 'and none calls another one merely for a result that is then dropped.',
 ['inputs'],
 'every parameter of every function of the library and of Fokko, every initialised variable, every call made as a statement; data and control dependence through all callees',
 'An operation that ignores an argument is right for every input in which the argument has its usual or trivial value, which is what tests use.',
 [ST + 'rootdata.h', ST + 'rootdata.cpp', ST + 'tits.h', ST + 'involutions.cpp', ST + 'innerclass.cpp', ST + 'subsystem.cpp', GK + 'repr.cpp', GK + 'ext_block.cpp', GK + 'blocks.cpp', U + 'matreduc.cpp', U + 'lattice.cpp', IO + 'output.cpp'],
 [('parameters of all operations', 'all source files'), ('operations relative to a subset of generators', ST + 'rootdata.h')],
 'backward data- and control-dependence slicing with interprocedural effect summaries',
 'Dependence is decided, not that it is the right dependence; virtual functions may ignore parameters of their common interface.',
 observe=['results for unusual values of one argument'])

prop('C21', 'Divisions, residues and comparisons are right for negative numbers',
 'Quotients, residues, parities and comparisons come out right for negative numbers as well: no number that may be negative is reduced, divided, compared or kept as if it could not be, '
 'and a remainder that may be negative is only tested for being zero. No test has an outcome fixed by the type of its operands, and no bit set is formed in a type too narrow for it.',
 ['inputs'],
 'every %, /, shift and comparison, every conversion to an unsigned type, every absolute value and every negation in the library and in Fokko',
 'A residue or quotient taken with the wrong sign convention differs only for negative values, which most tests (with dominant weights, positive roots, small non-negative entries) never produce.',
 [U + 'arithmetic.h', U + 'arithmetic.cpp', U + 'bigint.cpp', U + 'ratvec.cpp', ST + 'rootdata.cpp', ST + 'subsystem.cpp', ST + 'alcoves.cpp', GK + 'repr.cpp', GK + 'ext_block.cpp', GK + 'K_repr.cpp', GK + 'standardrepk.cpp'],
 [('arithmetic::divide and remainder', U + 'arithmetic.h'), ('parity tests of pairings', GK + 'repr.cpp'), ('Rational operators', U + 'arithmetic.cpp')],
 'sign analysis over the typed syntax tree, with guards and definitions of variables followed',
 'Denominators, dimensions and sizes are taken to be non-negative; overflow of signed numbers is not considered.',
 observe=['results for negative entries'])

prop('C22', 'Every loop makes progress towards one of its exits',
 'No operation runs forever: each time a loop comes round again, something on which one of its exits depends has changed. Counters move towards the bound they are compared with, '
 'work lists do not receive what has been treated before, and no function calls itself with everything unchanged.',
 ['inputs'],
 'every loop of the library and of Fokko (over 2000), every path from its head back to its head, every recursive call',
 'A loop that hangs does so on a rare path; a test that took it would not come back, so the paths that tests take are precisely those that do not hang.',
 [U + 'arithmetic.cpp', U + 'bigint.cpp', U + 'sl_list.h', U + 'preorder.cpp', U + 'partition_def.h', ST + 'weyl.cpp', ST + 'alcoves.cpp', ST + 'realredgp.cpp', GK + 'kgb.cpp', GK + 'blocks.cpp', GK + 'repr.cpp', GK + 'standardrepk.cpp', IO + 'interactive.cpp', IO + 'ioutils.cpp'],
 [('work list loops', ST + 'weyl.cpp'), ('descent loops', GK + 'kgb.cpp'), ('input loops', IO + 'interactive.cpp')],
 'path search in control-flow graphs with interprocedural effect summaries and dependence closure',
 'A change of something an exit depends on counts as progress; that it suffices for termination is not proved. Loops inside a loop are taken to run at least once.',
 observe=['the operation returns'])

prop('C23', 'Dual objects and dual operations mirror their counterparts',
 'In the dual of a root datum, Weyl group, poset or inner class, roots and coroots, weights and coweights, radical and coradical, real forms and dual real forms have changed places throughout. '
 'Of two operations that differ only in being for the dual side, each uses exactly the dual of what the other one uses.',
 ['inputs'],
 'every constructor of a dual object, every data member with a dual counterpart, about 70 pairs of dual operations with everything they call',
 'For simply laced, adjoint-and-simply-connected or otherwise self-dual data, which small tests favour, the two sides are equal and an exchange that is forgotten does not show.',
 [ST + 'rootdata.cpp', ST + 'rootdata.h', ST + 'prerootdata.h', ST + 'innerclass.cpp', ST + 'innerclass.h', ST + 'weyl.cpp', U + 'poset.cpp', ST + 'tori.h', ST + 'tits.cpp', IF + 'mainmode.cpp'],
 [('constructors with a dual tag', ST + 'rootdata.cpp'), ('dual inner class', ST + 'innerclass.cpp'), ('pairs such as make_dominant and make_codominant', ST + 'rootdata.cpp')],
 'comparison of interprocedural effect summaries under the duality of data members',
 'What data are used is compared, not the order of operations on them.',
 observe=['dual root datum, dual inner class, coroots and coweights'])

prop('C24', 'Weights and coweights, roots and coroots, are never mixed up',
 'Wherever a vector for a weight (or root) is paired with another vector, that one is a coweight (or coroot); sums, differences, comparisons and assignments combine vectors of one side only. '
 'Reflections, involutions and matrices act on vectors of the side they are for, and every operation is given and returns vectors of the side it announces.',
 ['inputs'],
 'every pairing, sum, difference, comparison, assignment, matrix action, argument and result of vector, rational vector, matrix or list type in the library and its interactive programs',
 'The two sides have the same machine type and, for simply laced or simply connected small examples, often the same coordinates, so an exchange compiles and passes the tests.',
 [ST + 'rootdata.cpp', ST + 'rootdata.h', ST + 'innerclass.cpp', ST + 'alcoves.cpp', ST + 'subsystem.cpp', ST + 'y_values.cpp', GK + 'repr.cpp', GK + 'kgb.cpp', GK + 'ext_block.cpp', GK + 'standardrepk.cpp', 'sources/io/output.cpp'],
 [('parameter evaluation on coroots', GK + 'repr.cpp'), ('reflections of weights and coweights', ST + 'rootdata.h'), ('cocharacters of real forms', ST + 'innerclass.cpp')],
 'side (weight or coweight) inference over the type-checked syntax tree',
 'Sides come from the declared names of types and are propagated; vectors and matrices of unspecific type that are not derived from others have no side.',
 observe=['root and coroot vectors, evaluations, gradings, real form cocharacters'])

# ---- properties of the mathematics itself, which no static argument in reach decides
def na(id, title, statement, text, why, files, mech, reason): prop(id, title, statement, ['inputs'], text, why, files, mech, na=reason)
na('N01', 'Kazhdan-Lusztig polynomials are the ones the recursion defines',
   'For every block, ordinary or extended, every Kazhdan-Lusztig(-Vogan) polynomial and every mu coefficient that is computed equals the one determined by the defining recursion, and does not depend on the descents chosen.',
   'all blocks, all pairs of elements', 'Tests compare a few blocks of small groups.', [GK + 'kl.cpp', GK + 'ext_kl.cpp'], [('recursion', GK + 'kl.cpp: fill_KL_column')],
   'Equality of polynomials produced by a recursion over data computed at run time: a static argument would have to prove the recursion formulas from the definition of the Hecke module. Static analysis covers around it comparisons (C11), roll-back (C16), lifetimes (C15), senses of numbers (C18).')
na('N02', 'Weyl group, Tits group and KGB operations satisfy the group laws',
   'Multiplication, inversion and conjugation in Weyl and Tits groups, and the cross actions and Cayley transforms on KGB elements and block elements, satisfy the laws of the groups: associativity, braid relations, squares, inverse Cayley transforms.',
   'all groups and elements', 'Tests print tables for a few groups.', [ST + 'weyl.cpp', ST + 'tits.cpp', GK + 'kgb.cpp'], [('transducer tables', ST + 'weyl.cpp')],
   'The laws depend on tables (transducers, commutation data) computed at run time for each root system; no decision from the source text of what the tables contain is in reach.')
na('N03', 'Root systems, real forms and Cartan classes are classified correctly',
   'For every root datum and inner class the lists of roots, Cartan classes, real forms, fibers, strong real forms and their identifications are complete, free of repetitions, and carry the correct names.',
   'all root data and inner classes', 'Tests cover the small classical and some exceptional groups.', [ST + 'rootdata.cpp', ST + 'cartanclass.cpp', ST + 'innerclass.cpp'], [('classification', ST + 'innerclass.cpp')],
   'Completeness of an enumeration computed at run time; a static argument amounts to a proof of the classification.')
na('N04', 'Deformation and character formulas are correct',
   'Every signature, deformation and character formula computed for a parameter is the one determined by the theory, and does not depend on the representative parameter chosen nor on what was computed before for others.',
   'all parameters', 'Tests check a few formulas.', [GK + 'repr.cpp', GK + 'K_repr.cpp'], [('deformation', GK + 'repr.cpp')],
   'Values of sums over blocks of run-time data. (That results do not depend on earlier computations through hidden state is C10.)')
na('N05', 'Integer and rational linear algebra computes what it specifies',
   'Normal forms, inverses, kernels, saturations, factorisations and determinants of integer matrices, and arithmetic of big integers and rational numbers, are exact for all operands whose results fit.',
   'all matrices and numbers', 'Tests take a few small matrices.', [U + 'matreduc.cpp', U + 'bigint.cpp', U + 'matrix.cpp'], [('column reduction', U + 'matreduc.cpp')],
   'Numerical identities over unbounded operands; a proof needs deductive verification of each algorithm. Static analysis decides parts only: signs (C21), progress (C22).')

def main():
    with open(os.path.join(V, 'properties.jsonl'), 'w') as fh:
        for p in P:
            d = dict(id=p['id'], title=p['title'], statement=p['statement'],
                     quantifier=dict(over=p['over'], text=p['text']), why_tests_cant=p['why'],
                     anchors=dict(files=p['files'], mechanism=[dict(name=a, where=b) for a, b in p['mech']]))
            if p['observe']: d['anchors']['observe_at'] = p['observe']
            if p['state']: d['anchors']['state'] = [dict(name=a, meaning=b, where=c) for a, b, c in p['state']]
            assert len(p['title']) <= 80, p['id']
            fh.write(json.dumps(d) + '\n')
    m = dict(version=1, setup_cmd="python3 an/setup.py",
             checks=[dict(property=p['id'], quick_cmd='python3 an/run.py %s' % p['id'],
                          thorough_cmd='python3 an/run.py %s thorough' % p['id'],
                          technique=p['technique'], level='other', level_note=p['note']) for p in P if p['technique']],
             not_applicable=[dict(property=p['id'], reason=p['na']) for p in P if p['na']])
    json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
    print(len(P), 'properties', len(m['checks']), 'checks', len(m['not_applicable']), 'not applicable')
main()
