"""The properties, and which contracts and harnesses decide which property."""
F = 'src/bin/fl/'; L = 'src/lib/'
PROPS = {}; NA = {}
def prop(pid, title, statement, over, qtext, why, files, mech, **kw):
    PROPS[pid] = dict(title=title, statement=statement, quantifier={'over': over, 'text': qtext}, why=why, files=files, mech=mech, **kw)
def na(pid, title, statement, over, qtext, why, files, mech, reason):
    NA[pid] = dict(title=title, statement=statement, quantifier={'over': over, 'text': qtext}, why=why, files=files, mech=mech, reason=reason)

prop('P01', 'Word-level gates of the symbolic simulator compute ternary-sound results',
  'For every word-level gate of the symbolic trajectory evaluator (bitwise, arithmetic, comparison, mux, shifts, slices and their updates, extensions, memory) and every operand vector, each output bit may be read 1 (0) under a variable assignment whenever some completion of the X operand bits makes the gate\'s Boolean/modular-arithmetic function 1 (0) at that bit. When no operand bit is X the output is exactly that function value and is two-valued. Operands are not modified.',
  ['inputs'], 'all operand widths, all symbolic dual-rail operand values, all variable assignments, both value domains',
  'The scripts in bugs/ run a handful of small circuits and only check that the tool does not crash; widths, X patterns and shift distances are unbounded.',
  [F + 'fsm.c'], [('word-level gate evaluators op_* and their helpers', F + 'fsm.c op_AND … op_UPDATE_SLICE, ITE_fn, sshl_fun, sshr_fun, sashr_fun, shift_left_by_1')],
  design="for one arbitrary assignment of the variables (an uninterpreted T on stored formulas), each gate evaluator's output bit i, read as the pair (may be 1, may be 0), is exactly or soundly the gate's ternary function of the operand bits; loops carry invariants over the bit index, symbolic shifts an invariant over the stage, carries a ghost recursion (adder, comparator). The two value domains enter only through the contract of the function pointers c_AND/c_OR/c_NOT, which the wrappers' targets satisfy by P03 and by construction for bexprs. Tests run a few circuits and only look for crashes; the widths, X patterns and shift distances here are unbounded. MUL, DIV, MOD and the memory gates are only replayed.",
  specs=[('ste_gates.py', None, 'update_node add_op_todo'.split())], harness=['h_ste.c'],
  bounded='all word-level gates (incl. MUL, DIV, MOD, MEM_READ, MEM_WRITE, which have no contract) on random ternary operands of 1..70 bits in the BDD and the expression domain')

FSM = F + 'fsm.c'
prop('P02', 'STE computes the weakest trajectory and checks the consequent exactly',
  'STE (and bSTE) on a circuit with weakenings, antecedents and consequents simulates the weakest ternary trajectory: at every time each combinational node has its gate\'s value for the current values of its inputs, an input is X, and a register has the value its data input had one time step earlier (X before the first step, after constant propagation), each joined with every antecedent active on the node at that time and weakened wherever an active weakening holds. An interval [from,to) is active at exactly the times from <= t < to, intervals may overlap, and an empty one has no effect. trajOK is true under exactly the assignments for which no node ever becomes contradictory, checkOK under exactly those for which every consequent value is implied by the node\'s value at every time the consequent is active; antOK, consOK, implies, strong and the recorded traces agree with these. (Without the -w and -ifw options; two deviations are recorded as known findings.)',
  ['inputs', 'histories'], 'all circuits without combinational cycles, all assertion lists and time intervals, all symbolic values, both value domains',
  'A missed release of a constraint or a lost re-evaluation makes a false assertion pass, and needs particular interval overlaps and event orders that no test has.',
  [FSM], [('events', FSM + ' create_event_buffer, event_cmp, process_event, add_active_event, delete_active_event'), ('evaluation', FSM + ' update_node, do_wl_op, do_combinational, do_phase, initialize'), ('main loop and results', FSM + ' gSTE, gen_get_ste_result, gen_get_trace_val, record_trace')],
  design="for one arbitrary node J: at every time the weaken/antecedent/consequent buffers and the has_* flags of J equal the disjunction/conjunction of the values of exactly the events active on J (ghost lists with ranks over the real linked lists; frame lemmas by induction), every change is flagged for re-evaluation, all events due are applied and none later; update_node joins, weakens, records contradictions and failing consequents exactly; the phase copy of registers; traces get the last value of a time step. gSTE's main loop, do_wl_op, create_event_buffer and the result accessors are replayed against a reference simulator.",
  specs=[('ste_gates.py', ['update_node']), ('ste_events.py', None)], harness=['f_ste.py'],
  bounded='random hierarchical circuits with up to about 30 bits and registers and random assertion lists over 3 variables, in both value domains, against a simulator on truth tables; the only check of gSTE\'s main loop, do_wl_op, create_event_buffer and the result accessors',
  assumptions=['the contracts fix one arbitrary node and one arbitrary assignment of the variables', 'hash tables, buffers and records behave as proved under P09', 'records and value buffers do not overlap'])

BDDF = F + 'new_bdd.c'
prop('P03', 'Boolean operations on BDDs compute the named function, canonically',
  'For all formulas f, g, h over any set of variables and any variable order, B_Not, B_And, B_Or, B_Xor, B_Nand, B_Nor, B_Xnor and B_Ite return a formula that is true under exactly the assignments that the operation\'s truth table says, whatever operations were done before (contents of the unique tables and of the operation cache, table growth). Two formulas with the same meaning are the same word, so B_Equal decides equivalence, and a formula keeps its meaning as more formulas are built.',
  ['inputs', 'histories'], 'all formulas, variable orders, table sizes and operation histories',
  'The tests compare a few formulas; a wrong complement-edge case, hash collision or stale cache entry shows only on particular shapes and histories.',
  [BDDF], [('node store and unique table', BDDF + ' find_insert_bdd, grow_uniq_tbl, grow_MainTbl'), ('apply', BDDF + ' bdd_step and the B_* wrappers')],
  design="a ghost map gives every node its truth function; the invariant ties it to the node table (Shannon expansion, variable order, no redundant or duplicate node, complement edges only on the right), to the unique table chains (ghost ranks, so chains are finite and complete) and to the free list. find_insert_bdd, grow_uniq_tbl, grow_MainTbl preserve it; bdd_step returns the function of its operator for every operand and cache content (cache entries carry their meaning as an invariant); canonicity is a lemma by induction over the order. B_Ite and the wrappers follow from bdd_step's contract.",
  specs=[('bdd_core.py', 'uniq_hash_fn inc_ref_cnt grow_MainTbl grow_uniq_tbl find_insert_bdd bdd_step B_Not B_And B_Or B_Xor B_Nand B_Nor B_Xnor B_Ite B_One B_Zero B_Equal cache_equ below_independent cofactors cof_den canon_const canon_skip canon_skip2 canon_both canonical'.split())],
  harness=['h_bdd.c'], hflags=['-DMODE=1'],
  bounded='random formulas over up to 6 variables evaluated against truth tables, including canonicity; also covers the hash tables that the contracts treat as a finite map')
prop('P04', 'Quantification, relational product, dependency and substitution on BDDs',
  'B_forall and B_thereis (and the relational product, which quantifies a conjunction) return the formula that is true under an assignment exactly when all (some) re-assignments of the quantified variables satisfy the operand. B_Depends returns the conjunction of exactly the variables on which the formula depends. Simultaneous substitution returns the formula whose value under an assignment is that of the operand under the assignment in which each substituted variable has the value of its expression.',
  ['inputs', 'histories'], 'all operand formulas, variable sets, variable orders, and any earlier operations on the shared caches',
  'The meaning quantifies over all assignments and the results depend on cache contents left by earlier calls; tests fix both.',
  [BDDF], [('quantify, B_forall, B_thereis', BDDF + ' quantify'), ('relational product', BDDF + ' Rel_prod'), ('support and substitution', BDDF + ' B_Depends, B_Substitute, b_substitute')],
  design='quantify and Rel_prod are proved against uninterpreted quantifier functions Q over sets of variables with lemmas (skip, top, constant, irrelevant variable) proved separately; cache entries are part of the invariant as in P03. Dependency and substitution are replayed.',
  specs=[('bdd_core.py', 'quantify B_forall B_thereis Rel_prod Q_empty Q_irrelevant Q_above Q_top Q_const Q_ext below_independent quant_end quant_skip quant_above quant_top cofactors rp_zero rp_one rp_one2 rp_end rp_skip rp_above rp_top'.split())],
  harness=['h_bdd.c'], hflags=['-DMODE=2'],
  bounded='quantification, relational product, B_Depends and simultaneous substitution (the last two have no contract) on random formulas over up to 6 variables against truth tables')

prop('P05', 'BDD garbage collection and reordering keep every referenced formula intact',
  'Garbage collection of BDD nodes removes no node reachable from a marked root (a formula passed to B_Mark, a protected formula, a declared variable), keeps their structure and meaning, keeps the unique tables, the free list and the operation cache consistent (no entry mentions a freed node, no two live nodes have the same variable and children), and dynamic reordering of variables, run as part of a collection, changes the meaning of no referenced formula: afterwards all operations still compute the right functions and equal functions are still the same word.',
  ['histories', 'inputs'], 'all BDD heaps, sets of roots, points of collection, variable orders reached by sifting, and table growth in between',
  'A freed live node or stale cache entry needs particular histories of operations and collections and shows much later.',
  [BDDF], [('marking', BDDF + ' gc_update_ref_cnt, B_Mark, B_Clean'), ('sweep', BDDF + ' garbage_collect'), ('operation cache cleaning', BDDF + ' clean_cache, clean_cache_rec_fn'), ('sifting', BDDF + ' re_order, swap_down, Bdec_ref_cnt')],
  design="marking marks everything reachable (closure property over the node graph), the sweep frees exactly unmarked nodes and rebuilds chains and free list so that P03's invariant holds again, cache entries that mention a freed node are removed. Sifting is replayed with a structural check of all tables after each step.",
  specs=[('bdd_gc.py', 'Reset_Ref_cnts gc_update_ref_cnt B_Mark clean_cache_rec_fn garbage_collect grow_MainTbl grow_uniq_tbl find_insert_bdd'.split())],
  harness=['h_bdd.c'], hflags=['-DMODE=3'],
  bounded='random operations interleaved with collections and sifting reorderings over 6 to 8 variables, with truth tables as oracle and a structural check of all tables; the only check of re_order, swap_down and Bdec_ref_cnt, whose contract is assumed by the sweep')

ARB = F + 'arb_prec.c'
prop('P06', 'Integer arithmetic is exact for integers of any size',
  'In fl, +, -, unary minus, *, / and % (rounding toward minus infinity, a zero divisor raising an exception), gcd, abs, the comparisons and the bitwise operations on integers (two\'s complement of unbounded width) give the mathematically exact result for integers of any size and sign, a result never depends on how its operands were computed or stored, operands are unchanged, and reading a literal or printing an integer in a base (%d, %x, %o, %b, int2str) is exact and round-trips.',
  ['inputs'], 'all integers that fit the representation (up to 32767 64-bit words), all combinations of signs and sizes',
  'Carries, borrows, sign extension and quotient estimation go wrong only for particular word patterns; tests use small numbers.',
  [ARB, F + 'int_ops.c'], [('word-level arithmetic', ARB + ' arbi__add, arbi__neg, arbi__sub, arbi__mlt, arbi__bvop, Arbi_cmp, trim'), ('division', ARB + ' divmod, arbi__div, arbi__mod, arbi__gcd'), ('conversion', ARB + ' arbi__FromString, arbi__ToString'), ('language primitives', F + 'int_ops.c')],
  design="numbers are sequences of 64-bit words with value defined by a ghost recursion; addition, negation, subtraction, multiplication (column sums with carries), comparison, bitwise operations, shifts, trimming to canonical form, division by estimate and correction, gcd and conversion to text are proved exact for all lengths, including the two's complement signs, and machine operations are shown not to overflow or trap where C leaves that undefined. Literals and the fl primitives are replayed.",
  specs=[('arb.py', None)], harness=['f_int.py'],
  bounded='fl expressions over integers of up to about 1000 bits against Python integers, run in the interpreter built from the current sources; the only check of literals, printing, the int_ops.c primitives and the storage manager',
  assumptions=['divmod: partial correctness (the quotient loop is not shown to terminate); estimates of the quotient are arbitrary in the proof, so their division operands are not shown to be trap free', 'numbers have at most 32767 words', 'arb_prec.c is compiled without optimisation, as the project builds it'])

prop('P08', 'Expressions (bexpr) keep their meaning; operations compute the named function',
  'A bexpr denotes the same Boolean function of its variables for as long as it is in use, whatever is built later. bvariable, bNOT, bAND, bOR, bXOR, bXNOR, bITE, bEqual and the gen_ versions (mapped over structures) return a bexpr for the named function of their arguments; BE_NEQ and BE_Differs answer FALSE only for bexprs of the same function, and so does equality of handles. bsubstitute replaces the variables simultaneously; bexpr2bdd (with any substitution) gives the BDD of the function, bool2bexpr a bexpr of the BDD, each independent of earlier translations; bexpr_save/bexpr_load, bdepends, bget_type/bget_arguments, bexpr_is_unsat and bget_model agree with the function.',
  ['inputs', 'histories'], 'all expressions, variable names, substitutions and histories of operations, all settings of the BEXPR options',
  'Nodes are shared, merged by signature and SAT, complemented by a pointer bit and memoised across calls; a wrong merge or stale memo needs a particular history or a signature collision that tests do not have.',
  [F + 'bexpr.c'], [('construction', F + 'bexpr.c be_find_insert, be_and, get_be_node, check_for_eq_with_SAT'), ('operations', F + 'bexpr.c BE_*, g_be_*'), ('substitution and translation', F + 'bexpr.c be_subst, be2bdd, bdd2bexpr'), ('collection, files and models', F + 'bexpr.c BE_Clean, Save_bexprs, Load_bexprs, bget_model')],
  design="for one arbitrary assignment A of the variables, ghost maps give every node its value and every SAT variable its value in the extension of A to the auxiliary variables; the invariant ties them to the real records (a variable has A's value, a conjunction that of its tagged children, the SAT index carries the same value, signature chains and the unique table lead to nodes only, free cells are no nodes). be_find_insert preserves it whether it hits the unique table, merges by SAT or builds a node; every operation is then verified against be_and's contract; substitution and the two translations carry their memo tables in the invariant.",
  cost='about 3 minutes', specs=[('bexpr.py', None)], harness=['f_bexpr.py'],
  bounded='random scripts over five variables (two pairs of names with equal signatures), all operations, both option settings, with collections, against truth tables; the only check of BE_Clean, saving and loading, bdepends, models and printing',
  assumptions=['MiniSat answers unsatisfiable only for unsatisfiable clause sets (P23), and a fresh solver variable may have any value', 'no conjunction has the signature of the constant (all ones)', 'hash tables and records behave as proved under P09, BDD operations as under P03', 'the collector keeps the nodes and BDDs of the expression being translated', 'variable names are unique strings from the string table'])

prop('P09', 'Hash tables, growable buffers and record managers keep exactly what was put in',
  'A hash table (find_hash, insert_hash, insert_check_hash, delete_hash, scan_hash, hash_size, dispose_hash) with any equality and matching hash function behaves as a finite map: a look-up gives the data inserted under an equal key, and NULL if there is none or it was deleted; deletion removes exactly that binding; a scan visits every binding exactly once; growing the table loses nothing; tables do not affect each other. A buffer (push_buf, pop_buf, store_buf, fetch_buf, resize_buf, locate_buf, top_of_buf) behaves as a sequence of fixed-size items, zero-filled when extended, and fetch_buf refuses indices outside it. A record manager never hands out overlapping records and never touches one in use. Unique buffers number distinct items consecutively, and string managers return equal, unchanging copies (one address per string for uStrsave).',
  ['inputs', 'histories'], 'all keys, hash and equality functions that fit together, item sizes, table sizes and operation histories (tables without duplicate insertion of a key)',
  'Everything else in the system stands on these containers; growth points, collisions and free-list reuse depend on long histories that tests do not aim at.',
  [L + 'hash.c', L + 'buf.c', L + 'rec.c', L + 'uniq_buf.c', L + 'strmgr.c'],
  [('hash tables', L + 'hash.c all public functions'), ('buffers', L + 'buf.c all public functions'), ('records', L + 'rec.c new_rec, free_rec'), ('unique buffers and strings', L + 'uniq_buf.c, ' + L + 'strmgr.c')],
  design='hash tables: ghost map from keys to buckets with ranks; every chain holds exactly the bindings that hash to it, look-up, insertion, deletion, growth and scan are proved against the map, for any hash and equality function that fit together (contracts of the function pointers). Buffers: byte-exact sequences including growth. Record managers: ghost set of live records, disjointness, blocks and free list. Unique buffers and strings are replayed.',
  specs=[('hash.py', None), ('buf.py', None), ('rec.py', None)], harness=['h_cont.c'],
  bounded='random histories of operations on hash tables, buffers, record managers, unique buffers and string managers against naive models; the only check of uniq_buf.c and strmgr.c',
  assumptions=['hash.py uses the contracts of buf.py and rec.py in the form they take for 8-byte items and bucket records (a pointer is its 8 bytes)', 'rec.py: one manager at a time; other memory is framed', 'capacity: at most 536870879 elements in a table that still grows; buffers below 4 GiB'])

na('P20', 'Evaluation of fl expressions is lazy, confluent graph reduction', 'Evaluating an fl expression yields the value given by normal-order reduction of its lambda-calculus translation: unused arguments are not evaluated, sharing does not change results, and garbage collection of graph nodes at any point changes no value.',
  ['inputs', 'histories'], 'all programs, evaluation orders and points of garbage collection', 'The collector can run at any allocation and the reducer overwrites shared nodes in place; tests see few schedules.', [F + 'graph.c'], [('reducer, combinators and collector', F + 'graph.c')],
  'the invariant needed (a typed graph semantics over one union record with in-place overwriting, reference counts, longjmp for exceptions and a collector that may run in every callee) is beyond the verifier: graph.c has 6800 lines of mutually recursive code over macros, and no contract short of a full operational semantics expresses it')
na('P21', 'Type inference is sound: well-typed programs do not misinterpret values', 'If the type checker accepts an expression, its evaluation never applies a primitive to a graph node of another type; inferred types are most general, and overloaded operators resolve to an instance of the required type.',
  ['inputs'], 'all programs accepted by the type checker', 'Soundness is a statement about all programs.', [F + 'typecheck.c'], [('unification, generalisation, overloading', F + 'typecheck.c')],
  'soundness relates the checker to the reducer (P20); without a semantics for the reducer no contract can state it')
na('P22', 'Parsing and printing of fl source follow the grammar', 'A program text is parsed as the documented grammar with user-declared fixities says, independent of how the input is split over files and load commands.',
  ['inputs'], 'all program texts', 'The space of texts and fixity declarations is unbounded.', [F + 'language.y', F + 'lexer'], [('grammar and lexer', F + 'language.y')],
  'the parser is generated code driven by tables; contracts on yyparse would have to be about the tables, not about the C text')
na('P23', 'SAT answers of the bundled solver are correct', 'Find_model answers unsatisfiable only if there is no model, and a model it returns satisfies the clauses.',
  ['inputs', 'histories'], 'all clause sets and assumption lists', 'CDCL search visits input-dependent histories.', ['src/external/minisat'], [('MiniSat 2.2', 'src/external/minisat')],
  'C++ templates and classes are outside the front end (it lowers C), and the solver is third-party code; its answers are assumed where it is called')
na('P24', 'The graphical front end shows the simulated circuit', 'The Tcl/Tk visualizer displays the schematic, waveforms and values the simulator computed.',
  ['schedules'], 'all interleavings of user events and callbacks', 'Event interleavings with an external Tcl process.', [F + 'draw_graph.c', F + 'remote_tcl.c'], [('front-end protocol', F + 'remote_tcl.c')],
  'the behaviour lives in Tcl scripts and a window system that is not present here; no C function carries it')
na('P25', 'Haskell back end (Bifrost) translates programs faithfully', 'The Bifrost compiler produces circuits with the semantics of the Haskell source.',
  ['inputs'], 'all source programs', 'Compiler correctness over all programs.', ['src/bifrost'], [('translation', 'src/bifrost')],
  'not C; no deductive verifier for Haskell is installed')
