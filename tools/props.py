import json
L="libclingo-dl/"
P=L+"src/propagator.cc"; G=L+"src/graph.cc"; A=L+"src/parsing.cc"; C=L+"src/clingo-dl.cc"; H=L+"clingo-dl.h"; U=L+"clingo-dl/impl/util.hh"; CFG=L+"clingo-dl/config.hh"; APP="app/lib/src/app.cc"; MAIN="app/src/main.cc"; PY="libpyclingo-dl/clingodl/__init__.py"; PYC="libpyclingo-dl/_clingodl.c"
rows=[]
def p(id,title,stmt,over,q,why,files,mech,state=(),obs=()):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if obs: a["observe_at"]=list(obs)
    a["hook_needed"]=None
    rows.append({"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":q},"why_tests_cant":why,"anchors":a})
p("C01","Accepted answers satisfy every true difference constraint",
 "Whenever the theory lets the solver accept a total assignment, both variables of every difference constraint whose literal is true have a value and value(u) - value(v) <= bound holds for the values the theory holds for that thread. A true constraint is either added to the constraint graph, with the potentials repaired along every path that became too short, or reported to the solver as a conflict; it is never silently dropped.",
 ["inputs","programs","histories"],"every program, search history, thread and propagation mode, for integers and reals",
 "The tests solve a few small programs; which edges are added in which order, and over which potentials, depends on the search and cannot be sampled exhaustively.",
 [G,P],[("incremental negative cycle detection and potential repair","Graph::check_cycle_"),("queueing of true edges","DLPropagator::do_propagate"),("final check on total assignments","DLPropagator::check")],
 [("potentials","per vertex stack of (level, value)","Graph::Vertex::potential_stack")],["clingodl_on_model","check callback"])
p("C02","Backtracking restores the exact earlier state",
 "After undoing a decision level, the per-thread constraint graph (potentials, edges in the graph, which edges are still candidates and their degree counts, bounds relative to the zero node with their explanations, and whether propagation is enabled) is exactly what it was before that level was entered, no matter what was done or partially done on the level. Every change of such state made while searching is recorded so that it can be undone.",
 ["histories","programs"],"every sequence of propagate/undo callbacks, including levels that end in a conflict half way",
 "Only long interleavings of propagation, conflict and backjumping expose a field that is not restored; tests look at final answers of tiny searches only.",
 [G,P],[("trail per decision level","Graph::ensure_decision_level, Graph::backtrack"),("journalled potential updates","Graph::set_potential_"),("journalled bounds","Graph::Impl::dijkstra_bounds"),("journalled edge disabling","Graph::disable_edge")],
 [("changed_trail_","offsets into the journals per level","graph.hh")],["undo callback"])
p("C03","Solver threads never touch each other's theory state",
 "While several solver threads search, the callbacks running for one thread only modify state belonging to that thread; everything the threads share (constraints, literal map, variables, components, configuration) is only read during search. All per-thread state is selected with the identifier of the calling thread.",
 ["schedules","histories"],"every interleaving of solver threads",
 "Races depend on the schedule; the tests run single threaded or look at one schedule.",
 [P,G,C],[("per thread state vectors indexed by thread id","DLPropagator::states_, facts_"),("initialisation is the only writer of shared state","DLPropagator::init")],
 [("states_","per thread graph and queues","propagator.hh")])
p("C04","Each comparison relation is encoded with its documented meaning",
 "For each of <=, >=, <, >, = and !=, a difference constraint is translated into normalised constraints u - v <= w such that the constraint's literal being true enforces exactly the relation (with step 1 for integers and a fixed small epsilon for reals). A constraint in a rule body is additionally equivalent to its relation, so its literal is true exactly if the relation holds, while one in a head is only implied by its literal; auxiliary literals introduced for = and != are linked to the original literal by clauses expressing exactly this.",
 ["inputs","programs"],"all relations, signs of coefficients, right hand sides, strict and non-strict occurrences, fixed or open literals",
 "The combinations of relation, strictness, sign and truth value at initialisation are sampled sparsely by the unit tests, and a wrong auxiliary clause shows only in particular models.",
 [P],[("normalisation","DLPropagator::normalize_constraint_"),("edge creation","DLPropagator::add_edges_, add_edge_")])
p("C05","Linear expressions are evaluated faithfully or rejected",
 "The terms of a difference constraint denote the linear expression that the usual rules of arithmetic give them: terms for the same variable are summed, zero terms vanish, constants move to the right hand side with the proper sign, products need one constant factor, and anything that is not of the form u - v, u, -v or a constant is rejected with an error instead of being misread. Distinct ground terms denote distinct variables and the same ground term always denotes the same variable.",
 ["inputs","programs"],"all theory terms",
 "There are infinitely many nested terms; the tests list a few dozen.",
 [A,P,U],[("linear form construction","parse_elem"),("merging of terms","simplify"),("ground evaluation","evaluate"),("shape check","DLPropagator::add_edges_")])
p("C06","Integer arithmetic on user numbers is checked, never wraps",
 "Every arithmetic operation on numbers taken from the program (coefficients, constants, bounds) while constraints are read and normalised either yields the mathematically exact result or raises an error; integer overflow, division by zero and invalid powers never go unnoticed.",
 ["inputs"],"all integer operands, including the extreme ones",
 "Overflow shows only for operand pairs near the limits; the tests try a handful.",
 [U,A,P],[("checked arithmetic helpers","safe_add/sub/mul/div/mod/inv/pow"),("their use when parsing and normalising","parse_elem, evaluate, simplify, normalize_constraint_")])
p("C07","Program rewriting keeps the meaning of the program",
 "Rewriting passes every statement on exactly once, turns difference atoms in heads and bodies into the head and body theory atoms respectively without changing their terms, relation or condition, and rejects malformed ones with an error. Constraint shifting, if enabled, moves at most one difference literal from the body of a rule whose head is false into the head, negating the relation unless the literal was negated, and leaves all other statements and body literals untouched.",
 ["programs","inputs","configurations"],"all syntax trees, with and without shifting",
 "The set of syntax trees is unbounded and shifting interacts with signs and heads in many combinations; the tests include a few rules.",
 [A,C,APP],[("rewriter","TheoryRewriter, tag_terms, transform"),("shifting","shift_rule, negate_relation"),("C API","clingodl_rewrite_ast")])
p("C08","Clauses given to the solver are justified by negative cycles",
 "Every clause the theory adds during search consists exactly of the negations of the literals of the edges on one cycle of the constraint graph whose total weight is negative; no edge of the cycle is left out and no unrelated literal enters. A literal is propagated false only if the corresponding edge closes such a cycle, and an edge is treated as redundant only if there is a path at most as long.",
 ["histories","programs"],"all propagation modes and all graphs reached during search",
 "A clause missing one literal cuts off answers only in searches in which that literal matters; tests would have to reach that state.",
 [G],[("conflict explanation","Graph::check_cycle_"),("partial propagation","Graph::cheap_propagate_, propagate_simple_"),("full and zero propagation","Graph::propagate_edge_false_, propagate_edge_true_")])
p("C09","Propagation stops as soon as the solver refuses a clause",
 "Whenever the solver reports that adding a clause or propagating it failed, the theory returns to the solver without adding further clauses, edges or watches in that callback, and reports the failure through all layers. The state left behind is still consistent, so that a later undo works.",
 ["histories","fault_sequences"],"every point at which the solver may return false",
 "At which clause the solver answers with a conflict is decided by the search; tests cannot make each call fail.",
 [G,P],[("checked result of add_clause and propagate","with_incoming_, propagate_edges, propagate_edge_false_, check_cycle_"),("propagation loop","DLPropagator::do_propagate"),("initialisation","normalize_constraint_, add_constraints_, calculate_mutexes_")])
p("C10","No exception crosses the C interface",
 "Every function of the C interface and every callback handed to clingo that reports success through a Boolean converts any C++ exception raised inside into an error registered with clingo and the return value false. Functions documented not to throw contain no construct of this library that raises exceptions (running out of memory aside).",
 ["inputs","fault_sequences"],"all exceptions raised below an entry point, including those of callbacks",
 "Exceptions at arbitrary points cannot be provoked by tests; an escaping one terminates the host process.",
 [C,H],[("try/catch wrapper of entry points","CLINGODL_TRY/CLINGODL_CATCH"),("callbacks","init, propagate, check, decide")])
p("C11","Failures reported by clingo are never dropped",
 "Whenever a function of clingo or of this library's C interface reports failure through its return value, the failure is turned into an exception or handed to the caller; it is never ignored, and success is never reported for a failed operation.",
 ["fault_sequences","inputs"],"every call site of a function returning a success flag",
 "Tests cannot make every underlying call fail.",
 [C,APP,MAIN],[("handle_error around calls","clingo-dl.cc, app.cc, main.cc")])
p("C12","Option values are accepted exactly as documented",
 "For every option, exactly the documented values are accepted (names without regard to case, numbers that fit into the option's type, an optional thread number below 64 after a comma where documented), each accepted value has the documented effect, and every other value is rejected with an error naming the option, leaving the configuration unchanged.",
 ["inputs","configurations"],"all strings given as option values",
 "The space of strings is infinite; the tests configure a few valid values and hardly any invalid ones.",
 [C,MAIN,"README.md"],[("option parsers","parse_mode, parse_root, parse_budget, parse_mutex, parse_sort, parse_decide, parse_bool, parse_uint64_pre, set_config, iequals"),("documentation","clingodl_register_options")])
p("C13","Settings reach the search, per thread, whichever way they are given",
 "Configuring the library by key and value has the same effect as the command line option of the same name, for every option. A thread-specific setting applies to exactly that thread and overrides the global one, threads without one use the global setting, and values arrive unaltered (no narrowing) in the state that uses them, in any order of settings.",
 ["configurations","inputs"],"all options, thread numbers and orders of settings",
 "Products of options, threads and orders are not covered by tests, which use defaults mostly.",
 [C,CFG,P],[("dispatch by key","clingodl_configure"),("option registration","clingodl_register_options"),("per thread lookup with fallback","PropagatorConfig::get_prop, ensure"),("use","DLPropagator::initialize_states_, do_propagate")])
p("C14","The decision heuristic only chooses a sign and is inert unless enabled",
 "The heuristic always returns the literal proposed by the solver or its complement. It deviates from the proposal only if a mode was configured, and then depends only on whether the associated constraint is violated under the thread's current values: the minimising mode avoids making violated constraints true, the maximising mode does the opposite.",
 ["histories","configurations"],"all literals, assignments, threads and modes",
 "Any sign choice yields correct answers, so tests do not notice a wrong or missing decision; a different literal would break the solver only in rare states.",
 [P,G,C],[("sign selection","DLPropagator::decide"),("violation test","Graph::edge_is_negative"),("registration of the callback","DLPropagatorFacade")])
p("C15","The assignment interface agrees with the reported model",
 "Symbol indices are stable, start at one, and look-up by symbol and look-up by index are inverse to each other; unknown symbols are reported as missing. Iteration visits each variable that has a value exactly once in increasing order, never visits internal zero nodes, ends by returning false, and the values returned, relative to the zero node of the variable's component, are exactly those added to the model as dl/2 atoms for that thread.",
 ["inputs","histories"],"all symbols, indices, threads and models",
 "Agreement must hold for all models and indices, including multi-shot growth; tests compare a few models.",
 [C,P,PY,G],[("index mapping","DLPropagatorFacade::lookup_symbol, get_symbol, has_value, get_value, next"),("values","DLPropagator::has_lower_bound, lower_bound, extend_model")])
p("C16","Statistics are complete and correctly accumulated",
 "Every statistics counter is reset, accumulated and reported exactly once under its own name, per step and accumulated over steps, for every thread, whatever the number of threads in each step. Collecting statistics never reads or writes memory outside the recorded ones.",
 ["histories","configurations"],"all counters, any number of steps and threads",
 "Tests do not look at statistics; a counter that is not reset or is added to the wrong total goes unnoticed.",
 [P,G,C],[("reset and accumulation","Statistics::reset/accu, ThreadStatistics::reset/accu"),("reporting","DLPropagatorFacade::add_statistics_, on_statistics")])
p("C17","No relevant literal change is ever missed",
 "For every constraint, each solver thread is notified whenever the constraint's literal becomes true, and also when it becomes false if that thread needs to know false constraints for propagation. A notification is given up during search only for literals without a constraint while propagation is off, and is reinstated when propagation is on again, treating literals that became true meanwhile as if they had been notified.",
 ["histories","configurations","schedules"],"all modes, thread-specific settings and search histories",
 "Missed notifications only show in particular interleavings of disabling propagation, backtracking and re-enabling.",
 [P],[("watch registration","DLPropagator::add_edge_"),("removal and reinstatement","DLPropagator::do_propagate"),("disabling false edges","DLPropagator::disable_edge_by_lit")],
 [("removed_watchs","literals whose watch was removed","ThreadState")])
p("C18","Multi-shot solving keeps earlier constraints and facts in force",
 "When solving again after grounding more, all constraints of earlier steps stay in force together with the new ones, and the thread states are rebuilt from them. Literals that became true on the top level in earlier steps are propagated again in the new step before anything is accepted.",
 ["histories"],"any number of steps, with any constraints and facts added in between",
 "Requires sequences of steps with facts learned on level zero; tests have only few multi-shot runs.",
 [P],[("recording of facts","DLPropagator::propagate"),("replay of facts","DLPropagator::check"),("rebuilding","DLPropagator::initialize_states_, init")],
 [("facts_","top-level literals and how many to replay","FactState")])
p("C19","Temporary marks never leak from one propagation into the next",
 "Every temporary mark, queue and set used while one constraint is added or propagated is cleared again on every way out, including conflicts and clauses refused by the solver, so that the next constraint starts from a clean state.",
 ["histories","fault_sequences"],"all exits of the propagation of a constraint",
 "A leaked mark distorts a later, unrelated propagation; no test drives every early exit followed by a sensitive propagation.",
 [G],[("cleanup in the callers","Graph::add_edge, propagate_full_, propagate_zero_"),("cleanup of bounds computation","Graph::Impl::dijkstra_bounds")])
p("C20","An undecided constraint stays visible to propagation",
 "As long as a constraint is neither known to be decided nor redundant on the current branch, it is listed among the candidates of both its variables, counted in their degrees, and considered by propagation. It is listed at most once and reappears after the level on which it was dropped is undone.",
 ["histories"],"all sequences of disabling, lazy removal, re-adding and backtracking",
 "Duplicate or lost candidates arise only from particular interleavings of lazy removal and backtracking.",
 [G],[("lists with lazy removal flags","Graph::add_candidate_edge_, with_incoming_, Impl::propagate_edges"),("degree counts","Graph::disable_edge")])
p("C21","Forward and backward propagation are exact mirror images",
 "Each algorithm that runs on the constraint graph and on its transpose accesses, for every notion (end points, adjacency, costs, paths, bounds, marks, candidate lists, cost counters), exactly the mirrored data in the two directions, and both directions decide redundancy and violation by the same criterion.",
 ["inputs","histories"],"all graphs",
 "A wrong accessor in one direction produces weaker or unsound propagation only on graphs where the directions differ.",
 [G],[("direction dependent accessors","Graph::Impl<From>, Graph::Impl<To>"),("shortest paths","dijkstra_full, dijkstra_bounds"),("edge propagation","propagate_edges")])
p("C22","Optimisation bounds are tracked soundly",
 "While minimising a variable, the value of every model found is recorded and the next search must be strictly better; an unsatisfiable search under a tentative bound only raises the lower bound and the tentative bound is retracted; the search ends only if the lower bound exceeds the upper bound, no tentative bound was active, or it was interrupted. The reported optimum is the value of the last model found.",
 ["histories","inputs","configurations"],"all sequences of satisfiable, unsatisfiable and interrupted searches, initial bounds and factors",
 "The two tests only check the final optimum of small instances with fixed settings.",
 [APP,MAIN],[("bound management","Optimizer::solve, on_model, prepare_, get_bound, add_stats"),("option","App::parse_bound_ and related")])
p("C23","The Python binding and library agree with the C header",
 "Every function declared in the public header is implemented with exactly the declared signature, the version reported at run time equals the version in the header, and the Python binding declares the same functions with the same argument types and looks them up under the same name prefix. The values of the enumerators and the layout of values crossing the interface stay as published.",
 ["programs","inputs"],"all functions, enumerators and value records of the interface",
 "The Python binding and most of the interface are not covered by the test-suite.",
 [H,C,PY,PYC],[("declarations","clingo-dl.h"),("bindings","_clingodl.c, __init__.py"),("version","clingodl_version")])
p("C24","Independent theories do not influence each other",
 "Creating, configuring, registering or using one theory object has no effect on any other theory object in the same process; there is no mutable state shared between objects, except scratch memory private to a thread that carries no information from one use to the next.",
 ["histories","schedules","configurations"],"any number of theories, in any order or concurrently",
 "Tests create one theory after the other with identical settings.",
 [C,P,G,A,APP],[("all state lives in the theory object","clingodl_theory, DLPropagatorFacade"),("scratch memory","simplify")])
p("C25","The priority queue always yields a cheapest element",
 "The queue used by all shortest path computations always removes an element that is minimal in the order given (cost, then relevance), contains each inserted element once, and the position recorded for each queued element is where it is stored, so that decreasing a cost restores the order.",
 ["inputs","histories"],"all sequences of queue operations and costs",
 "Order violations show for particular sequences of sizes and costs only; there is no test of the queue.",
 [U,L+"clingo-dl/util.hh"],[("heap operations","Heap::push, pop, decrease, swap_, parent_, children_")])
p("C26","Component splitting preserves all constraints",
 "Splitting the constraints into connected components only replaces the zero node of a constraint by the zero node of the component of its other variable; each variable belongs to exactly one component, connected variables share a component, weights and literals are untouched, and values are reported relative to the right zero node. Switching the splitting off gives the same answers.",
 ["inputs","histories","configurations"],"all constraint graphs, growing over steps, with splitting on or off",
 "Needs graphs with several components that merge or grow over several steps; the tests have one such case.",
 [P],[("component computation","DLPropagator::cc_calculate_, cc_reset_, is_zero_"),("zero node per component","do_propagate, lower_bound, extend_model")])
p("C27","Mutex preprocessing only adds implied clauses",
 "Every clause added by mutex preprocessing consists of the negated literals of the edges on one closed walk of negative total weight, never contains a literal together with its complement, and the preprocessing respects the configured size and cost limits and adds nothing when they are zero.",
 ["inputs","configurations"],"all constraint graphs and limits",
 "Wrong clauses cut off answers only on graphs with suitable cycles; tests do not enable the option.",
 [P],[("bounded search from each edge","DLPropagator::calculate_mutexes_"),("guard","DLPropagator::init")])
p("C28","No access through stale references into growing containers",
 "References, pointers and iterators into a container are never used after an operation that may move the container's elements, and references handed to longer living objects refer to storage that stays in place for their lifetime.",
 ["inputs","histories"],"all sizes at which containers reallocate",
 "Reallocation happens at particular sizes and its effect is silent without instrumentation.",
 [P,G,A,CFG,C],[("growing containers","vertex_info_, edges_, states_, thread_statistics, vertices_, queue")])
p("C29","Solving uses the front end's settings and inputs completely",
 "The command line application registers the theory, rewrites all given program files, grounds, and solves with the theory attached, forwards every model and all statistics to the theory, and runs the optimisation loop exactly if a variable to minimise was given. Invalid values for its own options are rejected.",
 ["inputs","configurations"],"all command lines",
 "The test-suite links the application library but not the main program.",
 [MAIN,APP],[("application","App::main, on_model, on_statistics, register_options, validate_options")])
p("C30","Full and zero propagation miss no immediate conflict",
 "With full propagation without limits, after a propagation that is not refused, no undecided constraint closes a cycle of negative weight with the constraints that are true: each such constraint has been made false. With zero propagation this holds for the cycles through the zero node. Parallel constraints between the same variables, early termination of the searches and the choice of the cheaper direction do not change this.",
 ["histories"],"all graphs, all orders of adding edges and backtracking",
 "Answers stay right if a conflict is found later, so tests that compare answers never notice; a miss needs particular parallel edges, ties or orders.",
 [G,P],[("relevance and early termination","Graph::Impl::dijkstra_full"),("bounds to and from the zero node","Graph::Impl::dijkstra_bounds"),("tests of candidate edges","Graph::Impl::propagate_edges, Graph::propagate_edge_false_"),("full and zero propagation","Graph::propagate_full_, Graph::propagate_zero_")])
na=[]
def n(id,title,stmt,over,q,why,files,mech,reason):
    p(id,title,stmt,over,q,why,files,mech); na.append({"property":id,"reason":reason})
n("N02","Optimisation reports a globally minimal value",
 "If optimisation ends without interruption, no model with a smaller value of the minimised variable exists.",
 ["inputs","programs"],"all programs","Requires all programs.",[APP],[("optimisation loop","Optimizer::solve")],
 "Depends on the solver's search being complete, on values chosen by the solver and on arithmetic at the limits of int; the structural part (bound bookkeeping) is claimed as C22.")
n("N03","Sums of weights along paths do not overflow",
 "Sums of edge weights along paths and potentials never exceed the integer range.",
 ["inputs"],"all weights and path lengths","Requires extreme weights on long paths.",[G],[("potentials","Graph::check_cycle_")],
 "Does not hold by design (TODO.md lists it as open): potentials and path sums are plain int; no static bound exists because weights and path lengths are run time quantities.")
n("N04","Propagation terminates and respects its budgets in time",
 "Every callback terminates, and limited propagation costs no more than the configured budget.",
 ["inputs","histories"],"all graphs","Run time quantity.",[G,P],[("budget test","DLPropagator::do_propagate")],
 "Termination rests on the absence of negative cycles among potentials at run time, and budgets bound accumulated run time costs; neither is visible in the shape of the code.")
n("N05","Real valued answers are exact",
 "With real numbers, reported values satisfy the constraints exactly.",
 ["inputs"],"all real weights","Rounding.",[G,P],[("double arithmetic","Graph<double>")],
 "Rounding of doubles depends on run time values; a static argument would need error bounds over unbounded path lengths.")
n("N06","Answers do not depend on the number of threads or propagation mode",
 "The set of answers is the same for every number of threads, propagation mode, sort mode and heuristic.",
 ["schedules","configurations"],"all configurations","Requires comparison of complete searches.",[P,G],[("propagation","DLPropagator::do_propagate")],
 "An equivalence between complete searches of an external solver; static analysis of this repository can only decide the local necessary conditions claimed by C01, C02, C03, C08 and C17.")
with open('/verif/properties.jsonl','w') as f:
    for r in rows: f.write(json.dumps(r,ensure_ascii=False)+"\n")
json.dump(na,open('/verif/build/na.json','w'),indent=1)

