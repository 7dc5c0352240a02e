"""Which functions carry which property, and which rules apply."""
import fnmatch

from terms import K

# short function name (class::name without namespace, pattern) -> properties
# the first matching line per pattern list is not exclusive: all matches add up
MAP = [
    # configuration
    ("PropagatorConfig::*", "C13"),
    ("PropagatorConfig::ensure", "C28"),
    # helpers
    ("numeric_cast", "C01 C05 C26"), ("Detail::nc_check", "C01 C05 C26"), ("ensure_index", "C01 C02"),
    ("Heap::*", "C25 C21"),
    ("Heap::increase", ""),
    ("Timer::*", "C16"),
    ("unquote", "C05"),
    ("std::hash::operator()", "C05"),
    ("safe_*", "C05 C06 C04"),
    # graph
    ("ThreadStatistics::*", "C16"),
    ("Graph::Vertex::*", "C01 C02 C14 C15"),
    ("Graph::Impl::*", "C08 C21"),
    ("Graph::Impl::less", "C25"), ("Graph::Impl::offset", "C25"),
    ("Graph::Impl::cost", "C25"),
    ("Graph::Impl::bound_value", "C02"), ("Graph::Impl::bound_trail", "C02"), ("Graph::Impl::bound_path", "C02"),
    ("Graph::Impl::visited*", "C19"), ("Graph::Impl::bound_visited*", "C19"), ("Graph::Impl::relevant", "C19"),
    ("Graph::Impl::candidate_*", "C20"), ("Graph::Impl::remove_*", "C20"),
    ("Graph::Impl::propagation_cost", "C16"),
    ("Graph::Impl::dijkstra_full", "C19 C20 C25"), ("Graph::Impl::dijkstra_bounds", "C19 C02 C25"),
    ("Graph::Impl::propagate_edges", "C09 C20 C19"),
    ("Graph::(ctor)", "C01 C02 C16"),
    ("Graph::empty", "C01 C15 C18"), ("Graph::has_value", "C01 C15 C14"), ("Graph::get_value", "C01 C15 C14"),
    ("Graph::edge_is_enabled", "C08 C20"), ("Graph::edge_is_negative", "C14"),
    ("Graph::disable_edge", "C02 C20"), ("Graph::can_propagate", "C02 C17"), ("Graph::disable_propagate", "C02 C17"),
    ("Graph::ensure_decision_level", "C02 C01"), ("Graph::add_edge", "C01 C02 C08 C09 C19 C20"),
    ("Graph::backtrack", "C02 C20"), ("Graph::mode", "C13"),
    ("Graph::check_cycle_", "C01 C02 C08 C09 C19"),
    ("Graph::propagate_simple_", "C08 C09"), ("Graph::propagate_zero_", "C08 C09 C19 C20 C02"),
    ("Graph::propagate_full_", "C08 C09 C19 C20"), ("Graph::cheap_propagate_", "C08 C09"),
    ("Graph::add_candidate_edge_", "C20 C02"),
    ("Graph::propagate_edge_true_", "C08 C20 C21"), ("Graph::propagate_edge_false_", "C08 C09 C20 C21"),
    ("Graph::set_potential_", "C01 C02"), ("Graph::current_decision_level_", "C02 C01"),
    ("Graph::*", "C16"),
    # propagator
    ("to_symbol", "C15"), ("Statistics::*", "C16"),
    ("DLPropagator::(ctor)", "C13 C16 C24"),
    ("DLPropagator::num_vertices", "C15"), ("DLPropagator::symbol", "C15"), ("DLPropagator::lookup", "C15"),
    ("DLPropagator::has_lower_bound", "C15 C26"), ("DLPropagator::lower_bound", "C15 C26"), ("DLPropagator::extend_model", "C15 C26 C03"),
    ("DLPropagator::init", "C04 C17 C18 C26 C27 C13 C09"),
    ("DLPropagator::propagate", "C01 C03 C17 C18"), ("DLPropagator::undo", "C02 C03 C17"),
    ("DLPropagator::check", "C01 C03 C09 C17 C18"), ("DLPropagator::decide", "C14 C03"),
    ("DLPropagator::VertexInfo::*", "C26"), ("DLPropagator::ThreadState::*", "C13 C02 C16"),
    ("DLPropagator::map_vertex_", "C05 C15"), ("DLPropagator::add_constraints_", "C04 C18 C09"),
    ("DLPropagator::normalize_constraint_", "C04 C06 C09"), ("DLPropagator::add_edges_", "C04 C05 C09 C06"),
    ("DLPropagator::add_edge_", "C04 C17"), ("DLPropagator::cc_*", "C26"), ("DLPropagator::is_zero_", "C26 C15"),
    ("DLPropagator::calculate_mutexes_", "C27 C09"), ("DLPropagator::initialize_states_", "C13 C18 C16"),
    ("DLPropagator::disable_edge_by_lit", "C17 C20"), ("DLPropagator::get_potential_", "C13"), ("DLPropagator::cost_", "C13"),
    ("DLPropagator::sort_edges", "C13 C01"), ("DLPropagator::do_propagate", "C01 C02 C09 C13 C17 C18 C26"),
    ("DLPropagator::do_propagate", "C03"), ("DLPropagator::check", "C20"),
    # parsing
    ("throw_syntax_error", "C05 C07"), ("check_syntax", "C05 C07"),
    ("parse", "C05 C04"), ("negate_relation", "C07"), ("match_constant", "C05 C07"), ("shift_rule", "C07"), ("tag_terms", "C07"),
    ("TheoryRewriter::*", "C07"), ("is_valid_var", "C05"), ("to_number", "C05"), ("evaluate", "C05 C06"), ("evaluate_binary", "C05 C06"),
    ("parse_number", "C05 C06"), ("parse_elem", "C05 C06"), ("simplify", "C05 C06 C24"), ("match", "C07 C05"), ("transform", "C07"),
    # C interface
    ("init", "C10"), ("propagate", "C10"), ("undo", "C10"), ("check", "C10"), ("decide", "C10 C14"),
    ("set_value", "C15"), ("DLPropagatorFacade::(ctor)", "C14 C13"),
    ("DLPropagatorFacade::lookup_symbol", "C15"), ("DLPropagatorFacade::get_symbol", "C15"), ("DLPropagatorFacade::has_value", "C15"),
    ("DLPropagatorFacade::get_value", "C15"), ("DLPropagatorFacade::next", "C15"), ("DLPropagatorFacade::extend_model", "C15"),
    ("DLPropagatorFacade::on_statistics", "C16"), ("DLPropagatorFacade::add_*", "C16 C11"),
    ("iequals*", "C12"), ("parse_*", "C12"), ("parse_*", ""), ("check_parse", "C12 C11"),
    ("clingodl_version", "C23"), ("clingodl_create", "C10 C24"), ("clingodl_register", "C13 C29 C10"),
    ("clingodl_rewrite_ast", "C07 C10 C11"), ("clingodl_prepare", "C10 C18"), ("clingodl_destroy", "C24"),
    ("clingodl_configure", "C12 C13 C11 C10"), ("clingodl_register_options", "C12 C13 C11"), ("clingodl_validate_options", "C10"),
    ("clingodl_on_model", "C15 C10"), ("clingodl_lookup_symbol", "C15"), ("clingodl_get_symbol", "C15"),
    ("clingodl_assignment_*", "C15"), ("clingodl_on_statistics", "C16 C10 C11"),
    ("epsilon*", "C04"),
    # application
    ("Rewriter::*", "C07 C29 C11"), ("Optimizer::*", "C22"), ("Optimizer::on_statistics", "C16 C29"), ("Optimizer::add_stats", "C11"),
    ("Optimizer::solve", "C29"), ("Optimizer::prepare_", "C29"), ("Optimizer::on_model", "C29"), ("Optimizer::get_bound", "C11"),
    ("App::*", "C29"), ("App::parse_*", "C22"), ("App::on_*", "C11"), ("App::validate_options", "C11"), ("App::register_options", "C11"),
    ("App::main", "C11 C22"), ("main", "C29"),
]
# property -> further functions that can break it
MORE = {
    "C01": "Graph::Impl::offset Graph::Impl::cost Graph::Impl::less Graph::Impl::to Graph::Impl::from Graph::Impl::out Graph::Impl::path Heap::* Graph::backtrack Graph::disable_edge "
           "DLPropagator::init DLPropagator::initialize_states_ DLPropagator::undo DLPropagator::add_edge_ DLPropagator::add_edges_ DLPropagator::get_potential_ DLPropagator::cost_ "
           "DLPropagator::cc_* DLPropagator::is_zero_ DLPropagator::disable_edge_by_lit DLPropagator::extend_model DLPropagator::lower_bound DLPropagator::has_lower_bound "
           "DLPropagator::map_vertex_ DLPropagator::add_constraints_",
    "C02": "Graph::Impl::remove_* Graph::Impl::candidate_* Graph::Impl::propagate_edges DLPropagator::propagate DLPropagator::check DLPropagator::disable_edge_by_lit "
           "DLPropagator::initialize_states_ Graph::propagate_full_ Graph::propagate_edge_* Graph::edge_is_enabled",
    "C03": "DLPropagator::initialize_states_ DLPropagator::ThreadState::* DLPropagator::disable_edge_by_lit DLPropagator::lower_bound DLPropagator::has_lower_bound DLPropagator::sort_edges "
           "DLPropagator::cost_ DLPropagator::get_potential_ DLPropagator::init DLPropagatorFacade::has_value DLPropagatorFacade::get_value DLPropagatorFacade::next "
           "DLPropagatorFacade::extend_model clingodl_on_model clingodl_assignment_*",
    "C04": "tag_terms TheoryRewriter::* DLPropagator::init match_constant",
    "C05": "DLPropagator::init DLPropagator::normalize_constraint_",
    "C06": "numeric_cast Detail::nc_check parse to_number",
    "C08": "Heap::* Graph::disable_edge Graph::add_candidate_edge_ Graph::edge_is_enabled Graph::backtrack Graph::set_potential_ Graph::Vertex::* DLPropagator::do_propagate",
    "C09": "DLPropagator::propagate Graph::propagate_edge_true_ Graph::add_candidate_edge_ Graph::disable_edge",
    "C10": "clingodl_*",
    "C11": "Optimizer::* main App::*",
    "C12": "App::parse_* PropagatorConfig::ensure",
    "C13": "Graph::add_edge DLPropagator::add_edge_ DLPropagator::decide DLPropagator::calculate_mutexes_ DLPropagator::cc_reset_ DLPropagator::check DLPropagator::propagate clingodl_create "
           "DLPropagator::disable_edge_by_lit",
    "C14": "clingodl_register DLPropagator::init",
    "C15": "DLPropagator::cc_reset_ Graph::set_potential_",
    "C16": "DLPropagator::*",
    "C17": "Graph::edge_is_enabled Graph::backtrack Graph::ensure_decision_level DLPropagator::initialize_states_ DLPropagator::normalize_constraint_ Graph::disable_edge",
    "C18": "DLPropagator::undo DLPropagator::add_edge_ DLPropagator::cc_reset_ DLPropagator::map_vertex_ DLPropagator::ThreadState::*",
    "C19": "Graph::* Heap::clear Heap::push Heap::pop",
    "C20": "Graph::(ctor) Graph::cheap_propagate_ DLPropagator::do_propagate DLPropagator::initialize_states_ Graph::ensure_decision_level",
    "C21": "Graph::propagate_full_ Graph::propagate_zero_ Graph::add_edge Graph::disable_edge Graph::backtrack Graph::add_candidate_edge_",
    "C22": "App::main App::on_model",
    "C24": "DLPropagatorFacade::(ctor) clingodl_register DLPropagator::initialize_states_",
    "C26": "DLPropagator::initialize_states_ DLPropagator::add_edge_ DLPropagator::add_edges_ DLPropagator::map_vertex_",
    "C27": "parse_mutex DLPropagator::add_edge_",
    "C28": "DLPropagator::initialize_states_ DLPropagator::ThreadState::* Graph::(ctor)",
    "C29": "clingodl_prepare clingodl_rewrite_ast clingodl_on_model clingodl_on_statistics clingodl_register_options clingodl_validate_options",
    "C30": "Graph::* Graph::Impl::* Heap::* DLPropagator::do_propagate DLPropagator::propagate DLPropagator::check DLPropagator::undo DLPropagator::disable_edge_by_lit "
           "DLPropagator::initialize_states_ DLPropagator::ThreadState::* DLPropagator::cc_* DLPropagator::is_zero_",
}
# what holds when a function is entered: the queue of shortest path searches is empty between searches (all functions that
# use it are compared under this assumption, and leave it empty in the reference)
_EMPTY = ((("this", "costs_heap_", "heap_", "#size"), K(0)),)
ENTRY = {"Graph::Impl::dijkstra_full": _EMPTY}
# small adjustments that may turn out to have nothing to do
IDLE = ("Heap::decrease",)
# names that exist twice: patterns of MAP apply to these files only
ONLY = {"parse_*": "clingo-dl.cc", "decide": "clingo-dl.cc", "check": "clingo-dl.cc", "init": "clingo-dl.cc", "propagate": "clingo-dl.cc", "undo": "clingo-dl.cc"}

STATS = {"time_init", "ccs", "mutexes", "edges", "variables", "dl_stats", "time_propagate", "time_undo", "time_dijkstra", "true_edges", "false_edges",
         "false_edges_trivial", "false_edges_weak", "false_edges_weak_plus", "propagate_cost_add", "propagate_cost_from", "propagate_cost_to", "edges_added",
         "edges_skipped", "edges_propagated"}
# statistics that influence the search (the propagation budget)
BUDGET = {"propagate_cost_add", "propagate_cost_from", "propagate_cost_to"}


def short(name):
    n = name.replace("ClingoDL::", "").replace("(anonymous namespace)::", "")
    return n


def properties_of(name, file):
    n = short(name)
    out = set()
    for pat, ps in MAP:
        o = ONLY.get(pat)
        if o and not file.endswith(o):
            continue
        if fnmatch.fnmatchcase(n, pat):
            out.update(ps.split())
    for p, pats in MORE.items():
        if p not in out and any(fnmatch.fnmatchcase(n, q) for q in pats.split()):
            out.add(p)
    return out

ASSUME = [
    "the reviewed reference (/verif/reference) satisfies the property; the review is recorded in DESIGN.md",
    "functions of clingo and of the standard library behave as documented; they are uninterpreted or modelled symbolically",
    "constructs the abstract domain cannot express are left undecided and listed in the coverage; nothing is claimed about them",
    "signed arithmetic on bounded quantities inside the graph does not overflow (property N03 is not claimed)",
]

HOW = ("Static comparison of the current sources with a reviewed reference snapshot: both are parsed and type checked by the compiler front end, every selected function is "
       "summarised by a path-sensitive abstract interpretation (values as canonical terms over the entry state, loops by a generic iteration over a havocked state, calls of other "
       "compared functions as events with their arguments and the visible state), and for every pair of compatible paths the order and arguments of calls, the returned value, all "
       "written locations and the loop bodies must agree. Nothing is executed and no solver is used. A difference that is only a move of work between a function and its callers is "
       "resolved by inlining. In addition the listed rules are decided on the syntax tree and call graph. ")

PROPS = {}


LEVEL_NOTE = ("static analysis over all paths of the selected functions; sound for the modelled language subset relative to the reviewed reference and the assumptions listed in the "
              "evidence; undecided constructs are counted there and not claimed. ")


def prop(pid, rules=(), level="other", note="", technique="path-sensitive abstract interpretation compared with a reviewed reference"):
    PROPS[pid] = {"rules": tuple(rules), "level": level, "how": HOW + note, "note": note, "level_note": LEVEL_NOTE + note,
                  "technique": technique + ("" if not rules else "; rules: " + ", ".join(r.split(":")[0] for r in rules))}


prop("C01", ["defaults:C01"], note="Covers the insertion of edges, potential repair, the queue of pending edges and the value accessors.")
prop("C02", [], note="Covers all functions that enter, change or undo decision levels.")
prop("C03", ["threads", "statics"], note="The effect rule covers everything reachable from the callbacks; the comparison covers the index used for per-thread state.")
prop("C04", ["defaults:C04"], note="Covers normalisation, auxiliary clauses, edge creation and the epsilon used for reals.")
prop("C05", ["defaults:C05"], note="Covers the parser of theory terms, evaluation, merging of terms and vertex lookup.")
prop("C06", ["checked"], note="Covers the checked helpers and every arithmetic operation in the functions reading and normalising constraints.")
prop("C07", ["defaults:C07"], note="Covers the rewriter, shifting, the C entry point and the application's use of it.")
prop("C08", ["defaults:C08"], note="Covers the construction of every clause in the constraint graph and the redundancy criteria.")
prop("C09", ["clause_results"], note="Covers all calls adding clauses and everything done after them.")
prop("C10", ["exceptions"], note="Covers all functions of the C interface and callbacks given to C code.")
prop("C11", ["api_results"], note="Covers all calls of C functions reporting failure.")
prop("C12", ["defaults:C12"], note="Covers the option parsers, their registration and the dispatch by key.")
prop("C13", ["defaults:C13", "wraps"], note="Covers registration, dispatch by key, per-thread lookup and the use of the settings.")
prop("C14", ["defaults:C14"], note="Covers the heuristic, the test of violation and the registration of the callback.")
prop("C15", [], note="Covers index mapping, iteration, values and model extension.")
prop("C16", ["stats", "defaults:C16"], note="Every write of a statistics field in the compared functions, and completeness of reset, accumulation and reporting.")
prop("C17", ["defaults:C17"], note="Covers watches, their removal and reinstatement.")
prop("C18", ["defaults:C18"], note="Covers recording and replay of facts and the rebuilding of thread states.")
prop("C19", ["defaults:C19"], note="Covers every function that sets or clears temporary marks; the state at each call and exit is compared.")
prop("C20", ["defaults:C20"], note="Covers the candidate lists, degree counts and enabling flags.")
prop("C21", ["mirror"], note="Both instantiations of each algorithm and the accessors; the mirror rule compares the two directions with each other.")
prop("C22", ["defaults:C22"], note="Covers the optimisation loop and its options.")
prop("C23", ["header"], note="The rule compares declarations, definitions and the generated binding.", technique="declaration and table comparison on the typed syntax tree")
prop("C24", ["statics"], note="All variables with static storage are enumerated.", technique="effect rule on variables with static storage")
prop("C25", ["defaults:C25"], note="Covers the heap and the order used.")
prop("C26", ["defaults:C26"], note="Covers component computation, zero nodes and their use.")
prop("C27", ["defaults:C27"], note="Covers the bounded search and the clauses built from it.")
prop("C28", ["stale"], note="The rule tracks every reference, pointer and iterator into a container in every function.", technique="flow-sensitive invalidation analysis on the typed syntax tree")
prop("C29", ["pyapp"], note="Covers the application, its options and the Python front end.")
prop("C30", note="Covers the graph, the heap and the calls that propagate; that the reference itself is complete is part of its review, the check decides that the code agrees with it.")
