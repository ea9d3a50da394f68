#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the text stays reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["observe_at"] = observe or []
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

prop("C01", "A loaded problem gives every thread the PDDL answer at the same time",
  "Any number of threads may query one loaded problem at once through its read-only interface: applicability of an action, successor state, execution of a sequence, plan and transition validation, goal test, listing of valid actions and arguments, axiom closure and validity, derived facts, partial-state evaluation, normalised conditions. Every call returns exactly what the PDDL semantics of the domain and problem define for its arguments, the same as when it is the only call in the process, whatever the other threads are doing and however their steps interleave. No query changes the problem, its initial state or the states passed in. (Effects of one action are taken not to contradict one another; their conditions are those of the state before the action.)",
  ["schedules", "programs", "inputs"],
  "Every interleaving, at the granularity of single memory accesses, of 2-4 threads running arbitrary sequences of read-only queries over one loaded problem, for every domain/problem and reachable state.",
  "The tests run one thread only, and the tests of this layer are not even compiled where VAL is absent; a thread-unsafe scratch buffer gives the right answer in every sequential test.",
  ["include/symbolic/pddl.h", "src/pddl.cc", "src/formula.cc", "src/action.cc", "src/axiom.cc", "src/normal_form.cc", "src/object.cc", "src/proposition.cc", "src/predicate.cc"],
  [("compiled formula closures and argument-application functions", "src/formula.cc: Formula::CreateApplicationFunction, CreateProposition, CreateForall, CreateExists"),
   ("compiled effect closures", "src/action.cc: CreateAdd, CreateDel, CreateForall, CreateCond"),
   ("axiom argument matching", "src/axiom.cc: Axiom::CreateApplicationFunction"),
   ("query entry points", "src/pddl.cc: NextState, IsValidAction, IsValidPlan, IsValidTuple, ListValidActions, ListValidArguments, ConsistentState")],
  [("argument scratch buffer", "arguments a formula or effect was last instantiated with", "closures created by CreateApplicationFunction")],
  ["return values of the const methods of the loaded problem", "problem and argument states before and after each call"])

prop("C02", "Breadth-first planning yields exactly the loop-free plans, shortest first",
  "Iterating a breadth-first search yields each path from the root to a goal of at most the depth bound exactly once and nothing else, in order of non-decreasing length, never extending a path beyond a goal; with the planner's nodes these are exactly the executable action sequences from the initial or a given state that repeat no state, each node holding the action taken, its depth and the exact successor state (for actions whose effects do not contradict one another). The children of a planner node are the same walked forwards and backwards. This does not depend on how many searches and iterators over the same root or problem are alive, nor on how their steps interleave, whether in one thread or several, nor on when an iterator is copied, paused or abandoned.",
  ["schedules", "programs", "histories"],
  "Every graph or planning problem, every depth bound, and every interleaving of the steps of several live searches and iterators (same thread or different threads), including copies taken in the middle.",
  "The only planner test (not compiled without VAL) checks one problem with one iterator run to completion in one thread.",
  ["include/symbolic/planning/breadth_first_search.h", "include/symbolic/planning/planner.h", "src/planning/planner.cc", "src/pddl.cc"],
  [("search frontier", "include/symbolic/planning/breadth_first_search.h: iterator::operator++"),
   ("successor generation and ancestor cache", "src/planning/planner.cc: Node::begin, iterator::operator++, Node::Node")],
  [("frontier", "paths still to be expanded, owned by one iterator", "BreadthFirstSearch::iterator"),
   ("ancestor set", "states on the path, shared by siblings", "Planner::Node")],
  ["sequence of plans yielded by each iterator"])

prop("C03", "A search time limit bounds every advance and never cuts one short",
  "With a time limit, each advance of a breadth-first search that returns without a plan either exhausted the search space or ran for at least the limit of elapsed time since that advance began, and no advance continues past the limit by more than the processing of one node. Plans yielded under a limit are a prefix of the plans yielded without one, an expired search reports its end and stays at its end, a limit of zero means no limit, and setting or adjusting the wall clock in the middle changes none of this.",
  ["fault_sequences", "schedules", "inputs"],
  "Every assignment of processing times to nodes, every limit, every stall, and every sequence of wall-clock jumps (forward, backward, slow and fast clocks) at any instant of the search.",
  "No test sets a time limit, and tests run against the real clock, which never jumps on demand.",
  ["include/symbolic/planning/breadth_first_search.h"],
  [("deadline check per expanded node", "include/symbolic/planning/breadth_first_search.h: iterator::operator++")],
  [("start instant", "time at which the current advance began", "iterator::operator++")],
  ["simulated time at which nodes are processed and at which an advance returns", "plans yielded"])

prop("C04", "Depth-first and best-first search yield every plan, including the last",
  "Iterating a depth-first or an A* search yields each path from the root to a goal of at most the depth bound exactly once and nothing else, including a plan found when no other work is left, and then ends. A* yields plans in best-first order: no plan is yielded while a strictly better open path that leads to it or to another plan is still waiting. Neither depends on other searches over the same root that are interleaved with it or on copies of the iterator made on the way.",
  ["schedules", "histories", "inputs"],
  "Every graph, ordering and depth bound, and every interleaving of several live depth-first and A* iterators, including copies taken in the middle and iterators used from different threads.",
  "No test exercises either search.",
  ["include/symbolic/planning/depth_first_search.h", "include/symbolic/planning/a_star.h"],
  [("frontier", "include/symbolic/planning/depth_first_search.h: iterator::operator++"),
   ("priority frontier", "include/symbolic/planning/a_star.h: iterator::operator++")],
  [("current plan", "path of the plan last found", "iterator")],
  ["sequence of plans yielded", "comparison with the end iterator"])

prop("C05", "States and their containers are sets whatever their history and failures",
  "A state, and the hash set and sorted vector it is built on, behaves as a mathematical set: membership, size, the result of each insertion and removal, and forward and backward iteration (each element once) agree with the sequence of operations performed; two of them are equal exactly when they contain the same elements, however they were built, equal ones have equal hashes, and the ordering is a strict total order consistent with equality. An operation that fails because memory runs out leaves the set, its size, its equality and its hash as they were, or for a copy or range insertion in a state that contains only elements that were asked for, and it stays fully usable.",
  ["histories", "fault_sequences", "schedules"],
  "Every sequence of insertions, emplacements, removals, copies, moves, swaps and comparisons over several sets, with an allocation failure at any allocation inside any operation, and concurrent readers of an unchanging set.",
  "No test covers these containers at all; an unlucky removal order or one failed allocation is needed to desynchronise size, buckets and equality.",
  ["include/symbolic/utils/hash_set.h", "include/symbolic/utils/unique_vector.h", "include/symbolic/state.h", "src/state.cc", "src/proposition.cc"],
  [("canonical bucket count", "include/symbolic/utils/hash_set.h: insert, erase, Rehash, UpperBound, LowerBound"),
   ("sorted unique buckets", "include/symbolic/utils/unique_vector.h"),
   ("proposition hash and order", "include/symbolic/proposition.h, src/proposition.cc")],
  [("buckets", "sorted bucket contents", "HashSet"), ("size", "number of elements", "HashSet")],
  ["contains, insert, erase, size, iteration, ==, <, hash"])

prop("C06", "A partial state never holds a fact to be both true and false",
  "Through any sequence of assertions and denials on a partial state, each fact is exactly one of true, false or unknown, namely what was last said about it; each call reports 0 when it changed nothing, 1 when the fact became known and 2 when it was flipped, and asking about an unknown fact always raises the unknown signal naming that fact. A call that fails because memory runs out never makes a fact both true and false and changes no other fact, and equality, copies and consistency checks see exactly these values.",
  ["histories", "fault_sequences"],
  "Every sequence of assertions, denials, queries, copies and comparisons, with an allocation failure at any allocation inside any of them.",
  "No compiled test touches partial states, and no test injects failures between the two halves of an update.",
  ["include/symbolic/state.h", "src/state.cc", "include/symbolic/utils/hash_set.h"],
  [("paired update of the positive and the negative set", "src/state.cc: PartialState::insert, PartialState::erase"),
   ("three-valued query", "src/state.cc: PartialState::contains, does_not_contain")],
  [("pos, neg", "facts known true, known false", "PartialState")],
  ["return codes, contains, does_not_contain, IsConsistent, ==, size"])

prop("C07", "Combination generators enumerate the product once, for every iterator alive",
  "A combination generator yields every combination of one element per option exactly once, however many there are (up to the range of its index type), with the last option varying fastest, and its size, indexed access, lookup, forward, backward and random-access iteration all agree on that order from whatever position an iterator came, including one past either end. Iterators are independent of each other: any number of them, in one thread or several, may advance over one generator in any interleaving. A copied or moved parameter generator enumerates the same objects after the original is changed or gone, and a copy that fails for lack of memory leaves its source usable.",
  ["schedules", "histories", "inputs"],
  "Every list of options, every walk of steps, jumps, reversals, copies and assignments of several iterators and generators, every interleaving of threads holding their own iterators, and allocation failures inside copies.",
  "The tests walk one 4x5x3 product with mostly one iterator, never jump back from the end into the middle, and never use two threads.",
  ["include/symbolic/utils/combination_generator.h", "include/symbolic/utils/parameter_generator.h", "src/utils/parameter_generator.cc"],
  [("incremental digit update", "include/symbolic/utils/combination_generator.h: Iterator::UpdateCombination"),
   ("index arithmetic", "include/symbolic/utils/combination_generator.h: ComputeGroupSizes, find, at"),
   ("ownership of option vectors across copies and moves", "src/utils/parameter_generator.cc")],
  [("current combination", "elements at the iterator's index", "CombinationGenerator::Iterator")],
  ["dereferenced combinations, size(), at(), operator[], find()"])

prop("C08", "The state index stays a bijection under caching and concurrent use",
  "The index of a problem numbers every ground fact of every predicate (including predicates without parameters, and however many facts there are) with a distinct number below its size, fact lookup and number lookup are inverse to each other, and conversion of a state to its indexed form and back returns the same state. This holds with the cache on or off, in whatever order facts are looked up, after lookups that failed, in copies of the index, and when several threads use one index at the same time.",
  ["schedules", "histories", "fault_sequences"],
  "Every problem, every order of lookups that fills the cache, every interleaving of several threads using one index (or copies taken while it is in use), with allocation failures inside lookups.",
  "No compiled test uses the index; the cache is filled lazily inside const methods, which only a concurrent history can break.",
  ["include/symbolic/state.h", "src/state.cc"],
  [("lazily filled lookup caches", "src/state.cc: StateIndex::GetProposition, GetPropositionIndex"),
   ("predicate group offsets", "src/state.cc: PredicateCumSum")],
  [("cache_propositions_, cache_idx_propositions_", "memoised lookups, mutable in const methods", "include/symbolic/state.h")],
  ["GetProposition, GetPropositionIndex, GetState, GetIndexedState, iteration, size"])

prop("C09", "Axiom consequences are complete and unmixed, however activations nest",
  "When an action changes a fact that is the context of axioms (whose variables all occur in the context), the resulting state contains every consequence of every triggered axiom instance, transitively, with each instance's own arguments, and nothing else changes; the result does not depend on recursive or simultaneous activations of the same axiom, in this call or in calls of other threads. The closure of a state is a fixed point, satisfies all axioms, and equals the closure computed for any other thread at the same time. A consequence may also demand that objects are equal, unequal or of a type: a state in which a context holds of objects that do not meet the demand is not valid, and a step or closure that would lead to one raises an error.",
  ["schedules", "programs", "histories"],
  "Every confluent set of axioms with recursive and mutually recursive activations, every action and state, and every interleaving of several threads applying actions and closures.",
  "The tests contain one axiom domain at most, without recursion through the same axiom, and run in one thread.",
  ["include/symbolic/axiom.h", "src/axiom.cc", "src/action.cc", "src/pddl.cc"],
  [("context matching and argument binding", "src/axiom.cc: Axiom::CreateApplicationFunction"),
   ("recursive triggering from effects", "src/action.cc: CreateAdd, CreateDel"),
   ("closure", "src/pddl.cc: Pddl::ConsistentState")],
  [("axiom argument buffer", "arguments of the activation in progress", "closures created by Axiom::CreateApplicationFunction")],
  ["successor states, ConsistentState, IsValidState"])

prop("C10", "Derived facts in every produced state are exactly the derivable ones",
  "In every state produced by applying actions, by planning or by asking for derived facts, a derived predicate holds of exactly those arguments for which some rule instance derives it in the least (stratified) model over the basic facts, with no stale fact left from the state before, also with several rules per predicate, recursive and mutually recursive rules. Producing it always terminates, is idempotent, leaves basic facts alone, and gives the same result to every thread doing so at the same time.",
  ["schedules", "programs", "histories"],
  "Every stratified set of derivation rules, every history of actions (so that support for facts comes and goes), and every interleaving of several threads.",
  "No test has more than one non-recursive rule per predicate, none removes the support of a recursive fact, and none runs concurrently.",
  ["include/symbolic/derived_predicate.h", "src/derived_predicate.cc", "src/pddl.cc", "src/planning/planner.cc"],
  [("fixpoint iteration", "src/derived_predicate.cc: DerivedPredicate::Apply")],
  None, ["NextState, ApplyActions, DerivedState, planner node states"])

prop("C11", "Loading a problem is all-or-nothing whatever the files do",
  "Loading a domain and problem either yields a problem that is exactly the one described by the complete contents of both, or raises an error and yields nothing; a missing, unreadable, empty, truncated or failing file, a file cut anywhere by a crash of its writer, or memory running out never yields a partial or mixed problem, a crash or a hang. A failed load has no effect on problems loaded before, and the next load that meets no fault succeeds as if the failure had never happened. An empty problem text means the domain alone. (One thread loads at a time; others may query problems already loaded.)",
  ["fault_sequences", "crash_points", "histories"],
  "Every sequence of loads, with open errors, read errors, interrupted and short reads, files truncated at any byte, and allocation failures at any point of the load.",
  "No compiled test loads a file; those that would load two intact files.",
  ["src/pddl.cc", "include/symbolic/pddl.h", "src/object.cc", "src/action.cc", "src/axiom.cc"],
  [("parse and error check", "src/pddl.cc: ParsePddl"), ("construction order", "src/pddl.cc: Pddl::Pddl")],
  [("parser globals", "lexer, current analysis, file name and line number used by the parser", "src/pddl.cc: VAL::current_analysis, VAL::yfl, line_no")],
  ["exception or loaded problem, answers of other loaded problems"])

prop("C12", "A call that fails leaves no trace",
  "A query or action call that fails, because it names an unknown action or object, gives an action call arguments of the wrong number or type, looks up an unknown fact in the index, or because memory runs out at any point inside it, fails by raising an error to its caller: it never returns a made-up answer, never aborts the process, never leaks, and never changes the problem or any state it was not asked to change. The same call repeated without the fault gives the right answer, as do all calls made by others before, meanwhile and after.",
  ["fault_sequences", "histories", "schedules"],
  "An allocation failure at any allocation of any read-only call or of a copy of the problem's parts, and any ill-formed argument, at any position in histories of 1-3 interleaved clients.",
  "Tests never make an allocation fail, and they contain no ill-formed call after which the problem is used again.",
  ["src/pddl.cc", "src/action.cc", "src/axiom.cc", "src/formula.cc", "src/object.cc", "src/utils/parameter_generator.cc", "src/normal_form.cc", "src/planning/planner.cc"],
  [("argument parsing and checks", "src/action.cc: Action::Parse, Action::Action; src/object.cc: GetSymbol"),
   ("exception transparency", "src/axiom.cc: IsConsistent; src/utils/parameter_generator.cc: ParamTypes")],
  None, ["exceptions, return values, live heap blocks, later answers"])

prop("C13", "Objects added to and removed from a problem take effect everywhere or nowhere",
  "After any history of adding and removing objects on a loaded problem, the objects it lists, name lookup, argument checking and the enumeration of valid actions and arguments all agree with that history: an added object is an object of its type, a removed one is gone. Facts of the initial state about a removed object go with it. A request that fails (name already in use, unknown type, memory exhausted) and a request to remove something that is not a problem object change nothing, and facts and states about the remaining objects stay usable throughout.",
  ["histories", "fault_sequences"],
  "Every history of additions, removals (of problem objects), re-additions and queries, with allocation failures inside additions and removals.",
  "No compiled test adds or removes an object.",
  ["src/pddl.cc", "include/symbolic/pddl.h", "src/object.cc"],
  [("object bookkeeping", "src/pddl.cc: Pddl::AddObject, Pddl::RemoveObject"),
   ("type map used by generators", "src/pddl.cc: CreateObjectTypeMap; src/utils/parameter_generator.cc")],
  [("objects_, object_map_, the parsed problem's object list", "three views of the same set of objects", "src/pddl.cc")],
  ["objects(), object_map(), ListValidArguments, ListValidActions, NextState"])

prop("C14", "Copies of actions, formulas, generators and nodes outlive and never disturb",
  "A copied or moved action, formula, predicate, generator, state index, state, search iterator or planner node gives the same answers as its original, keeps giving them after the original has been assigned over or destroyed while the problem lives, and using one never affects results being obtained through another, in the same thread or in another at the same time. A copy that fails for lack of memory leaves its source intact and is itself not usable wrongly.",
  ["histories", "schedules", "fault_sequences"],
  "Every history of copies, moves, assignments and destructions of these values interleaved with their use, in one or several threads, with allocation failures inside copies.",
  "No test copies any of these and uses both.",
  ["src/formula.cc", "src/axiom.cc", "src/action.cc", "src/utils/parameter_generator.cc", "src/planning/planner.cc", "include/symbolic/state.h", "include/symbolic/planning/breadth_first_search.h"],
  [("closures captured by value", "src/formula.cc, src/action.cc"),
   ("rebinding of option pointers on copy and move", "src/utils/parameter_generator.cc"),
   ("shared node implementation", "src/planning/planner.cc")],
  [("closure scratch buffers", "state shared by copies of a closure", "src/formula.cc: CreateApplicationFunction; src/axiom.cc: CreateApplicationFunction")],
  ["answers of original and copy"])

prop("C15", "The problem builder denotes the same problem for every history of its calls",
  "Whatever the order in which objects and initial facts are added, however many problems are being built at the same time, however often the text is rendered in between, and whatever the iteration order of the fact sets passed in, the PDDL text of a problem is well formed and denotes exactly the objects with their types, initial facts (those of every set passed in as well as single ones) and goal it was given; a definition taken earlier keeps denoting the problem as it was then. A fact that is neither in parentheses nor of the form name(arguments) is refused, and a call that raises on malformed input leaves the problem as it was; a call interrupted by an asynchronous exception adds nothing that was not asked for. No problem or caller-owned goal or set is changed by building or rendering another. (One client builds a given problem; goals and sets may be shared.)",
  ["histories", "schedules", "fault_sequences"],
  "Every interleaving of the builder calls of several simulated clients on several problems, every set iteration order (hash seeds), malformed facts at any position.",
  "There is no test of the builder, and a test runs under one hash seed and one call order.",
  ["symbolic/problem.py"],
  [("builders and rendering", "symbolic/problem.py: Problem, create_group, pprint_formula")],
  [("object, fact and goal lists", "contents of the problem under construction", "Problem")],
  ["rendered text, parsed back by an independent reader"])

prop("C16", "Normal forms say exactly what the conditions they come from say",
  "The disjunctive normal form of a goal or of a precondition, and the negation of such a form, is satisfied by exactly the states that satisfy the original; that of an action's effects by exactly the states in which everything they add holds, nothing they delete does, and every conditional effect whose condition holds is in place. An empty form means always, an absent one never. With axioms, the same is true of the states in which the axioms hold, and each alternative of the form contains all that follows from it (conditions that contradict axioms or themselves may be refused). The form is about the problem's objects alone, is the same whoever asks, however often, while other threads query the same problem, and after a request that was refused for its arguments or for lack of memory.",
  ["inputs", "schedules", "fault_sequences"],
  "Every formula with every nesting of connectives, quantifiers, equality and type conditions, every set of effects, every state, and every interleaving and allocation failure while forms are made.",
  "The tests compare the forms of a few actions of one domain with literal text, alone.",
  ["src/normal_form.cc", "include/symbolic/normal_form.h"],
  [("normalisation", "src/normal_form.cc: Conjoin, Disjoin, Negate, Simplify, Create"),
   ("axiom closure of terms", "src/normal_form.cc: NormalizeConditions; src/pddl.cc: Pddl::ConsistentState")],
  None, ["conjunctions of the returned forms, printed forms, equality of forms"])

prop("C17", "Facts, objects, calls and states are what their names say, in text and out",
  "A fact, action call, state or partial state written as text names exactly its predicate or action and its arguments in order, and reads back, with any spacing between the arguments, as an equal value of the same problem or of another load of it; text that names an unknown object or action is refused as a whole. Facts and objects are equal, ordered and hashed by their names alone, however they were made (from text, from parts, by reference, copied, moved, signed, of another load), in one strict total order; an object is of its type and of exactly that type's ancestors. The text of a condition (a precondition or the goal, with quantifiers) means what the condition means, in every state and for all arguments. All this holds while other threads do the same with shared values, and after an attempt that ran out of memory, which raises and never yields part of a text or of a value; a device that is full gets the beginning of the text and its stream says so.",
  ["inputs", "schedules", "fault_sequences"],
  "Every fact, object, action call and state of every problem, every way of making them, every interleaving of threads sharing them, with allocation failures at any point and output devices full after any character.",
  "Tests check single literals written and read by one thread with memory and room to spare.",
  ["include/symbolic/proposition.h", "src/proposition.cc", "include/symbolic/object.h", "src/object.cc", "src/state.cc", "src/action.cc"],
  [("identity, order and precomputed hash of facts", "include/symbolic/proposition.h: operator==, operator<, PrecomputeHash"),
   ("printing and tokenising", "src/proposition.cc: operator<<, to_pddl; src/object.cc: TokenizeArguments; src/action.cc: Parse, to_string"),
   ("type ancestry", "src/object.cc: Object::Type::IsSubtype, ListTypes")],
  None, ["text of facts, calls and states", "==, <, hash, contains", "type names and subtypes"])

prop("C18", "The planner program prints every plan there is, and nothing that is not one",
  "Started with a domain and a problem file and a depth, the planner program repeats what it was given and then prints every loop-free plan of at most that many steps exactly once, shortest first, each step with its action and the state it leads to, and at last how many there are, whatever the files contained when it ran before, however they are delivered (in pieces, interrupted) and whatever the clock does. A command line it does not understand, a file that is missing, unreadable or incomplete and a lack of memory end it with an error; what it has printed by then, or on an output that is full, are whole or cut off plans of the right answer, without a count.",
  ["inputs", "fault_sequences", "histories"],
  "Every domain, problem, depth and command line, every sequence of runs on changing files, every file, output, memory and clock fault at any point.",
  "No test runs the program.",
  ["apps/pddl.cc", "src/planning/planner.cc", "include/symbolic/planning/breadth_first_search.h", "src/pddl.cc"],
  [("command line", "apps/pddl.cc: ParseArgs"), ("enumeration and printing", "apps/pddl.cc: main; src/planning/planner.cc: operator<<")],
  None, ["everything the program writes", "how it ends"])

prop("C19", "Python gets the same values as C++, and they last as long as it refers to them",
  "Every function, method, property, conversion, comparison, length, truth value, iteration and rendering of the Python classes gives the value, converted to Python, that the C++ call it stands for gives for the same arguments, and raises an exception exactly when that call throws one (an index that is out of range: IndexError, the end of an iteration: StopIteration); it never crashes the interpreter. A value obtained from another one stays usable and unchanged as long as Python refers to it, however it was obtained and in whatever order Python drops the others. Pickling and unpickling a problem gives the one that loading the same files gives. A call that runs out of memory raises an exception.",
  ["inputs", "histories", "fault_sequences"],
  "Every domain and problem, every sequence of calls through the Python classes of the module with well-formed and ill-formed arguments, every order in which the interpreter drops and collects values, and allocation failures at any point of a call (values obtained from a list of objects that is changed afterwards, and an iterator that failed half way, excepted).",
  "There are no Python tests, and lifetimes depend on when the interpreter lets go of a value.",
  ["src/python/symbolic.cc", "include/symbolic/pddl.h", "include/symbolic/planning/planner.h", "include/symbolic/planning/breadth_first_search.h", "include/symbolic/state.h", "include/symbolic/utils/parameter_generator.h"],
  [("bindings", "src/python/symbolic.cc: PYBIND11_MODULE"),
   ("lifetimes", "src/python/symbolic.cc: CopyValue, MakeIterator, keep_alive and return_value_policy of each definition"),
   ("pickling", "src/python/symbolic.cc: py::pickle of Pddl")],
  [("instances", "which Python value wraps which C++ one, and what it keeps alive", "the interpreter (simulated)")],
  ["the value or exception of every call", "every wrapped value after its origin is gone"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
