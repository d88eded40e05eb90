#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long text stays editable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     observe_at=observe, hook_needed=None)))
T = "The existing tests only exercise CombinationGenerator on one fixed 4x5x3 example; "
prop("C01", "A state is a set of propositions",
 "After any sequence of inserts, erases, bulk inserts, copies, assignments and moves, a state contains exactly the propositions whose last successful operation was an insert: membership, size, emptiness, iteration (each member exactly once, forwards or backwards) and the string forms all agree. Every insert or erase reports true exactly when it changed the contents, whichever construction of the proposition (from a string, from objects, or as a non-owning reference) is used. Copies are independent of their source.",
 ["histories","inputs"], "all operation histories over any finite universe of propositions, any hash distribution of elements, up to several resizes up and down",
 T+"no test touches State, and set behaviour depends on resize points and bucket collisions reached only by particular histories.",
 ["include/symbolic/state.h","include/symbolic/utils/hash_set.h","include/symbolic/utils/unique_vector.h","src/state.cc"],
 [("bucketed hash set with grow/shrink rehashing","include/symbolic/utils/hash_set.h HashSet"),("sorted unique bucket","include/symbolic/utils/unique_vector.h")],
 ["return values of insert/erase/contains/size and the iteration of State"],
 [("contents","set of propositions held","State")])
prop("C02", "Equality, hash and order depend only on contents",
 "Two propositions compare equal exactly when their name and argument names are equal, and two states (or partial states) exactly when they hold the same propositions, however each was built or whatever was inserted and erased in between. Equal values always have equal hashes and are ordered the same way, and the ordering is a strict total order over contents. Objects compare by name.",
 ["histories","inputs"], "all pairs of values and all operation histories that lead to them",
 T+"value comparisons on states are never tested, and history dependence shows only when two different histories reach the same contents.",
 ["include/symbolic/proposition.h","include/symbolic/object.h","include/symbolic/utils/hash_set.h","include/symbolic/state.h","src/proposition.cc","src/state.cc"],
 [("precomputed proposition hash","include/symbolic/proposition.h PrecomputeHash"),("bucket-wise comparison relying on canonical bucket counts","include/symbolic/utils/hash_set.h operator==")],
 ["operator==, operator!=, operator<, std::hash of Proposition, PropositionRef, Object, State, PartialState"])
prop("C03", "A partial state is three-valued knowledge",
 "In a partial state each proposition is known true, known false or unknown; asserting one makes it known true and no longer known false, negating one makes it known false and no longer known true, and nothing else changes. The reported change is 0 if it was already so known, 1 if it was unknown and 2 if the opposite was known. Queries answer true or false for known propositions and signal unknown (naming the proposition) for the others.",
 ["histories","inputs"], "all histories of asserts, negations and queries over any universe of propositions, including copies",
 T+"partial states are never tested; the codes 0/1/2 and the move/reference overloads differ per history.",
 ["include/symbolic/state.h","src/state.cc"],
 [("paired positive and negative sets","src/state.cc PartialState::insert/erase"),("UnknownEvaluation","src/state.cc PartialState::contains/does_not_contain")],
 ["PartialState insert/emplace/erase/contains/does_not_contain/IsConsistent/pos/neg/Stringify"])
prop("C04", "Combination cursors enumerate the product in order",
 "For any list of non-empty option lists, the generator's size is the product of their sizes and its i-th combination is the i-th tuple of their Cartesian product in lexicographic order with the last option varying fastest; looking up a combination gives back its index, and out-of-range or unknown requests are rejected. Forward, backward and random-access cursors, const or not, forward or reverse, always show the combination at their current position however that position was reached, including by stepping outside the range and back, and compare and subtract by position. A generator over no options at all yields the single empty combination, while a default-constructed one is empty.",
 ["inputs","histories"], "all option lists and all sequences of cursor moves",
 "The existing tests walk a single 4x5x3 generator along a few fixed paths; incremental updates of a cursor depend on the pair (old position, new position).",
 ["include/symbolic/utils/combination_generator.h"],
 [("mixed-radix index and incremental update","include/symbolic/utils/combination_generator.h Iterator::UpdateCombination")],
 ["CombinationGenerator iterators, at, operator[], find, size"])
prop("C05", "Argument enumeration covers exactly the well-typed tuples",
 "For an action or predicate, the argument enumeration yields every tuple of known objects whose types are subtypes of the declared parameter types exactly once, in lexicographic order of declaration, nothing if some parameter type has no object, and exactly the empty tuple for no parameters. An object belongs to its declared type, to every ancestor of it and to 'object', and to no other type. Copies, assignments and moves of an enumerator enumerate the same tuples, even after the original is gone.",
 ["inputs","programs","histories"], "all type hierarchies, object sets, parameter lists and copy/move histories",
 T+"typed enumeration over a loaded domain is never tested.",
 ["src/utils/parameter_generator.cc","include/symbolic/utils/parameter_generator.h","src/object.cc","src/pddl.cc"],
 [("object-type map","src/pddl.cc CreateObjectTypeMap"),("owned option lists rebased on copy/move","src/utils/parameter_generator.cc")],
 ["ParameterGenerator, Object::Type::IsSubtype/ListTypes, Pddl::object_map"])
prop("C06", "The state index is a bijection on ground propositions",
 "The index numbers every well-typed ground proposition of the declared predicates with 0..size-1, in declaration order of predicates and argument-enumeration order within one, and the two lookups are inverse to each other. Converting a state to its indexed vector and back, or a vector to a state and back, loses nothing. Positions outside it and propositions it doesn't have are rejected. Results are the same with or without caching, after copying, in any query order, and through the index's cursors.",
 ["inputs","programs","histories"], "all domains, all index positions, all states and all query histories (cache states)",
 T+"no test touches the index; group boundaries (predicates with no or one instance) need particular domains.",
 ["src/state.cc","include/symbolic/state.h"],
 [("cumulative group offsets and bisection","src/state.cc StateIndex::GetProposition"),("lookup caches","src/state.cc StateIndex::GetPropositionIndex")],
 ["StateIndex GetProposition/GetPropositionIndex/GetState/GetIndexedState/iterators"])
prop("C07", "Formulas on complete states follow first-order semantics",
 "Evaluating a precondition or goal on a complete state with given arguments gives its truth value under the usual first-order semantics: atoms by membership, '=' by object identity, type names used as predicates by the type hierarchy, and/or/not, and forall/exists over all objects of the variable's type (including subtypes, and vacuously when there are none). Variables of an inner quantifier shadow outer ones, and constants mean themselves even when they share their name with a variable. The result depends only on the state and arguments, not on evaluations made before.",
 ["programs","inputs","histories"], "all formulas, all states, all argument tuples",
 T+"no formula is ever evaluated by the tests; arbitrary nesting and argument application cannot be sampled by hand.",
 ["src/formula.cc","include/symbolic/formula.h","include/symbolic/action.h"],
 [("compiled closures per connective","src/formula.cc Create*"),("argument application","src/formula.cc Formula::CreateApplicationFunction")],
 ["Action::IsValid(State), Formula::operator()(State), Pddl::IsGoalSatisfied"])
prop("C08", "Formulas on partial states are never guessed",
 "Evaluating a formula on a partial state answers true or false only when every completion of that partial state gives that answer, and answers unknown otherwise or when left-to-right short-circuit evaluation reaches an unknown proposition before the value is settled. Equality and type tests are always known. On a partial state that determines every proposition the answer is the complete-state answer.",
 ["programs","inputs"], "all formulas, all partial states, all argument tuples",
 T+"three-valued evaluation is never tested.",
 ["src/formula.cc","include/symbolic/formula.h","src/state.cc"],
 [("UnknownEvaluation caught at the top","src/formula.cc Formula::operator()"),("specialised negation","src/formula.cc CreateNegation<PartialState>")],
 ["Action::IsValid(PartialState), Formula::operator()(PartialState)"])
prop("C09", "Applying an action changes exactly what its effects say",
 "Applying an action to a state with given arguments performs its effects in place in the order universally quantified, add, delete, conditional (each nested block likewise), over all objects of a quantified variable's type, with each condition evaluated on the state as changed so far; everything else stays as it was. In a domain without axioms, the in-place application reports whether any effect changed the state, the copying application leaves its input untouched, and both give the same state. An effect that contradicts equality or the type hierarchy is refused.",
 ["programs","inputs"], "all effect trees, states and argument tuples",
 T+"no action is ever applied by the tests.",
 ["src/action.cc","include/symbolic/action.h"],
 [("compiled effect closures","src/action.cc CreateEffectsFunction")],
 ["Action::Apply on State"])
prop("C10", "Derived predicates are recomputed from their rules",
 "After derived predicates are evaluated on a state, a derived proposition holds exactly when the body of one of its rules is satisfied (least model for positively recursive rules, with negated derived predicates evaluated first), regardless of which derived propositions the state held before, and all other propositions are unchanged. Evaluation terminates, is idempotent, and happens after every action step.",
 ["programs","inputs","histories"], "all acyclic or positively recursive rule sets, all states including stale ones",
 T+"derived predicates are never tested.",
 ["src/derived_predicate.cc","src/pddl.cc"],
 [("fixpoint iteration","src/derived_predicate.cc DerivedPredicate::Apply")],
 ["Pddl::DerivedState, NextState, DerivedPredicate::Apply"])
prop("C11", "Axioms are enforced whenever a state changes",
 "When an effect adds or deletes a proposition and thereby changes the state, every well-typed instance of an axiom whose context is that very literal has its consequences applied at once, recursively, and an effect that changes nothing triggers nothing. Closing a state under the axioms yields a state that the axiom check accepts, and the axiom check accepts a state exactly when no instance with a true context would change it. An application reports a change exactly if it or a triggered axiom changed something.",
 ["programs","inputs"], "all terminating axiom sets (chains, shared parameters, constants, extra parameters, subtypes), states and actions",
 T+"axioms are never tested; chained axioms share argument buffers so errors need particular nestings.",
 ["src/axiom.cc","src/action.cc","src/pddl.cc"],
 [("axiom context map and argument matching","src/axiom.cc Axiom::CreateApplicationFunction"),("trigger on change","src/action.cc CreateAdd/CreateDel"),("closure","src/pddl.cc ConsistentState")],
 ["Action::Apply, Pddl::ConsistentState, Pddl::IsValidState, Axiom::Apply/IsConsistent"])
prop("C12", "Actions and axioms on partial states keep knowledge consistent",
 "Applying an action to a partial state makes its added propositions known true and its deleted ones known false in effect order, applies conditional effects only when the condition is known true, triggers axioms on every change of knowledge, and reports 0, 1 or 2 for no change, new knowledge only, or some reversed knowledge. Closing a partial state under axioms adds exactly the consequences of known-true contexts and fails if that would reverse known knowledge; the validity check accepts exactly the partial states whose closure reverses nothing.",
 ["programs","inputs"], "all effect trees and terminating axiom sets, all partial states",
 T+"no partial-state application is ever tested.",
 ["src/action.cc","src/axiom.cc","src/pddl.cc","src/state.cc"],
 [("partial-state instantiation of the effect closures","src/action.cc CreateEffectsFunction<PartialState>"),("closure and contradiction detection","src/pddl.cc ConsistentState(PartialState)")],
 ["Action::Apply(PartialState), Pddl::ConsistentState, Pddl::IsValidState"])
prop("C13", "All ways of asking about actions and plans agree",
 "The listed valid actions of a state are exactly the well-typed calls whose precondition holds there, each once, in declaration and argument order, and the listed arguments of one action and the per-call validity check agree with it. Stepping with a call, applying a sequence of calls, and checking a transition triple all use the same successor (effects, axioms, then derived predicates); a plan is accepted exactly when each step is valid in turn from the initial state and the goal holds at the end. Giving states as sets of strings or as state values gives the same answers.",
 ["programs","inputs","histories"], "all domains, states, action calls and plans",
 T+"none of these entry points is tested; they are separate implementations of the same notions.",
 ["src/pddl.cc","include/symbolic/pddl.h","src/action.cc"],
 [("string and value overloads","src/pddl.cc ListValidActions/ListValidArguments/IsValidAction/IsValidTuple/IsValidPlan/ApplyActions/NextState")],
 ["Pddl public queries"])
prop("C14", "Calls and propositions parse and print faithfully",
 "Printing an action call or a proposition and parsing the text back yields the same name and arguments, whatever spacing or separators are used between the arguments. A call naming an unknown action or object, with the wrong number of arguments, or with an argument of the wrong type is rejected with an error and changes nothing.",
 ["inputs"], "all well-formed and malformed call strings over all domains",
 T+"no parsing is tested.",
 ["src/action.cc","src/object.cc","src/proposition.cc","include/symbolic/proposition.h"],
 [("tokenizer","src/object.cc TokenizeArguments"),("arity and type checks","src/action.cc Action::Parse")],
 ["Action::Parse, Proposition(pddl, string), to_string, to_pddl, Pddl::NextState/IsValidAction/IsValidTuple errors"])
prop("C15", "The planner expands exactly the new successor states",
 "A search node's children are, in declaration and argument order, exactly the results of the valid action calls in its state (effects, axioms, derived predicates), leaving out results equal to a state already on the path from the root to that node; each child records its action call and a depth one greater than its parent. The root is the given state closed under the axioms, a node counts as a goal exactly when its state satisfies the goal, and walking the children backwards visits the same children. Nodes compare and hash by state only.",
 ["programs","inputs","histories"], "all domains, states and paths from the root, with either ancestor-cache implementation",
 T+"the planner is never run by the tests.",
 ["src/planning/planner.cc","include/symbolic/planning/planner.h"],
 [("child iterator","src/planning/planner.cc Node::begin/iterator::operator++/--"),("ancestor cache","src/planning/planner.cc NodeImpl::Cache")],
 ["Planner::Node iteration, action, state, depth, bool conversion"])
prop("C16", "Breadth-first search yields every goal path, shortest first",
 "Breadth-first search yields each path from the root to a goal node of length at most the depth limit whose earlier nodes are not goals exactly once and nothing else, in order of non-decreasing length and, among equal lengths, in child order; then it ends. It yields a single-node path if the root is a goal, and nothing when there is no such path. With a time limit it may end early but still yields only such paths, in that order.",
 ["programs","inputs"], "all finite-branching search spaces, goal sets and depth limits, through the planner and through any node type",
 T+"search is never run by the tests.",
 ["include/symbolic/planning/breadth_first_search.h"],
 [("queue of (node, path)","include/symbolic/planning/breadth_first_search.h iterator::operator++")],
 ["BreadthFirstSearch begin/end/++/*"])
prop("C17", "Depth-first and best-first search lose no goal path",
 "Depth-first search and best-first (A*) search each yield every path from the root to a goal node of length at most the depth limit whose earlier nodes are not goals exactly once and nothing else, including the last one, and then end. Depth-first search finishes the subtree of one child before visiting the next; best-first search always continues with a pending path that no other pending path precedes under the given comparison.",
 ["programs","inputs"], "all finite-branching search spaces, goal sets, comparisons and depth limits",
 T+"search is never run by the tests.",
 ["include/symbolic/planning/depth_first_search.h","include/symbolic/planning/a_star.h"],
 [("stack","include/symbolic/planning/depth_first_search.h"),("priority queue","include/symbolic/planning/a_star.h")],
 ["DepthFirstSearch and AStar begin/end/++/*"])
prop("C18", "Normal forms are equivalent to what they normalize",
 "The disjunctive normal form of a precondition or goal (with arguments filled in) is true in exactly the complete states in which the formula is true: no result means it is never true, an empty disjunction means it is always true. The negation of a normal form is true exactly where it is false, and the normal form of an action's effects describes the conjunction of its effects, with 'not condition or consequence' for conditional ones. Conjunctions are free of contradictions and of redundant supersets, and applying axioms closes each one under them.",
 ["programs","inputs"], "all formulas and effects, all arguments",
 T+"normal forms are never computed by the tests.",
 ["src/normal_form.cc","include/symbolic/normal_form.h"],
 [("Conjoin/Disjoin/Negate/Simplify","src/normal_form.cc")],
 ["DisjunctiveFormula::Create, NormalizePreconditions/Postconditions/Conditions/Goal, Negate"])
prop("C19", "A formula's printed form means the formula",
 "Printing a formula gives PDDL text that, read back as a condition over the same parameters and domain, is the same formula: same connectives in the same order, same atoms and terms, and quantifiers with their own variables and types.",
 ["programs"], "all formulas",
 T+"formula printing is never tested.",
 ["src/formula.cc","src/proposition.cc"],
 [("string built along with the closures","src/formula.cc Create* / NamedFormulaFunction")],
 ["Formula::to_string, operator<<"])
prop("C20", "The Python problem builder writes the problem it was given",
 "The text produced by the problem builder, read as PDDL, is a problem with exactly the given name, domain, objects with their types in order, initial propositions (whether given as calls or as PDDL atoms) and goal, and its parentheses balance. The goal combinators nest into the corresponding PDDL formula, and the parsing helpers split a call into exactly its name and arguments.",
 ["inputs","histories"], "all sequences of builder calls and all goal expressions",
 "No test imports the Python package's problem builder.",
 ["symbolic/problem.py"],
 [("token groups and pretty printer","symbolic/problem.py create_group/pprint_formula"),("combinators","symbolic/problem.py _and/_or/_not/_forall/_exists/_when/_P")],
 ["str(Problem), parse_proposition/parse_head/parse_args"])
prop("C21", "Objects can be added and removed at run time",
 "After an object is added or removed, every query behaves as if the problem had been loaded with the resulting set of objects: the object list, typed argument enumerations, listed actions and quantified conditions all include or exclude it. Removing an unknown object changes nothing, and no query after a removal touches freed data.",
 ["histories"], "all sequences of additions, removals and queries",
 T+"object addition and removal are never tested.",
 ["src/pddl.cc","include/symbolic/pddl.h"],
 [("AddObject/RemoveObject","src/pddl.cc")],
 ["Pddl::AddObject, Pddl::RemoveObject, Pddl::objects, Pddl::object_map, ListValidActions"])
prop("C22", "Loading reproduces the domain and problem as written",
 "Loading a domain and problem, from files or with the problem as text, exposes exactly the declared name, constants, objects (constants first, then the problem's objects, in order, with their types), predicates, actions, axioms, derived predicates, goal and initial propositions; the initial state is closed under the axioms when that is requested and left as written otherwise. A domain can be loaded alone, every component refers back to the specification it belongs to, and a domain or problem that cannot be read is refused with an error. Printing the specification lists the same parts, with the same conditions and effects.",
 ["programs","configurations"], "all domains and problems in the supported language, loaded by every route",
 T+"no test loads a domain.",
 ["src/pddl.cc","include/symbolic/pddl.h","src/predicate.cc","src/derived_predicate.cc","src/action.cc"],
 [("constructors","src/pddl.cc Pddl::Pddl"),("GetInitialState/GetObjects/GetActions/GetAxioms","src/pddl.cc")],
 ["Pddl accessors"])
prop("C23", "Queries are pure and loaded problems are independent",
 "No query on a loaded problem (validity, successors, listing, enumeration, indexing, normal forms, searching) changes the answer to any other query, its arguments, the initial state or the goal, so any interleaving of queries gives each the answer it has on a freshly loaded problem. Several problems loaded side by side do not influence one another. Replacing the initial state affects exactly the queries that start from it.",
 ["histories"], "all interleavings of queries on one or several loaded problems",
 T+"purity under interleaving is a property of histories; evaluation uses shared buffers, caches and static parser state.",
 ["src/formula.cc","src/axiom.cc","src/state.cc","src/pddl.cc"],
 [("shared argument buffers","src/formula.cc CreateApplicationFunction"),("index caches","src/state.cc StateIndex")],
 ["all public queries of Pddl"])
prop("C24", "The Python bindings mirror the C++ queries",
 "Each function and property of the Python module returns, for string states, action calls and predicates, positional or named arguments and defaults, the same result as the C++ query of the same name, converted to Python strings, lists and sets, leaves its arguments alone, and turns each C++ error into a Python exception instead of a crash. Enumerators, indices, searches and planner nodes iterate as their C++ cursors do; a problem that is copied or pickled answers as a fresh one of the same files, and everything can be printed.",
 ["inputs","histories","programs"], "all calls of the Python module over all domains and problems",
 "The bindings need pybind11 and VAL, neither of which the tests build.",
 ["src/python/symbolic.cc"],
 [("pybind11 module","src/python/symbolic.cc")],
 ["import symbolic"])
prop("C25", "The command-line planner prints every breadth-first plan",
 "Given a domain and a problem (a path or the text of the problem) and any mixture of the options --depth N (the last one counts, 5 when absent) and --verbose in any order, the planning application prints exactly the plans of at most that depth that breadth-first search yields from the initial state closed under the axioms, in that order, each node with its depth, the action call that led to it and its state, and then their number, and exits successfully. Missing, unknown or incomplete arguments are refused with the usage, and an unreadable depth or input file with an error.",
 ["inputs","programs"], "all command lines over all domains and problems in the supported language",
 T+"no test runs the application; it ties together argument handling, loading, closure, search and printing.",
 ["apps/pddl.cc","src/planning/planner.cc","include/symbolic/planning/breadth_first_search.h","src/pddl.cc"],
 [("main and ParseArgs","apps/pddl.cc"),("operator<< of a node","src/planning/planner.cc"),("breadth-first search","include/symbolic/planning/breadth_first_search.h")],
 ["the pddl application"])
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
