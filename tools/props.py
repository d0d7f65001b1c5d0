#!/usr/bin/env python3
"""The properties and the manifest, in one place: writes properties.jsonl and MANIFEST.json."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, hook=None, spec="", note=""):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, observe=observe, hook=hook, spec=spec, note=note))


prop("V01", "Persistent vector behaves as an immutable sequence",
     "A persistent vector returns, for every history of constructions, pushes, pops, inserts, removals, updates, takes, skips, splits, "
     "concatenations and extensions, exactly the elements in exactly the order that the same history gives on a plain sequence: length, "
     "indexing, slicing, first, last, searches, forward and backward iteration all agree with it. An out-of-range access or edit is refused "
     "as documented and never corrupts anything; mapping and filtering run the given function once on every element, in order.",
     ["histories", "inputs"], "every history of vector operations, every index, every length from inline storage through one leaf to deep trees, "
     "balanced or not",
     "Tests build a few vectors with push_back or from_iter and check single operations; the internal shape (inline, head/tail buffers, tree "
     "depth, size tables) depends on the whole history, so combinations such as concat then split then pop are never reached.",
     ["src/pvec/core.rs", "src/pvec/tree.rs", "src/pvec/node.rs", "src/pvec/iter.rs", "src/pvec/traits.rs"],
     [("adaptive inline storage and promotion", "src/pvec/core.rs"), ("head/tail buffers and RRB tree", "src/pvec/tree.rs RRBTree"),
      ("size tables and index search", "src/pvec/node.rs Node")],
     ["PersistentVector public methods", "Iterator/DoubleEndedIterator", "Index", "Extend/FromIterator"],
     hook="optional: cfg(rustica_verif) shrinks the leaf and branching constants so that deep trees arise from short histories",
     spec="PVec.tla, PVecMC.tla, PVecTrace.tla")

prop("V02", "Persistent vector versions never change",
     "Whatever operations are applied to a version of a persistent vector, that version and every other version obtained before keep their "
     "contents, also when they share structure with the new one, when they are mutated through an in-place interface afterwards, or when other "
     "versions are dropped.",
     ["histories"], "every tree of versions produced by any history of operations on any earlier version",
     "Tests compare one old version after one operation; sharing bugs need two versions that share a node and a later operation on one of them.",
     ["src/pvec/core.rs", "src/pvec/tree.rs", "src/pvec/node.rs"],
     [("Arc sharing with copy on write", "src/pvec/tree.rs, Arc::make_mut / get_mut uses")],
     ["all versions re-read after every operation"], spec="PVec.tla (heap of versions), PVecMC.tla, PVecTrace.tla")

prop("V03", "Persistent vectors compare, order and hash by their elements",
     "Two persistent vectors with the same elements in the same order are equal, compare as equal and hash alike, however each was built; "
     "otherwise they are unequal and their order is the lexicographic order of their elements.",
     ["histories"], "every pair of histories that build vectors, including pairs with equal contents and different internal shape",
     "Tests compare vectors built the same way, so representation-dependent comparison is invisible.",
     ["src/pvec/core.rs", "src/pvec/traits.rs", "src/pvec/tree.rs"],
     [("PartialEq/Ord/Hash implementations", "src/pvec/core.rs, src/pvec/traits.rs")],
     ["==, cmp, partial_cmp, Hash"], spec="PVec.tla, PVecMC.tla, PVecTrace.tla")

prop("M01", "Memoizer computes each key at most once and agrees with the function",
     "Between two clears, a memoizer runs the function at most once per key, however many threads ask for that key at the same time, and every "
     "caller gets the value that run returned for exactly the key it asked for. After a clear the next request for a key computes it anew, and "
     "different keys never share a result.",
     ["schedules", "histories", "inputs"], "every interleaving of concurrent requests and clears over any set of keys",
     "Tests call from one thread or race a few threads without control over the interleaving; a check-then-insert race needs two misses before "
     "either insert.",
     ["src/datatypes/wrapper/memoizer.rs"],
     [("read lock, then write lock with a second look-up, computing under the write lock", "Memoizer::get_or_compute"), ("clear", "Memoizer::clear")],
     ["returned values", "invocations of the function", "Hash calls of an instrumented key used as scheduling points"],
     spec="Memo.tla, MemoMC.tla, MemoTrace.tla")

prop("I01", "IO performs exactly its effects, in order, when run, every time it is run",
     "Building an IO value performs none of its effects; running it performs exactly the effects its composition denotes, in order, and returns "
     "the value a direct sequential execution would return, for every composition of pure, fmap, bind, apply, combine, sequencing, conditionals "
     "and their owned forms. Running it again performs the same effects again.",
     ["programs"], "every IO program built from the combinators, however nested",
     "Tests run two or three combinators; order and repetition of effects under arbitrary nesting is not observed.",
     ["src/datatypes/io.rs"],
     [("IO as a deferred closure", "src/datatypes/io.rs IO::new, bind, fmap, apply, combine, sequence, when")],
     ["effect log", "result of run/try_get"], spec="Eff.tla, EffMC.tla, EffTrace.tla")

prop("I02", "IO failures surface exactly where they occur and recovery runs only then",
     "When an effect of an IO program panics or fails, the fallible runners report that failure after exactly the effects that precede it and "
     "perform none that follow; a recovery handler runs if and only if the program it guards failed, receives that failure, and its result "
     "replaces the failed one. The composable sequencing runs every program and reports every failure in order.",
     ["programs", "fault_sequences"], "every IO program with failures at any set of effects, with recoveries at any nesting",
     "Tests fail one effect in one place.",
     ["src/datatypes/io.rs"],
     [("catch_unwind in the try_ runners and recover", "src/datatypes/io.rs try_get, recover, recover_with, sequence_composable")],
     ["effect log", "Result of try_get and of the composable runners"], spec="Eff.tla, EffMC.tla, EffTrace.tla")

prop("I03", "A one-shot IO runs its effect once and every runner sees its value",
     "An IO created from a one-shot asynchronous or consuming computation performs it exactly once, however many threads run the IO or its clones "
     "and however these runs interleave, and every run returns the value of that single execution.",
     ["schedules"], "every interleaving of concurrent runs of an IO and its clones",
     "Tests run it from one thread.",
     ["src/datatypes/io.rs"],
     [("cached one-shot execution", "src/datatypes/io.rs IO::new_async")],
     ["number of executions", "value or panic of each run"], spec="Once.tla, OnceTrace.tla")

prop("A01", "AsyncM sequences dependent steps, joins independent ones, starts nothing early",
     "An async computation performs none of its effects before it is run. When run, binds and maps perform the effects of the first part before "
     "those of its continuation, apply and zip run both sides exactly once in some interleaving that respects each side's own order and combine "
     "their results in argument order, and the result equals that of the denoted program.",
     ["programs", "schedules"], "every async program built from the combinators and every order in which its pending steps become ready",
     "Tests await immediately ready futures in one order.",
     ["src/datatypes/async_monad.rs"],
     [("boxed future factories and tokio::join!", "src/datatypes/async_monad.rs AsyncM::bind, fmap, apply, zip_with")],
     ["effect log", "result of try_get"], spec="Async.tla, AsyncMC.tla, AsyncTrace.tla")

prop("A02", "AsyncM recovers from failures without running handlers or effects needlessly",
     "A computation built from a fallible future falls back to its default value exactly when the future fails; a recovery handler runs exactly "
     "when the computation it guards panics, and otherwise the value passes through unchanged, with effects before the failure performed and "
     "those after it not.",
     ["programs", "fault_sequences"], "every async program with failures at any set of its steps",
     "Tests fail a single step.",
     ["src/datatypes/async_monad.rs"],
     [("from_result_or_default, recover_with", "src/datatypes/async_monad.rs")],
     ["effect log", "result of try_get"], spec="Async.tla, AsyncMC.tla, AsyncTrace.tla")

prop("S01", "State programs thread the state exactly once, left to right",
     "Running a state program from any initial state returns the value and final state of the denoted imperative program: get, put, modify and gets "
     "read and write the state at the point where they stand, fmap, bind, apply and their owned forms run each part exactly once from left to "
     "right, and run, eval and exec agree.",
     ["programs", "inputs"], "every state program built from the combinators and every initial state",
     "Tests run short programs from one initial state.",
     ["src/datatypes/state.rs"],
     [("state-passing closure", "src/datatypes/state.rs State")],
     ["run_state, eval_state, exec_state"], spec="Eff.tla, EffMC.tla, EffTrace.tla")

prop("S02", "StateT threads state through its base monad and lets the base decide failure",
     "Over every base (identity, option, result, list), a StateT program returns what the denoted stateful program returns in that base: state threads left to "
     "right through binds and maps; apply and combine run both sides from the state they are given, the first side first, and keep the second side's state; "
     "a failing step ends the program with that failure and the following steps do not run; a list base explores every branch with its own state, in order.",
     ["programs", "fault_sequences"], "every StateT program over option, result and list bases, with failures at any step",
     "Tests cover single combinators, mostly with a base that succeeds.",
     ["src/transformers/state_t.rs", "src/transformers/mod.rs"],
     [("StateT over an explicit base bind/map", "src/transformers/state_t.rs")],
     ["run_state, eval_state, exec_state, try_run_state"], spec="Eff.tla, EffMC.tla, EffTrace.tla")

prop("R01", "Reader environments scope lexically",
     "A reader (plain or transformer) reads the environment it is run with; local changes it for exactly the guarded sub-program and nothing after "
     "or around it; maps, binds, applies and combinations give every part the same environment; over a fallible base the first failure in order "
     "ends the program.",
     ["programs", "inputs"], "every reader program with any nesting of local, and every environment",
     "Tests nest local at most once.",
     ["src/datatypes/reader.rs", "src/transformers/reader_t.rs"],
     [("environment-passing closure", "Reader, ReaderT"), ("local", "Reader::local, ReaderT::local")],
     ["run_reader, try_run_reader"], spec="Eff.tla, EffMC.tla, EffTrace.tla")

prop("W01", "Writer accumulates its logs in program order, each exactly once",
     "Running a writer program returns the value of the program and the combination, in program order, of exactly the logs told by its parts, for "
     "every composition of tell, map, bind, apply, sequencing and their owned forms and for every log monoid.",
     ["programs"], "every writer program",
     "Tests combine two logs.",
     ["src/datatypes/writer.rs"],
     [("log combination", "src/datatypes/writer.rs Writer::bind, apply, combine")],
     ["run, value, log"], spec="Eff.tla, EffMC.tla, EffTrace.tla")

prop("C01", "Continuations run in order and an escape discards exactly the rest",
     "A continuation program delivers to its final continuation the value the denoted program computes, calling it as often as the program says; "
     "invoking an escape continuation obtained from call_cc abandons exactly the remainder of the body and resumes after the call_cc with the given "
     "value, at any nesting depth.",
     ["programs"], "every continuation program with escapes invoked, ignored or nested",
     "Tests escape once, at the top.",
     ["src/datatypes/cont.rs", "src/transformers/cont_t.rs"],
     [("continuation-passing closures", "Cont, ContT")],
     ["run with a final continuation"], spec="Cont.tla, ContMC.tla, ContTrace.tla")

prop("D01", "Validated collects every error, in order, and loses none",
     "Combining validations applicatively (apply, lifts, sequencing, collecting, traversals and their owned forms) yields the combined valid value if all "
     "are valid and otherwise exactly the errors of all the invalid ones, in argument order, with multiplicity; binding stops at the first invalid; "
     "error and value mapping, recovery, alternatives and conversions treat exactly the side they name.",
     ["inputs", "histories"], "every combination of valid values and error lists of any length",
     "Tests use two operands with one error each.",
     ["src/datatypes/validated/core.rs", "src/datatypes/validated/traits.rs", "src/datatypes/validated/iter.rs"],
     [("error accumulation", "Validated::apply, lift2, lift3, combine_errors, collect")],
     ["Validated API, Result/Option conversions"], spec="Valid.tla, ValidMC.tla, ValidTrace.tla")

prop("D02", "Functor, applicative and monad operations obey their laws and agree",
     "For every container type (option, result, either, maybe, id, validated, choice, writer-free lists, boxes) mapping, applying, lifting, binding and joining "
     "satisfy the functor, applicative and monad laws that type supports, give the result its definition denotes, and the borrowed, owned and "
     "derived forms of each operation agree with each other.",
     ["inputs", "programs"], "every container value, every function and every chain of operations",
     "Unit tests check each law on one value and one form (borrowed or owned).",
     ["src/traits/functor.rs", "src/traits/applicative.rs", "src/traits/monad.rs", "src/traits/pure.rs", "src/datatypes/either.rs", "src/datatypes/maybe.rs",
      "src/datatypes/id.rs", "src/datatypes/choice.rs", "src/datatypes/validated/traits.rs"],
     [("trait implementations", "src/traits/*.rs, src/datatypes/*.rs")],
     ["trait methods and extension methods"], spec="Data.tla, DataMC.tla, DataTrace.tla")

prop("D03", "Choice keeps its primary and alternatives through every operation",
     "A choice is a primary value followed by its alternatives, in order; adding, removing, filtering, mapping, flattening, swapping, iterating, folding, "
     "combining and converting treat that list as documented, never duplicate, drop or reorder other elements, and refuse what is undefined on an empty "
     "choice; a function given to one of them is run on each element it is about once, in order.",
     ["histories", "inputs"], "every choice and every history of operations on it",
     "Tests use a choice with two alternatives and one operation.",
     ["src/datatypes/choice.rs"],
     [("SmallVec of values with the primary first", "src/datatypes/choice.rs Choice")],
     ["Choice API"], spec="Choice.tla, ChoiceMC.tla, ChoiceTrace.tla")

prop("D04", "Alternatives, guards and error handlers pick the documented side",
     "For every type with alternatives, monad-plus or error handling, a first success wins over later operands, an empty or failed operand yields to the other, "
     "empty is its identity where the type has one, guard keeps or empties according to its condition, and catching an error runs the handler exactly on failure.",
     ["inputs"], "every combination of succeeding and failing operands",
     "Tests check one operand pattern per type.",
     ["src/traits/alternative.rs", "src/traits/monad_plus.rs", "src/traits/monad_error.rs", "src/datatypes/either.rs", "src/datatypes/maybe.rs", "src/datatypes/choice.rs",
      "src/datatypes/validated/traits.rs"],
     [("Alternative, MonadPlus, MonadError implementations", "src/traits, src/datatypes")],
     ["alt, empty_alt, guard, many, mplus, mzero, throw, catch"], spec="Data.tla, DataMC.tla, DataTrace.tla")

prop("D05", "Semigroup and monoid operations are associative, with identity, and folds agree",
     "For every type with a semigroup, combining is associative and does what the type documents; for every monoid the empty value is an identity on both sides (for minimum and maximum, of the values on the documented side of the payload's default); "
     "derived operations (repetition, folding many values, powers, borrowed and owned forms) equal the corresponding repeated combine.",
     ["inputs"], "every triple of values of every instance and every list length or repetition count",
     "Tests check one triple per type and small counts, where doubling and counting coincide.",
     ["src/traits/semigroup.rs", "src/traits/monoid.rs", "src/datatypes/wrapper"],
     [("combine, empty and derived operations", "src/traits/semigroup.rs, src/traits/monoid.rs")],
     ["Semigroup, SemigroupExt, Monoid, MonoidExt and the free functions"], spec="Mono.tla, MonoMC.tla, MonoTrace.tla")

prop("D06", "Value wrappers combine as sum, product, minimum, maximum, first and last",
     "Sum, product, min, max, first and last wrappers combine exactly as their names say, keep the payload unchanged through construction, mapping, folding, "
     "comparison, conversion and display, and have the documented identity.",
     ["inputs"], "every list of payloads, including missing ones for first and last",
     "Tests combine two values.",
     ["src/datatypes/wrapper/sum.rs", "src/datatypes/wrapper/product.rs", "src/datatypes/wrapper/min.rs", "src/datatypes/wrapper/max.rs",
      "src/datatypes/wrapper/first.rs", "src/datatypes/wrapper/last.rs"],
     [("Semigroup/Monoid/Functor/Foldable implementations", "src/datatypes/wrapper")],
     ["combine, empty, fmap, folds, unwrap methods"], spec="Mono.tla, MonoMC.tla, MonoTrace.tla")

prop("D07", "Predicates form the Boolean algebra of the sets they describe",
     "Union, intersection, difference, negation, the empty predicate and their operator and monoid forms hold of a value exactly when the "
     "corresponding Boolean combination of the operands does, at any nesting; an operand to the right is asked only where those to its left leave the answer open.",
     ["inputs", "programs"], "every predicate expression and every argument",
     "Tests check one operator on a few arguments.",
     ["src/datatypes/wrapper/predicate.rs"],
     [("closures over both operands", "src/datatypes/wrapper/predicate.rs")],
     ["Predicate::contains"], spec="Pred.tla, PredMC.tla, PredTrace.tla")

prop("D08", "Folds visit every element once in order and their derived queries agree",
     "Left and right folds of every foldable visit exactly its elements, in order and in reverse order of association; fold-map, length, emptiness, membership, "
     "search, all, any, sums, extremes and conversions to a list agree with the list of those elements.",
     ["inputs"], "every foldable value",
     "Tests fold short lists of integers with commutative functions.",
     ["src/traits/foldable.rs", "src/datatypes/choice.rs", "src/datatypes/either.rs", "src/datatypes/maybe.rs", "src/datatypes/validated/traits.rs", "src/datatypes/wrapper"],
     [("fold_left, fold_right and FoldableExt", "src/traits/foldable.rs")],
     ["Foldable, FoldableExt"], spec="Data.tla, DataMC.tla, DataTrace.tla")

prop("D09", "Conversions between containers preserve content and round-trip",
     "Converting between option, result, either, maybe, validated, choice, id and lists keeps the contained values or errors as documented, and converting "
     "there and back returns the original wherever the target can represent it. Serializing any serializable value and reading it back gives an equal value.",
     ["inputs"], "every value of every convertible pair of types",
     "Tests convert one value one way.",
     ["src/datatypes/either.rs", "src/datatypes/maybe.rs", "src/datatypes/validated/core.rs", "src/datatypes/choice.rs", "src/error/convert.rs"],
     [("From/Into implementations and conversion methods", "src/datatypes, src/error/convert.rs")],
     ["conversion functions"], spec="Conv.tla, ConvMC.tla, ConvTrace.tla")

prop("D10", "Traversals and pipelines stop at the first failure and keep order",
     "Sequencing, traversing and piping helpers return all results in order when every step succeeds, otherwise the first failure in order (every failure for the "
     "validating forms) and run no step after it; filtering, zipping, folding and composing helpers equal their list definitions.",
     ["inputs", "fault_sequences"], "every input list and every set of failing positions",
     "Tests fail at one position of a short list.",
     ["src/utils/error_utils.rs", "src/utils/hkt_utils.rs", "src/utils/categorical_utils.rs", "src/utils/transform_utils.rs", "src/utils/functions.rs", "src/traits/traversable.rs"],
     [("short-circuiting loops", "src/utils")],
     ["utility functions", "log of step invocations"], spec="Utils.tla, UtilsMC.tla, UtilsTrace.tla")

prop("D11", "Provided operations are right for every type that implements the required ones",
     "For any type whose author implements only the required operations of a type class, lawfully, every operation the library provides on top of them (replacing, "
     "voiding, mapping with a fallback, sequencing left and right, flat-mapping, trying, building from plain values, fold queries, contravariant mapping by a constant or "
     "a conversion, owned transformations and evaluations, repeated combination) gives what its definition denotes in terms of the required ones, as it does for the "
     "library's own types.",
     ["inputs"], "every lawful implementation of the required operations, every argument",
     "Tests use the library's own types, which override much of what is provided; the provided bodies are hardly run.",
     ["src/traits/functor.rs", "src/traits/applicative.rs", "src/traits/monad.rs", "src/traits/foldable.rs", "src/traits/pure.rs", "src/traits/identity.rs",
      "src/traits/semigroup.rs", "src/traits/monoid.rs", "src/traits/contravariant_functor.rs", "src/traits/natural_transformation.rs", "src/traits/evaluate.rs"],
     [("provided trait methods and blanket extension traits", "src/traits")],
     ["provided methods on a caller's own list, result, monoid, evaluable and contravariant types"],
     spec="Data.tla, DataMC.tla, DataTrace.tla, Mono.tla, Eval.tla",
     note="Traversable (its signature leaves B without Clone, so no lawful implementation can be written), Representable and Profunctor (no provided operation) have no code to check.")

prop("E01", "Composable errors keep the core error and every context, innermost first",
     "Adding contexts, codes and mapping to a composable error never loses or reorders a context or changes the core error; the context list, its length, the error "
     "chain text and the conversions show them in the documented order, whichever of the single, lazy, bulk or pipeline forms added them.",
     ["histories"], "every history of context additions and error transformations",
     "Tests add one or two contexts in one form.",
     ["src/error/core.rs", "src/error/context.rs", "src/error/types.rs", "src/error/convert.rs", "src/error/macros.rs"],
     [("context stack", "src/error/types.rs ComposableError")],
     ["context, error_chain, core_error, error_code, Display"], spec="Err.tla, ErrMC.tla, ErrTrace.tla")

prop("E02", "Error pipelines carry the result through each stage exactly as a result would",
     "A pipeline's map, chaining, error mapping, recovery and context stages act on success and failure as the corresponding operations on a plain result would, "
     "run their closures only on the side they name, and finishing wraps a failure with exactly the contexts that were added to it.",
     ["histories", "fault_sequences"], "every sequence of pipeline stages with successes and failures at any stage",
     "Tests run pipelines of two or three stages.",
     ["src/error/context.rs", "src/error/convert.rs"],
     [("ErrorPipeline stages", "src/error/context.rs ErrorPipeline")],
     ["finish, closure invocations"], spec="Err.tla, ErrMC.tla, ErrTrace.tla")

prop("O01", "Lenses and prisms read back what was written and touch nothing else",
     "For well-behaved getters and setters, getting after setting returns the value set, setting what was there changes nothing, a second set wins, and the rest of "
     "the structure is untouched; a prism's preview, review, modify and set act only on its own case; composed and mapped optics keep these laws.",
     ["inputs", "histories"], "every structure, every focus value and every composition of optics",
     "Tests check each law on one structure.",
     ["src/datatypes/lens.rs", "src/datatypes/prism.rs"],
     [("getter/setter closures and skip-if-equal", "Lens::set, Lens::modify, Prism::modify")],
     ["Lens and Prism API"], spec="Optics.tla, OpticsMC.tla, OpticsTrace.tla")

prop("O02", "Isomorphisms invert, compose and lift into optics faithfully",
     "Forward then backward and backward then forward through an isomorphism, its inverse or any composition give back the original; optics built from "
     "isomorphisms get, set, modify, preview and review as the isomorphism dictates, and law checkers report exactly whether the laws hold for the given values.",
     ["inputs", "programs"], "every value and every composition of isomorphisms",
     "Tests use one isomorphism on a few values.",
     ["src/traits/iso.rs", "src/datatypes/iso_lens.rs", "src/datatypes/iso_prism.rs"],
     [("iso composition and inversion", "src/traits/iso.rs")],
     ["Iso, IsoExt, IsoLens, IsoPrism"], spec="Iso.tla, IsoMC.tla, IsoTrace.tla")

prop("F01", "Function composition is associative, has identities and respects products",
     "Composing, piping, sequencing and the arrow combinators (first, second, split, both, combine, conditional) applied to any functions give the functions their "
     "definitions denote, so that composition is associative with identity, products act componentwise, and each underlying function is called once per use in order.",
     ["programs", "inputs"], "every expression over the combinators and every argument",
     "Tests compose two arithmetic functions.",
     ["src/category/function_category.rs", "src/traits/category.rs", "src/traits/arrow.rs", "src/utils/categorical_utils.rs", "src/utils/functions.rs"],
     [("FunctionCategory and the compose/pipe macros", "src/category/function_category.rs")],
     ["application of the composed function"], spec="Arrow.tla, ArrowMC.tla, ArrowTrace.tla")

prop("F02", "Thunks and evaluators yield their value, and comonad laws hold",
     "Evaluating a thunk, an IO or any evaluable (borrowed, owned, mapped, bound, combined or filtered) yields the value its definition denotes, a thunk's function "
     "runs exactly when it is evaluated and once each time, and extract, duplicate and extend of the identity comonad satisfy the comonad laws.",
     ["programs", "histories"], "every chain of evaluation combinators and every number of evaluations",
     "Tests evaluate once.",
     ["src/traits/evaluate.rs", "src/datatypes/wrapper/thunk.rs", "src/traits/comonad.rs", "src/datatypes/id.rs"],
     [("Evaluate, EvaluateExt, Comonad implementations", "src/traits/evaluate.rs, src/traits/comonad.rs")],
     ["evaluate, extract, extend, duplicate"], spec="Eval.tla, EvalMC.tla, EvalTrace.tla")

def main():
    from vk.checks import CHECKS
    from vk.meta import META
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                            "observe_at": p["observe"], "hook_needed": p["hook"]}}) + "\n")
    checks, na = [], []
    for p in P:
        i = p["id"]
        if i in CHECKS:
            m = META.get(i, {})
            checks.append({"property": i, "quick_cmd": f"./check {i}", "thorough_cmd": f"./check {i} --thorough",
                           "evidence_file": f"evidence/{i}.json",
                           "technique": m.get("technique", "TLA+ specification checked by TLC; TLC-generated behaviours replayed on the code, recorded behaviours validated by TLC") + f" ({p['spec']})",
                           "level": "model_checking",
                           "level_note": m.get("note", "Exhaustive on the specification and in lock step with the code within the bounds stated in DESIGN.md; sampled beyond. Trusts TLC, the harness's encoding of calls and observations.")})
        else:
            na.append({"property": i, "reason": "check under construction"})
    full = os.popen("git -C /repo log --format=%H --grep='^hook:'").read().split()
    json.dump({"version": 1,
               "setup_cmd": "./setup.sh",
               "hooks": {"guard": "rustica_verif", "enable": "RUSTFLAGS=\"--cfg rustica_verif\" cargo build (done by ./check itself for the checks that use it; the others build without it)",
                         "source_commits": full},
               "checks": checks, "not_applicable": na,
               "notes": "One entry point: ./check <id> [--thorough]. See DESIGN.md."},
              open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
    print(len(P), "properties,", len(checks), "checks")


main()
