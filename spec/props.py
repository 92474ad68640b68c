"""The properties: statements, anchors, and which functions carry each contract."""
from spec import rules as R

TECHNIQUE = 'path-sensitive abstract interpretation of rustc MIR against per-function effect/outcome contracts, plus explicit dataflow rules'
NOTE = ('Static, on the whole MIR of the crate: every path class of each anchored function is enumerated in an abstract domain and '
        'each effect and outcome must be licensed by its contract. Trusts rustc MIR and the modelled std contracts; loops are '
        'abstracted to the set of their iteration classes; functions outside the anchor list are opaque.')
PROPS = {}
NOT_APPLICABLE = {}

SMALL = 'The tests run a fixed set of programs; this quantifies over every %s, and a missing case only shows on inputs the tests do not contain.'


def P(pid, title, statement, over, quant, why, files, mech, fns, rules=(), **kw):
    assert len(title) <= 80, title
    assert pid not in PROPS
    PROPS[pid] = dict(title=title, statement=statement, over=over, quant=quant, why=why, files=files,
                      mechanism=[{'name': a, 'where': b} for a, b in mech], fns=fns, rules=list(rules), **kw)


def NA(pid, title, statement, over, quant, why, files, reason):
    NOT_APPLICABLE[pid] = dict(title=title, statement=statement, over=over, quant=quant, why=why, files=files, mechanism=[], na=reason)


# ------------------------------------------------------------------ kernel: checking

P('K01', 'The certificate checker accepts a clause only when it is already entailed',
  'Whatever facts have been given to the certificate checker, a clause is reported as proved only if it follows directly from them: a contradiction is present, the congruence closure proves it, it is an instance of a known clause, or one of the fixed elementary inference steps derives it. A clause with several literals is entered in the knowledge base only as exactly what it says, under the reason it was given.',
  ['inputs', 'programs'], 'every sequence of inserted clauses and every queried clause',
  SMALL % 'clause and fact set', ['src/kernel/checker.rs'],
  [('Checker', 'src/kernel/checker.rs')],
  ['Checker::check_clause', 'Checker::check_clause_direct', 'Checker::check_clause_direct_for_trace', 'Checker::insert_clause_internal', 'Checker::insert_clause',
   'Checker::insert_clause_for_trace', 'Checker::insert_clause_shallow_for_trace', 'Checker::insert_normalized_clause', 'Checker::check_clause_via_concrete_simplification',
   'Checker::simplify_variable_clause_with_concrete_facts', 'Checker::simplify_variable_clause_with_concrete_facts_and_dependencies', 'Checker::has_contradiction',
   'Checker::insert_goal', 'Checker::insert_lowered_goal', 'Checker::exact_clause_id', 'Checker::inserted_clause', 'Checker::inserted_len', 'Checker::new',
   'Checker::canonical_clause_for_trace'])

P('K02', 'Derived steps of the checker are sound one-step consequences',
  'A boolean reduction, equality resolution, equality factoring, injectivity, extensionality, specialization or contradiction step is accepted only if the claimed result is one of the consequences that this very rule produces from the named sources. A consequence that drops a quantified variable is used only if the variable ranges over a type that is known to have an element.',
  ['inputs', 'programs'], 'every source clause, result clause and rule name',
  SMALL % 'clause shape', ['src/kernel/checker.rs', 'src/kernel/inference.rs'],
  [('Checker::*_for_trace', 'src/kernel/checker.rs')],
  ['Checker::checker_boolean_reductions', 'Checker::checker_boolean_reduction_sets', 'Checker::insert_boolean_reductions_with_reason', 'Checker::reprocess_boolean_reductions',
   'Checker::term_symbols_available', 'Checker::clause_symbols_available', 'Checker::boolean_reduction_proves_for_trace', 'Checker::boolean_reduction_closes_for_trace',
   'Checker::trace_candidate_matches', 'Checker::boolean_reduction_set_contains_for_trace', 'Checker::boolean_reduction_detail_for_trace', 'Checker::apply_boolean_reduction_for_trace',
   'Checker::equality_resolution_results_for_trace', 'Checker::equality_resolution_derives_for_trace', 'Checker::equality_factoring_derives_for_trace', 'Checker::injectivity_derives_for_trace',
   'Checker::extensionality_derives_for_trace', 'Checker::equality_graph_derives_for_trace', 'Checker::clause_specializes_for_trace', 'Checker::literals_match_with_var_map',
   'Checker::clause_matches_with_var_map', 'checker::Checker::clause_matches_with_var_map::match_from', 'Checker::clauses_contradict_for_trace', 'Checker::check_clause_via_boolean_reductions',
   'Checker::boolean_reduction_witness', 'Checker::boolean_reduction_witness_inner', 'Checker::check_clause_via_boolean_reductions_inner', 'Checker::contradiction_dependencies_for_trace',
   'Checker::equality_graph_dependencies_for_clause_for_trace', 'Checker::set_eager_boolean_reductions', 'Checker::enable_eager_boolean_reductions',
   'StepReason::dependency', 'StepReason::dependencies', 'Checker::dependencies_for_reason', 'file:src/kernel/inference.rs'])

P('K03', 'Quantified variables disappear only over inhabited types',
  'A clause whose normal form no longer mentions one of its variables, or an existential turned into a witness, is used in a proof only when the type of that variable is constructively known to have an element. Evidence of inhabitation comes only from facts that really exhibit an element.',
  ['inputs', 'programs'], 'every clause, type and set of known facts',
  SMALL % 'type and clause', ['src/kernel/checker.rs', 'src/kernel/kernel_context.rs', 'src/kernel/symbol_table.rs'],
  [('eliminated_vars_inhabited', 'src/kernel/checker.rs'), ('provably_inhabited', 'src/kernel/kernel_context.rs')],
  ['Checker::inhabited_type_key', 'Checker::inhabited_type_from_clause', 'Checker::mark_inhabited_from_clause', 'Checker::negated_exists_true_type_from_clause', 'Checker::has_negated_exists_true_for',
   'Checker::provably_inhabited_for_elimination', 'Checker::eliminated_vars_inhabited', 'Checker::normalize_checker_trace', 'file:src/kernel/kernel_context.rs'])

P('K04', 'Every line of a certificate is justified before it is used',
  'When a certificate is checked, each of its steps is accepted only if the rule it names justifies it from facts of the environment or from earlier accepted steps, and nothing else ever enters the set of accepted clauses. The arguments a claim gives to a general clause must have the types and typeclass instances that clause asks for. The certificate as a whole is accepted only if the accepted clauses contain a genuine contradiction with the negated goal.',
  ['inputs', 'programs'], 'every certificate text, valid or forged, against every goal',
  'Tests replay certificates that the prover itself wrote; a forged or corrupted certificate for a false goal is outside what they sample.', ['src/certificate_trace.rs'],
  [('TraceChecker', 'src/certificate_trace.rs')],
  ['TraceChecker::new', 'TraceChecker::into_checked', 'TraceChecker::check', 'TraceChecker::check_step', 'TraceChecker::check_witness_step', 'TraceChecker::parse_required_claim',
   'TraceChecker::parse_required_claim_with_generic', 'TraceChecker::accept_clause', 'TraceChecker::insert_trace_clause', 'TraceChecker::accept_clause_with_aliases', 'TraceChecker::record_clause',
   'ProofTrace::check_with_usage', 'ProofTrace::check_usage_only', 'ProofTrace::without_unreferenced_auxiliary_steps', 'certificate_trace::is_false', 'StepClauses::new', 'StepClauses::all',
   'TraceWriter::claim_aliases', 'TraceRule::is_claim', 'certificate_trace::is_serialized_generic_artifact', 'certificate_trace::is_synthetic_generic_wrapper', 'Certificate::check_with_usage', 'Certificate::check_usage_only'],
  rules=[R.trace_rules])

P('K05', 'Certificate code lines are confined to claims and fresh witnesses',
  'A code line of a certificate can only state a claim or introduce a witness; a witness name must be new, its type and condition must be those of an existential that is already established, and no line may carry its own proof obligations or redefine an existing symbol. Any other text is rejected with an error.',
  ['inputs', 'programs'], 'every code line text in every environment',
  'The tests contain only well-formed lines written by the program itself.', ['src/certificate.rs', 'src/kernel/certificate_step.rs'],
  [('parse_code_line', 'src/certificate.rs')],
  ['Certificate::parse_code_line', 'Certificate::reject_certificate_local_obligations', 'Certificate::type_var_map_for_params', 'Certificate::claim_from_clause_value', 'Certificate::local_certificate_proposition',
   'Certificate::claim_for_proposition', 'Certificate::exact_witness_clauses_for_proposition', 'Certificate::maybe_specialized_clause_for_proposition', 'Certificate::condition_recreates_witness_justification',
   'Certificate::rename_certificate_witness_symbol', 'Certificate::existing_synthetic_witness_symbol', 'Certificate::register_certificate_local_constant', 'Certificate::parse_variable_satisfy_step',
   'Certificate::parse_function_satisfy_step', 'Certificate::deserialize_claim_with_args', 'file:src/kernel/certificate_step.rs'])

P('K06', 'Certificate claims survive serialization unchanged',
  'Writing a claim (a general clause together with its variable assignment) and reading the text back yields the same normalized clause and the same assignment, and text that does not describe such a claim is refused rather than read as something else.',
  ['inputs', 'programs'], 'every clause and assignment',
  SMALL % 'clause and assignment', ['src/claim_codec.rs'], [('claim codec', 'src/claim_codec.rs')],
  ['file:src/claim_codec.rs', 'Certificate::serialize_claim_with_args', 'Certificate::serialize_claim_step', 'Certificate::claim_clause'])

P('K07', 'Certificate files are loaded and saved without losing or inventing entries',
  'Saving a list of certificates and loading the file gives the same list in the same order; a line that is not a valid certificate makes loading fail instead of being skipped. While certificates are matched to goals each one is consumed at most once, and a certificate that was not consumed is still reported as unused.',
  ['inputs', 'histories'], 'every list of certificates and every order of lookups',
  SMALL % 'file content', ['src/certificate.rs'], [('CertificateStore, CertificateWorklist', 'src/certificate.rs')],
  ['CertificateStore::load', 'CertificateStore::save', 'CertificateStore::append', 'CertificateWorklist::new', 'CertificateWorklist::get_indexes', 'CertificateWorklist::get_cert', 'CertificateWorklist::remove',
   'CertificateWorklist::unused', 'CertificateWorklist::iter_unused', 'Certificate::trim_to_consumed_prefix', 'Certificate::proof_step_count', 'certificate::Certificate::new', 'certificate::Certificate::from_prepared_steps',
   'certificate::Certificate::from_concrete_steps_with_witnesses'])

P('K08', 'Proofs found by the prover are written as certificates that replay',
  'The certificate writer emits a step only when the same rule, applied to the steps already written, is known to justify it, and a proof that cannot be expressed this way produces an error rather than an incomplete certificate. Premises are always earlier steps of the same certificate.',
  ['programs', 'inputs'], 'every proof the search can produce',
  'The tests cover a few hundred small proofs; whether some reconstructed step is emitted without its support depends on shapes that only large proofs have.', ['src/certificate_trace.rs'],
  [('TraceWriter', 'src/certificate_trace.rs')],
  ['ProofTrace::from_certificate_steps_checked', 'TraceStep::claim', 'TraceStep::with_rule', 'TraceStep::with_br_detail'] +
  ['TraceWriter::' + x for x in '''new checkpoint restore write write_step apply_step_to_derivation_checker deferred_claim_context emit_claim_step attempt_claim_strategy
   emit_claim_via_reduction_witness emit_witness_members emit_clause_via_reduction_witness refute_grounding_extras emit_reduction_witness eager_boolean_reduction_intro_replays
   is_single_positive_forall_clause emit_boolean_reduction_claim_step insert_step_clauses claim_aliases_for_code emit_witness_step emit_inserted_clause emit_clause
   emit_multi_premise_eq_step split_positive_and_clause emit_positive_and_intro_support emit_positive_and_intro_support_inner emit_supporting_component_clause
   emit_component_from_base_conjunction emit_component_from_base_equality emit_base_fact_clause find_boolean_reduction_path find_boolean_reduction_path_inner emit_unit_resolution_support
   extra_source_literals emit_literal_complement emit_variable_simplification_support emit_variable_simplification_support_inner emit_variable_simplification_support_from_dependencies
   emit_eager_boolean_reduction_path local_eager_cycle_error emit_local_inserted_clause eq_step_replays sort_eq_premises_for_replay source_clause_eq_replays serialize_clause_step
   parse_serialized_clause find_boolean_reduction_contradiction_path emit_boolean_reduction_contradiction_from_step emit_boolean_reduction_closure_contradiction_from_step find_contradicting_step
   emit_contra_step emit_derivation_contradiction_trace emit_boolean_reduction_contradiction push_step push_step_with_br_detail boolean_reduction_detail_for_step push_br_step push_candidate_step'''.split()])

P('K09', 'Witnesses are declared before use and never captured',
  'In a generated certificate every named witness is declared by a step before the first step that mentions it, with a name no other symbol in scope has, and each step is printed with exactly the type parameters it needs. Reordering or renaming steps never changes what they claim.',
  ['programs'], 'every proof with existential witnesses',
  SMALL % 'set of witnesses and steps', ['src/certificate.rs'], [('WitnessEmitter', 'src/certificate.rs')],
  ['WitnessEmitter::' + x for x in '''step_result_claim new emit declaration_index step_needs_future_witness witness_ready_by schedule_step emit_ready_step flush_buffered prepare_witness ensure_declared
   emit_witness emit_witness_step emit_nested_positive_exists_witness emitted_witness_name_order next_compact_witness_name rename_witness_symbol compact_witness_names
   claim_specialization_source_symbol witness_module_id push_output_step emit_anchors_for_step specialized_positive_exists_step find_witness_placement'''.split()] +
  ['certificate::Certificate::' + x for x in '''references_value_local claim_requires_specialized_serialization push_type_param collect_type_params collect_value_type_params serialize_closed_generic_claim_step
   fresh_closed_generic_type_params rename_generic_type_params_in_type rename_type_param_name rename_generic_type_params_in_value should_abstract_closed_certificate_trace_constant
   abstract_closed_value_args_for_trace serialize_closed_clause_for_trace infer_closed_claim_type_arg prepared_steps_from_concrete_steps_with_witnesses reorder_late_claim_supports reorder_claim_block
   source_bound_witnesses emit_named_witnesses_with_context witness_entry_to_step collect_claim_witness_symbols serialize_prepared_certificate_step serialize_certificate_step local_type_param_infos_for_trace
   serialize_clause_for_trace'''.split()] + ['certificate::Certificate::abstract_closed_value_args_for_trace::push_value_arg', 'certificate::Certificate::abstract_closed_value_args_for_trace::abstract_value'])

P('K10', 'Congruence closure equates terms only when the given equations force it',
  'Two terms are reported equal only if their equality follows from the inserted equations by reflexivity, symmetry, transitivity and congruence, and a contradiction is reported only if an inserted inequality relates two such terms or a clause is falsified. The reported set of source steps is enough to derive the result.',
  ['inputs', 'histories'], 'every sequence of inserted equations, inequalities and clauses',
  SMALL % 'insertion history', ['src/kernel/equality_graph.rs'], [('EqualityGraph', 'src/kernel/equality_graph.rs')],
  ['file:src/kernel/equality_graph.rs'])

P('K11', 'Unification yields only well-typed, capture-free, acyclic substitutions',
  'If two terms are reported unifiable, applying the computed substitution to both gives the same term; a variable is bound only to a term of its own type that satisfies its typeclass constraint and does not contain the variable itself. One-way matching never binds a variable of the instance side.',
  ['inputs'], 'every pair of terms and local contexts',
  SMALL % 'pair of terms', ['src/kernel/unifier.rs'], [('Unifier', 'src/kernel/unifier.rs')],
  ['file:src/kernel/unifier.rs'])

P('K12', 'Substitutions are applied exactly and matches are consistent',
  'Matching a general term against a special one succeeds only with a single consistent, type-respecting assignment that turns the first into the second. Composing assignments or specializing a clause replaces every mapped variable by its term, keeps unmapped ones, and gives each remaining variable the right type.',
  ['inputs'], 'every term, clause and assignment',
  SMALL % 'assignment', ['src/kernel/variable_map.rs'], [('VariableMap', 'src/kernel/variable_map.rs')],
  ['file:src/kernel/variable_map.rs'])

P('K13', 'Clause normalization keeps the meaning of a clause',
  'Putting a clause in normal form only reorders literals and sides, removes duplicates and impossible literals, recognizes tautologies, and renumbers variables consistently; it never drops a satisfiable literal or merges two variables. Each elementary consequence computed from a clause (boolean reduction, injectivity, extensionality) follows from that clause.',
  ['inputs'], 'every clause',
  SMALL % 'clause', ['src/kernel/clause.rs', 'src/kernel/literal.rs', 'src/kernel/clause_set.rs'], [('Clause', 'src/kernel/clause.rs')],
  ['file:src/kernel/clause.rs', 'file:src/kernel/literal.rs', 'file:src/kernel/clause_set.rs'])

P('K14', 'Lowering to clauses preserves meaning',
  'Turning a formula into clauses gives an equivalent set (up to named witnesses): connectives, negation, quantifiers and conditionals are split by their classical laws with the right polarity, and each bound variable keeps its identity and type.',
  ['inputs', 'programs'], 'every formula',
  SMALL % 'formula', ['src/kernel/clausifier.rs'], [('Clausifier', 'src/kernel/clausifier.rs')],
  ['file:src/kernel/clausifier.rs'])

P('K15', 'Term operations respect binders, types and normal forms',
  'Substitution, shifting, abstraction and application of kernel terms never capture a variable or change which binder an index refers to; term normalization is deterministic and only applies beta, eta, double negation and symmetric-equality steps. The term order is a total, consistent order on closed terms.',
  ['inputs'], 'every kernel term',
  SMALL % 'term', ['src/kernel/term.rs', 'src/kernel/term_normalization.rs', 'src/kernel/atom.rs'], [('Term', 'src/kernel/term.rs')],
  ['file:src/kernel/term.rs', 'file:src/kernel/term_normalization.rs', 'file:src/kernel/atom.rs', 'file:src/kernel/extended_term.rs', 'file:src/kernel/local_context.rs', 'file:src/kernel/types.rs'])

P('K16', 'Term indexes neither miss matches nor return false ones',
  'Looking a term or clause up in the discrimination tree, the fingerprint index or the generalization set returns every stored pattern that can match it and only patterns that do, with the assignment that makes them equal, independent of insertion order.',
  ['inputs', 'histories'], 'every stored set and every query',
  SMALL % 'index content and query', ['src/kernel/pdt.rs', 'src/kernel/fingerprint.rs', 'src/kernel/generalization_set.rs'], [('Pdt', 'src/kernel/pdt.rs')],
  ['file:src/kernel/pdt.rs', 'file:src/kernel/fingerprint.rs', 'file:src/kernel/generalization_set.rs'])

P('K17', 'Kernel types and typeclass instances are registered consistently',
  'Each distinct type gets one kernel identity and keeps it; converting a surface type to the kernel and back gives the same type. A type counts as an instance of a typeclass only if that instance, or an instance of an extending typeclass, was declared.',
  ['programs', 'histories'], 'every sequence of registrations and lookups',
  SMALL % 'type and registration order', ['src/kernel/type_store.rs'], [('TypeStore', 'src/kernel/type_store.rs')],
  ['file:src/kernel/type_store.rs'])

P('K18', 'Kernel symbols stand for exactly one constant each',
  'Different constants never share a kernel symbol, one constant never gets two, and the type recorded for a symbol is the type of its constant; merging the tables of imported modules keeps this. Local symbols are never visible outside their scope.',
  ['programs', 'histories'], 'every sequence of definitions and imports',
  SMALL % 'definition and import order', ['src/kernel/symbol_table.rs', 'src/kernel/symbol.rs'], [('SymbolTable', 'src/kernel/symbol_table.rs')],
  ['file:src/kernel/symbol_table.rs', 'file:src/kernel/symbol.rs', 'file:src/kernel/display.rs'])

# ------------------------------------------------------------------ prover

P('P01', 'Inferences from active clauses are sound and well typed',
  'Every clause the prover derives by resolution, rewriting, equality reasoning, simplification or boolean reduction follows from the clauses it names as premises, is well typed, and is never obtained by silently dropping a variable over a type not known to be inhabited.',
  ['programs', 'inputs'], 'every set of active clauses and every activated clause',
  SMALL % 'clause pair', ['src/prover/active_set.rs'], [('ActiveSet', 'src/prover/active_set.rs')],
  ['file:src/prover/active_set.rs'])

P('P02', 'The queue of pending clauses loses nothing it should keep',
  'Every pushed clause is popped exactly once in score order unless it is simplified away by an active unit clause that really subsumes or reduces it, and a pair of contradictory pending clauses is reported as a contradiction with both sources.',
  ['histories', 'inputs'], 'every sequence of pushes, pops and simplifications',
  SMALL % 'queue history', ['src/prover/passive_set.rs'], [('PassiveSet', 'src/prover/passive_set.rs')],
  ['file:src/prover/passive_set.rs'])

P('P03', 'The proof search reports what actually happened',
  'The search reports success only with a contradiction derived from the negated goal and facts, reports timeout, interruption, exhaustion or inconsistency only for those situations, and stops promptly when any of its cancellation tokens is set. Limits on time and activations are respected.',
  ['programs', 'schedules', 'configurations'], 'every goal, limit and cancellation moment',
  SMALL % 'limit and cancellation moment', ['src/prover/prover.rs', 'src/prover/mod.rs'], [('Prover', 'src/prover/prover.rs')],
  ['file:src/prover/prover.rs', 'file:src/prover/mod.rs'])

P('P04', 'A found proof is reconstructed into concrete steps that use only its premises',
  'Reconstruction instantiates every step of a proof with assignments under which it follows from its instantiated premises, includes every step the contradiction depends on, and fails with an error if an assignment cannot be found.',
  ['programs'], 'every proof graph',
  SMALL % 'proof graph', ['src/prover/proof.rs', 'src/prover/synthetic.rs', 'src/kernel/proof_step.rs'], [('Proof', 'src/prover/proof.rs')],
  ['file:src/prover/proof.rs', 'file:src/prover/synthetic.rs', 'file:src/kernel/proof_step.rs'])

P('P05', 'Rewriting replaces a subterm only by a provably equal one',
  'A rewrite is produced only from a stored equation whose pattern side matches the subterm, in a direction the equation allows, and the replacement is the matching instance of the other side.',
  ['inputs', 'histories'], 'every stored equation and every subterm',
  SMALL % 'rule set and subterm', ['src/prover/rewrite_tree.rs'], [('RewriteTree', 'src/prover/rewrite_tree.rs')],
  ['file:src/prover/rewrite_tree.rs'])

P('P06', 'Clause scoring is a deterministic function of the clause and its context',
  'The score of a clause depends only on its content, its derivation and the goal, not on memory layout, thread or hash order; a contradiction always ranks before everything else, and the features given to a model are those of that clause.',
  ['inputs', 'schedules'], 'every clause and every run',
  SMALL % 'clause', ['src/prover/features.rs', 'src/prover/score.rs', 'src/prover/scorer.rs', 'src/prover/scoring_model.rs'], [('features', 'src/prover/features.rs')],
  ['file:src/prover/features.rs', 'file:src/prover/score.rs', 'file:src/prover/scorer.rs', 'file:src/prover/scoring_model.rs'])

P('P07', 'Search traces record every activated step completely',
  'When tracing is on, each activated step is written once, in order, to the right shard together with the features it was scored with, and write errors reach the caller.',
  ['configurations', 'fault_sequences'], 'every trace setting and every write failure',
  SMALL % 'shard size and failure', ['src/prover/trace.rs'], [('trace writer', 'src/prover/trace.rs')],
  ['file:src/prover/trace.rs'])

P('P08', 'The per-goal processor gives prover and checker the same knowledge',
  'Prover and checker of one goal receive exactly the imported facts, the earlier facts of the module and the negated goal, in that order and each once; a certificate produced from a search is returned only if the checker accepted it.',
  ['programs'], 'every module, goal and configuration',
  SMALL % 'module and goal', ['src/processor.rs'], [('Processor', 'src/processor.rs')],
  ['file:src/processor.rs'])

# ------------------------------------------------------------------ elaborator

P('E01', 'Recursive definitions are accepted only on strictly smaller arguments',
  'A recursive definition without a proof of totality is accepted only if there is one argument position at which every recursive call passes a strict component of that same parameter, obtained by pattern matching. A mention of the function other than a full call never counts as decreasing.',
  ['programs'], 'every recursive definition',
  SMALL % 'definition', ['src/elaborator/termination_checker.rs'], [('TerminationChecker', 'src/elaborator/termination_checker.rs')],
  ['file:src/elaborator/termination_checker.rs'])

P('E02', 'Definitions, theorems and witnesses add exactly what was justified',
  'Each let, define, theorem, axiom or satisfy statement introduces a fresh name with the declared type, and makes available as a fact only what the statement defines, assumes as an axiom, or leaves as a goal to be proved; type parameters and conditions are generalized, never dropped.',
  ['programs'], 'every statement in every scope',
  SMALL % 'statement', ['src/elaborator/environment/add_statement/definitions.rs'], [('add_*_statement', 'src/elaborator/environment/add_statement/definitions.rs')],
  ['file:src/elaborator/environment/add_statement/definitions.rs', 'file:src/elaborator/environment/add_statement.rs'])

P('E03', 'Datatypes, typeclasses and instances introduce only consistent axioms',
  'A structure or inductive type is accepted only if it is strictly positive and has a base case or proved inhabitation, and produces just its constructor, destructor and induction facts; an instance is accepted only when every required attribute has the right type and every condition becomes a goal or was proved.',
  ['programs'], 'every datatype, typeclass and instance declaration',
  SMALL % 'declaration', ['src/elaborator/environment/add_statement/datatypes.rs', 'src/elaborator/environment/add_statement/typeclasses.rs'], [('add_inductive_statement', 'src/elaborator/environment/add_statement/datatypes.rs')],
  ['file:src/elaborator/environment/add_statement/datatypes.rs', 'file:src/elaborator/environment/add_statement/typeclasses.rs', 'file:src/elaborator/environment/add_statement/attributes.rs',
   'file:src/elaborator/environment/add_statement/simple_types.rs', 'file:src/elaborator/environment/add_statement/imports.rs'])

P('E04', 'Assumptions made inside a block never escape it undischarged',
  'A fact proved inside a for-all, if, match or proof block is exported only after being quantified over the block arguments and conditioned on the block premises; obligations created inside expressions are proved under exactly the premises of their position.',
  ['programs'], 'every nesting of blocks',
  SMALL % 'block nesting', ['src/elaborator/block.rs', 'src/elaborator/environment/add_statement/blocks.rs', 'src/elaborator/local.rs'], [('Block', 'src/elaborator/block.rs')],
  ['file:src/elaborator/block.rs', 'file:src/elaborator/environment/add_statement/blocks.rs', 'file:src/elaborator/environment/add_statement/local_obligations.rs', 'file:src/elaborator/local.rs',
   'file:src/elaborator/environment/add_statement/transport.rs', 'file:src/elaborator/environment/add_statement/generated.rs'])

P('E05', 'No name is ever silently redefined',
  'Within a scope a constant, type, typeclass, attribute, module or local name can be bound only if it is not already in use; importing a name that is absent, not exported, or clashes is an error. Lookups return the entity that was bound.',
  ['programs'], 'every sequence of declarations and imports',
  SMALL % 'declaration order', ['src/elaborator/binding_map.rs', 'src/elaborator/names.rs'], [('BindingMap', 'src/elaborator/binding_map.rs')],
  ['BindingMap::' + x for x in '''empty new module_id numerals constant_alias datatype_alias add_datatype_alias add_typeclass_alias typeclass_alias check_defined_name_available constant_name_in_use
   get_constant_value get_type_for_typename get_typename_for_type has_typename get_typeclass_for_name has_typeclass_name get_module_id_for_name get_module_info has_constant_name
   has_unqualified_constant_name has_exported_name exported_entity_matches hide_unqualified_constant_name get_definition get_definition_range get_definition_and_params get_definition_params_and_type
   get_bindings get_constructor_info resolve_name check_typename_available check_unqualified_name_available next_indexed_var insert_type_name add_data_type add_potential_type
   add_potential_type_with_family_params add_arbitrary_type add_type_alias add_typeclass add_typeclass_name direct_dependencies set_numerals add_defined_name add_unqualified_constant
   add_hidden_unqualified_constant add_constant_name add_constant_def remove_constant add_constant_alias mark_as_theorem is_theorem remove_type import_module add_module_dependency import_prelude
   is_module import_name'''.split()] + ['file:src/elaborator/names.rs'])

P('E06', 'Attribute lookup resolves to the one applicable definition',
  'Looking up a method or attribute of a type or typeclass finds the definition that applies to that type through its declared instances and extensions; when several different definitions could apply the program is rejected as ambiguous, never resolved by chance.',
  ['programs'], 'every attribute access',
  SMALL % 'type, typeclass hierarchy and attribute', ['src/elaborator/binding_map.rs'], [('BindingMap attribute lookup', 'src/elaborator/binding_map.rs')],
  ['BindingMap::' + x for x in '''has_type_attr merge_typeclass_attr_candidate typeclass_attr_entry typeclass_attr_lookup cached_typeclass_attr_lookup typeclass_attr_lookup_checked typeclass_extends
   merge_receiver_typeclass_attr_candidate get_extends_set unifier get_extends get_instance_typeclasses get_instance_typeclasses_for_type get_typeclass_attributes get_module_for_datatype_attr
   resolve_datatype_attr resolve_datatype_attr_with_params resolve_datatype_attr_for_type resolve_typeclass_attr resolve_typeclass_attr_checked get_datatype_attributes get_datatype_attribute_module
   get_typeclass_attribute_module check_instance_attribute add_instance_of add_typeclass_instance is_instance_of_type add_datatype_attribute add_typeclass_attribute mark_typeclass_attr_required
   is_typeclass_attr_required set_datatype_variances get_datatype_variances set_datatype_arity get_datatype_arity get_datatype_family_param_kinds set_datatype_structure_fields get_datatype_structure_fields
   find_type_implementing apply_potential try_apply_potential unsafe_instantiate_condition is_citation expand_citation find_unknown_scoped_constants evaluate_scoped_value evaluate_scoped_result_spec
   evaluate_scoped_bool_result_spec canonicalize_proposition'''.split()] +
  ['binding_map::BindingMap::expand_citation::expand_citation_value', 'DatatypeDefinition::new', 'DatatypeDefinition::import', 'TypeclassDefinition::new'])

P('E07', 'Type inference gives a consistent, constraint-respecting instantiation',
  'An application of a generic function is accepted only if one assignment of its type parameters makes every argument type match and satisfies every typeclass constraint; otherwise it is an error or is left explicitly unresolved.',
  ['programs'], 'every generic application',
  SMALL % 'application', ['src/elaborator/type_unifier.rs'], [('TypeUnifier', 'src/elaborator/type_unifier.rs')],
  ['file:src/elaborator/type_unifier.rs', 'file:src/elaborator/inference.rs', 'file:src/elaborator/potential_value.rs', 'file:src/elaborator/unresolved_constant.rs', 'file:src/elaborator/stack.rs'])

P('E08', 'Only well-typed expressions are given a meaning',
  'Every surface expression is either rejected with an error at its position or evaluated to a value of the type its context demands, with operators, quantifiers, if, match and casts meaning what the language says; a match must cover every constructor exactly once.',
  ['programs', 'inputs'], 'every expression in every scope',
  SMALL % 'expression', ['src/elaborator/evaluator.rs'], [('Evaluator', 'src/elaborator/evaluator.rs')],
  ['file:src/elaborator/evaluator.rs'])

P('E09', 'Operations on surface types keep type identity',
  'Instantiating, genericizing, comparing and applying surface types treat equal types as equal and different ones as different, substitute every occurrence of a parameter, and keep function argument order.',
  ['inputs', 'programs'], 'every surface type',
  SMALL % 'type', ['src/elaborator/acorn_type.rs'], [('AcornType', 'src/elaborator/acorn_type.rs')],
  ['file:src/elaborator/acorn_type.rs'])

P('E10', 'Operations on surface values keep bound variables and types right',
  'Binding, unbinding, stack shifting, instantiating and genericizing surface values never capture a variable, never drop a subterm, and commute with evaluation; folding helpers visit every child.',
  ['inputs', 'programs'], 'every surface value',
  SMALL % 'value', ['src/elaborator/acorn_value.rs'], [('AcornValue', 'src/elaborator/acorn_value.rs')],
  ['file:src/elaborator/acorn_value.rs'])

P('E11', 'Crossing between surface values and kernel terms is faithful both ways',
  'Lowering a surface value or theorem yields a kernel term or clause set with the same meaning, and quoting a kernel term yields a surface value that lowers to the same term; unsupported values are reported as errors.',
  ['inputs', 'programs'], 'every surface value and kernel term',
  SMALL % 'value', ['src/elaborator/lowering.rs', 'src/elaborator/to_term.rs', 'src/elaborator/term_bridge.rs'], [('lowering', 'src/elaborator/lowering.rs')],
  ['file:src/elaborator/lowering.rs', 'file:src/elaborator/to_term.rs', 'file:src/elaborator/term_bridge.rs', 'file:src/elaborator/fact.rs'])

P('E12', 'A goal may use only facts that precede it in scope',
  'The facts visible to a goal are the importable facts of its dependencies, the earlier facts of its own module and of its enclosing blocks, and never the goal itself or anything after it; theorem statements of a block become visible outside only in exported form.',
  ['programs'], 'every module structure and goal',
  SMALL % 'module structure', ['src/elaborator/node.rs', 'src/elaborator/lowered_module.rs', 'src/elaborator/environment/mod.rs'], [('Node, LoweredModule', 'src/elaborator/lowered_module.rs')],
  ['file:src/elaborator/node.rs', 'file:src/elaborator/lowered_module.rs', 'file:src/elaborator/environment/mod.rs', 'file:src/elaborator/goal.rs', 'file:src/elaborator/proposition.rs', 'file:src/elaborator/source.rs',
   'file:src/elaborator/named_entity.rs'])

# ------------------------------------------------------------------ syntax

P('S01', 'Tokens cover the source exactly and carry true positions',
  'Scanning never loses, invents or reorders a character of the source outside whitespace and comments: each token has the line, column and length of its text, the longest operator or keyword wins, and anything unrecognized becomes an error token.',
  ['inputs'], 'every source text',
  SMALL % 'source text', ['src/syntax/token.rs', 'src/syntax/token_map.rs'], [('Token::scan', 'src/syntax/token.rs')],
  ['file:src/syntax/token.rs', 'file:src/syntax/token_map.rs'])

P('S02', 'Expressions are grouped by precedence and associativity alone',
  'Parsing an expression groups operators strictly by the published precedences and associativities, requires balanced delimiters, and reports an error with a position for anything else; no token is skipped.',
  ['inputs'], 'every token sequence',
  SMALL % 'token sequence', ['src/syntax/expression.rs'], [('Expression parsing', 'src/syntax/expression.rs')],
  ['file:src/syntax/expression.rs'])

P('S03', 'Statements are parsed completely or rejected',
  'Each statement keyword leads to its own statement form with all of its parts, block bodies extend to their matching brace, line ranges cover the whole statement, and forms reserved for strict or interface contexts are rejected elsewhere.',
  ['inputs'], 'every token sequence',
  SMALL % 'token sequence', ['src/syntax/statement/parse.rs'], [('Statement parsing', 'src/syntax/statement/parse.rs')],
  ['file:src/syntax/statement/parse.rs', 'file:src/syntax/statement.rs', 'file:src/syntax/statement/ast.rs'])

P('S04', 'Code generation writes values that read back as themselves',
  'Source text generated for a value or type names every constant so that it resolves to the same entity in the current scope, parenthesizes by precedence, uses fresh variable names, and fails with an error when no faithful text exists.',
  ['programs', 'inputs'], 'every value in every scope',
  SMALL % 'value and scope', ['src/code_generator.rs', 'src/syntax/statement/pretty.rs'], [('CodeGenerator', 'src/code_generator.rs')],
  ['file:src/code_generator.rs', 'file:src/syntax/statement/pretty.rs'])

# ------------------------------------------------------------------ project and modules

P('M01', 'Modules load once, in dependency order, and import errors are reported',
  'Each module is loaded at most once per project version and only after its imports; a circular import, missing file, invalid name or failing dependency is reported as an error on the importing module and never yields a usable module.',
  ['programs', 'histories'], 'every set of source files and import graph',
  SMALL % 'import graph', ['src/project.rs', 'src/loader/parsed_module.rs', 'src/module.rs'], [('load_module', 'src/project.rs')],
  ['file:src/module.rs', 'file:src/loader/module_loader.rs', 'file:src/loader/source.rs'] + ['Project::' + x for x in '''load_module load_module_by_name get_module_by_id get_module get_module_name_by_id
   get_module_id_by_name get_loaded_module_id_by_name get_env_by_id get_loaded_module_by_id get_module_export get_lowered_module prepare_parallel_module_load_job pop_ready_parallel_load_job
   enqueue_parallel_load_job take_lowered_modules_for_targets take_lowered_modules_for_target_set errors read_file all_dependencies append_dependencies imported_facts get_bindings
   citation_statements cached_module_work_estimate'''.split()])

P('M02', 'Interface files and packages expose only what they declare',
  'In interface mode bodies and proofs are refused and every declaration is kept; a package implementation is accepted only if it provides every signature its interface declares with the same type, and an import that crosses a package boundary sees only the interface.',
  ['programs'], 'every package layout',
  SMALL % 'package layout', ['src/loader/parsed_module.rs', 'src/project.rs', 'src/interfaces.rs'], [('package validation', 'src/project.rs')],
  ['file:src/loader/parsed_module.rs'] + ['Project::' + x for x in '''validate_package_interface_paths validate_package_layout validate_package_layout_with_open_file nearest_package_root_for_path package_role_for_path
   package_root_for_module package_role_for_module package_role_for_descriptor package_interface_descriptor_for_path build_descriptors_for_target package_implementation_descriptors
   collect_interface_signatures collect_implementation_signatures validate_package_implementations load_and_validate_package validate_packages_for_descriptors canonicalize_name_descriptor'''.split()])

P('M03', 'Editing a file invalidates exactly what depends on it',
  'After a file is updated or closed, every module that transitively depends on it is dropped and reloaded from current text, open-file contents win over disk, stale versions are refused, and unaffected modules keep their identity.',
  ['histories'], 'every sequence of edits',
  SMALL % 'edit history', ['src/project.rs'], [('update_file', 'src/project.rs')],
  ['Project::' + x for x in '''drop_modules add_target_by_descriptor add_unloaded_target_by_descriptor add_unloaded_surface_target_by_descriptor load_target_by_descriptor load_build_descriptors
   dependency_descriptors_for_target cached_dependency_descriptors_for_target dependent_target_closure target_dependency_closure sorted_by_cached_work reload_dependent_targets_by_path has_version get_version
   update_file_state reload_targets update_file update_file_for_ide close_file mock get_module_content_hash open_urls'''.split()])

P('M04', 'Target names and paths map to modules one to one',
  'A module name, a file path and a target argument denote the same module wherever they are used; invalid names and paths outside the project are errors, and asking for all targets registers every source module exactly once in a deterministic order.',
  ['inputs', 'configurations'], 'every name, path and directory layout',
  SMALL % 'path', ['src/project.rs'], [('descriptor_from_path', 'src/project.rs')],
  ['Project::' + x for x in '''add_target_by_name add_target_by_path add_surface_target_by_path register_all_modules add_src_targets add_unloaded_src_targets src_target_paths src_target_descriptors
   is_surface_check_path add_surface_check_dir_targets surface_check_target_paths surface_check_target_descriptors is_surface_check_target is_surface_check_module descriptor_from_path path_from_module_name
   module_path_exists path_from_descriptor url_from_descriptor display_path path_from_module_id get_module_descriptor iter_modules acorn_toml_path_for_src_dir surface_check_dirs_value
   resolve_surface_check_dir load_surface_check_dirs_from_acorn_toml load_project_format_version_from_acorn_toml load_project_format_version write_project_format_version find_local_acorn_library
   check_acornlib_layout new_local update_build_cache'''.split()] + ['project::Project::new', 'project::check_valid_module_part', 'project::localize_mock_filename'])

P('M05', 'A build sees one consistent snapshot of the project',
  'The read-only view that a build works on answers every question about modules, dependencies, hashes, targets and packages exactly as the project it was taken from.',
  ['histories', 'schedules'], 'every project state and concurrent edit',
  SMALL % 'project state', ['src/project.rs'], [('ProjectView', 'src/project.rs')],
  ['ProjectView::' + x for x in '''new new_for_targets new_without_lowered new_internal config build_dir src_dir build_cache targets get_module get_module_export get_lowered_module is_surface_check_target
   is_surface_check_module get_module_content_hash display_path url_from_descriptor is_surface_check_path suppresses_certificate_for open_urls descriptor_from_path path_from_descriptor path_from_module_name
   module_path_exists nearest_package_root_for_path package_role_for_path package_root_for_module package_role_for_module package_role_for_descriptor canonicalize_name_descriptor all_dependencies
   append_dependencies'''.split()])

P('M06', 'Editor queries describe the entity at the queried position',
  'Hover, go-to-definition, completion and proof-selection requests answer about the token at the given position, in the scope of that line, and a proof is shown only if it belongs to the selected goal and checks.',
  ['inputs', 'histories'], 'every position in every document state',
  SMALL % 'position', ['src/project.rs', 'src/elaborator/binding_map.rs'], [('handle_selection', 'src/project.rs')],
  ['Project::' + x for x in '''hover_for_info definition_info create_go_to_link definition_location hover find_cert handle_selection create_goal_info create_citation_info definition_location_for_constant
   location_from_module_range get_completions unapplied_value get_env get_env_for_name lowered_goal_for_goal'''.split()] +
  ['BindingMap::get_typeclass_attr_completions', 'BindingMap::get_type_attr_completions', 'BindingMap::get_completions'])

# ------------------------------------------------------------------ builds and caches

P('B01', 'The package manifest on disk is replaced atomically and read strictly',
  'Saving a manifest writes a complete temporary file, flushes it to disk and renames it over the old one, so a crash leaves the old or the new manifest; any failure is returned. Loading rejects unknown versions and malformed content, and looks entries up by exact content hash.',
  ['crash_points', 'fault_sequences'], 'every crash or I/O failure point',
  'Tests save and load without faults; no test kills the process or fails a system call in between.', ['src/manifest.rs'], [('PackageManifest::save', 'src/manifest.rs')],
  ['file:src/manifest.rs'])

P('B02', 'The build cache keeps valid certificates and never mixes modules',
  'Saving and merging the cache keeps the certificates of modules that were not rebuilt, replaces those of modules that were, drops those of vanished sources, and records for each package the hashes of its own sources and of its external dependencies. Errors while reading or writing are reported, and then no certificate already in memory is lost.',
  ['histories', 'fault_sequences'], 'every sequence of builds and merges',
  SMALL % 'build history', ['src/build_cache.rs'], [('BuildCache', 'src/build_cache.rs')],
  ['file:src/build_cache.rs'])

P('B03', 'A goal counts as verified only with a checked proof',
  'A goal is recorded as verified only if a certificate for that very goal was checked successfully against the facts in scope, or a search produced one; in checking mode no search is made and a missing or failing certificate is an error. Every other search result is reported as a warning or an error on that goal.',
  ['programs', 'configurations'], 'every goal, cache content and mode',
  SMALL % 'goal, cached certificate and mode', ['src/builder.rs'], [('verify_goal', 'src/builder.rs')],
  ['Builder::' + x for x in '''verify_goal search_finished log_verified log_proving_cache_hit verify_lowered_claim verify_lowered_items verify_eval_goal record_cert_check eval_max_skip processor_with_imports
   is_plain_anonymous_lowered_goal should_verify_for_line_filter update_eval_skip_tail_for_lowered_goal record_lowered_barrier write_eval_search_trace eval_goal_counts eval_goal_in_sample'''.split()] +
  ['EvalSkipTail::new', 'EvalSkipTail::record_plain', 'EvalSkipTail::record_barrier', 'EvalSkipTail::checkpoint_for', 'EvalGoalCounts::total', 'EvalGoalCounts::take'])

P('B04', 'A module is good only if all of its goals are, and skipped only if unchanged',
  'A module is reported as fully verified and cached only when every goal in it was verified and nothing in it was an error or, in strict mode, an unproved axiom; it is skipped as unchanged only if its own content and the content of all its dependencies equal what was verified before. Filters restrict the goals attempted but never what is cached.',
  ['programs', 'histories', 'configurations'], 'every module, filter and previous build',
  SMALL % 'module, filter and build history', ['src/builder.rs'], [('verify_lowered_module', 'src/builder.rs')],
  ['Builder::' + x for x in '''verify_lowered_module try_skip_unchanged_module dependency_hashes_for_module into_build_cache take_build_cache trim_unused_certificates record_validated_interface_module
   module_proving_started module_proving_good lowered_module_loaded set_single_goal set_single_goal_with_index set_goal_range target_descriptor validate_goal_filter log_global log_loading_error log_info
   log_warning log_build_error log_unprocessed_target_states validate_strict_dependency_manifests make_event default_event module loading_phase_complete prepare_loaded_module_work'''.split()] +
  ['BuildStatus::verb', 'BuildStatus::warn', 'BuildStatus::is_error', 'BuildStatus::is_good', 'BuildError::new', 'BuildError::goal'])

P('B05', 'Parallel builds give the same result as sequential ones',
  'Building modules on several workers uses the same settings for each, merges every result exactly once in module order, and yields the same status, errors, certificates and counters as building them one by one; a worker that fails or panics turns into an error, never into a missing result.',
  ['schedules', 'configurations'], 'every number of workers and completion order',
  SMALL % 'completion order', ['src/builder.rs'], [('build_owned_module_work', 'src/builder.rs')],
  ['Builder::' + x for x in '''new new_with_view set_module_work set_project_view begin_module_work_build process_module_work_batch can_pipeline_module_work process_module_work_pipeline enqueue_pipeline_module
   drain_pipeline_results merge_pipeline_result merge_module_build_result finish_module_work_build record_module_timing can_build_modules_in_parallel eval_module_search_estimate module_work_estimate
   verify_module_work_estimate check_module_work_estimate build_module_on_worker build_modules_parallel build_owned_modules_parallel prepare_eval_mode build_owned_module_work process_one_owned_module build'''.split()] +
  ['ModuleWorkerConfig::from_builder', 'ModuleWorkerConfig::apply_to', 'BuildMetrics::new', 'BuildMetrics::eval_skip_metrics_mut', 'BuildMetrics::ensure_eval_skip_metrics', 'BuildMetrics::record_eval_skip_ineligible',
   'BuildMetrics::record_eval_skip_search', 'BuildMetrics::record_eval_search_instrumentation', 'BuildMetrics::add_module_result', 'EvalSkipMetrics::new', 'EvalSkipMetrics::add', 'EvalSkipMetrics::record_search',
   'EvalSearchInstrumentation::add_search', 'EvalSearchInstrumentation::add', 'PipelineQueueState::new', 'PipelineQueuedModule as std::cmp::Ord::cmp', 'builder::panic_payload_to_string'])

P('B06', 'The command line reports success exactly when everything verified',
  'The verify and check commands exit with success only if every requested target loaded and every requested goal verified; invalid flags or targets are refused before any work, and the on-disk cache is written only after a run without errors.',
  ['configurations', 'programs'], 'every combination of flags, targets and results',
  SMALL % 'flag combination', ['src/verifier.rs', 'src/bin/acorn.rs'], [('Verifier::run', 'src/verifier.rs')],
  ['file:src/verifier.rs', 'file:src/bin/acorn.rs', '-format_seconds'])

# ------------------------------------------------------------------ tools

P('T01', 'Simplification edits a file only if it still verifies',
  'The simplify command deletes only proof-local anonymous claims whose removal leaves every affected goal provable, re-verifies the edited file before writing it, writes exactly the original minus the removed lines, and otherwise leaves the file untouched.',
  ['programs', 'histories'], 'every source file',
  SMALL % 'source file', ['src/simplifier.rs'], [('simplify_file', 'src/simplifier.rs')], ['file:src/simplifier.rs'])

P('T02', 'Dataset export and documentation cover every exported item once',
  'Exporting a project writes one record per exported item of each module with its true dependencies, in a deterministic order, and documentation generation writes one page per documented type or typeclass; conflicts and I/O failures are returned as errors.',
  ['programs', 'fault_sequences'], 'every project',
  SMALL % 'project', ['src/exporter.rs', 'src/doc_generator.rs'], [('export_project', 'src/exporter.rs')],
  ['file:src/exporter.rs', 'file:src/doc_generator.rs', 'Project::get_constant_doc_comments', 'Project::get_constant_definition_string', 'Project::get_datatype_doc_comments', 'Project::get_datatype_definition_string',
   'Project::get_typeclass_doc_comments', 'Project::get_typeclass_definition_string', 'Project::github_link'])

P('T03', 'An import is reported unused only if nothing uses it',
  'The lint command warns about an import only if no value, type, attribute, citation, exported name or cached proof of the module refers to what it brings in.',
  ['programs'], 'every module',
  SMALL % 'module', ['src/lint.rs'], [('lint_targets', 'src/lint.rs')], ['file:src/lint.rs'])

P('T04', 'The language server tracks documents and builds by version',
  'The server applies document changes to the version they belong to, attaches diagnostics and progress only to the build generation that produced them, and a mutation of the project cancels the running build before taking effect; a stale build never overwrites newer results.',
  ['histories', 'schedules'], 'every interleaving of editor events and builds',
  SMALL % 'event order', ['src/server.rs', 'src/server/live_document.rs', 'src/server/project_manager.rs'], [('ProjectManager', 'src/server/project_manager.rs')],
  ['file:src/server.rs', 'file:src/server/live_document.rs', 'file:src/server/project_manager.rs', 'file:src/interfaces.rs'])

P('T05', 'The packaged library is installed completely or not at all',
  'The embedded library is extracted to a temporary directory, verified, and moved into a cache location named by its hash; an incomplete or foreign cache is never used, and a concurrent installer is tolerated.',
  ['crash_points', 'schedules'], 'every crash point and concurrent start',
  SMALL % 'crash point', ['src/packaged_acornlib.rs', 'src/common.rs'], [('get_or_extract', 'src/packaged_acornlib.rs')],
  ['file:src/packaged_acornlib.rs', 'file:src/common.rs'])

P('T06', 'Goal partitions and proof order are reproducible',
  'The partition bucket of a goal depends only on its module and name by a fixed published hash, partition expressions accept exactly the documented syntax, and module work is ordered deterministically.',
  ['inputs', 'configurations'], 'every goal name and partition expression',
  SMALL % 'partition expression', ['src/goal_partition.rs', 'src/proof_order.rs'], [('goal_bucket', 'src/goal_partition.rs')],
  ['file:src/goal_partition.rs', 'file:src/proof_order.rs', 'file:src/proof_display.rs'])

# ------------------------------------------------------------------ not applicable

NA('N01', 'Provable goals are found within the default limits',
   'Every goal that a user can reasonably expect to follow in one step is proved within the default time and activation limits.',
   ['programs'], 'every goal', 'Depends on search dynamics and a learned score.', ['src/prover/prover.rs'],
   'Whether a saturation search succeeds within a time budget depends on run-time quantities (scores of a learned model, queue order, machine speed) that no static argument in reach bounds.')
NA('N02', 'Proof search scales predictably with library size',
   'Time and memory per goal grow at most moderately with the number of imported facts.',
   ['programs'], 'every library', 'A performance quantity.', ['src/prover/active_set.rs'],
   'A run-time cost bound: indexes and queues have data-dependent cost, and static cost analysis of this Rust code is out of reach.')
NA('N03', 'The learned scorer ranks useful clauses first',
   'The embedded model gives clauses that occur in proofs a better score than those that do not.',
   ['inputs'], 'every clause', 'A statistical property of model weights.', ['src/prover/scoring_model.rs'],
   'The behaviour lives in the weights of an ONNX file, not in source code.')
NA('N04', 'The bundled library verifies',
   'Every theorem of the bundled library verifies with the shipped certificates.',
   ['programs'], 'the shipped library', 'The library is data for the prover.', ['acornlib'],
   'Needs running the prover over the library; this is an execution result, not a property of the source of the tool.')
NA('N05', 'The editor extension shows results promptly',
   'The editor extension renders progress, diagnostics and proof views without missing updates.',
   ['schedules'], 'every sequence of editor events', 'User-interface behaviour of a TypeScript extension.', ['vscode'],
   'The extension talks to the editor through callbacks of a closed host whose scheduling is not in the repository; the server side of the protocol is covered by T04.')
NA('N06', 'A build never deadlocks',
   'A parallel build terminates for every completion order, including when workers fail.',
   ['schedules'], 'every schedule', 'Tests run a handful of schedules.', ['src/builder.rs'],
   'Termination depends on channel and condition-variable hand-offs counted at run time (jobs outstanding, results received); a sound static liveness argument over these counters is out of reach here. The safety half is B05.')


# Functions a property also depends on although another property is their main home: a change there can break both.
ALSO = {
 'K01': [r're:^kernel::checker::Checker::'],
 'K02': [r're:^kernel::clause::Clause::(find_|boolean_|.*reduction|.*injectiv|.*extensional|.*resol|.*factor)'],
 'K03': [r're:^kernel::symbol_table::.*inhabit', 'Checker::insert_normalized_clause', 'Checker::insert_clause_internal', 'Checker::apply_boolean_reduction_for_trace',
         'Checker::equality_resolution_results_for_trace', 'Checker::checker_boolean_reductions', 'Checker::checker_boolean_reduction_sets', 'Checker::canonical_clause_for_trace'],
 'K04': [r're:^kernel::certificate_step::Claim::', r're:^kernel::checker::Checker::.*(for_trace|contradiction|check_clause_direct)', 'file:src/kernel/inference.rs'],
 'K06': ['Certificate::deserialize_claim_with_args', r're:^kernel::certificate_step::Claim::'],
 'K08': ['TraceChecker::check', 'TraceChecker::check_step', 'Certificate::check_with_usage', r're:^processor::Processor::(make_cert|.*cert)'],
 'K12': [r're:^kernel::certificate_step::Claim::(new|.*speciali)'],
 'K14': ['file:src/kernel/kernel_context.rs', 'file:src/kernel/extended_term.rs'],
 'K17': ['file:src/kernel/kernel_context.rs'],
 'P01': [r're:^kernel::clause::Clause::(find_|.*reduction|.*injectiv|.*extensional|.*resol|.*factor)', 'file:src/kernel/inference.rs', 'file:src/prover/rewrite_tree.rs', 'file:src/kernel/proof_step.rs'],
 'P02': ['file:src/prover/score.rs'],
 'P03': ['Builder::search_finished'],
 'P05': [r're:^prover::active_set::ActiveSet::.*rewrit'],
 'P08': [r're:^elaborator::lowered_module::LoweredModule::'],
 'E01': [r're:^elaborator::environment::add_statement::definitions::.*(recurs|define)'],
 'E02': ['BindingMap::add_defined_name', 'BindingMap::add_constant_def', 'BindingMap::mark_as_theorem', 'BindingMap::add_unqualified_constant', 'BindingMap::evaluate_scoped_value',
         'BindingMap::evaluate_scoped_result_spec', 'BindingMap::evaluate_scoped_bool_result_spec', 'file:src/elaborator/environment/add_statement/generated.rs',
         'file:src/elaborator/environment/add_statement/local_obligations.rs'],
 'E03': ['BindingMap::check_instance_attribute', 'BindingMap::add_instance_of', 'BindingMap::add_typeclass_instance', 'file:src/elaborator/environment/add_statement/generated.rs'],
 'E04': ['file:src/elaborator/node.rs', 'file:src/elaborator/proposition.rs'],
 'E05': ['file:src/elaborator/environment/add_statement/imports.rs', 'BindingMap::add_datatype_attribute', 'BindingMap::add_typeclass_attribute', 'BindingMap::add_instance_of', 'file:src/elaborator/stack.rs'],
 'E06': [r're:^elaborator::evaluator::Evaluator::.*(attr|member|dot)'],
 'E07': ['BindingMap::apply_potential', 'BindingMap::try_apply_potential', 'BindingMap::is_instance_of_type', 'BindingMap::get_extends_set'],
 'E08': ['file:src/elaborator/inference.rs', 'file:src/elaborator/potential_value.rs', 'file:src/elaborator/stack.rs', 'file:src/elaborator/unresolved_constant.rs'],
 'E12': ['Project::imported_facts', 'file:src/elaborator/fact.rs', 'file:src/processor.rs', 'file:src/elaborator/block.rs'],
 'S02': ['file:src/syntax/token.rs'],
 'S03': ['file:src/syntax/token_map.rs'],
 'M01': ['file:src/loader/parsed_module.rs', r're:^project::(Project|ParallelProjectLoader)::.*load'],
 'M02': ['file:src/interfaces.rs'],
 'M03': ['Project::load_module', 'Project::read_file', 'Project::all_dependencies', 'Project::append_dependencies', 'Project::drop_modules'],
 'M05': ['Project::all_dependencies', 'Project::append_dependencies', 'Project::get_module', 'Project::get_module_content_hash'],
 'B01': ['BuildCache::save_merging_old'],
 'B02': ['file:src/manifest.rs', 'Project::update_build_cache', 'Builder::into_build_cache', 'Builder::take_build_cache', 'Builder::trim_unused_certificates', 'CertificateStore::load', 'CertificateStore::save'],
 'B03': ['file:src/processor.rs', 'Builder::log_warning', 'Builder::log_build_error', 'Builder::verify_lowered_module'],
 'B04': ['file:src/manifest.rs', 'file:src/build_cache.rs', 'Builder::verify_goal', 'Builder::verify_lowered_items', 'Builder::verify_lowered_claim', 'Builder::should_verify_for_line_filter'],
 'B05': ['Builder::log_unprocessed_target_states', 'Builder::prepare_loaded_module_work', 'BuildStatus::warn', 'Builder::into_build_cache'],
 'B06': ['Builder::log_unprocessed_target_states', 'Builder::log_loading_error', 'Builder::log_build_error', 'Builder::log_warning', 'Builder::build', 'Builder::build_owned_module_work', 'BuildStatus::is_good',
         'BuildStatus::is_error', 'BuildStatus::warn', 'Project::update_build_cache', 'Builder::validate_goal_filter'],
}
UNCLAIMED = {
 'M01': [r're:^project::ParallelProjectLoader', r're: as project::ProjectLookup::get_', 'Project::default_surface_check_dirs', r're:^project::ImportError'],
 'M02': [r're: as project::ProjectLookup::', r're:^project::path_has_certs_component', r're:^project::ProjectView as std::convert::From'],
 'M04': [r're: as project::ProjectLookup::get_.*module_id', r're:^project::path_has_certs_component', r're:^elaborator::binding_map::keys_with_prefix'],
 'M05': [r're:^project::ProjectView as project::ProjectLookup::', r're:^project::ProjectView as std::convert::From', r're:^project::UsageMode'],
 'M06': [r're:BindingMap::get_\w+_(definition_string|doc_comments|range)$', r're:BindingMap::iter_type', r're:^elaborator::binding_map::keys_with_prefix'],
 'T02': [r're:BindingMap::get_\w+_(definition_string|doc_comments)$', r're:BindingMap::iter_type'],
 'E03': [r're:BindingMap as elaborator::type_unifier::TypeclassRegistry::'],
 'E07': [r're:BindingMap as elaborator::type_unifier::TypeclassRegistry::'],
 'B04': ['Builder::verification_hash'],
 'B05': [r're:^builder::PipelineQueuedModule as', 'ModuleTiming::from_metrics_delta'],
 'B06': [r're:^project::ProjectError', r're:^builder::compact_check_cert_error'],
 'K07': [r're:^certificate::PreparedCertificateStep::new'],
}
for _p, _f in UNCLAIMED.items():
    ALSO[_p] = ALSO.get(_p, []) + _f
for _p, _f in ALSO.items():
    PROPS[_p]['fns'] = PROPS[_p]['fns'] + _f
