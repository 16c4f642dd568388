#!/usr/bin/env python3
# Writes /verif/properties.jsonl (kept as a script so that the long entries stay readable).
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, hook=None, observe=None):
    a = {"files": files, "mechanism": [{"name": m, "where": files[min(i, len(files)-1)]} for i, m in enumerate(mech)]}
    if observe: a["observe_at"] = observe
    if hook: a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

SEM = ["src/core/execution/semantics/frontier.rs", "src/core/execution/semantics/execute.rs",
       "src/core/language/prune/interaction.rs", "src/core/language/avoid/implem.rs",
       "src/core/language/syntax/interaction.rs"]
ANA = ["src/process/ana/handling/handler.rs", "src/process/ana/handling/matches.rs",
       "src/process/ana/node/flags.rs", "src/process/ana/verdict/global.rs", "src/process/ana/verdict/local.rs"]

prop("C01", "Exploration enumerates exactly the behaviours of the interaction",
 "Exploring an interaction model reaches, within the explored depth, exactly the traces the interaction denotes: a behaviour is reported as accepted if and only if the interaction (its strict, weak-sequential, co-region, parallel, alternative, loop and synchronisation operators over emissions, receptions and synchronous communications) admits it. No admitted behaviour is lost, none is invented, and this does not depend on the search strategy or the priorities.",
 ["programs", "configurations"], "Every interaction model built from the language's operators, every exploration option set.",
 "The unit tests only exercise random generation, slicing and mutation helpers; no test compares explored traces with the language, and the quantifier is over all terms (loops make the language infinite).",
 SEM + ["src/process/explo/handling/handler.rs", "src/process/explo/node.rs"],
 ["operational rules firing frontier actions", "delayed resolution of alternatives", "memoization of explored nodes"],
 observe=["trace files written by `explore` with the tracegen logger"])
prop("C02", "Executing an action leaves exactly the residual behaviours",
 "For every interaction and every multi-action it can start with, the follow-up interaction obtained by executing that action denotes exactly the continuations of that action; the actions offered are exactly the ones some behaviour can start with, and an interaction claims to accept the empty behaviour exactly when it does. Exploration and analysis execute actions in the same way, whether or not they also compute which lifelines were affected by the execution, and every lifeline whose local behaviours change is reported as affected.",
 ["programs"], "Every interaction term, every reachable follow-up, every immediately executable multi-action.",
 "Unit tests never call the execution functions; the property quantifies over all nested combinations of operators and action kinds.",
 SEM + ["src/core/language/involve/interaction.rs"],
 ["frontier computation", "execution left/right/both", "pruning of lifelines"],
 hook="step-level LTS dump through the cfg(hibou_verif) driver")
prop("C03", "Removing lifelines yields the interaction seen by the other lifelines",
 "Removing a set of lifelines from an interaction erases exactly the actions of these lifelines and keeps everything else: the other lifelines keep the same actions under the same ordering operators, so every behaviour of the original restricted to the remaining lifelines is a behaviour of the result, and the result mentions no removed lifeline.",
 ["programs"], "Every interaction and every subset of its lifelines.",
 "No test removes lifelines; the property ranges over all terms and lifeline sets including nested loops, co-regions and communications to several targets.",
 ["src/core/language/eliminate_lf/interaction.rs", "src/core/language/eliminate_lf/action.rs"],
 ["compositional lifeline elimination"], hook="elimination dump through the cfg(hibou_verif) driver")
prop("C04", "Accept analysis: Pass exactly for behaviours of the interaction",
 "Analysing a multi-trace in accept mode gives Pass when, and only when, there is a behaviour of the interaction whose projections on the co-localized groups of lifelines are exactly the given local traces, and gives Fail otherwise.",
 ["inputs", "programs"], "Every interaction, every partition of the lifelines into co-localizations, every multi-trace (including synchronous multi-actions).",
 "No test runs an analysis; the quantifier is over all interaction/multi-trace pairs, including the interleavings between local traces.",
 ANA + SEM, ["matching of frontier actions with heads of local traces", "leaf verdicts"],
 observe=["verdict line printed by `analyze`"])
prop("C05", "Prefix analysis: Pass, WeakPass, Inconc and Fail mean what they say",
 "Analysing a multi-trace in prefix mode gives Pass exactly when it is a full behaviour, WeakPass exactly when it is not but is the projection of a common prefix of some behaviour; otherwise (local analyses being off) it gives Inconc exactly when some run of the interaction consumes one of the local traces entirely (so that a lack of observation may be the cause) and Fail in all remaining cases.",
 ["inputs", "programs"], "Every interaction, partition and multi-trace.",
 "No test runs an analysis; the classification depends on all runs of the interaction against all interleavings of the local traces.",
 ANA, ["leaf verdict computation", "global verdict aggregation"], observe=["verdict line printed by `analyze`"])
prop("C06", "Hiding analysis recognises exactly the multi-prefixes",
 "Analysing a multi-trace in elimination mode (fully observed co-localizations are removed from the interaction as they are exhausted) gives Pass or WeakPass exactly when every local trace is consumed by some run in which each lifeline group is removed from the interaction once its trace is exhausted, which, when each lifeline is observed on its own, are exactly the multi-traces obtained from a behaviour by cutting each local trace short. Pass is only given for full behaviours (read without removing anything), a full behaviour is never rejected, the verdict is Inconc instead of WeakPass when groups of several lifelines make the removal unsound, and a multi-trace that cannot be consumed is a Fail.",
 ["inputs", "programs"], "Every interaction, partition and multi-trace, in particular with local observations that stop at different times.",
 "No test runs an analysis; the property quantifies over all points at which each local observation may stop.",
 ANA + ["src/core/language/eliminate_lf/interaction.rs", "src/process/ana/step.rs"],
 ["hiding steps interleaved with execution steps", "multi-prefix verdict"], observe=["verdict line printed by `analyze`"])
prop("C07", "Simulation analysis recognises multi-slices within its budgets",
 "Analysing a multi-trace in simulation mode gives Pass for full behaviours, WeakPass exactly when it becomes a behaviour, prefix or slice after letting unobserved actions be simulated at the places (before the start and/or after the end of each local trace) and within the loop and action budgets that the configuration allows, and is rejected otherwise (WeakFail, or Fail when the search met no dead end). A simulated step never consumes an observed action, an observed action is never skipped, budgets are never exceeded, and simulation never makes the analysis crash.",
 ["inputs", "programs", "configurations"], "Every interaction, partition, multi-trace and simulation configuration.",
 "No test runs an analysis; correctness depends on every combination of simulated and observed steps and on the loop/action budget bookkeeping along all paths.",
 ANA + ["src/process/ana/param/anakind.rs", "src/core/language/syntax/metrics.rs"],
 ["simulation matches", "remaining loop and action budgets", "reset of criteria"], observe=["verdict line printed by `analyze`"])
prop("C08", "Verdicts do not depend on search order, memoization or goal",
 "For the same interaction, multi-trace and analysis kind, the verdict is the same for every search strategy (breadth-first, depth-first, high-coverage), every priority setting and with memoization on or off, and stopping at a goal only replaces the verdict by another one that also reaches the goal. (For simulations, WeakFail and Fail are the same rejection.)",
 ["schedules", "configurations", "inputs"], "All exploration orders of the analysis graph, all option combinations, all inputs.",
 "The set of exploration orders is exponential and only some orders expose a wrong pruning of the search; no test varies them.",
 ["src/process/ana/node/node.rs", "src/process/ana/handling/handler.rs", "src/process/ana/handling/domination.rs",
  "src/process/ana/priorities.rs", "src/process/ana/verdict/global.rs"],
 ["memoization by inclusion", "queue strategies", "goal-directed stop"], observe=["verdict line printed by `analyze`"])
prop("C09", "Local analyses and partial order reduction only prune dead branches",
 "Turning on local analyses, in any of their configurations, or partial order reduction (on interactions without strict, head-first or synchronised operators, for which the tool declares its reduction experimental) never changes whether a multi-trace is accepted, weakly accepted or rejected.",
 ["configurations", "inputs", "programs"], "All local-analysis settings (selection, modulo, look-ahead), partial-order reduction on/off, all inputs.",
 "No test enables these optimisations against an unoptimised run; unsoundness shows only for specific interplays of pruning and remaining observations.",
 ["src/process/ana/handling/local_analysis.rs", "src/process/ana/handling/handler.rs", "src/process/ana/handling/matches.rs",
  "src/core/language/prune/interaction.rs", "src/core/execution/semantics/execute.rs"],
 ["dirty flags", "local projections", "one-unambiguous action selection"], observe=["verdict line printed by `analyze`"])
prop("C10", "Truncated searches never claim more than they explored",
 "When exploration filters (depth, loop depth, node number) cut an analysis short, the verdict is either the one the full search gives, or a weaker conclusive success actually reached, or Inconc: a cut search never reports Fail, and never reports a success that the full search would not reach.",
 ["configurations", "inputs"], "All filter values, strategies, interactions and multi-traces.",
 "No test uses filters; the interplay of filter, order and verdict ranges over all truncation points.",
 ["src/process/ana/filter/filter.rs", "src/process/ana/verdict/global.rs", "src/process/ana/handling/handler.rs"],
 ["filter eliminations turned into warnings", "final verdict"], observe=["verdict line printed by `analyze`"])
prop("C11", "Generated trace files are exactly the selected behaviours",
 "Trace generation (explorations without memoization) writes a readable file for every non-empty explored trace selected by the generation mode (accepted behaviours, exact depth, depth modulo), and for no other, projected on the requested partition of the lifelines (completed with the lifelines it does not mention) with the order of each local trace kept; with duplicate avoidance no multi-trace is written twice; analysing a generated trace against its model never fails.",
 ["programs", "configurations"], "All interactions, partitions, generation modes and exploration filters.",
 "No test generates traces; the property ranges over all models and generation options.",
 ["src/loggers/tracegen/printer.rs", "src/core/execution/trace/multitrace.rs", "src/io/output/to_hfiles/trace/multi_trace.rs", "src/process/explo/filter/filter.rs"],
 ["projection of the current path on co-localizations", "selection of depth"], observe=["files written by `explore`"])
prop("C12", "Every canonization rewriting preserves the behaviours",
 "Each rewriting step that canonization offers on an interaction (simplification, flattening, reordering, factorisation, deduplication, loop simplification, merging of actions), and so any sequence of them, yields an interaction with exactly the same set of behaviours.",
 ["programs", "schedules"], "All interactions, all positions and all rewriting sequences of every phase.",
 "No test rewrites an interaction; preservation must hold for every rule at every position of every term.",
 ["src/core/transformation/get_transfos/get_all_transfos.rs", "src/core/transformation/get_transfos/get_one_transfo.rs", "src/core/transformation/transfofunc/"],
 ["rewrite rules with side conditions"], hook="rewriting dump through the cfg(hibou_verif) driver")
prop("C13", "Canonization terminates in a normal form over a lawful term order",
 "Canonizing any interaction terminates, whatever the process and the order in which its rewritings are tried, with a form on which no rewriting of the last phase applies (no neutral operand, right-nested, sorted and without duplicates). With the basic rewriting processes (plain, or with unfolding of communications) all rewriting orders reach the same form, so do interactions that differ only by the order of alternative or parallel branches, and canonizing again changes nothing. Terms are compared by a total, antisymmetric and transitive order that agrees with equality.",
 ["programs", "schedules"], "All interactions, triples of interactions for the order laws, all branch permutations.",
 "No test canonizes an interaction; termination, uniqueness and order laws quantify over all terms and triples.",
 ["src/process/canon_proc/", "src/process/canon/", "src/core/language/ord/interaction.rs", "src/core/language/ord/action.rs", "src/core/transformation/transfofunc/flush.rs", "src/core/transformation/transfofunc/invert.rs"],
 ["phased rewriting", "term comparison"], hook="normal forms and comparisons through the cfg(hibou_verif) driver")
prop("C14", "Interaction files round-trip",
 "Writing an interaction to a file and reading it back with the same signature gives the same interaction, and reading a file builds the interaction its text denotes: nested and n-ary operators, gates, synchronous and multi-target communications, loop kinds and synchronisation sets included.",
 ["inputs", "programs"], "All interactions over all signatures, all nestings of operators.",
 "No test parses or prints an interaction file.",
 ["src/io/input/hif/", "src/io/output/to_hfiles/interaction/", "src/core/language/syntax/util/"],
 ["parsing into binary terms", "printing with fragments folded into n-ary operators"], hook="parse/print through the cfg(hibou_verif) driver")
prop("C15", "Trace files are read as written and co-localizations partition the lifelines",
 "Reading a trace file yields the local traces in the given order and grouping, each lifeline of the signature belonging to exactly one co-localization (lifelines that are not mentioned get an empty local trace of their own); writing the result and reading it back gives the same multi-trace. Files with overlapping co-localizations or with actions on lifelines outside the co-localization are rejected with an error.",
 ["inputs"], "All signatures, canal declarations ([#any], [#all], explicit lists, bare traces) and traces.",
 "No test parses a trace file.",
 ["src/io/input/htf/", "src/io/output/to_hfiles/trace/", "src/core/colocalizations.rs"],
 ["canal parsing", "partition completion"], hook="parse/print through the cfg(hibou_verif) driver")
prop("C16", "Automata built from an interaction accept exactly its behaviours",
 "Every automaton the tool derives from an interaction (incrementally by execution, compositionally, deterministic or minimised) accepts only behaviours of the interaction, a behaviour being a sequence of multi-actions, synchronous communications included, and accepts all of them that need at most twice as many loop entries as there are loops (the limit of the construction; all behaviours, when the exploration stays below it). The composition of automata is exact for interactions where weak sequencing occurs only between actions in sequence or on a single lifeline; the tool says truthfully whether it agrees with the incremental automaton. Analysis of a global trace with the automaton re-enacts the trace exactly when it is an execution of the interaction, and reports a deviation otherwise.",
 ["programs", "inputs"], "All interactions for which the translation is defined; all global traces.",
 "No test builds an automaton; language equivalence quantifies over all words.",
 ["src/nfa_translation/", "src/process/explo/loggers/nfait/printer.rs", "src/ui/commands/cli_nfa_ana.rs"],
 ["exploration-based NFA construction", "Thompson-like compositional construction"], hook="automaton dump through the cfg(hibou_verif) driver",
 observe=["verdict line printed by `nfa_analyze`"])
prop("C17", "Slicing writes exactly the requested multi-slices",
 "Exhaustive slicing of a multi-trace writes one file for each way of cutting every local trace into a prefix (resp. suffix, resp. contiguous slice, the empty one counting once), containing exactly those parts, and no other; random slicing with a number n writes at least one (if n > 0) and at most n such multi-traces, one for each distinct choice of cut points, any choice being possible; with the wide option every component keeps at least a third of its length. Slicing ends without failing on every well-formed multi-trace.",
 ["inputs", "configurations"], "All multi-traces, slice kinds, seeds and requested numbers.",
 "No test slices a trace.",
 ["src/trace_manip/slice/"], ["cartesian product of local slices", "random choice of cut points"], observe=["files written by `slice`"])
prop("C18", "Trace mutations change exactly what they advertise",
 "With a budget of m: removing actions yields local traces that are subsequences of the original ones, m actions fewer in total (fewer only when a component ran out); swapping actions makes m transpositions within components (at most length - 1 summed over the components), keeping each local trace's multi-actions; swapping components replaces m (at most all but one) local traces by those of the other multi-trace and is refused when the co-localizations differ; inserting noise adds m single actions of the signature's messages on the component's own lifelines, anywhere (only at the end, at most one per component when so asked). Lifelines of components and everything else are unchanged, every position can be chosen, the mutated file itself is left alone, the mutant is written where announced, and no command fails on a well-formed multi-trace.",
 ["inputs", "configurations"], "All multi-traces, counts and random choices.",
 "No test mutates a trace.",
 ["src/trace_manip/mutate/", "src/experiments/next_action.rs"], ["random position selection", "bounded repetition"], observe=["files written by the `mutate_*` commands"])
prop("C19", "Ill-formed input is refused with an error, never silently misread",
 "Undeclared lifelines, messages or gates, empty or malformed operators, malformed or unknown options and options of another command, numbers out of range, groups of lifelines that overlap and files of another kind (extension) are reported as an error: the tool neither crashes nor goes on with a different meaning. Well-formed files are accepted, declared names being usable whatever their spelling, and each option of a configuration file has exactly the effect it names (the last declaration of an option counts, what is not declared has its default).",
 ["inputs"], "All texts of signature, interaction, trace and configuration files, all file names.",
 "No test exercises a parser, let alone an error path; the quantifier is over all texts.",
 ["src/io/input/hsf/", "src/io/input/hif/", "src/io/input/htf/", "src/io/input/hcf/", "src/ui/commands/"],
 ["PEG parsers", "conversion to terms with error propagation", "conversion to options"], hook="readers called through the cfg(hibou_verif) driver", observe=["messages and verdicts printed by the CLI"])
prop("C20", "Randomly generated interactions conform to the request",
 "Random generation writes the requested number of interactions (fewer only after the allowed number of failed tries), in files i0, i1, ... that can be read back; they are pairwise different, use only lifelines and messages of the signature and only constructs the chosen probabilities allow, are drawn no deeper than requested and have at least the requested number of symbols once simplified. The same seed gives the same interactions, and symbols are drawn as often as their probabilities say.",
 ["inputs", "schedules"], "All random draws, signatures and requests.",
 "No test generates interactions through the command; the quantifier is over all random choices.",
 ["src/experiments/interaction_random_gen/", "src/ui/commands/cli_rng_gen_interactions.rs"], ["probabilistic grammar", "retry loop with memoized results"], observe=["files written by `rng_gen_interactions`", "its output"])
prop("C21", "Reported metrics equal the metrics of the model",
 "The metrics of an interaction (symbols by kind and in total, term depth, loop nesting, lifelines) are those of the term, the metrics of its operational automaton (states, transitions) are those of that automaton, and the metrics of its minimal deterministic automaton are those of the smallest automaton of its language.",
 ["programs"], "All interactions.",
 "No test reads metrics.",
 ["src/core/language/syntax/metrics.rs", "src/ui/commands/cli_get_metrics.rs", "src/nfa_translation/experiments.rs"],
 ["structural recursion", "automaton minimisation"], observe=["summary printed by `get_metrics`"])
prop("C22", "PlantUML sequence diagrams keep the structure of the interaction",
 "The PlantUML sequence diagram written for an interaction contains exactly its communications, between the same participants with the same messages, in the same order and under the same nesting of fragments, every fragment being closed.",
 ["programs"], "All interactions made of the operators the translation supports.",
 "No test translates to PlantUML; the property ranges over all nestings of operators.",
 ["src/plantuml/sequence.rs", "src/core/language/syntax/util/get_recursive_frag.rs"],
 ["structural translation", "flattening of nested fragments"], observe=["file written by `puml_sd`"])
prop("C23", "PlantUML state machines have the local behaviours of each lifeline",
 "The PlantUML state diagram written for an interaction has one state machine per lifeline, whose words (a composite state being run any number of times, forks interleaving their branches) are the sequences of emissions and receptions which that lifeline may see in the behaviours of the interaction.",
 ["programs"], "All interactions without co-regions, synchronised products and messages to oneself; iterations of loopP may or may not be interleaved.",
 "No test translates to PlantUML; the property is about all words of all interactions.",
 ["src/plantuml/automata_product.rs", "src/core/language/eliminate_lf/"],
 ["structural translation to fork/join/choice nets", "projection"], observe=["file written by `puml_ap`"])
prop("C25", "Automata of glosem: whole, minimal, and with each lifeline hidden",
 "For every interaction, glosem writes the automaton of the interaction's behaviours, the minimal deterministic automaton that accepts the same words, and, for each lifeline of the signature, two automata (with and without silent moves) accepting exactly the words of the first one in which the letters that involve this lifeline are erased.",
 ["programs"], "All interactions without messages to oneself (the drawings made along the way do not support them).",
 "No test runs glosem; the property is about all words of all interactions.",
 ["src/ui/commands/cli_glosem.rs", "src/process/canon/", "src/core/execution/"],
 ["operational determinisation", "erasure of letters in an automaton"], observe=["dot files written by `glosem`", "reported numbers of states"])
prop("C26", "Searches follow their strategy, priorities, filters and memoization",
 "Explorations and analyses are run as configured. Breadth first serves the oldest node that has steps left, depth first the newest, and hybrid search dives and takes up the oldest again after each node it cannot leave. Of one node, steps are taken in decreasing order of priority (the levels of emission and reception counted per action, of multi_rdv per action of the multi-action, of loop per loop entered, of elim per removed component, of simu per simulated component). A step is cut exactly when it exceeds the depth, loop depth or node number of a filter. Memoization recognises a node only when one was reached that is the same in all that matters and has not spent more. A search goes on until nothing is left or its goal is reached; every step of every other node is then taken or cut, and the verdict and node count are those of the nodes reached (an exploration reports dead locks exactly if it met a node with no steps that does not accept).",
 ["schedules", "inputs", "configurations"], "All interactions, multi-traces and search configurations.",
 "No test runs a search with a strategy, priorities, filters or memoization; the property is about every decision of every run.",
 ["src/process/explo/handling/handler.rs", "src/process/ana/priorities.rs", "src/process/ana/filter/filter.rs", "src/process/ana/node/node.rs", "src/process/explo/", "src/process/ana/", "src/io/input/hcf/"],
 ["steps offered to the work queue of graph_process_manager_core", "priority computation", "filter criteria", "subsumption of nodes"], hook="search log through a logger installed by the cfg(hibou_verif) driver",
 observe=["node count and verdict printed by `explore` and `analyze`", "graphs and traces written by the loggers"])
prop("C27", "Drawn terms and graphs of searches show what was given and computed",
 "The tree drawn for an interaction (`draw -r tt`) has exactly the nodes, labels and edges of its term: reading it back gives the interaction. In the graph of an exploration drawn by the graphic logger, the first node is the given interaction; every drawn step is named after a position at which the term of its origin can be executed (shared branches of an alternative and synchronised actions at several positions at once) and leads to the term of what remains; steps and cuts together are all the positions, none is drawn twice; nodes are marked accepting or dead locked as their term is; the legend, the reported number of nodes and verdict agree with the nodes drawn. The same holds of the graphs of analyses (steps may also remove lifelines) and of canonizations (steps keep the meaning).",
 ["programs", "inputs", "configurations"], "All interactions, multi-traces and configurations with a graphic logger drawing terms.",
 "No test draws anything; the property is about every node and step of every graph.",
 ["src/io/output/draw_interactions/as_term/", "src/loggers/graphviz/", "src/process/explo/loggers/glog/drawer.rs", "src/process/ana/loggers/glog/drawer.rs", "src/process/canon/loggers/glog/drawer.rs", "src/core/language/position/position.rs"],
 ["labels of the nodes of a term tree", "textual form of positions", "names and edges of drawn steps"], observe=["dot files written by `draw`, `explore`, `analyze` and `canonize`"])
prop("C24", "Drawn diagrams depict the interaction",
 "Drawings of interactions, terms and multi-traces show each action, operator, lifeline and message of the model at its place.",
 ["programs"], "All interactions and multi-traces.",
 "Raster output is not inspected by any test.",
 ["src/io/output/draw_interactions/", "src/io/output/draw_traces/"], ["raster drawing"], observe=["PNG files written by `draw`"])

out = os.path.join(os.path.dirname(__file__), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
ids=[p["id"] for p in P]; assert len(set(ids))==len(ids)
for p in P: assert len(p["title"])<=80, p["id"]
