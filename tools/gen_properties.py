#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

p("C01", "Queries return exact posterior probabilities",
  "For every Bayesian network, every evidence assignment and every set of query variables, the probabilities returned for each query variable are the exact conditional probabilities of its outcomes given the evidence (up to floating-point rounding), and the accompanying factor holds the joint probability of query outcomes and evidence. Evidence that has probability zero is reported as undefined (not-a-number) for every outcome and never as a definite probability.",
  ["inputs", "configurations"], "all acyclic networks (any structure, arities, tables, declaration order), all evidence assignments, all query sets",
  "The tests query two fixed networks with one evidence assignment each; a wrong stride, elimination step or skipped factor shows only for particular structures, arities or evidence.",
  ["ve/ve.go", "ve/variables.go", "ve/factor.go", "network.go"],
  [("evidence restriction, hidden-variable elimination, final product", "ve/ve.go solve/eliminateHidden/removeHidden"), ("network to solver translation and row normalisation", "network.go toVE"), ("marginal and normalise", "ve/variables.go Marginal/Normalize")],
  observe=["Network.SolveQuery"])
p("C02", "Answers do not depend on how a network is written down",
  "Two descriptions of the same network give the same posteriors, expected utilities and decision policies: multiplying any row of a chance table by a positive constant, listing variables or factors in another order, listing parents in another order (with the table re-indexed), or reordering outcomes (with tables re-indexed) changes no answer other than by the corresponding relabelling (policies and what follows from them: for decisions whose temporal order is given by the network's links).",
  ["inputs", "configurations"], "all networks within bounds, all row scalings from an alphabet, all permutations of variables, factors, parents and outcomes",
  "Tests use one fixed way of writing each network; decisions are always declared in temporal order there.",
  ["network.go", "ve/ve.go", "ve/variables.go"],
  [("row normalisation", "ve/variables.go NormalizeFor"), ("topological order of decisions", "ve/ve.go sortTopological"), ("name lookup", "network.go toVE")],
  observe=["Network.SolveQuery", "Network.SolveUtility", "Network.SolvePolicies"])
p("C03", "Factor operations compute their textbook definition",
  "Product, sum, summing out, restriction, marginal, normalisation, per-variable normalisation, inversion, re-ordering and policy extraction on factors give, for every assignment of the involved variables, exactly the value their definition prescribes, whatever the variable order, number of outcomes and number of operands. They leave their operands unchanged, share no storage with them, and every factor created from one variable set has its own id.",
  ["inputs", "histories"], "all factor scopes over up to four variables in all orders, arities 1..4, all operand tuples and chains of operations within bounds",
  "Each operation is tested on one or two hand-written factors of two variables.",
  ["ve/variables.go", "ve/factor.go"],
  [("mixed-radix index mapping", "ve/factor.go Index/Outcomes/increment"), ("factor operations", "ve/variables.go")],
  observe=["ve.Variables methods"])
p("C04", "Table positions and outcome combinations correspond one to one",
  "For every table shape, converting outcome indices to a flat position and back is a bijection in row-major order with the last variable fastest; row access returns exactly the values for the given outcomes of the leading variables, both for solver factors and for the tables of network variables; reading back a value that was set returns it and changes nothing else; missing data (-1) in any position is reported as missing.",
  ["inputs"], "all table shapes up to four variables with arities 1..4 (and single wide variables), every index",
  "Tests evaluate a handful of indices on two shapes, and network row access is never called at all.",
  ["ve/factor.go", "network.go"],
  [("flat indexing", "ve/factor.go"), ("row lookup", "network.go Factor.Row/rowIndex")],
  observe=["ve.Factor.Index/Outcomes/RowIndex/Row/Get/Set/IndexWithNoData", "bbn.Factor.Row"])
p("C05", "Results do not depend on unordered-map iteration order",
  "Solving the same question on the same network gives the same answer in every run: posteriors, utilities, policies and saved output are independent of the unspecified order in which the runtime enumerates unordered collections (numeric results up to rounding, policies identically when the arithmetic is exact).",
  ["schedules", "configurations"], "every permutation (within the deviation bound) of every unordered iteration the solver performs",
  "A test run sees one random iteration order per execution; an order-dependent result passes most of the time.",
  ["ve/ve.go", "network.go", "xml.go", "internal/tui/app.go"],
  [("map of factors keyed by id, hidden-variable map, dependency map, policy map", "ve/ve.go, network.go"), ("degree sort with id tie-break", "ve/ve.go eliminateHidden")],
  observe=["Network.SolveQuery/SolveUtility/SolvePolicies"])
p("C06", "Solved decision policies maximise expected utility",
  "Solving a decision network yields policies that achieve the maximum expected (weighted) total utility among all strategies, whenever each decision is declared to know the earlier decisions and everything known to them; this holds for stepwise and joint solving and for any declaration order of the variables. With less declared information, each policy still maximises expected utility given what the decision knows (plus the other decisions not yet solved), with later decisions following their solved policies.",
  ["inputs", "configurations"], "all decision networks within bounds: structure, number of sequential decisions, utility scopes, weights and table values",
  "Tests solve three fixed examples whose decisions are declared in temporal order; optimality quantifies over all strategies and all networks.",
  ["ve/ve.go", "network.go", "ve/variables.go"],
  [("reverse topological policy computation", "ve/ve.go solvePolicies"), ("utility summation and weighting", "ve/ve.go sumUtilities"), ("policies re-inserted as chance factors", "network.go toVE/policyFactors")],
  observe=["Network.SolvePolicies", "Network.SolveUtility"])
p("C07", "Every decision gets a well-formed policy over available information",
  "Solving returns exactly one policy per decision variable; each policy is conditioned only on information available at that decision (its declared parents, decisions that do not come after it, and in joint solving what those knew), its table covers exactly the combinations of those variables, every row is a probability distribution, and outcomes with equal maximal expected utility share the probability equally while all others get zero. A decision that has no influence on any utility is solved like any other (all its outcomes tie).",
  ["inputs", "configurations"], "all decision networks within bounds, including irrelevant decisions, ties, impossible observations and networks without utilities",
  "Tests compare three fixed policies; irrelevant decisions and multi-way ties are never solved.",
  ["ve/ve.go", "ve/variables.go", "network.go"],
  [("arg-max with tie sharing", "ve/variables.go Policy"), ("decision factor selection", "ve/ve.go findDecisionFactors"), ("policy result assembly", "network.go SolvePolicies")],
  observe=["Network.SolvePolicies"])
p("C08", "Expected utilities are exact and weighted as declared",
  "For every decision network, evidence and query, the utility result divided by the probability of evidence and query is the exact conditional expectation of the selected utility variable, or of the total: the plain sum of all utility variables, or the sum weighted by the total-utility variable's table with each weight applied to the utility it is declared for, in whatever order they are listed. Decisions that are neither solved nor given remain as free variables of the result.",
  ["inputs", "configurations"], "all decision networks within bounds, all evidence, query sets, utility selections and weight vectors (including zero and negative)",
  "Tests check one total utility of one network; weights are never tested.",
  ["ve/ve.go", "network.go", "ve/variables.go"],
  [("utility summation and weighting", "ve/ve.go sumUtilities/removeUtilities"), ("weight lookup by name", "network.go prepareUtilityWeights"), ("normalised utility", "network.go NormalizeUtility")],
  observe=["Network.SolveUtility", "Network.NormalizeUtility"])
p("C09", "Evidence on decisions: follow the policy or override it",
  "After solving policies, evidence on a decision is by default an observation of an agent that follows its policy (results are conditioned on it and are undefined if the policy never chooses it). With policies ignored, a decision given as evidence is instead set by force: its policy has no influence on any result, while decisions without evidence still follow theirs; without decision evidence the two modes agree.",
  ["inputs", "histories"], "all decision networks within bounds, every subset of decisions given as evidence, both modes",
  "No test sets evidence on a solved decision.",
  ["network.go", "internal/tui/solve.go"],
  [("policy factors are left out for decisions with evidence", "network.go policyFactors"), ("mode selection", "network.go solve")],
  observe=["Network.SolveQuery", "Network.SolveUtility"])
p("C10", "Solver calls are repeatable and free of side effects",
  "The answer to any query, utility or evidence request depends only on the network definition and the most recent policy solution, never on other calls made before it, successful or failed. Solving does not change variables or tables, and results handed out earlier are neither changed by later calls nor, when the caller modifies them, able to influence them.",
  ["histories"], "all sequences of library calls up to the depth bound on a set of networks, with the caller overwriting returned data at any point",
  "Tests perform one or two calls per network object.",
  ["network.go", "ve/ve.go", "ve/variables.go"],
  [("fresh solver per request", "network.go toVE"), ("policies cleared and rebuilt", "network.go SolvePolicies"), ("copying factor operations", "ve/variables.go")],
  state=[("policies", "policies of the last solution", "network.go Network.policies"), ("ve/variableNames", "solver of the last request", "network.go Network")],
  observe=["all Network methods"])
p("C11", "Saving to YAML and loading again preserves the network",
  "Writing any valid network as YAML and reading it back gives the same network: name, info text, and for each variable its name, type, outcomes, parents, position, colour and every table value exactly, in the same order. Saving the reloaded network produces the identical text.",
  ["inputs"], "all networks within bounds with names, outcomes and texts from an alphabet of YAML-sensitive strings and table values from an alphabet of extreme floats",
  "One network with plain names is round-tripped; info and colour are never saved in a test.",
  ["yml.go"],
  [("YAML encoding", "yml.go ToYAML"), ("YAML decoding", "yml.go FromYAML")],
  observe=["ToYAML", "FromYAML"])
p("C12", "BIF-XML and YAML descriptions of a network load identically",
  "A network written as BIF-XML, with definitions in any order and any white space or comments in its tables, loads to the same variables (name, type, outcomes, parents, table values) and gives the same answers as the same network written as YAML. Positions given as properties are read and scaled by 2 and 12, and loading by file chooses the format by the file extension, ignoring case.",
  ["inputs"], "all networks within bounds, all orders of definitions, layout variants of the XML, extensions",
  "One XML example is loaded without looking at the result.",
  ["xml.go", "yml.go", "network.go"],
  [("XML decoding", "xml.go FromBIFXML/parsePosition"), ("format choice", "network.go FromFile")],
  observe=["FromBIFXML", "FromFile"])
p("C13", "Malformed networks are rejected with an error, never a crash",
  "Creating or loading a network either returns an error or returns a network that can be queried, solved, trained and saved without crashing. Definitions with duplicate variables, unknown or repeated parents, cycles, unknown types, fields or logic operators, logic arguments that do not fit, a table in addition to a logic operator, tables whose size does not match outcomes and parents, missing XML definitions, or inconsistent utility declarations are rejected.",
  ["inputs"], "every single and pairwise mutation, from a mutation alphabet, of valid YAML, XML and programmatic definitions",
  "No test feeds a malformed definition.",
  ["network.go", "yml.go", "xml.go", "logic/outcome.go", "logic/given.go"],
  [("constructor validation", "network.go prepareVariables/prepareUtilityNodes"), ("parser validation", "yml.go toTable, xml.go FromBIFXML")],
  observe=["New", "FromYAML", "FromBIFXML"])
p("C14", "Logic operators produce the truth tables they are named for",
  "For every logic operator, every admissible number of parents and every argument, the generated table gives each combination of parent outcomes (first outcome is true; first parent varies slowest) the outcome the operator's documentation states, as a proper probability row; parent and outcome arguments are zero-based positions counted from the first. Operators looked up by name equal those built by their constructor, names are case-insensitive in network files, and an unsupported number of parents or arguments is an error.",
  ["inputs"], "all operators, all parent counts up to the bound, all argument tuples, all parent assignments",
  "Tests check one argument value with three parents, symmetric in the parent order, and only a third of the operators.",
  ["logic/simple.go", "logic/count.go", "logic/given.go", "logic/outcome.go", "logic/bits.go", "logic/factor.go", "yml.go"],
  [("operator tables", "logic/*.go"), ("name registry", "logic/factor.go Get"), ("operator syntax", "yml.go toTable")],
  observe=["logic.Get", "logic constructors", "FromYAML + SolveQuery"])
p("C15", "Independent networks and logic operators do not interfere",
  "Logic operators obtained by separate look-ups and networks loaded from separate definitions share no mutable state: for every interleaving of operations on them, including loading and solving in concurrent goroutines, each gives the result it would give alone.",
  ["schedules", "histories"], "all interleavings (within the preemption bound) of two goroutines loading and solving different networks; all operation sequences on two operator handles",
  "Tests are single-threaded and use one operator handle at a time.",
  ["logic/factor.go", "logic/count.go", "yml.go", "ve/variables.go", "network.go"],
  [("operator registry", "logic/factor.go factors/Get"), ("argument setting on shared operator", "yml.go toTable")],
  state=[("factors", "package-level operator registry", "logic/factor.go")],
  observe=["logic.Get", "FromYAML", "Network methods"])
p("C16", "Training sets tables to observed frequencies and mean utilities",
  "After training, every row of a chance variable holds the relative frequencies of its outcomes among the samples with that combination of parent outcomes, and every row of a utility variable holds the mean of the observed utilities; a sample with a missing value is left out exactly for the variables that need that value. Decision variables and total-utility weights are left alone, and the result does not depend on sample order. If a row has no samples, an error is returned and the network is unchanged.",
  ["inputs", "histories"], "all networks and sample sequences within bounds, including missing values and repeated updates",
  "Tests train two networks with four samples each and look at a derived policy only.",
  ["training.go", "network.go"],
  [("row counting", "training.go AddSample"), ("table update", "training.go UpdateNetwork"), ("row index with missing data", "network.go rowIndex")],
  observe=["Trainer.AddSample", "Trainer.UpdateNetwork"])
p("C17", "Training from CSV files uses the right columns and missing values",
  "Training from a CSV file, by library or command line, equals training on the table's rows: columns are matched to variables by header name in any order, extra columns are ignored, the given delimiter and missing-value marker are honoured for chance, decision and utility variables alike, and a missing column, unknown outcome or unparsable utility is reported as an error without output of a network.",
  ["inputs"], "all column orders, delimiters, missing-value markers and small data sets within bounds, including faulty files",
  "No test reads a CSV file.",
  ["internal/tui/training.go", "cmd/bbn/train.go", "internal/tui/app.go", "cmd/bbni/main.go"],
  [("column mapping and value decoding", "internal/tui/training.go"), ("command line flags", "cmd/bbn/train.go, cmd/bbni/main.go")],
  observe=["bbn train output", "bbni -t display"])
p("C18", "Command-line inference prints the correct results for its evidence",
  "For every network file and evidence list, the inference command prints for each variable its posterior in percent (one-hot and marked for evidence variables) and for each utility variable its expected value and the expected total under the solved policies, to three decimals; undefined results of impossible evidence are never printed as definite numbers. Unknown variables, unknown outcomes, evidence on utility variables or malformed evidence give an error message and exit status 1, never a crash or a printed result.",
  ["inputs"], "all evidence assignments (and faulty evidence lists) on a set of networks and all shipped examples",
  "One test calls the command function once and ignores its result.",
  ["cmd/bbn/inference.go", "internal/tui/solve.go", "internal/tui/util.go"],
  [("evidence parsing", "internal/tui/util.go ParseEvidence"), ("result assembly", "internal/tui/solve.go")],
  observe=["bbn inference stdout and exit status"])
p("C19", "The interactive app shows the results for the evidence the user set",
  "After any sequence of key presses and mouse clicks, the app has not crashed, exactly the node and outcome the user navigated to are marked as selected, exactly the toggled outcomes are evidence, and every node shows the posterior probabilities or expected utilities for that evidence and policy mode (undefined values as ???). Toggling an outcome again removes it, choosing another outcome replaces it, and utility nodes take no evidence.",
  ["histories"], "all sequences of user events up to the depth bound on a set of networks, state space explored breadth-first to closure where finite",
  "No test sends an event to the app.",
  ["internal/tui/input.go", "internal/tui/app.go", "internal/tui/render.go", "internal/tui/node.go", "internal/tui/solve.go"],
  [("event handlers", "internal/tui/input.go"), ("display", "internal/tui/render.go, node.go"), ("results", "internal/tui/solve.go")],
  state=[("evidence/selectedNode/selectedState/ignorePolicies", "UI state", "internal/tui/app.go App")],
  observe=["terminal screen contents"])
p("C20", "The app saves the network as shown, next to the original file",
  "Saving from the graph view of the app at any point writes a YAML file named after the loaded file with the suffix -save that loads to the same network, with exactly the positions of the nodes as moved by the user and nothing else changed, whatever evidence, policy mode or dialogs were used before. The original file is never modified, and nodes cannot be moved to negative positions.",
  ["histories"], "all sequences of move, select, evidence and save events up to the depth bound on a set of networks",
  "No test saves or moves a node.",
  ["internal/tui/input.go", "yml.go"],
  [("saving", "internal/tui/input.go saveNetwork"), ("moving nodes", "internal/tui/input.go moveNode"), ("encoding", "yml.go ToYAML")],
  observe=["saved file", "terminal screen contents"])
p("C21", "Result helpers keep every value attached to its outcomes",
  "For every result factor, re-arranging it by variable names yields the requested variables first in the requested order with the last one last and the others between, and each value stays with its combination of outcomes; the marginal of a variable is the sum over the other variables; normalising makes values sum to one in unchanged proportion; dividing a utility result by a probability result divides matching combinations, whatever the variable order of the two.",
  ["inputs"], "all result factors of networks within bounds, all ordered selections of their variables",
  "One test checks three orders of variable lists, without values.",
  ["network.go", "ve/variables.go"],
  [("name-based re-arrangement", "network.go Rearrange/rearrangeVariables"), ("marginal/normalise", "network.go Marginal/Normalize/NormalizeUtility")],
  observe=["Network.Rearrange/Marginal/Normalize/NormalizeUtility"])
p("C22", "Invalid requests fail with an error and leave the network usable",
  "A query, utility or evidence request naming an unknown variable, an unknown outcome, or a variable of the wrong kind (utility variables as evidence or query) returns an error instead of a result or a crash; all later valid requests give the same answers as if it had not been made. A query variable that is also evidence is reported with certainty for the observed outcome.",
  ["inputs", "histories"], "all requests over an alphabet of valid and invalid names in every role, before and after policy solving",
  "No test makes an invalid request.",
  ["network.go"],
  [("request validation", "network.go solve"), ("evidence conversion", "network.go ToEvidence")],
  observe=["Network.SolveQuery/SolveUtility/ToEvidence"])
p("C23", "The app's table dialog shows each value with its parent outcomes",
  "The table dialog of a node lists one line per combination of parent outcomes, in table order and labelled with those outcomes, showing chance and policy rows as percentages of their row sum and utility rows as plain values; for decisions it shows the solved policy. It opens for the selected or clicked node, and closing it returns to the unchanged graph.",
  ["inputs", "histories"], "all nodes of a set of networks, opened by key and mouse after every short event sequence",
  "No test opens the dialog.",
  ["internal/tui/table.go", "internal/tui/input.go", "internal/tui/app.go"],
  [("row labels and values", "internal/tui/table.go"), ("policy attached to decision nodes", "internal/tui/app.go Run")],
  observe=["terminal screen contents"])
p("C24", "Low-level elimination is exact for arbitrary factors and variable ids",
  "The low-level solver, given any set of factors over variables with arbitrary unique ids, returns for every query and evidence the product of all factors restricted to the evidence and summed over the other chance variables, and for utilities and policies the corresponding weighted expectation and optimum, independent of ids, variable order and the order of factors. Re-using a variable id in one variable set is refused.",
  ["inputs", "configurations"], "all small factor sets within bounds (not only conditional tables), id assignments including non-contiguous and permuted ids, evidence and queries",
  "Tests use ids equal to positions and one factor per variable.",
  ["ve/ve.go", "ve/variables.go", "ve/variable.go"],
  [("id versus index handling", "ve/ve.go eliminated/isDecisionParent by index, hidden by id"), ("duplicate id check", "ve/variables.go AddVariable")],
  observe=["ve.VE.SolveQuery/SolveUtility/SolvePolicies"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for q in P:
        f.write(json.dumps(q, ensure_ascii=False) + "\n")
print(len(P))
