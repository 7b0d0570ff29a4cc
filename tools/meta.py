#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json: run it after changing a property here.

Kept in one place so that the statements, the checks and what is claimed stay in step.
"""
import json, os, subprocess

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    if hook:
        a["hook_needed"] = hook
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                   anchors=a), technique, note))


IN, SCH, CFG, HIS, FLT = "inputs", "schedules", "configurations", "histories", "fault_sequences"
COMMON = "Holds on the executions counted in the evidence, for the generated distribution; trusts the harness' models of features, trees and targets and the Go tool chain."

prop("C01", "A split divides cases into exactly left, right and missing",
     "For any feature, any list of cases and any split, dividing the cases puts those whose value is missing in the missing group, those whose numerical value is at most the threshold or whose category is among the left ones on the left and all others on the right, keeping every occurrence of every case exactly once. All ways to apply a split agree on this: from its coded form, from its decoded form, case by case and in place (where the list is only reordered into left, missing, right and the boundaries are reported). Neither the values nor the set of missing cases of the feature change.",
     [IN], "every numerical feature (ties, infinities, denormals), every categorical feature (1 to 130 categories, small and big bit sets), every list of cases with repeats and every split",
     "Existing tests split a handful of fixed features with few categories and no case lists with repeats or missing values on thresholds.",
     ["densenumfeature.go", "densecatfeature.go", "splitter.go"],
     [("threshold comparison and in place partition of numerical splits", "densenumfeature.go Split, SplitPoints, GoesLeft, DecodeSplit"),
      ("bit sets of categories, small and big", "densecatfeature.go Split, SplitPoints, GoesLeft, DecodeSplit"),
      ("splits by name", "splitter.go Split")],
     "runtime monitor: partition oracle over generated features and splits",
     COMMON, observe=["returned groups, the reordered list and the decoded splitter"])

prop("C02", "A tree sends each case to exactly one leaf or drops it",
     "Applying a tree to data sends each case along the branches its values select and gives it the prediction of the one leaf it ends on with the tree's weight (one if the tree has none), and no prediction if it misses a value a node without a missing branch splits on. Voting for all or some cases, partitioning, listing leaves and recursing agree on this whether or not the tree still carries the codes of its training data, and trees without codes work by name on data with reordered features and renumbered or unseen categories, where features that aren't there are missing. Applying a tree changes neither the tree nor the data.",
     [IN], "every tree shape up to depth 6 with missing branches, weights and splits on seen and unseen values, and every table including tables the tree wasn't grown on",
     "Existing tests vote with a few grown trees on iris and boston and compare only error rates.",
     ["tree.go", "node.go", "splitter.go"],
     [("recursion through branches", "node.go Recurse, CodedRecurse"), ("voting", "tree.go Vote, VoteCases"),
      ("leaf partition and listing", "tree.go Partition, GetLeaves"), ("stripping of codes", "tree.go StripCodes"), ("building from paths", "tree.go AddNode")],
     "runtime monitor: reference interpreter of trees compared with recorded votes", COMMON,
     observe=["votes received by a recording ballot box", "partitions and leaves"])

prop("C03", "The numerical split search returns the best allowed threshold",
     "Searching a numerical feature for a split returns a threshold that leaves at least the minimum number of cases with known values on both sides and reports exactly the decrease of the target's impurity it brings over the searched cases (counting cases missing the feature as a group of their own). No other allowed threshold decreases the impurity of the cases with known values more, and no split is reported only if none decreases it. A feature is declared constant only when no allowed threshold exists, and a random search returns an allowed and honestly valued threshold too.",
     [IN, CFG], "every numerical feature with ties and missing values, every kind of target, bag of cases and minimum leaf size",
     "Existing tests check the chosen threshold of a few small features for plain targets without missing values.",
     ["densenumfeature.go", "sortablefeature.go", "sortby/sortby.go"],
     [("sorted sweep over thresholds with incremental impurity", "densenumfeature.go BestNumSplit"), ("correction for missing values", "densenumfeature.go BestSplit"),
      ("sorting of cases by value", "sortby/sortby.go")],
     "runtime monitor: brute force enumeration of thresholds as oracle",
     COMMON + " Optimality is only decided where values differ by more than 1e-6; decreases are compared with a tolerance of 1e-9 relative to the magnitude of the terms.")

prop("C04", "The categorical split search returns an allowed, truthfully valued split",
     "Searching a categorical feature returns a set of left categories that leaves at least the minimum number of cases with known values on both sides and reports exactly the decrease of the target's impurity it brings (counting cases missing the feature as a group of their own). With up to five categories no other allowed set decreases the impurity of the cases with known values more, and with more the result is at least as good as the best single category and can't be improved by adding one. This holds for any number of categories, exhaustive, iterative and random search.",
     [IN, CFG], "every categorical feature with 1 to 70 categories, with and without missing values, every kind of target, bag of cases and minimum leaf size",
     "Existing tests search a few features with under six categories for one target; the iterative and big searches are only smoke tested.",
     ["densecatfeature.go"],
     [("two categories", "densecatfeature.go BestBinSplit"), ("exhaustive search", "densecatfeature.go BestCatSplit, BestCatSplitBig"),
      ("iterative search", "densecatfeature.go BestCatSplitIter, BestCatSplitIterBig"), ("correction for missing values", "densecatfeature.go BestSplit")],
     "runtime monitor: enumeration of category sets as oracle",
     COMMON + " Random search over more than ten categories has to be allowed and honest, not optimal.")

prop("C05", "A node is split on the best of at most mTry random candidates",
     "The split chosen for a node is the one with the largest decrease (out of bag, or after subtracting what a shuffled copy of the target yields, if asked to) among the candidate features evaluated, and none is chosen if no decrease exceeds the minimum or the node is pure. At most mTry of the candidates not known to be constant are evaluated, each at most once, all of them if mTry covers all, and with forcing on until at least one that isn't constant was tried. Every candidate is equally likely to be drawn, the list of candidates keeps its members and constant ones are found at its end for the node's descendants.",
     [IN, HIS], "every table, candidate list, mTry, option combination and the sequence of searches down a path of a tree",
     "Existing tests only look at the feature that wins on fixed data; what is evaluated, how often and in which distribution isn't observed.",
     ["featurematrix.go", "sampeling.go"],
     [("drawing of candidates without replacement and tracking of constants", "featurematrix.go BestSplitter"), ("candidate sampling", "sampeling.go SampleFirstN"),
      ("contrast and out of bag evaluation", "featurematrix.go BestSplitter")],
     "runtime monitor: spies on evaluated features checked against a trace specification",
     COMMON + " Vetting is decided for the plain targets; draw frequencies may deviate by 6.5 standard deviations.")

prop("C06", "Impurities and their incremental updates equal their definitions",
     "The impurity every kind of target reports for a set of cases, and for a split of them into left, right and missing, equals the documented definition evaluated from scratch on the target's values, costs, weights or constraints. This holds after any sequence of incremental moves of cases from right to left, so that the value never depends on how a split was reached. Impurities of a pure set are zero (or the target's value for nothing left to gain) and are never negative or not a number.",
     [IN, HIS], "every kind of target with its parameters, every bag of cases with repeats, every partition and every sequence of moves",
     "Existing tests compare a few hand calculated values for some of the targets and don't follow incremental updates.",
     ["densenumfeature.go", "densecatfeature.go", "l1target.go", "ordinaltarget.go", "numadaboostingtarget.go", "gradboosttarget.go", "gradboostclasstarget.go", "entropytarget.go", "regrettarget.go", "wrftarget.go", "NPtarget.go", "dentropytarget.go", "adaboosttarget.go", "adacosttarget.go", "hdistancetarget.go", "transduction.go", "densitytarget.go"],
     [("impurity of a set", "*target.go Impurity"), ("impurity of a split", "*target.go SplitImpurity"), ("incremental update of counts", "*target.go UpdateSImpFromAllocs, densecatfeature.go MoveCountsRtoL")],
     "runtime monitor: definitions evaluated from scratch as oracle for every value", COMMON + " Tolerance 1e-9 relative to the magnitude of the terms; empty sides have no defined impurity.")

prop("C07", "Grown trees respect their data, options and termination rules",
     "In every grown tree (or jungle) every node is reached by at least one training case, splits only on candidate features, respects minimum leaf size and maximum depth, has a missing branch exactly when asked for and a case needs it, and each leaf predicts what the target predicts for the training cases it holds. When every candidate is searched a leaf is only left where no allowed split decreases impurity and every split is a best one; growing into an already grown tree gives the same as growing a fresh one. Training leaves the data and the lists of cases and candidates with the members they had.",
     [IN, CFG, HIS], "every learning problem, kind of target and combination of growing options",
     "Existing tests grow forests on a few data sets and compare error rates, which stay good when single nodes are wrong.",
     ["tree.go", "node.go", "featurematrix.go"],
     [("recursive growth", "tree.go Grow, node.go CodedRecurse"), ("level wise growth with merging", "tree.go GrowJungle"), ("termination and leaves", "tree.go Grow")],
     "runtime monitor: structural invariants of grown trees with cases routed by the harness", COMMON)

prop("C08", "A leaf predicts the documented statistic of its cases",
     "The prediction made for any set of training cases is the documented statistic of their known target values: the mean, the most common value, the label with the largest (cost, weight or constraint adjusted) count, the portion of the positive class, the boosting step or the density. Repeated cases count as often as they occur and missing target values don't count. Making a prediction changes neither the cases nor the target.",
     [IN, CFG], "every kind of target with its parameters and every bag of cases",
     "Existing tests check predictions of a few targets on single hand made bags.",
     ["densenumfeature.go", "densecatfeature.go", "ordinaltarget.go", "regrettarget.go", "wrftarget.go", "NPtarget.go", "dentropytarget.go", "hdistancetarget.go", "transduction.go", "densitytarget.go", "gradboostclasstarget.go"],
     [("predictions of leaves", "FindPredicted of all targets"), ("mean and mode", "densenumfeature.go Mean, densecatfeature.go Modei")],
     "runtime monitor: predictions compared with definitions", COMMON + " Any of the labels that tie may be predicted.")

prop("C09", "Votes are tallied exactly and errors follow from the tallies",
     "Whatever votes are cast in whatever order, a case's tally is the label with the largest total weight (of labels that tie the lexicographically smallest), the weighted mean or the weighted sum of its votes, and NA (or zero for sums) without votes. Predictions that aren't numbers don't count in means and sums. The errors reported are exactly the balanced error over labels present, the mean squared error over cases with votes and known targets, and that error relative to the variance of the target, independent of the order of votes.",
     [IN, HIS], "every sequence of weighted votes for every categorical or numerical target with missing values",
     "Existing tests cast a few votes in one order and don't cover ties, cases without votes or missing targets.",
     ["catballotbox.go", "numballotbox.go", "sumballotbox.go", "utils.go"],
     [("tallies", "catballotbox.go Tally, numballotbox.go Tally, sumballotbox.go Tally"), ("errors", "catballotbox.go TallyError, numballotbox.go TallySquaredError, TallyError, TallyR2Score"), ("running means", "utils.go RunningMean")],
     "runtime monitor: ledger of votes as oracle", COMMON)

prop("C10", "Shared votes, means and counters lose nothing under concurrency",
     "Ballot boxes, running means and sparse counters used by any number of go routines at once end with exactly the totals of the same operations done one by one. Reading them at any time is safe and never returns torn values. Go routines growing trees on shared data, each with its own working memory, grow the trees they would grow alone, and no memory access of any of this is a data race.",
     [SCH, HIS], "every interleaving of voting, adding, reading and growing by up to 12 go routines",
     "Existing tests are single threaded and run without the race detector.",
     ["catballotbox.go", "numballotbox.go", "sumballotbox.go", "utils.go", "tree.go", "splitallocations.go"],
     [("locks around votes", "catballotbox.go Vote, numballotbox.go Vote, sumballotbox.go Vote"), ("locks around means and counters", "utils.go RunningMean, SparseCounter"),
      ("working memory per go routine", "splitallocations.go BestSplitAllocs")],
     "race detector and conservation monitor under stress with random yields",
     "Holds on the interleavings the Go scheduler and random yields produced (counted in the evidence); a race is reported when the race detector sees it happen.")

prop("C11", "Training on many cores is race free and grows exactly the trees asked for",
     "For any number of cores and trees, training ends, grows exactly the requested number of trees in every forest, each from its own bag of valid training cases, and is free of data races. The forest file holds exactly the grown trees, each complete, whatever the order the cores finish in. This includes out of bag voting, progress reports, importance, repeated forests for contrast analysis and self tests.",
     [SCH, CFG], "every interleaving of up to 12 training go routines and every combination of outputs and growing options",
     "Existing tests don't run the command at all, and nothing in them runs trees concurrently under the race detector.",
     ["growforest/growforest.go", "forestwriter.go", "catballotbox.go", "utils.go"],
     [("hand out of trees and recording under a lock", "growforest/growforest.go grow"), ("forest file", "forestwriter.go WriteTree"), ("per core working memory", "growforest/growforest.go grow")],
     "race detector, injected delays and conservation monitor over recorded trees",
     "Holds on the schedules produced by the Go scheduler and random delays injected after each tree; trees are recorded by a hook in the training loop.",
     observe=["every grown tree with its bag, the forest file and the report"], hook="growforest/verif_hook.go records each grown tree and its cases")

prop("C12", "Bags follow the sampling options and out of bag estimates are honest",
     "Every tree is grown from a bag of the requested size of cases with known targets: drawn with equal chances and replacement, all (or without replacement some) of them without bagging, or balanced over the target's labels, also within the categories of another feature at their rate. Out of bag predictions and error are exactly the tallies of the trees' votes for cases not in their own bags, so that no tree votes on a case it was trained on and every other tree does. Cases in the bag of every tree are reported without prediction.",
     [IN, CFG, HIS], "every data set, sampling option, kind of target and number of trees and cores",
     "Existing tests never run bagging or out of bag estimation of the command.",
     ["growforest/growforest.go", "sampeling.go", "tree.go", "catballotbox.go", "numballotbox.go"],
     [("bagging", "growforest/growforest.go grow, sampeling.go"), ("out of bag cases", "growforest/growforest.go grow"), ("voting for a list of cases", "tree.go VoteCases")],
     "offline checker over the recorded trees and bags of training runs", COMMON + " Draw frequencies may deviate by 6.5 standard deviations.",
     observe=["recorded trees with bags, the file of out of bag predictions and the printed error"], hook="growforest/verif_hook.go records each grown tree and its cases")

prop("C21", "Importance scores are the accounted decreases of all splits",
     "The importance file lists for every feature, in order, the mean decrease of impurity of the splits that use it, the number of those splits, that decrease summed and divided by the number of trees and by the number of trees that use it, the number of trees that use it and the mean of the minimal depths it is first used at. These agree with the grown trees for any target, sampling, missing value handling and number of cores. Features that aren't used have no importance.",
     [IN, CFG, SCH], "every forest grown with importance recording on one or more cores",
     "Existing tests never look at importance scores of a forest.",
     ["growforest/growforest.go", "tree.go", "utils.go"],
     [("recording of decreases and depths", "tree.go Grow"), ("aggregation", "growforest/growforest.go, utils.go RunningMean")],
     "offline checker: conservation of decreases over recorded trees", COMMON + " Vetting and out of bag evaluation, which change a split's worth, are left out.",
     hook="growforest/verif_hook.go records each grown tree and its cases")

prop("C25", "A forest applied to data predicts what its trees vote for",
     "Applying a written forest, or testing it while training, predicts for every case the most voted label, the weighted mean or the intercept plus the weighted sum (optionally squashed to a probability) of the votes of exactly the trees grown, and reports labels, predictions, known targets, vote totals, counts and errors accordingly. The training data gives the same as any other file with its features by name: features may be reordered, added or (then missing) left out, categories renumbered or unseen, targets missing or absent. Cases no tree can vote on are reported as NA.",
     [IN, CFG], "every forest, weighted, boosted or not, every way of voting, and every table with the forest's features",
     "Existing tests never write a forest with one command and apply it with the other.",
     ["growforest/growforest.go", "applyforest/applyforest.go", "forestwriter.go", "forestreader.go", "tree.go"],
     [("writing and reading forests", "forestwriter.go, forestreader.go"), ("voting and output", "applyforest/applyforest.go"), ("self test and test", "growforest/growforest.go")],
     "end to end monitor: recorded trees interpreted by the harness as oracle for all reports", COMMON + " Labels within 1e-9 of most votes are accepted.",
     hook="growforest/verif_hook.go records each grown tree and its cases")

prop("C26", "Unseeded training on one core is reproducible",
     "With seeding from the clock turned off, training on a single core is a function of data and options. Two runs use the same bags, grow the same trees in the same order with the same weights and report the same importances, out of bag predictions and errors. This includes boosting, jungles, contrasts, repeated forests, imputing, shuffling and permuting.",
     [CFG, HIS], "every pair of runs with the same data and options",
     "Existing tests train with whatever random numbers they get and only compare error rates loosely.",
     ["growforest/growforest.go", "featurematrix.go", "densecatfeature.go", "sampeling.go", "tree.go"],
     [("single source of random numbers", "growforest/growforest.go"), ("no dependence on map order", "densecatfeature.go, catballotbox.go")],
     "differential monitor: recorded trees of repeated runs compared",
     COMMON + " The Go runtime's generator is started with its fixed seed by GODEBUG=randautoseed=0, as in the versions of Go the option was written for.",
     hook="growforest/verif_hook.go records each grown tree and its cases")

prop("C28", "Sizes given as counts or portions take effect as documented",
     "A size given without a dot is taken as a count and one with a dot as a portion of the total rounded up, anything else as not given. Samples per tree, candidates per split and minimum leaf size given to training as counts, portions or left to their documented defaults are reported accordingly, and with the maximum depth they are what bags, nodes and leaves of all trees follow. A feature is chosen for a split as often as the number of candidates and its rank among all features imply.",
     [IN, CFG], "every term and total and every combination of size options",
     "An existing test parses a handful of terms; none observes that the sizes take effect.",
     ["utils.go", "growforest/growforest.go", "tree.go", "featurematrix.go"],
     [("parsing", "utils.go ParseAsIntOrFractionOfTotal"), ("defaults", "growforest/growforest.go"), ("limits", "tree.go Grow")],
     "runtime monitor: reference parser, and invariants of recorded trees and bags", COMMON + " Choices may deviate from their expected frequency by 6.5 standard deviations.",
     hook="growforest/verif_hook.go records each grown tree and its cases")

prop("C31", "Excluded features and the target are never split on, all others may be",
     "No tree ever splits on the target, on a feature on the blacklist, on one matching the blocking expression or on one not matching the including expression, also not on their contrasts in a contrast analysis. The last forest after a contrast analysis with cutoff only splits on features whose reported p value is below the cutoff with positive mean importance. Every other feature stays a candidate: the number reported is right and with all candidates searched the best split on any of them is made. A target that is not in the data is refused.",
     [IN, CFG], "every combination of names, blacklist, expressions, contrasts and contrast analysis",
     "Existing tests never exclude a feature.",
     ["growforest/growforest.go"],
     [("list of excluded features", "growforest/growforest.go blacklistis"), ("list of candidates", "growforest/growforest.go grow"), ("selection by p value", "growforest/growforest.go")],
     "runtime monitor: features used by recorded trees checked against the options", COMMON,
     hook="growforest/verif_hook.go records each grown tree and its cases")

exec(open(os.path.join(HERE, "tools", "meta_more.py")).read()) if os.path.exists(os.path.join(HERE, "tools", "meta_more.py")) else None

NOT = []


def main():
    P.sort(key=lambda p: p[0]["id"])
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p, _, _ in P:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps(p) + "\n")
    hooks = subprocess.check_output(["git", "-C", "/repo", "log", "--format=%H", "--grep=^verif: "], text=True).split()
    claimed = set(json.load(open(os.path.join(HERE, "props.json"))))
    assert claimed == {p["id"] for p, _, _ in P} - {n["property"] for n in NOT}, claimed ^ {p["id"] for p, _, _ in P}
    m = {"version": 1, "setup_cmd": "python3 run.py setup",
         "hooks": {"guard": "verif (Go build tag)", "enable": "go build -tags verif", "source_commits": hooks},
         "checks": [], "not_applicable": NOT,
         "notes": "run.py builds harness/ and the tools from /repo's working tree into a temporary directory; every case derives from VERIF_SEED, the property and the case number. Replays: python3 run.py replay FILE."}
    for p, tech, note in P:
        if p["id"] not in claimed:
            continue
        c = "python3 run.py check %s" % p["id"]
        m["checks"].append({"property": p["id"], "quick_cmd": c + " --tier quick", "thorough_cmd": c + " --tier thorough",
                            "evidence_file": "evidence/%s.json" % p["id"], "technique": tech, "level": "exploration", "level_note": note})
    json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)


if __name__ == "__main__":
    main()
