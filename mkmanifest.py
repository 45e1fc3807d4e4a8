"""Writes MANIFEST.json from the table of claimed checks."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
T = "TLA+ specification checked with TLC; model-generated replay into the library and trace validation of recorded runs"
NOTE = ("Bounded, not a proof: TLC explores every state of the bounded model and every generated behaviour is replayed on the real code; "
        "every recorded call (arguments, outcome, observations) is accepted or rejected by the specification itself. "
        "Assumes the public API shows the abstract state and sequential use; numbers are compared in 2^-20 fixed point with stated tolerances. ")
CLAIMED = {
    "C01": "Undirected graph histories: all 3-call (thorough 4) histories of the bounded alphabet plus seeded random ones.",
    "C02": "Directed and bipartite histories, likewise.",
    "C03": "Hypergraph histories with groups, likewise.",
    "C04": "Every derived view evaluated by the specification on the state after every history, warm and cold caches.",
    "C05": "Object families, conversions, argument snapshots and rejected calls as stuttering steps; one known finding (vertex index range of hypergraphs).",
    "C06": "Save/load as heap copies through a file store, all kinds and loaders.",
    "C07": "Conversions evaluated by the specification on random sources.",
    "C08": "Message passing evaluated in fixed point on random structures, weights and options.",
    "C09": "Laplacians and smoothing evaluated in fixed point.",
    "C10": "Dropping as a nondeterministic subset action; rates by counting with wide (10 sigma) bounds.",
    "C11": "Sub-hypergraphs as exact restrictions.",
    "C12": "Labelled splits: every label vector of up to 4 items over 3 classes with every small request (sampled), plus random ones and reachability of every item over many random states.",
    "C13": "Interaction splits and recommender datasets: every 2 x 3 history with every request, plus random pipelines; draw rates by counting (10 sigma).",
    "C14": "Download machine over a stand-in transport adapter: every fault sequence of the bounded model, plus random ones with corrupted, truncated and missing files.",
    "C15": "Dataset machine: every 4-call (thorough 5) history of accesses, faults, repairs and file changes; all shipped dataset declarations against a golden table.",
    "C16": "Evaluator machine: all 5-call histories (thorough 6) of two-mode adds, epoch ends, immediate evaluations and rejected batches, with random concrete batches; results already returned are re-read after every call.",
    "C17": "Metric definitions: every ranking of 4 (thorough 5) items under every gain vector with every cut-off, plus random rows.",
    "C18": "Classification metrics: every pair of label vectors of length 3 (thorough 4) over 3 labels as indices and as scores, plus random ones.",
    "C19": "Generators as nondeterministic choices: every request up to 4 (thorough 5) vertices, feasible or not, random larger ones, exact reproducibility over seeded histories (also in another process), edge rates by counting (6.5 sigma).",
    "C20": "Experiment machine: scripted scores of every small run (trials, epochs, intervals, failures, pruning, both directions), replayed through the real task classes with stand-in models that log every pass; plus random ones.",
    "C21": "Every small edge and adjacency list over mixed labels and containers, binomial coefficients, indices, plus random ones.",
    "C23": "Layers, models, recommenders, cascades and losses evaluated in fixed point on random structures, parameters and options; the model enumerates kinds and options over all tiny structures.",
    "C24": "Drawings read back from the artists on the axes: every small structure under every form of every option (sampled), random structures, the layout step by step in fixed point, projections; outlines are accepted by a geometric predicate which the model validates on constructed and damaged outlines.",
    "C22": "Every chain of up to 3 (thorough 4) steps on random matrices, random tables, JSON and pickle files.",
}
LEVEL = {}
TODO = {}
ids = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "./setup.sh",
     "checks": [{"property": i, "quick_cmd": "./check.sh %s quick" % i, "thorough_cmd": "./check.sh %s thorough" % i,
                 "technique": T, "level": LEVEL.get(i, "model_checking"), "level_note": NOTE + CLAIMED[i]} for i in ids if i in CLAIMED],
     "not_applicable": [{"property": i, "reason": TODO.get(i, "the specification of this part is not built yet")} for i in ids if i not in CLAIMED],
     "notes": "Specifications in spec/ (TLA+), drivers in harness/. No hooks in /repo. See DESIGN.md."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "claimed,", len(m["not_applicable"]), "not")
