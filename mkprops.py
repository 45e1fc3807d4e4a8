#!/usr/bin/env python3
"""Source of properties.jsonl (kept here because the statements are long). Run to regenerate."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m} for n,m in state]
    if observe: a["observe_at"]=observe
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

S="dhg/structure/"
p("C01","Undirected graph edit histories have one meaning",
 "After any sequence of building, adding, removing, clearing, self-loop and cloning operations, an undirected graph holds exactly the edges the sequence defines: one edge per unordered vertex pair (self-loops apart), whose weight is the left-to-right fold of all weights added since it was last absent under the merge operation of each addition (mean of the two, sum, or maximum), default weight 1. The implicit unit self-loop of every vertex is an on/off property independent of explicit self-loops; removing absent edges and adding nothing change nothing; every accepted spelling of an edge (one pair, list of pairs, either endpoint order, adjacency list) means the same. Reported vertices, edges, weights and edge counts always agree with that content.",
 ["histories","inputs"],"every sequence of public editing calls on an undirected graph, with every edge spelling, weight list and merge operation",
 "Unit tests run a few fixed scripts of 3-5 edits; the outcome depends on the whole history (which edge existed with which weight when each merge happened, what was cached in between), which no sample of scripts covers.",
 [S+"graphs/graph.py",S+"base.py"],[("edge and self-loop store with merge rule","BaseGraph._add_edge / _remove_edge in dhg/structure/base.py"),("endpoint normalisation and edge spelling","Graph.add_edges, Graph.remove_edges, BaseGraph._format_edges"),("implicit self-loop flag","BaseGraph.add_extra_selfloop / remove_extra_selfloop / remove_selfloop")],
 ["Graph.e, num_e, num_v, v, e_both_side"],[("edges","unordered pair -> weight"),("self-loops","vertex -> weight"),("extra self-loop flag","whether each vertex has an implicit unit loop")])
p("C02","Directed and bipartite graph edit histories have one meaning",
 "After any sequence of building, adding, removing, clearing, cloning and flipping operations, a directed graph holds exactly one weighted edge per ordered pair the sequence defines, and a bipartite graph one weighted edge per (U vertex, V vertex) pair, the weight being the left-to-right fold of the added weights under the chosen merge operations. Reversing a directed graph flips every edge in place and keeps weights; switching the sides of a bipartite graph returns a new graph with the two vertex sets and all edges exchanged. Reported vertices, edges, weights, counts, degrees and neighbours always agree with that content.",
 ["histories","inputs"],"every sequence of public editing calls on directed and bipartite graphs, with every edge spelling, weight list and merge operation",
 "The tests apply each call once on a fresh object; order-dependent outcomes (a flip after views were read, a re-add after a removal, mixed merge operations) need all histories.",
 [S+"graphs/directed_graph.py",S+"graphs/bipartite_graph.py",S+"base.py"],[("ordered edge store with merge rule","BaseGraph._add_edge, BiGraph._add_edge"),("direction reversal","DiGraph.reverse_direction"),("side exchange","BiGraph.switch_uv")],
 ["e, num_e, num_u, num_v, deg_v_in/out, deg_u, deg_v, nbr_*"])
p("C03","Hypergraph edit histories with groups have one meaning",
 "After any sequence of building, adding to and removing from named groups, removing groups, clearing and cloning, a hypergraph holds, per existing group, exactly one hyperedge per distinct vertex set the sequence defines, whose weight is the left-to-right fold of the added weights under each addition's merge operation. An edit of one group never changes another group, a removal without a group applies to all groups, and vertex order inside a hyperedge, container type and single-versus-list spelling are irrelevant. Group names, hyperedges and weights overall and per group, vertex weights, counts, degrees and incident neighbours always agree with that content, hyperedge numbering being the same in all of them.",
 ["histories","inputs"],"every sequence of public editing calls on a hypergraph with any number of groups, hyperedge spellings, weights and merge operations",
 "Tests exercise one or two groups with a handful of edits each; isolation between groups and merge folding depend on arbitrary interleavings of group edits and reads.",
 [S+"hypergraphs/hypergraph.py",S+"base.py"],[("per-group hyperedge store with merge rule","BaseHypergraph._add_hyperedge, _merge_hyperedges"),("canonical hyperedge form","BaseHypergraph._format_e_list"),("group removal and all-group removal","Hypergraph.remove_hyperedges, remove_group, clear")],
 ["e, e_of_group, num_e, num_groups, group_names, v_weight, deg_v, deg_e, nbr_v, nbr_e and their of_group forms"])
p("C04","Derived matrices are exact and never stale",
 "Whatever was read before and whatever edits happened since, every derived view of a graph, directed graph, bipartite graph or hypergraph (adjacency, incidence, weight and degree matrices and their inverse powers, message source/destination/weight vectors, multi-hop neighbours, both-direction edge lists) equals its definition applied to the current content. The per-group views of a hypergraph equal the definition restricted to the group, and overall views are their composition in group order. Isolated vertices contribute zero to inverse degrees, never infinities or NaN.",
 ["histories","inputs"],"every interleaving of edits and reads of every derived view on every structure, including after clone and flips",
 "Views are cached on first read; a missing or partial invalidation appears only for the particular edit that follows a read of the particular view, and tests read most views once on a fresh object.",
 [S+"base.py",S+"graphs/graph.py",S+"graphs/directed_graph.py",S+"graphs/bipartite_graph.py",S+"hypergraphs/hypergraph.py"],[("view caches and their invalidation","_clear_cache in BaseGraph/BaseHypergraph and every caller"),("view definitions","properties A, A_T, B, H, H_T, W_e, D_*, N_*, e_src/e_dst/e_weight, v2e_*/e2v_*")],
 ["value of each view property read through the public API"],[("cache / group_cache","memoised views per object and per group")])
p("C05","Copies are independent, inputs untouched, rejected edits leave no trace",
 "A clone, a reversed-side copy, a structure rebuilt from another's exported state, or a structure converted from another is equal where defined and from then on independent: no later edit or read of one is visible in the other. No operation modifies the argument objects it is given (edge lists, weights, features, source structures). An operation that is rejected with an error (unknown merge operation, vertex index out of range, missing group, mismatched sizes) leaves content and all views of the structure as they were.",
 ["histories","inputs"],"every interleaving of edits and reads over a family of structures related by copying and conversion, including calls that must be rejected",
 "Tests compare a clone once right after making it; sharing shows up only when a later edit or a cached read goes through one of the two objects, and rejected calls are tested only for the exception.",
 [S+"base.py",S+"graphs/graph.py",S+"graphs/directed_graph.py",S+"graphs/bipartite_graph.py",S+"hypergraphs/hypergraph.py"],[("clone and state export/import","clone, state_dict, from_state_dict of all four structures"),("argument handling","_format_edges, _format_e_list, add_edges, add_hyperedges"),("validation before mutation","asserts in add_edges/add_hyperedges/remove_*")],
 ["both objects' full content after each call; argument values before and after each call"])
p("C06","Saving and loading preserves every structure",
 "Saving any graph, directed graph, bipartite graph or hypergraph to a file and loading it back, by the class's loader or the generic loader, yields a structure of the same kind with identical content: vertex sets, edges, weights, self-loops and the implicit self-loop flag, groups (also empty ones), and vertex weights. Loading never depends on what was cached or edited after saving, a loader of another kind refuses the file, and saved and loaded objects stay independent.",
 ["histories","inputs"],"every structure reachable by any editing history, saved at any point and loaded by any loader",
 "Tests save one small fixture per class and compare a few fields; the property concerns all reachable contents (empty groups, merged weights, flags, vertex weights) and later edits.",
 [S+"base.py",S+"graphs/graph.py",S+"graphs/directed_graph.py",S+"graphs/bipartite_graph.py",S+"hypergraphs/hypergraph.py"],[("save/load pair and generic loader","save, load, state_dict, from_state_dict, load_structure")],
 ["content of the loaded structure against the content at save time"])
p("C07","Conversions between structures follow their definitions",
 "Building a structure from another representation yields exactly the documented result for every input: adjacency lists, star and clique expansion and feature-based hypergraph reduction to graphs, hypergraphs from graphs, from k-hop neighbourhoods (exactly k or up to k), from bipartite graphs with either side as vertices, bipartite graphs from hypergraphs, and k-nearest-neighbour constructions with their options. Weighted variants carry the documented weights, unweighted variants ignore them, empty rows and isolated vertices are handled, and the add-from forms give the same hyperedges as the construct-from forms, merged into the named group.",
 ["inputs","histories","configurations"],"every source structure reachable by edits, every option combination of each conversion",
 "Each conversion is tested on one or two small fixtures with few options; the result is a function of the whole source structure (including multi-group hypergraphs, weights, self-loops, isolated vertices).",
 [S+"graphs/graph.py",S+"graphs/directed_graph.py",S+"graphs/bipartite_graph.py",S+"hypergraphs/hypergraph.py"],[("graph conversions","Graph.from_adj_list, from_hypergraph_star, from_hypergraph_clique, from_hypergraph_hypergcn; DiGraph.from_adj_list, from_feature_kNN"),("bipartite conversions","BiGraph.from_adj_list, from_hypergraph"),("hypergraph conversions","Hypergraph.from_graph, from_graph_kHop, from_bigraph, from_feature_kNN and add_hyperedges_from_*")],
 ["content of the resulting structure"])
p("C08","Message passing equals its definition",
 "For every structure and feature matrix, message passing between vertices, between the two sides, and between vertices and hyperedges equals the stated aggregation over exactly the connections of the structure: weighted sum, weighted mean with zero for receivers without connections, or sum under softmax-normalised weights. This holds for each direction, each group and the whole hypergraph, with built-in or caller-supplied connection and hyperedge weights (matched to the connections in the order the structure reports them), and two-stage passing is the composition of its stages with their own options. Feature columns never mix and no call changes the structure.",
 ["inputs","histories","configurations"],"every structure reachable by edits, every feature matrix, every aggregation, direction, group and weight option, warm or cold caches",
 "Tests compare one random structure per method with the same matrix formula the code uses, never with caller-supplied weights under mean; correctness ranges over structures, weights and option combinations.",
 [S+"graphs/graph.py",S+"graphs/directed_graph.py",S+"graphs/bipartite_graph.py",S+"hypergraphs/hypergraph.py"],[("graph passing","Graph.v2v, DiGraph.v2v, BiGraph.u2v, BiGraph.v2u"),("hypergraph passing","Hypergraph.v2e*, e2v*, v2v* and of_group forms")],
 ["returned tensors"])
p("C09","Laplacians and smoothing operators match their definitions",
 "For every structure, the combinatorial, symmetric-normalised and random-walk Laplacians ignore self-loops and equal D-A, I-D^-1/2 A D^-1/2 and I-D^-1 A; the GCN operator is the symmetric normalisation of the adjacency with one extra unit self-loop per vertex; the hypergraph operators equal Dv^-1/2 H We De^-1 H^T Dv^-1/2 and its symmetric and random-walk Laplacians, overall and per group. Spectral smoothing applies exactly the given operator, X + lambda*L*X or operator*X, for any feature matrix. Computing any of them changes neither the structure nor other views.",
 ["inputs","histories"],"every graph, bipartite graph and hypergraph reachable by edits, with isolated vertices, self-loops, the implicit self-loop flag and several groups",
 "Tests recompute a formula on one random structure; degenerate content (isolated vertices, self-loops, empty groups, non-unit weights, repeated reads around edits) is what breaks these operators.",
 [S+"graphs/graph.py",S+"graphs/bipartite_graph.py",S+"hypergraphs/hypergraph.py",S+"base.py"],[("graph operators","Graph.L, L_sym, L_rw, L_GCN, smoothing, smoothing_with_GCN; BiGraph.L_GCN, smoothing_with_GCN"),("hypergraph operators","Hypergraph.L_sym, L_rw, L_HGNN, smoothing_with_HGNN and of_group forms")],
 ["returned tensors"])
p("C10","Random dropping only removes, and removes with the stated rate",
 "Dropping edges, hyperedges (of all groups or of one named group) or tensor entries yields a new object whose remaining items are a subset of the original's with unchanged weights; rate 0 keeps everything, rate 1 removes everything, and each item is kept independently with probability one minus the rate. Vertices, groups, vertex weights, the implicit self-loop flag and other groups are preserved, sparse tensor dropout keeps the shape and the surviving values and replaces the rest by the fill value, and the original is never changed. Message passing and smoothing with a drop rate use connections that all belong to the structure.",
 ["inputs","histories","configurations"],"every structure, drop rate in [0,1], group and random seed",
 "Tests check only that the number of edges falls in a wide interval for one fixture; subset, weight preservation and isolation hold for every random outcome.",
 [S+"graphs/graph.py",S+"graphs/directed_graph.py",S+"graphs/bipartite_graph.py",S+"hypergraphs/hypergraph.py","dhg/utils/sparse.py","dhg/nn/regularization.py"],[("edge dropping","drop_edges of the three graph classes"),("hyperedge dropping","Hypergraph.drop_hyperedges, drop_hyperedges_of_group"),("tensor dropout","sparse_dropout")],
 ["content of the result and of the original"])
p("C11","Hypergraph subgraphs are exact restrictions",
 "Extracting a sub-hypergraph on any vertex list renumbers the chosen vertices in increasing order of their old index and keeps, in every group, exactly the hyperedges that still contain enough chosen vertices (at least one, or at least two when single-vertex hyperedges are not wanted), each restricted to the chosen vertices and keeping a weight of an original hyperedge that restricts to it. Groups are preserved even when they become empty, vertex weights follow their vertices, order and duplicates in the vertex list are irrelevant, empty or out-of-range lists are rejected, and the original never changes.",
 ["inputs","histories"],"every hypergraph reachable by edits, every vertex list and both retention options",
 "Tests cover a couple of fixed vertex lists; the interaction of renumbering, groups, weights and collapsing hyperedges ranges over all hypergraphs and lists.",
 [S+"base.py",S+"hypergraphs/hypergraph.py"],[("restriction and renumbering","BaseHypergraph.subgraph, _subgraph_filter_hyperedge")],
 ["content of the result and of the original"])
p("C12","Dataset splits are exact, disjoint and per-class",
 "Splitting labelled items by counts or by ratios returns boolean masks over all items that never overlap; each class contributes exactly the requested number (or the floor of the requested share) of training and validation items, and the test mask is exactly the remainder or the requested size. A class smaller than the requested numbers gives what it has, in the order training, validation, test. Which items of a class are chosen depends only on the random state, and every item can be chosen. This holds for any integer labels (any counts per class, starting at 0 or 1, with gaps, any order), absent validation parts are simply omitted, inputs are not modified, and the same random state gives the same split.",
 ["inputs","configurations"],"every label vector, every admissible count or ratio setting and every random state",
 "Tests split one or two synthetic label vectors and check sums; disjointness and exact per-class counts are for all vectors and settings.",
 ["dhg/utils/dataset_split.py"],[("per-class shuffled slicing","split_by_num, split_by_ratio, split_by_num_for_UI_bigraph, split_by_ratio_for_UI_bigraph")],
 ["returned masks"])
p("C13","Recommender data preparation never leaks or loses interactions",
 "Splitting user-item adjacency data by count or ratio partitions every user's interactions into train and test: nothing is lost, duplicated or invented, the requested number (at most what the user has) or the floor of the requested share goes to train. The training dataset built on such data yields one sample per training interaction whose positive item is an interaction of that user and whose sampled negative is an item the user never interacted with in training; without strict pairing it yields a uniformly chosen user with one of that user's training items per index (every user having a training interaction). The evaluation dataset yields for each user a mask that excludes exactly the training items and a rating row marking exactly the test items.",
 ["inputs","configurations"],"every user-item adjacency, split setting, index and random state",
 "No test reaches the dataset wrapper and split tests check sizes on one fixture; the guarantees are for every interaction history and random draw.",
 ["dhg/utils/dataset_split.py","dhg/utils/dataset_wrapers.py"],[("per-user split","split_by_num_for_UI_bigraph, split_by_ratio_for_UI_bigraph"),("sampling and masks","UserItemDataset.__getitem__, sample_neg, sample_triplet")],
 ["returned lists, dataset items"])
p("C14","Downloads end with a verified file or an error, never a wrong file",
 "For every sequence of server responses, network errors, truncated bodies, pre-existing files and legacy-cache contents, obtaining a remote file either leaves the file with the expected checksum in place or raises an error, and never accepts content with another checksum: a wrong or partial file is removed. A file already present with the right checksum causes no network access. Each attempt asks the primary source and then, for files of the official store, its mirror; an attempt that ends in an HTTP error is repeated, at most three attempts in all, and any other network error ends the call. An earlier copy in the legacy cache is reused when its checksum is right. Files outside the requested target are not touched.",
 ["fault_sequences","inputs"],"every sequence of responses and failures of primary and mirror, every prior state of target and legacy cache",
 "Tests need the network and are excluded; they try one successful download. The property ranges over fault sequences.",
 ["dhg/utils/download.py"],[("retry loop","_retry decorator, download_file"),("verification and clean-up","download_and_check, check_file"),("mirror","download_file")],
 ["requests made, files in the target and neighbouring directories, returned or raised outcome"])
p("C15","Dataset objects load lazily, once, and pass data through declared steps",
 "A dataset object exposes exactly its declared content keys; accessing an item yields the value of the loader (or preprocessing chain, or fixed value) declared for it, raw items being fetched, verified and loaded in file order at most once and then served from memory, and nothing being fetched before first access. Required remote files are checked before loading and a failed fetch is reported as an error without caching a partial value. Unknown items are refused and listing contents never triggers loading.",
 ["histories","inputs","fault_sequences"],"every sequence of item accesses on a dataset with any declared content, with files present, absent or corrupt",
 "Dataset tests need the network and are excluded; laziness, single loading and failure behaviour depend on the access history.",
 ["dhg/data/base.py"],[("lazy access and memo","BaseData.__getitem__, raw, fetch_files, content")],
 ["values returned, calls made to loaders and downloader"])
p("C16","Evaluators account for every batch exactly once",
 "For every sequence of batch additions, epoch ends and immediate evaluations, in validation and test mode, an evaluator's epoch result is the mean over items of exactly the batches added since the previous epoch end of that mode, independent of how they were batched, and a batch is never counted twice or lost. Results already returned keep their values, asking again without new batches repeats the last validation result, and validation and test accumulation do not disturb each other. The validation result is the value of the metric chosen for validation, and results are reported under the documented names for all chosen metrics and cut-offs.",
 ["histories","configurations"],"every interleaving of batch additions and epoch/immediate evaluations, every metric configuration",
 "No test drives an evaluator through more than one epoch per mode; accumulation errors depend on call interleavings.",
 ["dhg/metrics/base.py","dhg/metrics/classification.py","dhg/metrics/recommender.py","dhg/metrics/__init__.py","dhg/metrics/graphs/graph.py","dhg/metrics/hypergraphs/hypergraph.py"],[("batch accumulation and epoch reduction","BaseEvaluator.validate_add_batch, validate_epoch_res, test_add_batch, test_epoch_res")],
 ["results returned by each call"])
p("C17","Ranking metrics equal their definitions for every input",
 "For every score matrix, ground truth and cut-off, precision, recall, NDCG and reciprocal rank equal their definitions computed from the ranking of items by descending score, truncated at the cut-off; average precision and the precision-recall curve equal theirs computed over the full ranking (plain or with the pascal_voc interpolation). A ratio cut-off means that share of the items, rounded up; a cut-off beyond the list means the whole list. A row without relevant items counts zero, and the value of a batch is the mean over its rows. The metrics do not depend on the order in which items are presented (ties aside), lie in [0,1], and moving a relevant item up never lowers precision, recall, NDCG or average precision.",
 ["inputs","configurations"],"every score matrix without ties, every 0/1 ground truth, every cut-off",
 "Tests check a handful of literal vectors; the definitions quantify over all rankings and cut-offs (including cut-offs beyond the list length and rows without relevant items).",
 ["dhg/metrics/recommender.py","dhg/metrics/retrieval.py"],[("recommender metrics","precision, recall, ndcg in dhg/metrics/recommender.py"),("retrieval metrics","dhg/metrics/retrieval.py: precision, recall, ap, map, ndcg, mrr, pr_curve")],
 ["returned numbers"])
p("C18","Classification metrics equal their definitions for every input",
 "For every prediction and label vector, accuracy, F1 (micro, macro, weighted) and the confusion matrix equal their definitions, whether predictions are given as class indices or as per-class scores, as tensors of any integer type. The metrics are invariant under permuting items, the confusion matrix rows are true classes and sum to class counts, and accuracy equals its trace over its total.",
 ["inputs"],"every label and prediction vector, in every accepted encoding",
 "Tests use single random vectors compared with the same library call; permutation invariance and consistency among metrics are over all inputs.",
 ["dhg/metrics/classification.py"],[("definitions","accuracy, f1_score, confusion_matrix and input formatting")],
 ["returned numbers"])
p("C19","Random generators respect their specification for every setting",
 "Every random graph, directed graph, bipartite graph and hypergraph generator returns a structure with exactly the requested vertex counts, only valid and distinct edges (no self-loops unless defined), exactly the requested number of edges where one is given up to the maximum possible, all edges for probability one and none for probability zero, and hyperedge sizes within the requested kind (uniform size, or the whole range). Results depend only on the arguments and the random state: the same seed gives the same structure, and generation always terminates for feasible requests and rejects infeasible ones. Each possible edge is reachable, with the given probability or equally likely, custom hyperedge sizes occur in the given proportions and the low and high order kinds prefer small and large ones. Random features are the class indicator plus normal noise of the given size.",
 ["inputs","configurations"],"every admissible parameter setting and random state, including the extreme ones",
 "Tests draw a few mid-range settings and check edge counts; the boundary settings (complete, empty, probability 0/1) and validity of every draw are not sampled.",
 ["dhg/random/graphs/graph.py","dhg/random/graphs/directed_graph.py","dhg/random/graphs/bipartite_graph.py","dhg/random/hypergraphs/hypergraph.py","dhg/random/feature.py","dhg/random/_seed.py"],[("generators","graph_Gnp, graph_Gnp_fast, graph_Gnm, digraph_*, bigraph_*, uniform_hypergraph_Gnp/Gnm, hypergraph_Gnm"),("seeding","set_seed, seed, set_state")],
 ["content of the returned structure"])
p("C20","Automated experiments keep the best model and leave only results",
 "An automated training experiment, for every sequence of validation scores over trials and epochs and for both optimisation directions, evaluates and keeps the parameters of the best-scoring epoch of the best-scoring trial, reports that score and its settings, and evaluates the test set once with exactly that model. Pruned or failing trials never replace the kept model, temporary per-trial files are removed at the end, and a fresh experiment does not reuse results of an earlier one. A study touches only its own folder in the work folder, emptied first when overwriting and continued otherwise. Every epoch takes one training pass over exactly the training data, validates once without gradients, and advances the learning-rate schedule once; the same seed proposes the same settings.",
 ["histories","configurations"],"every sequence of validation scores, trial outcomes (completed, pruned, stopped early) and optimisation direction",
 "There are no tests of the experiment tasks at all; the best-so-far bookkeeping depends on the whole score history.",
 ["dhg/experiments/base.py","dhg/experiments/vertex_classification.py","dhg/experiments/recommender.py","dhg/experiments/graphs/graph.py","dhg/experiments/hypergraphs/hypergraph.py"],[("best epoch and best trial bookkeeping","BaseTask.experiment, BaseTask.run, BaseTask._remove_cached_data"),("concrete tasks","VertexClassificationTask, recommender task")],
 ["model parameters used in the final test, files in the work directory, returned results"])
p("C21","Edge and adjacency list utilities are lossless and helpers exact",
 "Converting between edge lists and adjacency lists or dictionaries and back loses and invents nothing and keeps the order of sources (first appearance) and of their targets; renumbering edge or adjacency lists assigns consecutive numbers, in the order of the labels' texts, bijectively per vertex set (all vertices, or the two sides of a bipartite graph) over all lists given together, and the returned maps translate back to the original labels. Results are the same for any accepted container or label type and the inputs are not modified. The helpers next to them are exact: binomial coefficients, dropping entries of a sparse matrix (every stored entry keeps its value or takes the fill value, at the requested rate, zero and one included), and copying the standard output to files as well as to the terminal.",
 ["inputs"],"every edge list and adjacency list, with any hashable labels, repeats and empty rows",
 "Tests transform one literal list per function; losslessness is a bijection claim over all lists.",
 ["dhg/utils/structure.py","dhg/utils/math.py","dhg/utils/sparse.py","dhg/utils/logging.py"],[("conversions","edge_list_to_adj_list, edge_list_to_adj_dict, adj_list_to_edge_list"),("renumbering","remap_edge_list, remap_edge_lists, remap_adj_list, remap_adj_lists"),("helpers","C, sparse_dropout, simple_stdout2file")],
 ["returned lists and maps"])
p("C22","Data pipeline steps are exact, composable and shape-preserving",
 "Row normalisation gives every non-zero row unit norm of the requested order (sum one for non-negative rows by default) and leaves zero rows zero, min-max scaling maps the range of non-constant data exactly onto the requested range, conversion steps preserve values, and composition applies its steps left to right to any input. File loaders return exactly the content of the file: tables with single separators, with or without header lines, cast by the named type or the given function, JSON, and pickles (whole or the chosen keys). No step changes its input, and steps accept every documented input type (lists, arrays, scipy matrices, tensors).",
 ["inputs","configurations"],"every matrix and every well-formed file, every composition of steps",
 "Tests use a single random matrix and small fixtures; degenerate rows, constant data and compositions are unsampled.",
 ["dhg/datapipe/common.py","dhg/datapipe/normalize.py","dhg/datapipe/loader.py"],[("transforms","norm_ft, min_max_scaler, to_tensor, to_bool_tensor, to_long_tensor, compose_pipes"),("loaders","load_from_pickle, load_from_json, load_from_txt")],
 ["returned values"])
p("C23","Neural layers compute their published propagation over the structure",
 "Each convolution layer and model computes exactly its published propagation on the given structure: its linear map, the structure's aggregation or operator it is named for, then activation, normalisation and dropout in the declared order, a layer declared last skipping them. A HyperGCN model in fast mode keeps using its first graph; training a bipartite cascade trains every layer and returns what a forward pass then returns; fresh recommender weights follow their documented initialisation; in training mode batch statistics are used and dropout zeroes the declared share of the entries and rescales the rest. Outputs have one row per vertex and the requested width, relabelling vertices permutes the output rows and nothing else, evaluation mode is deterministic, and neither the structure nor the input features are changed. Pairwise ranking loss, regularisation and multi-head combination equal their formulas. Options outside the documented ones are refused.",
 ["inputs","configurations"],"every structure, feature matrix, parameter value and layer option, in evaluation and in training mode (all, none or a share of the entries dropped)",
 "Tests cover three graph layers on one fixture each and none of the hypergraph layers or models; equivariance and exact propagation are over all structures and parameters.",
 ["dhg/nn/convs/graphs/gcn_conv.py","dhg/nn/convs/graphs/gat_conv.py","dhg/nn/convs/graphs/gin_conv.py","dhg/nn/convs/graphs/graphsage_conv.py","dhg/nn/convs/hypergraphs/hgnn_conv.py","dhg/nn/convs/hypergraphs/hgnnp_conv.py","dhg/nn/convs/hypergraphs/hnhn_conv.py","dhg/nn/convs/hypergraphs/hypergcn_conv.py","dhg/nn/convs/hypergraphs/dhcf_conv.py","dhg/nn/convs/hypergraphs/unignn_conv.py","dhg/nn/convs/common.py","dhg/nn/loss.py","dhg/nn/regularization.py","dhg/models"],[("layers","*Conv.forward"),("models","dhg.models forward"),("losses and wrappers","BPRLoss, EmbeddingRegularization, MultiHeadWrapper, Discriminator")],
 ["layer outputs with known parameters"])
p("C24","Drawing shows every vertex and edge once, inside the canvas",
 "Drawing any graph, directed graph, bipartite graph or hypergraph places every vertex at finite coordinates inside the drawing area, draws each vertex exactly once with its own style and label and each edge exactly once between the positions of its endpoints, for every accepted form of style argument (single value or one per item). Sizes, widths and font sizes scale the same unit for a structure in every call; outlines of (hyper)edges run around their members on tangents of circles around them, larger edges outside smaller ones. The layout applies the declared forces and brings vertices joined by an edge together. Layout and drawing never change the structure, wrong-length style or label lists are rejected, and feature projections keep one point per row with the requested dimension, inside the ball or canvas, with its own label.",
 ["inputs","configurations"],"every structure and every combination of style arguments",
 "Tests only check that drawing does not raise on one fixture each.",
 ["dhg/visualization/structure/draw.py","dhg/visualization/structure/layout.py","dhg/visualization/structure/defaults.py","dhg/visualization/structure/utils.py","dhg/visualization/structure/simulator.py","dhg/visualization/feature/utils.py"],[("layout","force_layout, Simulator"),("drawing","draw_graph, draw_digraph, draw_bigraph, draw_hypergraph, draw_vertex, draw_*_edge"),("style expansion","fill_* in utils, default_* in defaults")],
 ["artists on the axes, coordinates"])
open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"properties.jsonl"),"w").write("".join(json.dumps(x)+"\n" for x in P))
print(len(P))
