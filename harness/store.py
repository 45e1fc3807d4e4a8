"""Executes Store.tla events on the real library and generates random histories.

An event is a dict whose call part (op, o, r, arguments) is decided by the model or by the random
generator; `Exec.run` performs the call and fills in ok, err, pure, obs and the results."""
import functools, copy, itertools, warnings, os, random
from common import *
import torch
warnings.filterwarnings('ignore')
import dhg
from dhg import Graph, DiGraph, BiGraph, Hypergraph

CLS = {"G": Graph, "D": DiGraph, "B": BiGraph, "H": Hypergraph}
MOPS = ["mean", "sum", "max"]


def fl(w):
    return w / ONE


def kind_of(x):
    for k, c in CLS.items():
        if type(x) is c:
            return k
    return "?"


def snap(x):
    """comparable snapshot of an argument"""
    if isinstance(x, torch.Tensor):
        return ("T", tuple(x.shape), x.detach().clone().cpu().to_dense().tolist() if x.layout != torch.strided else x.detach().cpu().tolist())
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [snap(y) for y in x])
    if isinstance(x, dict):
        return ("d", [(snap(k), snap(v)) for k, v in x.items()])
    if isinstance(x, (set, frozenset)):
        return ("s", sorted(map(repr, x)))
    return repr(x)


def observe(o, x):
    k = kind_of(x)
    if k == "H":
        names = list(x.group_names)
        gl = []
        for n in names:
            es, ws = x.e_of_group(n)
            gl.append([n, [[[int(v) for v in e], enc(w)] for e, w in zip(es, ws)]])
        vw = x.v_weight
        return {"o": o, "kind": "H", "nu": 0, "nv": x.num_v, "ne": x.num_e, "ng": x.num_groups,
                "vw": encl(vw) if vw is not None else [], "gl": gl, "es": []}
    es, ws = x.e
    assert len(es) == len(ws)
    return {"o": o, "kind": k, "nu": x.num_u if k == "B" else 0, "nv": x.num_v, "ne": x.num_e, "ng": 0, "vw": [], "gl": [],
            "es": [[int(a), int(b), enc(w)] for (a, b), w in zip(es, ws)]}


GV = ["v", "num_v", "num_e", "e", "e_both_side", "A", "D_v", "D_v_neg_1", "D_v_neg_1_2", "deg_v", "nbr_v", "conn"]
DV = ["v", "num_v", "num_e", "e", "A", "A_T", "D_v_in", "D_v_out", "D_v_in_neg_1", "D_v_out_neg_1", "deg_v_in", "deg_v_out",
      "nbr_v_in", "nbr_v_out", "conn"]
BV = ["u", "v", "num_u", "num_v", "num_e", "e", "A", "B", "B_T", "D_u", "D_v", "D_u_neg_1", "D_v_neg_1", "deg_u", "deg_v",
      "nbr_u", "nbr_v", "conn"]
HV0 = ["v", "num_v", "num_e", "num_groups", "group_names", "v_weight", "W_v"]     # meaningful without any group
HV = ["e", "H", "H_T", "H_v2e", "H_e2v", "W_e", "D_v", "D_e", "D_v_neg_1", "D_v_neg_1_2", "D_e_neg_1", "deg_v", "deg_e",
      "nbr_e", "nbr_v", "v2e_conn", "e2v_conn"]
LV = {"G": ["L", "L_sym", "L_rw", "L_GCN"], "D": [], "B": ["L_GCN"], "H": ["L_sym", "L_rw", "L_HGNN"]}
VIEWS = {"G": GV, "D": DV, "B": BV, "H": HV0 + HV}


def triples(a, b, w):
    return [[int(x), int(y), enc(z)] for x, y, z in zip(a.tolist(), b.tolist(), w.tolist())]


class Exec:
    def __init__(self, scratch, obs="all"):
        self.h = {}
        self.ev = []
        self.scratch = scratch
        self.files = {}
        self.obs = obs

    # ---- results -------------------------------------------------------
    def read_view(self, x, k, nm, arg, grp):
        if k == "H":
            if nm in ("v2e_conn", "e2v_conn"):
                p = nm[:3]
                f = (lambda s: getattr(x, "%s_%s_of_group" % (p, s))(grp)) if grp is not None else (lambda s: getattr(x, "%s_%s" % (p, s)))
                s, d, w = f("src"), f("dst"), f("weight")
                return triples(s, d, w) if p == "v2e" else triples(d, s, w)
            if nm in ("nbr_e", "nbr_v"):
                if grp is not None:
                    r = getattr(x, nm + "_of_group")(arg[0], grp)
                    n = getattr(x, {"nbr_e": "N_e", "nbr_v": "N_v"}[nm] + "_of_group")(arg[0], grp)
                else:
                    r = getattr(x, nm)(arg[0])
                    n = getattr(x, {"nbr_e": "N_e", "nbr_v": "N_v"}[nm])(arg[0])
                assert [int(t) for t in r] == [int(t) for t in n.tolist()], "nbr and N disagree"
                return [int(t) for t in r]
            if nm == "v_weight":
                return encl(x.v_weight)
            if nm == "e":
                es, ws = x.e_of_group(grp) if grp is not None else x.e
                return [[[int(v) for v in e], enc(w)] for e, w in zip(es, ws)]
            v = getattr(x, nm + "_of_group")(grp) if grp is not None else getattr(x, nm)
        else:
            if nm == "conn":
                if k == "B":
                    return triples(x.e_u, x.e_v, x.e_weight)
                if k == "G":
                    return triples(x.e_src, x.e_dst, x.e_weight)
                return triples(x.e_src, x.e_dst, x.e_weight)
            if nm.startswith("nbr"):
                n = nm.replace("nbr", "N")
                a = arg if k == "G" else arg[:1]
                r = getattr(x, nm)(*a)
                t = getattr(x, n)(*a).tolist()
                assert [int(i) for i in r] == [int(i) for i in t], "nbr and N disagree"
                return [int(i) for i in r]
            if nm in ("e", "e_both_side"):
                es, ws = getattr(x, nm)
                assert len(es) == len(ws)
                return [[int(a), int(b), enc(w)] for (a, b), w in zip(es, ws)]
            v = getattr(x, nm)
        if isinstance(v, torch.Tensor):
            return encm(v)
        if isinstance(v, int):
            return v
        if nm in ("v", "u"):
            return [int(i) for i in v]
        if nm.startswith("deg"):
            return encl(v)
        return list(v)

    def order(self, x, grp):
        """hyperedge numbering: concatenation of the groups in reported order"""
        names = [grp] if grp is not None else list(x.group_names)
        return [[n, [int(v) for v in e]] for n in names for e in x.e_of_group(n)[0]], names

    # ---- one call ------------------------------------------------------
    def run(self, ev):
        ev = dict(ev)
        ev.setdefault("obs_of", self.obs)
        ev["ok"], ev["err"], ev["pure"], ev["obs"] = True, "", True, []
        try:
            self.call(ev)
        except Exception as exc:
            ev["ok"], ev["err"] = False, "%s: %s" % (type(exc).__name__, str(exc)[:300])
        what = ev.pop("obs_of")
        ids = [] if what == "none" else sorted(self.h) if what == "all" else [i for i in what if i in self.h]
        if ev["op"] in ("sub", "drop") and ev["ok"] and ev["r"] not in ids:
            ids = sorted(set(ids) | {ev["r"]})
        for i in ids:
            try:
                ev["obs"].append(observe(i, self.h[i]))
            except Exception as exc:
                ev["obs"].append({"o": i, "kind": "?", "nu": 0, "nv": 0, "ne": 0, "ng": 0, "vw": [], "gl": [], "es": []})
                ev["err"] += " / observe: %s: %s" % (type(exc).__name__, str(exc)[:200])
        ev.setdefault("sig", ev["op"])
        self.ev.append(ev)
        return ev

    def purely(self, ev, f, *args, **kw):
        before = snap([list(args), kw])
        try:
            return f(*args, **kw)
        finally:
            if snap([list(args), kw]) != before:
                ev["pure"] = False

    def spelled(self, ev, ws):
        """whole numbers written as integers in every third call"""
        ints = ev.setdefault("ints", (len(self.ev) + len(ws)) % 3 == 0)
        return [int(w) if ints and w == int(w) else w for w in ws]

    def edges_arg(self, ev, k):
        sp = ev.get("spell", "tuples")
        es = ev["es"]
        ws = self.spelled(ev, [fl(e[-1]) for e in es])
        if k == "H":
            vs = [e[0] for e in es]
            if sp == "single" and len(es) == 1 and len(vs[0]) > 0:
                el = list(vs[0]) if ev.get("spl", True) else tuple(vs[0])
            elif sp == "lists":
                el = [list(v) for v in vs]
            elif sp == "tupleoftuples":
                el = tuple(tuple(v) for v in vs)
            elif sp == "sets":
                el = [set(v) for v in vs]
            else:
                el = [tuple(v) for v in vs]
            if not ev.get("hasw", True):
                return el, None
            if ev.get("scalarw") and len(set(ws)) <= 1 and ws:
                return el, ws[0]
            return el, ws[:ev["nw"]] if ev["nw"] <= len(ws) else ws + [1.0] * (ev["nw"] - len(ws))
        vs = [e[:2] for e in es]
        single = sp == "single" and len(es) == 1
        if single:
            el = tuple(vs[0])
        elif sp == "lists":
            el = [list(v) for v in vs]
        elif sp == "tupleoftuples":
            el = tuple(tuple(v) for v in vs)
        else:
            el = [tuple(v) for v in vs]
        if not ev.get("hasw", True):
            return el, None
        if single:
            return el, ws[0]
        return el, ws[:ev["nw"]] if ev["nw"] <= len(ws) else ws + [1.0] * (ev["nw"] - len(ws))

    def call(self, ev):
        op = ev["op"]
        h = self.h
        if op == "new":
            k = ev["kind"]
            el, w = self.edges_arg(ev, k)
            if ev.get("noargs"):
                el = None
                w = None
            kw = {"merge_op": ev["mop"]}
            if k == "H":
                vw = self.spelled(ev, [fl(z) for z in ev["vw"]]) if ev["hasvw"] else None
                h[ev["r"]] = self.purely(ev, Hypergraph, ev["nv"], el, w, v_weight=vw, **kw)
            elif k == "B":
                h[ev["r"]] = self.purely(ev, BiGraph, ev["nu"], ev["nv"], el, w, **kw)
            else:
                h[ev["r"]] = self.purely(ev, CLS[k], ev["nv"], el, w, extra_selfloop=ev["extra"], **kw)
        elif op == "add":
            x = h[ev["o"]]
            el, w = self.edges_arg(ev, kind_of(x))
            kw = {"merge_op": ev["mop"]}
            if ev["mop"] == "mean" and ev.get("defmop"):
                kw = {}
            if kind_of(x) == "H" and not (ev["grp"] == "main" and ev.get("defgrp")):
                kw["group_name"] = ev["grp"]
            self.purely(ev, x.add_edges if kind_of(x) != "H" else x.add_hyperedges, el, w, **kw)
        elif op == "remove":
            x = h[ev["o"]]
            sp = ev.get("spell", "tuples")
            if kind_of(x) == "H":
                el = [tuple(v) for v in ev["ps"]]
                if sp == "single" and len(el) == 1 and len(el[0]) > 0:
                    el = el[0]
                elif sp == "lists":
                    el = [list(v) for v in el]
                elif sp == "tupleoftuples":
                    el = tuple(el)
                self.purely(ev, x.remove_hyperedges, el, **({"group_name": ev["grp"]} if ev["og"] else {}))
            else:
                el = [tuple(v) for v in ev["ps"]]
                if sp == "single" and len(el) == 1:
                    el = el[0]
                elif sp == "lists":
                    el = [list(v) for v in el]
                self.purely(ev, x.remove_edges, el)
        elif op == "rmgroup":
            h[ev["o"]].remove_group(ev["grp"])
        elif op == "clear":
            h[ev["o"]].clear()
        elif op == "addextra":
            h[ev["o"]].add_extra_selfloop()
        elif op == "rmextra":
            h[ev["o"]].remove_extra_selfloop()
        elif op == "rmloop":
            h[ev["o"]].remove_selfloop()
        elif op == "reverse":
            h[ev["o"]].reverse_direction()
        elif op == "switch":
            h[ev["r"]] = h[ev["o"]].switch_uv()
        elif op == "clone":
            h[ev["r"]] = h[ev["o"]].clone()
        elif op == "to":
            h[ev["r"]] = h[ev["o"]].to(torch.device("cpu"))
        elif op == "state":
            x = h[ev["o"]]
            h[ev["r"]] = CLS[kind_of(x)].from_state_dict(x.state_dict)
        elif op == "save":
            p = self.scratch.path("s_%s.dhg" % ev["f"])
            h[ev["o"]].save(p)
        elif op == "load":
            p = self.scratch.path("s_%s.dhg" % ev["f"])
            h_new = dhg.load_structure(p) if ev["via"] == "any" else CLS[ev["via"]].load(p)
            h[ev["r"]] = h_new
        elif op == "view":
            x = h[ev["o"]]
            grp = ev["grps"][0] if ev["og"] else None
            try:
                ev["v"] = self.read_view(x, kind_of(x), ev["nm"], ev["arg"], grp)
            finally:
                if kind_of(x) == "H":
                    ev["ord"], ev["grps"] = self.order(x, grp)
        elif op == "views":
            self.read_all(ev)
        elif op == "dropsp":
            self.do_dropsp(ev)
        elif op == "dropmat":
            self.do_dropmat(ev)
        elif op == "adj":
            k = ev["kind"]
            adj = [list(r) for r in ev["adj"]]
            if k == "B":
                h[ev["r"]] = self.purely(ev, BiGraph.from_adj_list, ev["nu"], ev["nv"], adj)
            else:
                h[ev["r"]] = self.purely(ev, CLS[k].from_adj_list, ev["nv"], adj, extra_selfloop=ev["extra"])
        elif op in ("star", "clique", "hgcn", "bi_from_h"):
            x = h[ev["o"]]
            ev["ord"] = []
            if op == "star":
                g, mask = Graph.from_hypergraph_star(x, weighted=ev["weighted"])
                h[ev["r"]] = g
                ev["mask"] = [bool(b) for b in mask.tolist()]
            elif op == "clique":
                h[ev["r"]] = Graph.from_hypergraph_clique(x, weighted=ev["weighted"], miu=ev["miu"] / ONE)
            elif op == "hgcn":
                f = torch.tensor([[z / ONE] for z in ev["f"]])
                h[ev["r"]] = self.purely(ev, Graph.from_hypergraph_hypergcn, x, f, with_mediator=ev["med"])
            else:
                h[ev["r"]] = BiGraph.from_hypergraph(x, vertex_as_U=ev["vasu"], weighted=ev["weighted"])
            ev["ord"] = self.order(x, None)[0]
        elif op == "knn_d":
            f = torch.tensor([[float(z) for z in r] for r in ev["f"]])
            h[ev["r"]] = self.purely(ev, DiGraph.from_feature_kNN, f, ev["k"], p=float("inf") if ev["p"] == 0 else ev["p"],
                                     distance2weight=ev["dw"], include_center=ev["inc"], center_as_src=ev["assrc"])
        elif op == "h_from":
            src = ev["src"]
            grp = {} if ev["isnew"] else {"group_name": ev["grp"]}
            if ev["isnew"]:
                if src == "graph":
                    h[ev["r"]] = Hypergraph.from_graph(h[ev["o"]])
                elif src == "khop":
                    h[ev["r"]] = Hypergraph.from_graph_kHop(h[ev["o"]], ev["k"], only_kHop=ev["only"])
                elif src == "bi":
                    h[ev["r"]] = Hypergraph.from_bigraph(h[ev["o"]], U_as_vertex=ev["uasv"])
                else:
                    f = torch.tensor([[float(z) for z in r] for r in ev["f"]])
                    h[ev["r"]] = self.purely(ev, Hypergraph.from_feature_kNN, f, ev["k"])
            else:
                x = h[ev["r"]]
                if src == "graph":
                    x.add_hyperedges_from_graph(h[ev["o"]], **grp)
                elif src == "khop":
                    x.add_hyperedges_from_graph_kHop(h[ev["o"]], ev["k"], only_kHop=ev["only"], **grp)
                elif src == "bi":
                    x.add_hyperedges_from_bigraph(h[ev["o"]], U_as_vertex=ev["uasv"], **grp)
                else:
                    f = torch.tensor([[float(z) for z in r] for r in ev["f"]])
                    self.purely(ev, x.add_hyperedges_from_feature_kNN, f, ev["k"], **grp)
        elif op == "sub":
            vs = list(ev["vs"]) if ev.get("spell") != "tuple" else tuple(ev["vs"])
            h[ev["r"]] = self.purely(ev, h[ev["o"]].subgraph, vs, keep_edges_with_only_one_nodes=ev["mn"] == 1)
        elif op == "drop":
            x = h[ev["o"]]
            torch.manual_seed(ev["seed"])
            random.seed(ev["seed"])
            if kind_of(x) == "H":
                h[ev["r"]] = x.drop_hyperedges_of_group(ev["grp"], ev["rate"] / ONE, ord=ev["ord"]) if ev["og"] else x.drop_hyperedges(ev["rate"] / ONE, ord=ev["ord"])
            else:
                h[ev["r"]] = x.drop_edges(ev["rate"] / ONE, ord=ev["ord"])
        elif op == "reject":
            self.purely(ev, *self.reject_call(ev))
        elif op == "pass":
            self.do_pass(ev)
        elif op == "smooth":
            x = h[ev["o"]]
            X = torch.tensor([[fl(z) for z in r] for r in ev["X"]])
            k = kind_of(x)
            grp = ev["grps"][0] if ev["og"] else None
            ev["out"] = []
            try:
                if ev["plain"]:
                    if k == "H":
                        f = (lambda X: x.smoothing_with_HGNN_of_group(grp, X)) if grp is not None else x.smoothing_with_HGNN
                    else:
                        f = x.smoothing_with_GCN
                    out = self.purely(ev, f, X)
                elif ev["mat"]:
                    L = torch.tensor([[fl(z) for z in r] for r in ev["mat"]]).to_sparse()
                    out = self.purely(ev, x.smoothing, X, L, ev["lamb"] / ONE)
                else:
                    L = getattr(x, ev["nm"] + "_of_group")(grp) if grp is not None else getattr(x, ev["nm"])
                    out = self.purely(ev, x.smoothing, X, L, ev["lamb"] / ONE)
                ev["out"] = encm(out)
            finally:
                if k == "H":
                    ev["ord"], ev["grps"] = self.order(x, grp)
        else:
            raise AssertionError("driver: unknown op " + op)

    def read_all(self, ev):
        """read a batch of views: ev.want is a list of [name, arg, group]"""
        x = self.h[ev["o"]]
        k = kind_of(x)
        ev["items"], ev["sel"], gi = [], [], {}
        for nm, arg, grp in ev.pop("want"):
            if grp not in gi:
                gi[grp] = len(gi) + 1
            it = {"nm": nm, "arg": list(arg), "v": [], "ok": True, "g": gi[grp]}
            try:
                it["v"] = self.read_view(x, k, nm, arg, grp)
            except Exception as exc:
                it["ok"] = False
                ev["err"] += "%s: %s: %s; " % (nm, type(exc).__name__, str(exc)[:150])
            ev["items"].append(it)
        for grp in gi:
            ord_, grps = self.order(x, grp) if k == "H" else ([], [])
            ev["sel"].append({"grps": grps, "ord": ord_})
        ev["sig"] = "views:" + k

    def do_dropsp(self, ev):
        from dhg.utils import sparse_dropout
        m = torch.tensor([[fl(z) for z in r] for r in ev["full"]]).to_sparse()
        torch.manual_seed(ev["seed"])
        random.seed(ev["seed"])
        kw = {"fill_value": fl(ev["fill"])} if ev["fill"] or ev.get("givefill") else {}
        out = self.purely(ev, sparse_dropout, m, ev["rate"] / ONE, **kw)
        ev["out"] = encm(out)

    def do_dropmat(self, ev):
        x = self.h[ev["o"]]
        k = kind_of(x)
        torch.manual_seed(ev["seed"])
        random.seed(ev["seed"])
        r = ev["rate"] / ONE
        nm = ev["a"]["nm"]
        grp = ev["grps"][0] if ev["og"] else None
        ev["out"] = []
        try:
            if nm in ("L_GCN", "L_HGNN"):
                X = torch.eye(x.num_v + (x.num_u if k == "B" else 0))
                if k == "H":
                    f = (lambda X, **q: x.smoothing_with_HGNN_of_group(grp, X, **q)) if grp is not None else x.smoothing_with_HGNN
                else:
                    f = x.smoothing_with_GCN
                ev["out"] = encm(self.purely(ev, f, X, drop_rate=r))
            else:
                self.do_pass(ev)
        finally:
            if k == "H":
                ev["ord"], ev["grps"] = self.order(x, grp)

    def reject_call(self, ev):
        """calls that must be refused whatever the state"""
        x = self.h[ev["o"]]
        why = ev["why"]
        k = kind_of(x)
        m = ev["m"]                      # a number that picks the variant
        pick = lambda l: l[m % len(l)]
        one = lambda n: torch.ones(n, 1)
        if k == "G":
            passes = [(x.v2v, (), x.num_v, x.e_weight, "e_weight")]
        elif k == "D":
            passes = [(functools.partial(x.v2v, direction=d), (), x.num_v, x.e_weight, "e_weight") for d in ("src2dst", "dst2src")]
        elif k == "B":
            passes = [(x.u2v, (), x.num_u, x.e_weight, "e_weight"), (x.v2u, (), x.num_v, x.e_weight, "e_weight")]
        else:
            passes = []
            for grp in [None] + list(x.group_names):
                q = (lambda s: getattr(x, s + "_of_group")) if grp is not None else (lambda s: getattr(x, s))
                a = (grp,) if grp is not None else ()
                get = lambda s: q(s)(grp) if grp is not None else q(s)
                ne, nv = get("num_e"), x.num_v
                wv, we = get("v2e_weight"), get("e2v_weight")
                for s in ("v2e_aggregation", "v2e", "v2v"):
                    passes.append((q(s), a, nv, wv, "v2e_weight"))
                passes.append((q("v2e"), a, nv, torch.ones(ne), "e_weight"))
                passes.append((q("v2v"), a, nv, torch.ones(ne), "e_weight"))
                for s in ("e2v_aggregation", "e2v"):
                    passes.append((q(s), a, ne, we, "e2v_weight"))
                passes.append((q("v2v"), a, nv, we, "e2v_weight"))
        if why == "badweights":              # as many weights as connections (hyperedges) are needed
            f, a, n, w, name = pick(passes)
            w = torch.cat([w, torch.ones(1 + m % 2)]) if m % 5 < 3 or len(w) == 0 else w[:-1]
            return functools.partial(f, **{name: w}), *a, one(n)
        if why == "badaggr":
            f, a, n, w, name = pick(passes)
            return f, *a, one(n), pick(["median", "max", "Mean", "softmax"])
        if why == "baddir":
            return functools.partial(x.v2v, direction=pick(["src", "both", "dst2dst"])), one(x.num_v)
        if why == "badgroup":
            no = pick(["no such group", "Main", " "])
            n = 0
            q = ["e", "num_e", "deg_v", "deg_e", "v2e_src", "v2e_dst", "v2e_weight", "e2v_src", "e2v_dst", "e2v_weight", "H", "H_T", "W_e", "D_v", "D_v_neg_1",
                 "D_v_neg_1_2", "D_e", "D_e_neg_1", "L_sym", "L_rw", "L_HGNN"]
            calls = [(getattr(x, s + "_of_group"), no) for s in q]
            calls += [(getattr(x, s + "_of_group"), 0, no) for s in ("nbr_e", "nbr_v", "N_e", "N_v")]
            calls += [(getattr(x, s + "_of_group"), no, one(x.num_v)) for s in ("v2e_aggregation", "v2e", "v2v", "smoothing_with_HGNN", "e2v", "e2v_aggregation", "v2e_update", "e2v_update")]
            return pick(calls)
        if why == "hop0":
            return x.nbr_v, 0, -(m % 3)
        if why == "badrange":
            return pick([(x.nbr_e, x.num_v), (x.nbr_e, x.num_v + 2), (x.nbr_v, x.num_e), (x.nbr_v, x.num_e + 3)])
        if why == "knn":
            n = x.num_v
            F = torch.arange(2.0 * n).view(n, 2)
            calls = [(x.add_hyperedges_from_feature_kNN, torch.ones(n + 1, 2), 1), (Hypergraph.from_feature_kNN, F, n + 1 + m % 2)]
            if n > 1:
                calls += [(x.add_hyperedges_from_feature_kNN, torch.ones(n - 1, 2), 1), (x.add_hyperedges_from_feature_kNN, F, n + 1), (DiGraph.from_feature_kNN, F, n + 1)]
            return pick(calls)
        if why == "othersize":
            n = x.num_v
            g = Graph(n + 1, [[0, 1]])
            b = BiGraph(n + 1, n + 2, [[0, 0]])
            return pick([(x.add_hyperedges_from_graph, g), (x.add_hyperedges_from_graph_kHop, g, 1), (x.add_hyperedges_from_bigraph, b, True),
                         (x.add_hyperedges_from_bigraph, b, False), (x.add_hyperedges_from_graph_kHop, Graph(n), 0)])
        if why == "baddrop":
            if k != "H":
                return x.drop_edges, .5, "degree"
            return pick([(x.drop_hyperedges, .5, "degree")] + [(x.drop_hyperedges_of_group, n, .5, "degree") for n in x.group_names])
        raise AssertionError(why)

    def do_pass(self, ev):
        x = self.h[ev["o"]]
        a = ev["a"]
        k = kind_of(x)
        grp = ev["grps"][0] if ev["og"] else None
        X = torch.tensor([[fl(z) for z in r] for r in a["X"]])
        t = lambda ws: torch.tensor([fl(w[-1]) for w in ws]) if len(ws) else torch.zeros(0)
        ev["out"] = []
        nm = a["nm"]
        kd = {}
        if ev["op"] == "dropmat":
            ra, rb = fl(ev["rate"]), fl(ev["rate2"])
            if nm != "v2v_h" or ra == rb:
                kd = {"drop_rate": ra}
            elif ev["seed"] % 3 == 0:
                kd = {"drop_rate": ra, "e2v_drop_rate": rb}
            elif ev["seed"] % 3 == 1:
                kd = {"drop_rate": rb, "v2e_drop_rate": ra}
            else:
                kd = {"v2e_drop_rate": ra, "e2v_drop_rate": rb}
        try:
            ag = a["aggr"]
            args = {}
            if nm == "v2v_g":
                if k == "D" and not ev.get("defdir"):
                    args["direction"] = a["dir"]
                if a["hasw"]:
                    args["e_weight"] = t(a["ws"])
                out = self.purely(ev, x.v2v, X, ag, **args, **kd)
            elif nm in ("u2v", "v2u"):
                if a["hasw"]:
                    args["e_weight"] = t(a["ws"])
                out = self.purely(ev, getattr(x, nm), X, ag, **args, **kd)
            else:
                m = {"v2e_agg": "v2e_aggregation", "v2e_upd": "v2e_update", "v2e": "v2e", "e2v_agg": "e2v_aggregation",
                     "e2v_upd": "e2v_update", "e2v": "e2v", "v2v_h": "v2v"}[nm]
                pos = []
                f = getattr(x, m)
                if grp is not None:
                    f = getattr(x, m + "_of_group")
                    pos = [grp]
                if nm in ("v2e_agg", "v2e"):
                    if a["hasw"]:
                        args["v2e_weight"] = t(a["ws"])
                if nm in ("e2v_agg", "e2v"):
                    if a["hasw"]:
                        args["e2v_weight"] = t(a["ws"])
                if nm in ("v2e_upd", "v2e", "v2v_h") and a["hasew"]:
                    args["e_weight"] = torch.tensor([fl(w) for w in a["ew"]])
                    if ev.get("ewcol"):
                        args["e_weight"] = args["e_weight"].view(-1, 1)
                if nm == "v2v_h":
                    if a["hasw"]:
                        args["v2e_weight"] = t(a["ws"])
                    if a["hasw2"]:
                        args["e2v_weight"] = t(a["ws2"])
                    if ag == a["aggr2"] and ev.get("oneaggr"):
                        args["aggr"] = ag
                    elif ev.get("mixaggr") == 1:
                        args.update(aggr=ag, e2v_aggr=a["aggr2"])
                    elif ev.get("mixaggr") == 2:
                        args.update(aggr=a["aggr2"], v2e_aggr=ag)
                    else:
                        args.update(v2e_aggr=ag, e2v_aggr=a["aggr2"])
                    out = self.purely(ev, f, *pos, X, **args, **kd)
                elif nm in ("v2e_upd", "e2v_upd"):
                    out = self.purely(ev, f, *pos, X, **args)
                else:
                    out = self.purely(ev, f, *pos, X, ag, **args, **kd)
            ev["out"] = encm(out)
        finally:
            if k == "H":
                ev["ord"], ev["grps"] = self.order(x, grp)


# ------------------------------------------------------------------ random call generation
WS = [ONE // 4 * i for i in range(1, 17)]


class Gen:
    """random call generator over a live Exec"""

    def __init__(self, rng, scratch, obs="all", maxv=6):
        self.rng = rng
        self.x = Exec(scratch, obs)
        # one history in six is wide: more vertices, larger hyperedges, more groups
        self.wide = rng.random() < .16
        self.maxv = maxv if not self.wide else max(maxv, 13)
        self.maxe = 4 if not self.wide else 9
        self.groups = ["main", "main", "g1", "g 2"] if not self.wide else ["main", "g1", "g 2", "", "z", "a", "B"]
        self.next = 1
        self.recent = {}
        self.fileno = 0

    def fresh(self):
        self.next += 1
        return self.next - 1

    def w(self):
        p = self.rng.random()
        return self.rng.choice(WS) if p < .77 else 0 if p < .8 else ONE

    def pair(self, x):
        r = self.rng
        k = kind_of(x)
        rec = self.recent.setdefault(id(x), [])
        if rec and r.random() < 0.5:
            p = r.choice(rec)
            if k == "G" and r.random() < 0.5:
                p = p[::-1]
            elif k == "D" and r.random() < 0.15:
                p = p[::-1]
        elif k == "B":
            p = [r.randrange(x.num_u), r.randrange(x.num_v)]
        else:
            a = r.randrange(x.num_v)
            p = [a, a if r.random() < 0.15 else r.randrange(x.num_v)]
        rec.append(list(p))
        del rec[:-8]
        return list(p)

    def hedge(self, x, maxs=None):
        r = self.rng
        rec = self.recent.setdefault(id(x), [])
        if rec and r.random() < 0.5:
            e = list(r.choice(rec))
            r.shuffle(e)
        else:
            n = x.num_v
            e = r.sample(range(n), r.randint(1, min(n, maxs or self.maxe)))
        rec.append(list(e))
        del rec[:-8]
        return e

    def new(self, kind=None, **kw):
        r = self.rng
        kind = kind or r.choice("GDBH")
        nv = kw.pop("nv", None) or r.randint(1 if r.random() < .1 else 2 if not self.wide else 7, self.maxv)
        ev = {"op": "new", "r": self.fresh(), "kind": kind, "nu": r.randint(1, self.maxv) if kind == "B" else 0, "nv": nv,
              "mop": r.choice(MOPS), "extra": r.random() < 0.25 and kind in "GD", "vw": [ONE] * nv if kind == "H" else [], "hasvw": False,
              "es": [], "hasw": False, "nw": 0, "spell": r.choice(["tuples", "lists", "single", "tupleoftuples"])}
        ev.update({k: v for k, v in kw.items()})
        if kind == "H" and r.random() < 0.5:
            ev["hasvw"] = True
            ev["vw"] = [self.w() for _ in range(nv)]
        ne = kw.get("ne", r.choice([0, 1, 2, 3, 4, 6, 8] + [14] * self.wide * 3))
        if ne == 0 and r.random() < .5:
            ev["noargs"] = True
        es = []
        hub = None
        for _ in range(ne):
            if kind == "H":
                if es and r.random() < .3:
                    e = list(r.choice(es)[0])
                    r.shuffle(e)
                else:
                    e = r.sample(range(nv), r.randint(1, min(nv, self.maxe)))
                es.append([e, self.w()])
            elif kind == "B":
                es.append([r.randrange(ev["nu"]), r.randrange(nv), self.w()])
            else:
                a, b = r.randrange(nv), r.randrange(nv)
                if es and r.random() < .25:
                    a, b = r.choice(es)[:2]
                    if r.random() < .5:
                        a, b = b, a
                es.append([a, b, self.w()])
        self.setes(ev, es)
        ev.pop("ne", None)
        res = self.x.run(ev)
        if not res["ok"]:
            return None
        if self.wide and kind == "H" and ne and r.random() < .6:
            # several groups, in no alphabetical order
            for grp in r.sample(["z", "main", "g1", "", "a", "B", "g 2"], r.randint(3, 6)):
                self.adds(res["r"], grp, r.randint(1, 3))
        return res["r"]

    def adds(self, o, grp, n):
        r = self.rng
        ev = {"op": "add", "o": o, "mop": r.choice(MOPS), "grp": grp, "spell": r.choice(["tuples", "lists", "single", "tupleoftuples", "sets"]),
              "defmop": r.random() < .5, "defgrp": r.random() < .5, "spl": r.random() < .5, "kind": "H"}
        self.setes(ev, [[self.hedge(self.x.h[o]), self.w()] for _ in range(n)])
        if ev["spell"] == "sets" and any(len(e[0]) == 0 for e in ev["es"]):
            ev["spell"] = "lists"
        return self.x.run(ev)

    def setes(self, ev, es):
        r = self.rng
        ev["es"] = es
        ev["hasw"] = r.random() < .75
        if not ev["hasw"]:
            for e in es:
                e[-1] = ONE
        ev["nw"] = len(es)
        if ev["hasw"] and es and r.random() < .15 and ev.get("kind", "H") == "H":
            for e in es:
                e[-1] = es[0][-1]
            ev["scalarw"] = True

    def empty(self, o):
        """remove every (hyper)edge, of one group or of all"""
        r, x = self.rng, self.x.h[o]
        og, g = False, ""
        if kind_of(x) == "H":
            names = [n for n in x.group_names if x.num_e_of_group(n)]
            og = r.random() < .7
            g = r.choice(names) if og else ""
            ps = [list(e) for e in (x.e_of_group(g)[0] if og else x.e[0])]
        else:
            ps = [list(map(int, e)) for e in x.e[0]]
        return self.x.run({"op": "remove", "o": o, "og": og, "grp": g, "ps": ps, "spell": r.choice(["tuples", "lists"])})

    def edit(self, o):
        """one random valid edit"""
        r = self.rng
        x = self.x.h[o]
        k = kind_of(x)
        c = r.random()
        if x.num_e and r.random() < .08:
            return self.empty(o)
        if k == "H":
            grp = r.choice(self.groups)
            if c < .55:
                return self.adds(o, grp, r.choice([0, 1, 1, 2, 3] + [6] * self.wide * 2))
            if c < .82:
                names = list(x.group_names)
                og = bool(names) and r.random() < .6
                g = r.choice(names) if og else ""
                if names and r.random() < .7:
                    ps = []
                    for _ in range(r.choice([1, 1, 2])):
                        es = x.e_of_group(r.choice(names))[0]
                        ps.append(list(r.choice(es)) if es else self.hedge(x))
                        r.shuffle(ps[-1])
                else:
                    ps = [self.hedge(x) for _ in range(r.choice([0, 1, 2]))]
                return self.x.run({"op": "remove", "o": o, "og": og, "grp": g, "ps": ps, "spell": r.choice(["tuples", "lists", "single", "tupleoftuples"])})
            if c < .94:
                return self.x.run({"op": "rmgroup", "o": o, "grp": grp})
            return self.x.run({"op": "clear", "o": o})
        if c < .5:
            ev = {"op": "add", "o": o, "mop": r.choice(MOPS), "grp": "", "spell": r.choice(["tuples", "lists", "single", "tupleoftuples"]),
                  "defmop": r.random() < .5, "kind": k}
            self.setes(ev, [self.pair(x) + [self.w()] for _ in range(r.choice([0, 1, 1, 2, 3, 4]))])
            return self.x.run(ev)
        if c < .75:
            ps = []
            for _ in range(r.choice([0, 1, 1, 2])):
                if r.random() < .7 and x.num_e:
                    p = list(map(int, r.choice(x.e[0])))
                    if k == "G" and r.random() < .5:
                        p = p[::-1]
                else:
                    p = self.pair(x)
                ps.append(p)
            return self.x.run({"op": "remove", "o": o, "og": False, "grp": "", "ps": ps, "spell": r.choice(["tuples", "lists", "single"])})
        if c < .8:
            return self.x.run({"op": "clear", "o": o})
        if k == "B":
            return self.x.run({"op": "switch", "o": o, "r": self.fresh()})
        ops = ["addextra", "rmextra", "rmloop"] + (["reverse"] * 3 if k == "D" else [])
        return self.x.run({"op": r.choice(ops), "o": o})

    def view(self, o, names=None, laps=False):
        r = self.rng
        x = self.x.h[o]
        k = kind_of(x)
        nm = r.choice(names or (VIEWS[k] + (LV[k] if laps else [])))
        ev = {"op": "view", "o": o, "nm": nm, "arg": [0, 1], "ord": [], "grps": [], "og": False}
        if k == "H":
            gs = list(x.group_names)
            if (nm not in HV0 or nm == "num_e") and gs and r.random() < .5:
                ev["og"], ev["grps"] = True, [r.choice(gs)]
            if nm == "nbr_e":
                ev["arg"] = [r.randrange(x.num_v), 0]
            if nm == "nbr_v":
                n = x.num_e_of_group(ev["grps"][0]) if ev["og"] else x.num_e
                if n == 0:
                    ev["nm"] = "H"
                else:
                    ev["arg"] = [r.randrange(n), 0]
        elif nm in ("nbr_v", "nbr_v_in", "nbr_v_out", "nbr_u"):
            n = x.num_u if (k == "B" and nm == "nbr_v") else x.num_v
            ev["arg"] = [r.randrange(n), r.choice([1, 1, 2, 3] + [4, 5] * self.wide) if k == "G" else 1]
        ev["sig"] = "view:%s:%s%s" % (k, ev["nm"], ":group" if ev["og"] else "")
        ev["v"] = 0 if ev["nm"].startswith("num") else []
        return self.x.run(ev)

    def copyop(self, o):
        if self.rng.random() < .12:
            return self.x.run({"op": "to", "o": o, "r": o})
        return self.x.run({"op": self.rng.choice(["clone", "state"]), "o": o, "r": self.fresh()})

    def wanted(self, o, laps=False, groups=True, names=None):
        """every view of an object, overall and per group"""
        x = self.x.h[o]
        return all_views(x, laps=laps, groups=groups, names=names)

    def views(self, o, **kw):
        return self.x.run({"op": "views", "o": o, "want": self.wanted(o, **kw)})

    # ---- feature matrices and message passing ---------------------------
    def feat(self, n, d=None):
        r = self.rng
        d = d or r.choice([1, 2, 3])
        return [[r.randrange(-8, 9) * (ONE // 4) for _ in range(d)] for _ in range(n)]

    def passop(self, o, nm=None, aggr=None, hasw=None, og=None, drop=False):
        r = self.rng
        x = self.x.h[o]
        k = kind_of(x)
        ag = aggr or r.choice(["mean", "sum", "softmax_then_sum"])
        hw = r.random() < .4 if hasw is None else hasw
        a = {"nm": nm or {"G": "v2v_g", "D": "v2v_g", "B": r.choice(["u2v", "v2u"]),
                          "H": r.choice(["v2e_agg", "v2e_upd", "v2e", "e2v_agg", "e2v_upd", "e2v", "v2v_h", "v2v_h"])}[k],
             "aggr": ag, "aggr2": ag, "dir": "dst2src", "X": [], "hasw": hw, "ws": [], "hasew": False, "ew": [], "hasw2": False, "ws2": []}
        ev = {"op": "pass", "o": o, "a": a, "ord": [], "grps": [], "og": False}
        if k == "H":
            gs = list(x.group_names)
            if gs and (r.random() < .5 if og is None else og):
                ev["og"], ev["grps"] = True, [r.choice(gs)]
            grp = ev["grps"][0] if ev["og"] else None
            m = x.num_e_of_group(grp) if grp is not None else x.num_e
            q = (lambda s: getattr(x, s + "_of_group")(grp)) if grp is not None else (lambda s: getattr(x, s))
            n = m if a["nm"] in ("v2e_upd", "e2v_agg", "e2v_upd", "e2v") else x.num_v
            try:
                if a["nm"] in ("v2e_agg", "v2e", "v2v_h"):
                    a["ws"] = [[s, d, self.w()] for s, d in zip(q("v2e_src").tolist(), q("v2e_dst").tolist())]
                else:
                    a["ws"] = [[d, s, self.w()] for s, d in zip(q("e2v_src").tolist(), q("e2v_dst").tolist())]
                if a["nm"] == "v2v_h":
                    a["ws2"] = [[d, s, self.w()] for s, d in zip(q("e2v_src").tolist(), q("e2v_dst").tolist())]
            except Exception:
                a["hasw"] = False
            a["hasew"], a["ew"] = r.random() < .35, [self.w() for _ in range(m)]
            a["hasw2"] = a["hasw"] and r.random() < .5
            if a["nm"] == "v2v_h" and r.random() < .3 and a["ws2"]:
                a["hasw2"], a["hasw"] = True, False
            if a["nm"] == "v2v_h":
                ev["oneaggr"] = r.random() < .4
                ev["mixaggr"] = r.choice([0, 1, 2])
                if not ev["oneaggr"]:
                    a["aggr2"] = r.choice(["mean", "sum", "softmax_then_sum"])
            ev["ewcol"] = r.random() < .5
        elif k == "B":
            n = x.num_u if a["nm"] == "u2v" else x.num_v
            a["ws"] = [[s, d, self.w()] for s, d in zip(x.e_u.tolist(), x.e_v.tolist())]
        else:
            n = x.num_v
            if k == "D":
                a["dir"] = r.choice(["src2dst", "dst2src"])
                ev["defdir"] = a["dir"] == "dst2src" and r.random() < .4
            a["ws"] = [[s, d, self.w()] for s, d in zip(x.e_src.tolist(), x.e_dst.tolist())]
        a["X"] = self.feat(n)
        if not a["X"]:
            return None
        for f, l in (("hasw", "ws"), ("hasew", "ew"), ("hasw2", "ws2")):
            if not a[f]:
                a[l] = []
        if not a["ws"] and not a["hasw"]:
            pass
        elif a["hasw"] and not a["ws"]:
            a["hasw"] = False
        if a["hasw2"] and not a["ws2"]:
            a["hasw2"] = False
        if drop:
            mid = [ONE // 4, ONE // 2, 3 * ONE // 4]
            ev["op"], ev["seed"] = "dropmat", r.randrange(1 << 30)
            ev["rate"] = ev["rate2"] = r.choice(mid + [ONE])
            if a["nm"] == "v2v_h":
                ev["rate"] = r.choice([0, 0, 0, ONE])
                ev["rate2"] = r.choice(mid + [0, ONE])
            if r.random() < .7:
                a["X"] = [[ONE if i == j else 0 for j in range(n)] for i in range(n)]
        ev["sig"] = "%s:%s:%s%s:%s%s%s%s" % (ev["op"], k, a["nm"], ":group" if ev["og"] else "", a["aggr"],
                                             ":" + a["aggr2"] if a["nm"] == "v2v_h" else "", ":" + a["dir"] if k == "D" else "",
                                             ":weights" if a["hasw"] or a["hasw2"] else "")
        return self.x.run(ev)

    def smooth(self, o):
        r = self.rng
        x = self.x.h[o]
        k = kind_of(x)
        n = x.num_v + (x.num_u if k == "B" else 0)
        mat = [[r.choice([0, 0, ONE, -ONE, ONE // 2]) for _ in range(n)] for _ in range(n)] if k == "D" or r.random() < .2 else []
        plain = not mat and (k == "B" or r.random() < .5)
        nm = "given" if mat else {"G": "L_GCN", "B": "L_GCN", "H": "L_HGNN"}[k] if plain else r.choice(LV[k])
        ev = {"op": "smooth", "o": o, "nm": nm, "plain": plain, "mat": mat, "lamb": r.choice([ONE // 2, ONE, -ONE, 2 * ONE, 0]), "ord": [], "grps": [], "og": False,
              "X": self.feat(n)}
        if k == "H" and not mat and list(x.group_names) and r.random() < .5:
            ev["og"], ev["grps"] = True, [r.choice(list(x.group_names))]
        ev["sig"] = "smooth:%s:%s%s%s" % (k, nm, ":plain" if plain else "", ":group" if ev["og"] else "")
        return self.x.run(ev)

    # ---- restriction, dropping, persistence -----------------------------
    def sub(self, o):
        r = self.rng
        x = self.x.h[o]
        n = x.num_v
        vs = r.sample(range(n), r.randint(1, n))
        if r.random() < .3:
            vs = vs + [r.choice(vs)]
            r.shuffle(vs)
        c = r.random()
        if c < .06:
            vs = []
        elif c < .12:
            vs = vs + [r.choice([n, n + 2, -1])]
            r.shuffle(vs)
        mn = r.choice([1, 2])
        return self.x.run({"op": "sub", "o": o, "r": self.fresh(), "vs": vs, "mn": mn, "spell": r.choice(["list", "tuple"])})

    def drop(self, o, rate=None):
        r = self.rng
        x = self.x.h[o]
        k = kind_of(x)
        ev = {"op": "drop", "o": o, "r": self.fresh(), "rate": r.choice([0, ONE // 4, ONE // 2, 3 * ONE // 4, ONE]) if rate is None else rate,
              "seed": r.randrange(1 << 30), "ord": "uniform" if r.random() < .95 else "degree", "og": False, "grp": ""}
        if k == "H" and list(x.group_names) and r.random() < .5:
            ev["og"], ev["grp"] = True, r.choice(list(x.group_names))
        ev["sig"] = "drop:%s%s" % (k, ":group" if ev["og"] else "")
        return self.x.run(ev)

    def dropmat(self, o):
        r = self.rng
        x = self.x.h[o]
        k = kind_of(x)
        rate = r.choice([ONE // 4, ONE // 2, 3 * ONE // 4, ONE])
        if k == "D" or r.random() < .75:
            nm = r.choice({"G": ["v2v_g"], "D": ["v2v_g"], "B": ["u2v", "v2u"], "H": ["v2e_agg", "v2e", "e2v_agg", "e2v", "v2v_h"]}[k])
            return self.passop(o, nm=nm, drop=True)
        nm = "L_HGNN" if k == "H" else "L_GCN"
        ev = {"op": "dropmat", "o": o, "a": {"nm": nm}, "rate": rate, "seed": r.randrange(1 << 30), "ord": [], "grps": [], "og": False}
        if k == "H" and list(x.group_names) and r.random() < .5:
            ev["og"], ev["grps"] = True, [r.choice(list(x.group_names))]
        ev["sig"] = "dropmat:%s:%s%s" % (k, nm, ":group" if ev["og"] else "")
        return self.x.run(ev)

    def save(self, o):
        self.fileno += 1
        return self.x.run({"op": "save", "o": o, "f": "f%d" % self.fileno})

    def load(self, f, via, r=None):
        return self.x.run({"op": "load", "f": f, "via": via, "r": r or self.fresh()})


def all_views(x, laps=False, groups=True, names=None, few=False):
    k = kind_of(x)
    want = []
    vs = [v for v in (names or (VIEWS[k] + (LV[k] if laps else [])))]
    if k == "H":
        for grp in [None] + (list(x.group_names) if groups else []):
            for nm in vs:
                if grp is not None and nm in HV0 and nm != "num_e":
                    continue
                if nm == "nbr_e":
                    want += [[nm, [i, 0], grp] for i in range(x.num_v)]
                elif nm == "nbr_v":
                    want += [[nm, [i, 0], grp] for i in range(x.num_e_of_group(grp) if grp is not None else x.num_e)]
                else:
                    want.append([nm, [0, 0], grp])
        return want
    for nm in vs:
        if nm.startswith("nbr"):
            n = x.num_u if (k == "B" and nm == "nbr_v") else x.num_v
            for i in range(n):
                want.append([nm, [i, 1], None])
                if k == "G":
                    want.append([nm, [i, 2], None])
                    want.append([nm, [i, 3], None])
        else:
            want.append([nm, [0, 0], None])
    return want
