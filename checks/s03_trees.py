from vkit import workload
import copy
import numpy as np
from vkit import sga_ref as R

PROPERTY = "S03"
RULE = "distinct candidate-term trees (by preorder) observed after generation, mutation, crossover or replacement"
REQUIRE = {"tree-generated": 200, "tree-mutated": 200, "tree-crossed": 20, "tree-in-search": 50}
ASSUME = ["grids of 5-16 points per axis, 2 or 3 axes, up to 2 fields and 2 parameter fields"]


def leaf_names(prob):
    return set(prob.env)


def check_tree(m, T, prob, max_depth, where):
    nodes = T.tree
    leaves = leaf_names(prob)
    ok = True
    m.saw("tree-" + where)
    for d, level in enumerate(nodes):
        want = 0
        for i, n in enumerate(level):
            ar = R.ARITY.get(n.name, 0)
            ok &= m.check(n.child_num == ar, "arity", f"{where}: node {n.name} has {n.child_num} children slots")
            ok &= m.check(ar > 0 or n.name in leaves, "leaf-vocabulary", f"{where}: leaf {n.name!r} not a RHS variable {sorted(leaves)}")
            ok &= m.check(n.name != prob.lhs, "lhs-axis-absent", f"{where}: {n.name} is the LHS axis")
            if ar:
                ok &= m.check(n.child_st == want, "children-contiguous", f"{where}: node {n.name} at depth {d} child_st {n.child_st} want {want}")
                want += ar
                if n.name in ("d", "d^2"):
                    r = nodes[d + 1][n.child_st + 1]
                    ok &= m.check(r.name in prob.rhs_axes and r.child_num == 0, "derivative-variable",
                                  f"{where}: derivative w.r.t. {r.name}")
            # the payload the evaluator will use really is that variable / operator
            if ar == 0 and n.name in leaves:
                ok &= m.check(np.allclose(np.asarray(n.var, dtype=float), prob.env[n.name], rtol=1e-9, atol=1e-12),
                              "leaf-payload", f"{where}: leaf {n.name} holds other data")
        nxt = len(nodes[d + 1]) if d + 1 < len(nodes) else 0
        ok &= m.check(want == nxt, "level-complete", f"{where}: depth {d} needs {want} children, level has {nxt}")
    ok &= m.check(len(nodes) <= max_depth and len(nodes[0]) == 1, "depth-bound", f"{where}: {len(nodes)} levels > {max_depth}")
    if not ok:
        return
    t = R.tree_of(T)
    m.distinct(T.preorder)
    m.check(R.depth_of(t) <= max_depth, "depth-bound", f"{where}: {R.show(t)}")
    m.check(R.parse_preorder(T.preorder) == t, "preorder-denotes", f"{where}: {T.preorder} vs {R.show(t)}")
    try:
        inn = R.parse_inorder(T.inorder)
    except Exception as e:
        inn = repr(e)
    m.check(inn == t, "inorder-denotes", f"{where}: {T.inorder} vs {R.show(t)}")


def snapshot(pde):
    return [(T.preorder, T.inorder, R.tree_of(T)) for T in pde.elements]


@workload(quick=64, thorough=600)
def generate_and_mutate(m, rng, i):
    from kd.model.sga.sgapde.pde import PDE
    from kd.model.sga.sgapde.tree import Tree
    ds, prob, kind = R.gen_problem(rng)
    ctx = R.make_context(ds)
    depth = int(rng.integers(2, 6))
    p_var = float(rng.choice([0.0, 0.3, 0.5, 0.9]))
    for _ in range(4):
        T = Tree(ctx, depth, p_var)
        check_tree(m, T, prob, depth, "generated")
        before = R.tree_of(T)
        keep = copy.deepcopy(T)
        for p in (0.0, 0.3, 1.0):
            M = copy.deepcopy(T)
            M.mutate(ctx, p)
            check_tree(m, M, prob, depth, "mutated")
            after = R.tree_of(M)
            shape = lambda t: 0 if isinstance(t, str) else tuple(shape(c) for c in t[1:])
            m.check(shape(after) == shape(before), "mutation-keeps-shape", f"{R.show(before)} -> {R.show(after)}")
            if p == 0.0:
                m.check(after == before, "no-mutation-at-0", f"{R.show(before)} -> {R.show(after)}")
            m.check(R.tree_of(T) == before and T.preorder == keep.preorder, "mutation-does-not-alias", R.show(before))
        T.mutate(ctx, 0.5)
        T.mutate(ctx, 0.5)
        check_tree(m, T, prob, depth, "mutated")
    width = int(rng.integers(1, 6))
    P = PDE(ctx, depth, width, p_var)
    m.check(1 <= len(P.elements) <= width and P.W == len(P.elements), "pde-width", f"{len(P.elements)} of {width}")
    for T in P.elements:
        check_tree(m, T, prob, depth, "generated")
    P.replace()
    m.check(P.W == len(P.elements), "pde-width", "after replace")
    for T in P.elements:
        check_tree(m, T, prob, depth, "generated")


@workload(quick=32, thorough=300)
def crossover(m, rng, i):
    """Crossover swaps exactly one term each way and leaves the parents alone."""
    from kd.model.sga.sgapde import solver as S
    from kd.model.sga.sgapde.pde import PDE
    ds, prob, kind = R.gen_problem(rng)
    ctx = R.make_context(ds)
    depth = int(rng.integers(2, 5))
    with R.quiet():
        sga = S.SGA(ctx, num=6, depth=depth, width=3, p_var=0.5, p_mute=0.3, p_rep=0.5, p_cro=0.7, pde_lib=[], err_lib=[])
        pool = set()
        for e in sga.eqs:
            pool.update(T.preorder for T in e.elements)
        ids = {id(e): snapshot(e) for e in sga.eqs}
        keep = list(sga.eqs)
        sga.cross_over(0.7)
    for e in keep:
        m.check(snapshot(e) == ids[id(e)], "parents-untouched", "crossover altered a parent in place")
    for e in sga.eqs:
        m.check(len(e.elements) == e.W or len(e.elements) >= 1, "pde-width", "after crossover")
        for T in e.elements:
            check_tree(m, T, prob, depth, "crossed")
            m.check(T.preorder in pool, "crossover-no-new-term", T.preorder)


@workload(quick=24, thorough=200)
def during_search(m, rng, i):
    from kd.model.kd_sga import KD_SGA
    from kd.model.sga.sgapde import solver as S
    ds, prob, kind = R.gen_problem(rng)
    depth = int(rng.integers(2, 6))
    width = int(rng.integers(1, 6))
    seen = []
    orig = S.SGA.change

    def change(self, *a, **k):
        r = orig(self, *a, **k)
        seen.append([e for e in self.eqs])
        for e in self.eqs:
            m.check(1 <= len(e.elements) <= width, "pde-width", f"{len(e.elements)} terms, max {width}")
            for T in e.elements:
                check_tree(m, T, prob, depth, "in-search")
        return r
    S.SGA.change = change
    try:
        with R.quiet():
            KD_SGA(sga_run=4, num=5, depth=depth, width=width, seed=int(rng.integers(1000)),
                   p_mute=float(rng.choice([0.1, 0.5, 1.0])), p_var=float(rng.choice([0.2, 0.5]))).fit_dataset(ds)
    finally:
        S.SGA.change = orig
    m.check(len(seen) == 4, "generations", f"{len(seen)} generations instead of 4")
