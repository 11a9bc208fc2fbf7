"""Linear resources (inverted wires, inout): used exactly once."""
import re
import ir, paths, core, render
from core import prop, must_visit, leaves
from common import *
from traversal import HEK, expr_children, HEXPR

LS = "spade_hir_lowering::linear_check::linear_state::"


@prop("C05")
def c05(ck):
    prog = ck.prog
    ck.rule("lin-visit", "every sub-expression of an expression the linearity check accepts has been visited by it", 30)
    ck.rule("lin-consume", "every use of a value that moves it (literal member, operand, argument, binding, register, set, block result, match scrutinee, unit result) consumes it, on every accepting path", 20)
    ck.rule("lin-introduce", "every name, pattern and value that can own linear resources is introduced to the check; projections alias the resource they project", 14)
    ck.rule("lin-verdict", "unused resources and second consumptions are errors, nested resources included, and every unit is checked", 20)
    ck.rule("lin-types", "exactly inverted and inout values are linear, alone or nested in tuples, structs and arrays", 28)
    vis = "spade_hir_lowering::linear_check::visit_expression"
    g = ck.graph(fn_one(prog, r"linear_check::visit_expression$"), r"linear_check::visit_statement$")
    kind = F(("arg", 0), "kind")
    V = lambda s: F(kind, s)
    kids = [l for l in expr_children(prog, kind) if not re.match(r"(MethodCall|AssociatedCall|LambdaDef|TypeLevelIf)\.", l[0])]
    isvis = lambda r, d: r == vis
    must_visit(ck, "lin-visit", g, kids, isvis, "visit_expression", arg=[0])
    iscons = lambda r, d: r.startswith(LS) and bool(re.search(r"::consume_(expression|id)$", r))
    rd = lambda t: 1 if (t[0] == "call" and re.search(r"unwrap_or|is_none_or|is_some_and", t[1])) else None
    CONS = {"TupleLiteral.0[*]": 1, "ArrayLiteral.0[*]": 1, "ArrayShorthandLiteral.0": 2, "Index.1": 1, "RangeIndex.target": 1,
            "BinaryOperator.0": 1, "BinaryOperator.2": 1, "Match.0": 1}
    got = set()
    for label, head, term, assume in kids:
        m = None
        if label in CONS:
            m = ()
        elif label.startswith("Call.args"):
            m = "call"
        elif re.search(r"^Block\.0\.result\?$|Binding\.0\.value$|Register\.0\.value$|Set\.(target|value)$", label):
            m = ()
        if m is None:
            continue
        got.add(label)
        if m == "call":
            callee_read(ck, g, label, head, term, assume, iscons, kind)
            continue
        must_visit(ck, "lin-consume", g, [(label, head, term, assume)], iscons, "consume", arg=[1])
    for lb in CONS:
        ck.ob("lin-consume", "anchor " + lb, lb in got, "no such operand")
    # a non-linear index target is consumed as a whole; a linear one is aliased element by element
    isl = lambda v: (lambda t: v if t[0] == "call" and t[1].endswith("linear_state::is_linear") else None)
    a = ((kind, "Index"),)
    must_call(ck, "lin-consume", "Index.0 of non-linear type", g, lambda r, d, x: iscons(r, d) and ir.derives(x[1], V("Index.0")), "the indexed value is not consumed", a, decide_bool=isl(0))
    must_call(ck, "lin-introduce", "Index.0 of linear type", g, lambda r, d, x: r.endswith("alias_array_member") and x[2] == F(V("Index.0"), "id"), "indexing a linear array does not alias the element", a, decide_bool=isl(1))
    # the array shorthand consumes twice, as one resource cannot fill several elements
    ev = [n for n in events(g, lambda r, d, x: iscons(r, d) and ir.derives(x[1], V("ArrayShorthandLiteral.0")))]
    two = len(ev) >= 2 and all(search(g, ((kind, "ArrayShorthandLiteral"),)).find(paths.OkReturn(), avoid={n}) is None for n in ev[:2])
    ck.ob("lin-consume", "ArrayShorthandLiteral.0 twice", two, "`[x; n]` must consume x at least twice so that a linear x is rejected", where(g))
    for op in ("Sub", "Not", "BitwiseNot"):
        must_call(ck, "lin-consume", "UnaryOperator %s" % op, g, lambda r, d, x: iscons(r, d) and ir.derives(x[1], V("UnaryOperator.1")), "operand is not consumed", ((kind, "UnaryOperator"), (V("UnaryOperator.0"), op)))
    # introductions
    PUSH = lambda r: r.startswith(LS) and r.endswith("::push_new_name")
    PAT = lambda r: r.startswith(LS) and r.endswith("::push_pattern")
    NEWEXPR = [v for v in prog.variants(HEK) if v not in ("Identifier", "TupleIndex", "FieldAccess", "PipelineRef", "Null", "StaticUnreachable", "LambdaDef", "MethodCall", "AssociatedCall", "TypeLevelIf")]
    for v in NEWEXPR:
        must_call(ck, "lin-introduce", "value of %s" % v, g, lambda r, d, x: r.startswith(LS) and r.endswith("::push_new_expression") and ir.derives(x[1], ("arg", 0)), "the value is not tracked", ((kind, v),))
    sid = F(("arg", 0), "id")
    nid = lambda t: t == sid or ir.derives(t, sid)
    for v, fn, base in (("TupleIndex", "alias_tuple_member", "TupleIndex.0"), ("FieldAccess", "alias_struct_member", "FieldAccess.0")):
        must_call(ck, "lin-introduce", "alias " + v, g, lambda r, d, x: r.endswith("::" + fn) and nid(x[1]) and x[2] == F(V(base), "id") and ir.derives(x[3], V(v + ".1")), "the projection is not an alias of the projected resource", ((kind, v),))
    must_call(ck, "lin-introduce", "alias Identifier", g, lambda r, d, x: r.endswith("::add_alias_name") and nid(x[1]) and ir.derives(x[2], V("Identifier.0")), "the name's resource is not aliased", ((kind, "Identifier"),))
    must_call(ck, "lin-introduce", "alias PipelineRef", g, lambda r, d, x: r.endswith("::add_alias_name") and nid(x[1]) and ir.derives(x[2], V("PipelineRef.name")), "the referenced name's resource is not aliased", ((kind, "PipelineRef"),))
    must_visit(ck, "lin-introduce", g, [("Match.1[*].0", "", F(E(V("Match.1")), "0"), ((kind, "Match"),))], lambda r, d: PAT(r), "push_pattern", arg=[1])
    st = E(F(V("Block.0"), "statements"))
    for sv, lb, f in (("Binding", "Binding.0", "pattern"), ("Register", "Register.0", "pattern")):
        must_visit(ck, "lin-introduce", g, [("%s.%s" % (lb, f), "", F(F(st, lb), f), ((kind, "Block"), (st, sv)))], lambda r, d: PAT(r), "push_pattern", arg=[1])
    must_visit(ck, "lin-introduce", g, [("Declaration.0[*]", "", E(F(st, "Declaration.0")), ((kind, "Block"), (st, "Declaration")))], lambda r, d: PUSH(r), "push_new_name", arg=[1])
    # units
    gu = ck.graph(fn_one(prog, r"linear_check::check_linear_types$"))
    must_visit(ck, "lin-introduce", gu, [("inputs[*].name", "", F(E(("arg", 0)), "name"), ())], lambda r, d: PUSH(r), "push_new_name", arg=[1])
    must_call(ck, "lin-visit", "unit body", gu, lambda r, d, x: r == vis and x[0] == ("arg", 1), "the body of a unit is not visited")
    must_call(ck, "lin-consume", "unit body", gu, lambda r, d, x: iscons(r, d) and ir.derives(x[1], ("arg", 1)), "the result of a unit is not consumed")
    unused(ck, gu)
    gg = ck.graph(fn_one(prog, r"spade_hir_lowering::generate_unit$"))
    must_call(ck, "lin-verdict", "every generated unit is checked", gg, lambda r, d, x: r.endswith("linear_check::check_linear_types") and ir.derives(x[0], F(("arg", 0), "inputs")) and x[1] == F(("arg", 0), "body"), "a unit is generated without the linearity check")
    errors_propagate(ck, "lin-verdict", gg, lambda r: r.endswith("linear_check::check_linear_types"), "generate_unit")
    errors_propagate(ck, "lin-verdict", g, lambda r: iscons(r, r) or r == vis or PAT(r), "visit_expression", skip=lambda n: False)
    errors_propagate(ck, "lin-verdict", gu, lambda r: iscons(r, r) or r == vis, "check_linear_types")
    tree_rules(ck)


def callee_read(ck, g, label, head, term, assume, iscons, kind):
    """arguments are consumed unless the callee is the library's read_mut_wire"""
    callee = F(kind, "Call.callee")

    def dec(t):
        # the exemption test: comparison of the callee with the looked-up name
        if t[0] == "call" and re.search(r"unwrap_or|is_none_or|map_or", t[1]):
            return 1
        if t[0] == "phi":
            return 1 if any(contains_cmp(x, callee) for x in t[1]) else None
        if t[0] == "call" and re.search(r"PartialEq.*::ne$|PartialEq.*::eq$", t[1]) and any(ir.derives(x, callee) for x in t[2]):
            return int(t[1].endswith("ne"))
        return None
    must_visit(ck, "lin-consume", g, [(label, head, term, assume)], iscons, "consume", arg=[1], decide_bool=dec)


def contains_cmp(t, callee):
    return any(x[0] == "call" and re.search(r"PartialEq.*::(ne|eq)$", x[1]) and any(ir.derives(y, callee) for y in x[2]) for x in ir.subterms(t) if isinstance(x, tuple) and x)


def errors_propagate(ck, rule, g, pred, key, skip=None, assume=()):
    """an Err returned by one of the named calls leads to an Err of the caller (or to an explicit handler that errors)"""
    n0 = 0
    for n, r, d, rec in g.calls():
        if not pred(r) or n[0] != g.root.id and False:
            continue
        c = g.ctxs[n[0]]
        t = c.body.bbs[n[1]]["t"]
        if t[4] is None or len(t[3]) != 1:
            continue
        if c.subs.get(n[1]):
            continue
        n0 += 1
        s = search(g, assume)
        env = {(c.id, t[3][0]): ("v", "Err")}
        rr = s.find(paths.OkReturn(), start=[((c.id, t[4]), env)])
        ck.paths += 1
        if rr is not None and c.isclos:
            # inside a closure the error is the closure's result; find() models its propagation
            pass
        ck.ob(rule, "%s: error of %s (%s)" % (key, r.split("::")[-1], ordinal(ck, rule, key, r)), rr is None, "" if rr is None else "the error is dropped: %s" % paths.path_str(g, rr), g.loc(n))
    return n0


def ordinal(ck, rule, key, r):
    p = "%s: error of %s (" % (key, r.split("::")[-1])
    return "#%d" % sum(1 for o in ck.obs if o[0] == rule and o[1].startswith(p))


def unused(ck, gu):
    must_call(ck, "lin-verdict", "check_unused runs", gu, lambda r, d, x: r.endswith("LinearState::check_unused"), "unused resources are not looked for")
    errors_propagate(ck, "lin-verdict", gu, lambda r: r.endswith("LinearState::check_unused"), "check_linear_types")


def tree_rules(ck):
    prog = ck.prog
    CT = "spade_types::ConcreteType"
    PT = "spade_types::PrimitiveType"
    ty = ("arg", 0)
    g = ck.graph(fn_one(prog, r"linear_state::is_linear$"))
    LIN = {"Backward": 1}
    REC = {"Tuple": E(F(ty, "Tuple.0")), "Struct": F(E(F(ty, "Struct.members")), "1"), "Array": F(ty, "Array.inner")}
    isrec = lambda r, d: r.endswith("linear_state::is_linear")
    for v in prog.variants(CT):
        if v in REC:
            # some member is linear => linear; none is => not
            for val in (0, 1):
                a = ((ty, v),)
                hit = []

                def dec(t, val=val):
                    if t[0] == "call" and isrec(t[1], t[1]) and ir.derives(t[2][0], REC[v]):
                        return val
                    return None
                goal = BoolReturn(1 - val)
                if v == "Array":
                    rets = returned(ck, g, a)
                    ok = any(x[0] == "call" and isrec(x[1], x[1]) and ir.derives(x[2][0], REC[v]) for x in rets)
                    if not ok:
                        ok = search(g, a, dec).find(goal) is None
                else:
                    ok = any_over(ck, g, a, REC[v], isrec, val)
                ck.ob("lin-types", "is_linear %s member=%d" % (v, val), ok, "a %s with%s linear member must%s be linear" % (v, "" if val else "out", "" if val else " not"), where(g))
        elif v == "Single":
            for pv in prog.variants(PT):
                exp = 1 if pv == "InOut" else 0
                never(ck, "lin-types", "is_linear Single %s" % pv, g, "must return %s" % bool(exp), ((ty, "Single"), (F(ty, "Single.base"), pv)), goal=BoolReturn(1 - exp))
        else:
            exp = LIN.get(v, 0)
            never(ck, "lin-types", "is_linear %s" % v, g, "must return %s" % bool(exp), ((ty, v),), goal=BoolReturn(1 - exp))
    # build_linear_tree
    g = ck.graph(fn_one(prog, r"linear_state::build_linear_tree$"))
    ty = ("arg", 1)
    rec = lambda r, d: r.endswith("::build_linear_tree")
    leafarg = lambda a, db=None: {x[1][0] for x in args_under(ck, g, lambda r, d: r.endswith("LinearTree::leaf"), a, db)}
    for v in prog.variants(CT):
        if v == "Tuple":
            must_visit(ck, "lin-types", g, [("Tuple.0[*]", "", E(F(ty, "Tuple.0")), ((ty, v),))], rec, "build_linear_tree", arg=[1])
        elif v == "Struct":
            must_visit(ck, "lin-types", g, [("Struct.members[*].1", "", F(E(F(ty, "Struct.members")), "1"), ((ty, v),))], rec, "build_linear_tree", arg=[1])
        elif v == "Array":
            isl = lambda t: 1 if t[0] == "call" and t[1].endswith("linear_state::is_linear") else None
            cl = args_under(ck, g, lambda r, d: rec(r, d), ((ty, v),), isl)
            ok = any(ir.derives(a[1], F(ty, "Array.inner")) for n, a in cl) and leafarg(((ty, v),), isl) == set()
            ck.ob("lin-types", "build_linear_tree Array of linear", ok, "an array of linear values must be tracked element by element", where(g))
            gp = ck.graph(fn_one(prog, r"linear_state::build_linear_tree$"), precise=True)
            r = render.R({("arg", 0): "loc", ty: "ty"}, prog)
            cs = render.cases(ck, gp, r, ((ty, v),), result=r.v, fixed={"is_linear(ty.Array.inner)": True})
            render.compare(ck, "lin-types", "build_linear_tree Array size", cs, [({}, ("array(map(new(build_linear_tree(loc, ty.Array.inner)) for 0..ty.Array.size))", "array(map(new(build_linear_tree(loc, ty.Array.inner))))"))], where(g))
        elif v == "CopyView":
            pass
        elif v == "Single":
            for pv in prog.variants(PT):
                exp = {("k", 1 if pv == "InOut" else 0)}
                got = leafarg(((ty, "Single"), (F(ty, "Single.base"), pv)))
                ck.ob("lin-types", "build_linear_tree Single %s" % pv, got == exp, "leaf linearity is %s" % got, where(g))
        else:
            exp = {("k", 1 if v == "Backward" else 0)}
            got = leafarg(((ty, v),))
            ck.ob("lin-types", "build_linear_tree %s" % v, got == exp, "leaf linearity is %s" % got, where(g))
    g = ck.graph(fn_one(prog, r"LinearTree>?::leaf$"))
    for b, v in ((1, "Unused"), (0, "Unlimited")):
        r = returned(ck, g, (), lambda t: b if t == ("arg", 0) else None)
        ok = all(any(x[0] == "agg" and x[2] == v for x in ir.subterms(t)) and not any(x[0] == "agg" and x[2] in ("Unused", "Unlimited", "Consumed") and x[2] != v for x in ir.subterms(t)) for t in r)
        ck.ob("lin-types", "leaf(%s)" % bool(b), ok, "initial usage must be %s" % v, where(g))
    # try_consume / check_unused
    K = F(("arg", 0), "kind")
    lf = F(K, "Leaf.0")
    for fn, table in (("try_consume", {"Unlimited": "Ok", "Unused": "Ok", "Consumed": "Err"}), ("check_unused", {"Unlimited": "Ok", "Unused": "Err", "Consumed": "Ok"})):
        g = ck.graph(fn_one(prog, r"LinearTree>?::%s$" % fn))
        for u, res in table.items():
            a = ((K, "Leaf"), (lf, u))
            never(ck, "lin-verdict", "%s of %s leaf" % (fn, u), g, "must be %s" % res, a, goal=VariantReturn("Ok" if res == "Err" else "Err"))
            possible(ck, "lin-verdict", "%s of %s leaf can be %s" % (fn, u, res), g, "no path returns %s" % res, a, goal=VariantReturn(res))
        me = lambda r, d, fn=fn: r.endswith("LinearTree::" + fn)
        for v, t in (("Struct", F(E(F(K, "Struct.0")), "1")), ("Tuple", E(F(K, "Tuple.0"))), ("Array", E(F(K, "Array.0")))):
            must_visit(ck, "lin-verdict", g, [(v, "", t, ((K, v),))], me, fn)
        errors_propagate(ck, "lin-verdict", g, lambda r: me(r, r), fn)
    g = ck.graph(fn_one(prog, r"LinearTree>?::try_consume$"))
    # consuming an unused leaf records the consumption
    ok = records_consumed(ck, g, K, lf)
    ck.ob("lin-verdict", "try_consume records the use", ok, "a path accepts a first use without recording it, so a second use is accepted too", where(g))
    g = ck.graph(fn_one(prog, r"LinearState>?::check_unused$"))
    must_visit(ck, "lin-verdict", g, [("trees[*]", "", F(E(F(("arg", 0), "trees")), "1"), ())], lambda r, d: r.endswith("LinearTree::check_unused"), "LinearState::check_unused")
    errors_propagate(ck, "lin-verdict", g, lambda r: r.endswith("LinearTree::check_unused"), "LinearState::check_unused")
    g = ck.graph(fn_one(prog, r"LinearState>?::consume_id$"))
    ev = events(g, lambda r, d, x: r.endswith("LinearTree::try_consume"))
    must_call(ck, "lin-verdict", "consume_id consumes", g, lambda r, d, x: r.endswith("LinearTree::try_consume"), "a use succeeds without consuming the resource", force=lambda t: t[0] == "elem")
    errors_propagate(ck, "lin-verdict", g, lambda r: r.endswith("LinearTree::try_consume"), "consume_id")
    g = ck.graph(fn_one(prog, r"LinearState>?::consume_expression$"))
    must_call(ck, "lin-verdict", "consume_expression", g, lambda r, d, x: r.endswith("::consume_id") and ir.derives(x[1], F(("arg", 1), "id")), "the expression's own id is not consumed")
    # patterns
    PK = F(("arg", 1), "kind")
    for fn in ("push_pattern", "consume_pattern"):
        g = ck.graph(fn_one(prog, r"LinearState>?::%s$" % fn))
        kids = [("Bound.inner?", "", F(PK, "Bound.inner"), ((PK, "Bound"),)), ("Tuple.0[*]", "", E(F(PK, "Tuple.0")), ((PK, "Tuple"),)), ("Array.0[*]", "", E(F(PK, "Array.0")), ((PK, "Array"),)), ("Type.1[*].value", "", F(E(F(PK, "Type.1")), "value"), ((PK, "Type"),))]
        must_visit(ck, "lin-introduce", g, kids, lambda r, d: r.endswith("LinearState::" + fn), fn, arg=[1])
        errors_propagate(ck, "lin-verdict", g, lambda r: r.endswith("LinearState::" + fn) or r.endswith("::consume_id"), fn)
    g = ck.graph(fn_one(prog, r"LinearState>?::push_pattern$"))
    a = ((PK, "Bound"),)
    nm = F(PK, "Bound.name")
    must_call(ck, "lin-introduce", "bound name aliases its pattern", g, lambda r, d, x: r.endswith("::add_alias_name") and ir.derives(x[1], F(("arg", 1), "id")) and ir.derives(x[2], nm), "the bound name does not refer to the pattern's resource", a)
    inn = F(PK, "Bound.inner")
    some = a + ((inn, "Some"),)
    must_call(ck, "lin-consume", "`name @ pattern` consumes the sub-pattern", g, lambda r, d, x: r.endswith("::consume_pattern") and ir.derives(x[1], inn), "both the name and the sub-pattern could be used", some)
    must_call(ck, "lin-consume", "`name @ pattern` consumes the name", g, lambda r, d, x: r.endswith("::consume_id") and ir.derives(x[1], F(("arg", 1), "id")), "both the name and the sub-pattern could be used", some)
    gc = ck.graph(fn_one(prog, r"LinearState>?::consume_pattern$"))
    must_call(ck, "lin-consume", "consume_pattern consumes the bound name", gc, lambda r, d, x: r.endswith("::consume_id") and ir.derives(x[1], F(("arg", 1), "id")), "a bound name is not consumed", a)
    pd = F(PK, "Bound.pre_declared")
    must_call(ck, "lin-introduce", "new bound name introduces a resource", g, lambda r, d, x: r.endswith("::push_new_expression") and ir.derives(x[1], F(("arg", 1), "id")), "a newly bound name is not tracked", a, decide_bool=lambda t: 0 if t == pd else None)
    for fn in ("push_type",):
        g = ck.graph(fn_one(prog, r"LinearState>?::push_type$"))
        must_call(ck, "lin-introduce", "push_type inserts the tree", g, lambda r, d, x: r.endswith("::insert") and ir.derives(x[0], F(("arg", 0), "trees")), "the resource tree is not stored")


def any_over(ck, g, assume, leaf, isrec, val):
    """the result is `any` of the recursive call over every member"""
    rets = returned(ck, g, assume)
    for t in rets:
        if t[0] == "call" and re.search(r"Iterator>?::any$", t[1]):
            it, f = t[2][0], t[2][1]
            if f[0] == "fn" and isrec(f[1], f[1]):
                return ir.derives(E(it), leaf) and not core.has_part(E(it), leaf)
    # closure form: the closure's answer decides

    def dec(t):
        if t[0] == "call" and isrec(t[1], t[1]) and ir.derives(t[2][0], leaf):
            return val
        return None
    g2 = search(g, assume, dec, force=lambda t: core.relates(t, leaf))
    return bool(events(g, lambda r, d, x: isrec(r, d) and ir.derives(x[0], leaf) and not core.has_part(x[0], leaf))) and not any(t[0] == "call" and re.search(r"Iterator>?::all$", t[1]) for t in rets) and any(t[0] == "call" and re.search(r"Iterator>?::any$", t[1]) for t in rets)


def records_consumed(ck, g, K, lf):
    a = ((K, "Leaf"), (lf, "Unused"))
    # blocks that store a Consumed value through a reference derived from the leaf's state
    nodes = set()
    for c in g.ctxs:
        for bi, bb in enumerate(c.body.bbs):
            if bb["c"]:
                continue
            for s in bb["s"]:
                if s[0][1:] and "*" in s[0][1:]:
                    tgt = g.place(c, s[0])
                    v = g.rvalue(c, s[1], bi)
                    if any(ir.derives(x, lf) for x in ir.alts(tgt)) and any(x[0] == "agg" and x[2] == "Consumed" for x in ir.alts(v)):
                        nodes.add((c.id, bi))
    if not nodes:
        # mem::replace(state, Consumed(..))
        nodes = events(g, lambda r, d, x: r.startswith("std::mem::") and any(y[0] == "agg" and y[2] == "Consumed" for z in x[1:] for y in ir.alts(z)))
    return bool(nodes) and search(g, a).find(paths.OkReturn(), avoid=nodes) is None
