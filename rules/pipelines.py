"""Pipelines: in which stage a value exists, the registers between stages and the signals that stall them."""
import itertools
import re
import ir, paths, core, render
from core import prop, must_visit
from common import *
from render import compare, event_cases
from lowering import LR, value_cases
from units import nodes, succ, reach
from traversal import expr_children

P = "spade_hir_lowering::pipelines::"
S = "spade_hir_lowering::substitution::Substitutions::"
T = "spade_typeinference::TypeState::"
EK = "spade_hir::expression::ExprKind"
AVAIL = "<spade_hir::expression::Expression as spade_hir_lowering::pipelines::PipelineAvailability>::available_in"
F = ir.field


def named(prog, names):
    return LR({("arg", i): x for i, x in enumerate(names.split())}, prog)


def texts(ck, g, r, pred, assume=(), fmt=None, **kw):
    fmt = fmt or (lambda n, a: n.split("::")[-1] + "(" + ", ".join(r.v(x) for x in a) + ")")
    return event_cases(ck, g, r, assume, pred, fmt, **kw)


def stored(g, r):
    return [(n, pl, r.v(t() if callable(t) else t)) for n, pl, t in g.stores()]


def some_text(ck, rule, key, cases, want, detail, g):
    """want(conditions) -> regexes each of which matches a text of the case, or None"""
    bad, n = [], 0
    for c, v in cases:
        w = want(c)
        for rx in w or ():
            n += 1
            if not any(re.search(rx, x.lstrip("?")) for x in v):
                bad.append("%s, when %s; there is: %s" % (rx, c, [x[:160] for x in v]))
    ck.ob(rule, key, n > 0 and not bad, detail + ": " + " / ".join(bad[:2])[:900] if bad else "%s: no case is found" % detail, where(g))


@prop("C14")
def c14(ck):
    prog = ck.prog
    # ---- when is a value there
    ck.rule("latency", "an expression is available when all values it is made from are, which must be at the same time; a pipeline adds its depth", 30)
    g = ck.graph(AVAIL, precise=True)
    r = named(prog, "e ctx")
    k = "e.kind."
    tr = lambda *xs: tuple("try_compute_availability([%s], ctx)" % ", ".join(k + x for x in ys) for ys in itertools.permutations(xs))
    one = lambda x: ("available_in(%s, ctx)" % (k + x),) + tr(x)
    lk = "variant of lookup(ctx.subs, e.kind.Identifier.0)"
    whole = lambda x: ("try_compute_availability(%s, ctx)" % (k + x), "try_compute_availability(map(%s[*]), ctx)" % (k + x))
    args = "try_compute_availability(expressions(e.kind.Call.args), ctx)"
    dp = "C(e.kind.Call.kind.Pipeline.depth_typeexpr_id)"
    want = {
        "Identifier": [({lk: x}, ("0", "None") if x == "Undefined" else "None" if x in ("Wire", "ZeroSized") else "0") for x in prog.variants("spade_hir_lowering::substitution::Substitution")],
        "TupleLiteral": [({}, whole("TupleLiteral.0"))], "ArrayLiteral": [({}, whole("ArrayLiteral.0"))], "ArrayShorthandLiteral": [({}, one("ArrayShorthandLiteral.0"))],
        "Index": [({}, tr("Index.0", "Index.1"))], "RangeIndex": [({}, one("RangeIndex.target"))], "TupleIndex": [({}, one("TupleIndex.0"))], "FieldAccess": [({}, one("FieldAccess.0"))],
        "TypeCast": [({}, one("TypeCast.0"))], "UnaryOperator": [({}, one("UnaryOperator.1"))], "BinaryOperator": [({}, tr("BinaryOperator.0", "BinaryOperator.2"))],
        "If": [({}, tr("If.cond", "If.on_true", "If.on_false"))],
        "PipelineRef": [({}, "0")], "StageReady": [({}, "0")], "StageValid": [({}, "0")],
        "Block": [({"is_some(e.kind.Block.0.result)": True}, one("Block.0.result")), ({"is_some(e.kind.Block.0.result)": False}, "None")],
        "Call": [({"variant of e.kind.Call.kind": "Function"}, args), ({"variant of e.kind.Call.kind": "Entity"}, args),
                 ({"variant of e.kind.Call.kind": "Pipeline", "result of " + dp: "Ok", "variant of " + dp: "Integer"}, ("<0 | %s>+%s.Integer.0" % (args, dp), "%s.Integer.0+<0 | %s>" % (dp, args)))],
    }
    never = {"MethodCall", "AssociatedCall", "TypeLevelIf", "LambdaDef", "StaticUnreachable", "Null"}
    for v in prog.variants(EK):
        try:
            cs = value_cases(ck, g, r, ((F(("arg", 0), "kind"), v),))
        except RuntimeError as x:
            ck.ob("latency", v, False, str(x), where(g))
            continue
        if v in never:
            ck.ob("latency", v, not cs, "an expression that should be gone by now has a time", where(g))
        elif v == "Match":
            txt = [x for c, xs in cs for x in xs]
            ok = bool(txt) and all(re.match(r"(try_compute_availability\(.*\bctx\)|available_in.*)$", x) and all((k + "Match." + y) in x for y in ("0", "1[*].1", "1[*].2")) for x in txt)
            ck.ob("latency", v, ok, "the value of a match depends on the matched value, the guards and the results of its branches; when it is there is computed as %s" % [x[:200] for x in txt], where(g))
        else:
            compare(ck, "latency", v, cs, want.get(v, [({}, "None")]), where(g))
    kids = {x for x in prog.variants(EK)} - set(want) - never - {"Match"}
    for v in sorted(kids):
        sub = expr_children(prog, F(("arg", 0), "kind"), only={v})
        ck.ob("latency", "no parts: " + v, v == "Incomplete" or not sub, "the parts of such an expression are not asked when they are there", where(g))
    # a block may contain statements of its own
    txt = [x for c, xs in value_cases(ck, g, r, ((F(("arg", 0), "kind"), "Block"),)) for x in xs]
    ck.ob("latency", "values bound inside blocks", any("Block.0.statements" in x for x in txt), "when the values a nested block binds are there is not considered: `{let x = inst(1) f(clk, a); x}` counts as available at once", where(g))
    # mismatches are errors
    g = ck.graph(P + "try_compute_availability", precise=True)
    cmp_ = lambda t: t[0] == "bin" and t[1] in ("Eq", "Ne", "Lt", "Gt", "Le", "Ge") or t[0] == "call" and re.search(r"PartialEq.*::(eq|ne)$", t[1])
    for same in (0, 1):
        dec = lambda t, same=same: None if not cmp_(t) or not same and t[1] in ("Lt", "Gt", "Le", "Ge") else same if t[1] in ("Eq", "Le", "Ge") or str(t[1]).endswith("::eq") else 1 - same
        p = None
        tests = {n for n in g_tests(g, cmp_)}
        for n in tests:
            c = g.ctxs[n[0]]
            p = p or search(g, decide_bool=dec, extra=lambda t, ty: {"Some"} if ty and "Option<usize>" in ty else None).find(paths.OkReturn(), start=[(n, {})])
        ck.ob("latency", "different times" if not same else "equal times", bool(tests) and (p is not None) == bool(same), "values which are there at different times can be combined: %s" % paths.path_str(g, p) if p and not same else "values which are there at the same time cannot be combined" if same else "no test of the times was found", where(g))
    r = named(prog, "es ctx")
    one_ = "available_in(es[*], ctx)"
    there = lambda c, about: next((b is True or b == "Some" for x, b in c.items() if x in ("is_some(%s)" % about, "variant of " + about)), None)
    before = lambda c: next((b is True or b == "Some" for x, b in c.items() if re.match(r"(is_some\(|variant of )<.*\|", x)), None)
    cs = value_cases(ck, g, r)
    bad = [(c, v) for c, v in cs if there(c, one_) is False and before(c) is not False and not all("|" in x for x in v)]
    asked = nodes(g, r"::available_in$")
    b = g.root.body
    initial = {s[0][0] for bb in b.bbs[:1] for s in bb["s"] if len(s[0]) == 1 and s[1][0] == "agg" and s[1][2] == "None" and "Option<usize>" in b.ty(s[0][0])}
    again = {(g.root.id, i) for i, bb in enumerate(b.bbs) if i and not bb["c"] and any(s[0] == [x] for s in bb["s"] for x in initial)}
    none = lambda t, ty: {"None"} if ty and re.sub("[& ]", "", ty).endswith("Option<usize>") and one_ == r.v(t) else None
    if not any(search(g, extra=none).find(paths.AtNodes(again), start=[(n, {})]) for n in sorted(asked)):
        bad = []
    bad += [(c, v) for c, v in cs if there(c, one_) is True and before(c) is not True and not all(one_ in x for x in v)]
    ck.ob("latency", "kept", bool(cs) and any(there(c, one_) is not None for c, v in cs) and not bad, "the time of one part must stand when another has none: when %s it becomes %s" % (bad[0] if bad else ("", "")), where(g))
    must_visit(ck, "latency", g, [("part", "spade_hir::expression::Expression", ir.elem(("arg", 0)), ())], lambda x, d: x.endswith("::available_in"), "asked", lossy_ok=True)
    # ---- names per stage
    ck.rule("stages", "from a stage to the next a value that is there is registered under a new name, one that is not yet there is one stage closer, wires and values without bits stay", 12)
    g = ck.graph(S + "next_stage", precise=True)
    r = named(prog, "s tab")
    isub = lambda n, d: bool(re.search(r"Map<.*>::insert$|Vec<T, A>::push$", n))
    old = "<last>(s)[s.live_vars[*]]"
    exp = {"Waiting1": [r"^insert\(.*, s\.live_vars\[\*\], Substitution::Available\{0: %s\.Waiting\.definition\}\)$" % re.escape(old)],
           "Waiting": [r"^insert\(.*, s\.live_vars\[\*\], Substitution::Waiting\{stages_left: %s\.Waiting\.stages_left-1, original_stage: %s.Waiting.original_stage, available_at: %s.Waiting.available_at, definition: %s.Waiting.definition\}\)$" % ((re.escape(old),) * 4)],
           "Wire": [r"^insert\(.*, s\.live_vars\[\*\], (Substitution::Wire\{\}|%s)\)$" % re.escape(old)], "ZeroSized": [r"^insert\(.*, s\.live_vars\[\*\], (Substitution::ZeroSized\{\}|%s)\)$" % re.escape(old)],
           "Available": [r"^insert\(.*, s\.live_vars\[\*\], Substitution::Available\{0: (new_name\(tab, .*\))\}\)$", r"^push\(.*SubRegister\{original: s\.live_vars\[\*\], previous: %s\.Available\.0, new: new_name\(tab, .*\)\}\)$" % re.escape(old)]}
    cs = [(c, v) for c, v in texts(ck, g, r, isub) if c.get("variant of " + old) not in ("Undefined", None)]
    for v in ("Waiting1", "Waiting", "Available", "Wire", "ZeroSized"):
        last = lambda c: next((b for x, b in c.items() if "stages_left" in x and x.startswith("-") or "stages_left" in x and "== 0" in x), None)
        mine = [(c, x) for c, x in cs if c["variant of " + old] == v.rstrip("1") and (not v.startswith("Waiting") or last(c) == (v == "Waiting1"))]
        some_text(ck, "stages", v, mine, lambda c, v=v: exp[v], "the value in the next stage must be", g)
        ck.ob("stages", v + " registered", bool(mine) and all(any("SubRegister" in y for y in x) == (v == "Available") for c, x in mine), "a register is %s" % ("needed" if v == "Available" else "wrong here"), where(g))
    for nm, rx in (("one", r"\+1 == 0$|-1 == 0$|stages_left == 1"),):
        ck.ob("stages", "last stage of waiting", any(re.search(rx, x) for c, v in cs for x in c if "stages_left" in x), "a value is there after the last stage of its latency", where(g))
    pn = nodes(g, r"Vec<T, A>::push$")
    fresh = [n for n in pn if r.v(g.args_of(n)[0]) == "s" or "inner" in r.v(g.args_of(n)[0])]
    ck.ob("stages", "new stage", bool(fresh) and search(g).find(paths.OkReturn(), avoid=set(fresh)) is None, "no new stage is begun", where(g))
    g = ck.graph(S + "set_available", precise=True)
    r = named(prog, "s from time cur ty")
    cs = texts(ck, g, r, isub)
    z, t0 = "-size(mir(ty)) == 0", "-time == 0"
    def sub_of(c):
        v = "ZeroSized" if c.get(z) is True else "Available" if c.get(t0) is True else "Waiting" if c.get(t0) is False else None
        rx = {"ZeroSized": r"Substitution::ZeroSized\{\}", "Available": r"Substitution::Available\{0: from\}", "Waiting": r"Substitution::Waiting\{stages_left: time, original_stage: cur, available_at: (cur\+time|time\+cur), definition: from\}"}.get(v, "?")
        return [r"^insert\(.*, from, %s\)$" % rx, r"^push\(s\.live_vars, from\)$"]
    some_text(ck, "stages", "defined", cs, sub_of, "a value that is defined must be entered as", g)
    g = ck.graph(S + "set_wire", precise=True)
    some_text(ck, "stages", "wire", texts(ck, g, named(prog, "s from"), isub), lambda c: [r"^insert\(.*, from, Substitution::Wire\{\}\)$", r"^push\(s\.live_vars, from\)$"], "a wire must be entered as", g)
    for fn, names, got, other in (("lookup", "s name", "s[s.current_stage][name]", "Substitution::Available{0: name}"), ("lookup_referenced", "s stage name", "s[stage][name]", "Substitution::Undefined{}")):
        g = ck.graph(S + fn, precise=True)
        vs = {x.replace("s.inner", "s") for c, xs in value_cases(ck, g, named(prog, names)) for x in xs}
        ck.ob("stages", fn, vs == {got, other}, "a name is looked up as %s" % sorted(vs), where(g))
    # ---- statements of a pipeline
    ck.rule("registers", "every name bound in a pipeline is entered with the latency of its value, and every `reg` registers what is live, held while the stage is stalled", 14)
    g = ck.graph(P + "handle_statement", precise=True)
    r = named(prog, "st ctx names out clk conds en cur")
    sets = lambda n, d: bool(re.search(r"Substitutions::set_(available|wire)$", n))
    for v in ("Binding", "Register"):
        e = "get_names_and_wireness(st.%s.0.pattern)[*].0" % v
        ns = nodes(g, r"Substitutions::set_(available|wire)$")
        mine = {n for n in ns if ("st.%s.0" % v) in r.v(g.args_of(n)[1])}
        av = {n for n in mine if n in nodes(g, r"set_available$")}
        wi = mine - av
        pat = lambda t, v=v: ("st.%s.0.pattern" % v) in r.v(t) and "get_names" in r.v(t)
        p = search(g, ((("arg", 0), v),), force=pat).find(paths.OkReturn(), avoid=mine)
        ck.ob("registers", v + ": every name", bool(mine) and p is None, "a name which is bound is not entered into the stage", where(g))
        lat = "<0 | available_in(st.%s.0.value, ctx)>" % v
        ok = bool(av) and all(r.v(g.args_of(n)[1]) == e and r.v(g.args_of(n)[2]) in (lat, lat[5:-1]) and r.v(g.args_of(n)[3]) == "cur" and ("concrete_type_of_name(" in r.v(g.args_of(n)[4]) and e in r.v(g.args_of(n)[4])) for n in av)
        ck.ob("registers", v + ": latency", ok, "a name is entered as %s" % [[r.v(a)[:120] for a in g.args_of(n)] for n in av], where(g))
        wired = lambda x: (lambda t, ty: {x} if "get_names_and_wireness" in r.v(t) and r.v(t).endswith("[*].1") else None)
        raw = lambda s: (lambda t: (s if "is_some" in t[1] else 1 - s) if t[0] == "call" and re.search(r"is_(some|none)$", t[1]) and "get_names_and_wireness" in r.v(t[2][0]) else None)
        p = search(g, ((("arg", 0), v),), decide_bool=raw(1), extra=wired("Some")).find(paths.AtNodes(av))
        q = search(g, ((("arg", 0), v),), decide_bool=raw(0), extra=wired("None")).find(paths.AtNodes(wi)) if wi else None
        ck.ob("registers", v + ": wires", p is None and q is None and bool(wi), "a wire is registered, or a value that is no wire is not", where(g))
    mark = ((("arg", 0), "PipelineRegMarker"),)
    ns = nodes(g, r"Substitutions::next_stage$")
    p = search(g, mark).find(paths.OkReturn(), avoid=ns)
    ck.ob("registers", "next stage", bool(ns) and p is None, "a `reg` does not begin a new stage", where(g))
    lv = "next_stage(ctx.subs, ctx.symtab)[*]"
    push = {n: r.v(g.args_of(n)[1]) for n in nodes(g, r"StatementList::push_\w+$")}
    mux = {n for n, x in push.items() if re.match(r"(e\(.*?\)) = Select\[en\[cur\], value_name\(%s\.previous\), value_name\(%s\.new\)\] : mir\(concrete_type_of_name\(ctx\.types, %s\.original, " % ((re.escape(lv),) * 3), x)}
    reg = {n: x for n, x in push.items() if "= reg{" in x}
    ck.ob("registers", "anchor registers", len(reg) == 1 and len(mux) == 1, "the registers of a stage (%d) and what holds them (%d) are not found: %s" % (len(reg), len(mux), [x[:200] for x in push.values()]), where(g))
    for n, x in reg.items():
        m = re.match(r"value_name(?:_with_alternate_source)?\(%s\.new.*?\) = reg\{clock: value_name\(clk\), reset: None, initial: None, value: (.*?)\} : (mir\(.*)$" % re.escape(lv), x)
        ok = m and set(m.group(1).strip("<>").split(" | ")) >= {"value_name(%s.previous)" % lv} and m.group(2).startswith("mir(concrete_type_of_name(ctx.types, %s.original" % lv) and all(y.startswith("e(") or y == "value_name(%s.previous)" % lv for y in m.group(1).strip("<>").split(" | "))
        ck.ob("registers", "register", bool(ok), "the register of a live value is %s" % x[:400], where(g))
        p = search(g, mark, force=lambda t: "next_stage(" in r.v(t)).find(paths.OkReturn(), avoid={n})
        ck.ob("registers", "every live value", p is None, "a live value is not registered", where(g))
        cs = texts(ck, g, r, lambda a, d: bool(re.search(r"StatementList::push_\w+$", a)), mark, fmt=lambda a, b: r.v(b[1]))
        enabled = lambda c: next((b is True or b == "Some" for x, b in c.items() if x in ("is_some(en[cur])", "variant of en[cur]")), None)
        for has in (True, False):
            vs = {m.group(1) for c, v in cs if enabled(c) is has for x in v for m in [re.search(r"= reg\{.*value: (.*?)\} : mir", x)] if m}
            ok = bool(vs) and all((re.match(r"e\(", x) if has else x == "value_name(%s.previous)" % lv) for x in vs if "<unk" not in x)
            mx = {bool([x for x in v if "= Select[" in x]) for c, v in cs if enabled(c) is has}
            ck.ob("registers", "held: %s enable" % ("an" if has else "no"), ok and mx == {has}, "the next value of the register is %s" % sorted(vs), where(g))
    st = [n for n, pl, v in stored(g, r) if v in ("cur+1", "1+cur")]
    p = search(g, mark).find(paths.OkReturn(), avoid=set(st))
    ck.ob("registers", "counted", bool(st) and p is None, "the number of the stage is not counted up", where(g))
    before = {n for n in st if reach(g, succ(g, n), set(push)) is not None}
    ck.ob("registers", "counted last", not before, "the stage is counted up before its registers are made", where(g))
    # ---- the unit
    ck.rule("unit", "a pipeline enters its parameters in the first stage, handles every statement, and its result is there in the last stage", 6)
    g = ck.graph(P + "lower_pipeline", precise=True)
    r = named(prog, "ins body out ctx names meth")
    inp = {n: [r.v(a) for a in g.args_of(n)] for n in nodes(g, r"Substitutions::set_(available|wire)$")}
    p = search(g, force=lambda t: core.relates(t, F(ir.elem(("arg", 0)), "name"))).find(paths.OkReturn(), avoid=set(inp))
    ck.ob("unit", "every parameter", bool(inp) and p is None and all(a[1] == "ins[*].name" and (len(a) < 4 or a[2:4] == ["0", "0"] and "ins[*].name" in a[4]) for a in inp.values()), "the parameters are entered as %s" % list(inp.values()), where(g))
    wire = lambda x: (lambda t, ty: {x} if r.v(t) == "ins[*].wire" else None)
    rawb = lambda s: (lambda t: (s if "is_some" in t[1] else 1 - s) if t[0] == "call" and re.search(r"Option<.*>::is_(some|none)$", t[1]) and r.v(t[2][0]) == "ins[*].wire" else None)
    p = search(g, decide_bool=rawb(1), extra=wire("Some")).find(paths.AtNodes({n for n, a in inp.items() if len(a) > 2}))
    q = search(g, decide_bool=rawb(0), extra=wire("None")).find(paths.AtNodes({n for n, a in inp.items() if len(a) == 2}))
    ck.ob("unit", "wires", p is None and q is None, "a parameter that is a wire is registered, or one that is none is not", where(g))
    hs = {n: [r.v(a) for a in g.args_of(n)] for n in nodes(g, r"::handle_statement$")}
    p = search(g, force=lambda t: "body.kind.Block.0.statements" in r.v(t)).find(paths.OkReturn(), avoid=set(hs))
    ck.ob("unit", "every statement", bool(hs) and p is None and all(a[0] == "body.kind.Block.0.statements[*]" for a in hs.values()), "a statement is left out", where(g))
    clk = {a[4] for a in hs.values()}
    ck.ob("unit", "clock", clk <= {"ins[<0 | 1>].name"} and bool(clk), "the clock of a pipeline is %s" % sorted(clk), where(g))
    av = nodes(g, r"::available_in$")
    ck.ob("unit", "result asked", bool(av) and search(g).find(paths.OkReturn(), avoid=av) is None and all(r.v(g.args_of(n)[0]) == "body" for n in av), "when the result is there is not asked", where(g))
    q = search(g, extra=lambda t, ty: {"Some"} if ty and ty.replace("&", "").endswith("Option<usize>") and "available_in(body" in r.v(t) else None, decide_bool=lambda t: zero_test(t, lambda x: "available_in(body" in r.v(x), 0)).find(paths.OkReturn(), start=[(n, {}) for n in sorted(av)])
    ck.ob("unit", "result in time", q is None and bool(av), "a result that is not there in the last stage is accepted", where(g))
    # ---- how many stages there are
    ck.rule("depth", "the number of a stage is the number of `reg`s before it, a reference refers to a stage of the pipeline, and a pipeline has as many stages as it says", 11)
    rx = r"add_constraint$|add_equation$|::unify$|add_requirement$|check_or_add$"
    ev = lambda n, d: bool(re.search(rx, n))
    g = ck.graph(T + "setup_pipeline_state", precise=True)
    r = named(prog, "ts kind body gl depth id ctx")
    dv = r"hir_type_expr_to_var\(ts, depth, gl, ctx\)"
    some_text(ck, "depth", "declared", texts(ck, g, r, ev), lambda c: [r"^add_equation\(ts, TypedExpression::Id\{0: id\}, %s\)$" % dv, r"^add_requirement\(ts, Requirement::PositivePipelineDepth\{depth: %s\}\)$" % dv], "the depth of a pipeline must be stated as", g)
    st = [v for n, pl, v in stored(g, r) if pl[-1:] == [["f", "pipeline_state"]]]
    ck.ob("depth", "first stage", bool(st) and all(re.match(r"PipelineState\{current_stage_depth: add_type_var\(ts, TypeVar::Known\{0: .*?, 1: KnownType::Integer\{0: 0\}, 2: new\(\)\}\), total_depth: %s, " % dv, x) for x in st), "a pipeline begins as %s" % [x[:300] for x in st], where(g))
    g = ck.graph(T + "visit_statement_error", precise=True)
    r = named(prog, "ts stmt ctx gl")
    cs = texts(ck, g, r, ev, ((("arg", 1), "PipelineRegMarker"),))
    new = r"new_generic_tlint\(ts, loc\(stmt\)\)"
    cv = r"hir_type_expr_to_var\(ts, stmt\.PipelineRegMarker\.0\.Count\.count, gl, ctx\)"
    cur = r"(ts\.owned\.pipeline_state|get_pipeline_state\(ts, stmt\))\.current_stage_depth"
    def counted(c):
        n = c.get("variant of stmt.PipelineRegMarker.0") == "Count"
        off = cv if n else r"add_type_var\(ts, TypeVar::Known\{0: loc\(stmt\), 1: KnownType::Integer\{0: 1\}, 2: new\(\)\}\)"
        a, b = r"ConstraintExpr::Var\{0: %s\}" % off, r"ConstraintExpr::Var\{0: %s\}" % cur
        return [r"^add_constraint\(ts, %s, ConstraintExpr::Sum\{(0: %s, 1: %s|0: %s, 1: %s)\}, " % (new, a, b, b, a)] + ([r"^add_equation\(ts, TypedExpression::Id\{0: stmt\.PipelineRegMarker\.0\.Count\.count_typeexpr_id\}, %s\)$" % cv] if n else [])
    some_text(ck, "depth", "reg", cs, counted, "after a `reg` the stage must be", g)
    ck.ob("depth", "reg kinds", {c.get("variant of stmt.PipelineRegMarker.0") for c, v in cs} >= {"Count", "Condition"} or any(not c for c, v in cs), "not all kinds of `reg` are handled", where(g))
    st = [(n, v) for n, pl, v in stored(g, r) if pl[-1:] == [["f", "current_stage_depth"]]]
    p = search(g, ((("arg", 1), "PipelineRegMarker"),)).find(paths.OkReturn(), avoid={n for n, v in st})
    ck.ob("depth", "reg moves on", bool(st) and p is None and all(re.match(new + "$", v) for n, v in st), "after a `reg` the stage is %s" % [v for n, v in st], where(g))
    cs = texts(ck, g, r, ev, ((("arg", 1), "Label"),))
    lab = r"TypedExpression::Name\{0: stmt\.Label\.0\}"
    def label(c):
        known = [b for x, b in c.items() if x.startswith("contains_key(")] == [True]
        v = r"ts\.owned\.equations\[%s\]" % lab if known else r"new_generic_tlint\(ts, loc\(stmt\.Label\.0\)\)"
        cu = r"(ts\.owned\.pipeline_state|get_pipeline_state\(ts, stmt\.Label\.0\))\.current_stage_depth"
        return [r"^unify\(ts, (%s, %s|%s, %s), ctx\)$" % (v, cu, cu, v)] + ([] if known else [r"^add_equation\(ts, %s, %s\)$" % (lab, v)])
    some_text(ck, "depth", "label", cs, label, "a label must be", g)
    f = [x for x in prog.fns if x.endswith("TypeState>::visit_pipeline_ref")]
    g = ck.graph(f[0] if f else "?", precise=True)
    r = named(prog, "ts e gl ctx")
    cs = texts(ck, g, r, lambda n, d: ev(n, d) or n.endswith("unify_expression_generic_error"), ((F(("arg", 1), "kind"), "PipelineRef"),))
    q = r"e\.kind\.PipelineRef\."
    dep = r"new_generic_tlint\(ts, loc\(e\.kind\.PipelineRef\.stage\)\)"
    def ref(c):
        out = [r"^add_equation\(ts, TypedExpression::Id\{0: %sdepth_typeexpr_id\}, %s\)$" % (q, dep), r"^unify_expression_generic_error\(ts, e, TypedExpression::Name\{0: %sname\}, (gl|ctx)\)$" % q,
               r"^check_or_add\(Requirement::ValidPipelineOffset\{definition_depth: (ts\.owned\.pipeline_state|get_pipeline_state\(ts, .*?\))\.total_depth, current_stage: .*, reference_offset: .*\}, ts, (gl|ctx)\)$"]
        if c.get("variant of e.kind.PipelineRef.stage") == "Relative":
            x, y = r"ConstraintExpr::Var\{0: hir_type_expr_to_var\(ts, %sstage\.Relative\.0, (?:ctx, gl|gl, ctx)\)\}" % q, r"ConstraintExpr::Var\{0: (?:ts\.owned\.pipeline_state|get_pipeline_state\(ts, .*?\))\.current_stage_depth\}"
            out += [r"^add_constraint\(ts, %s, ConstraintExpr::Sum\{(0: %s, 1: %s|0: %s, 1: %s)\}, " % (dep, x, y, y, x), r"^unify\(ts, %s, %s, (gl|ctx)\)$" % (dep, dep)]
        else:
            nm = r"TypedExpression::Name\{0: %sstage\.Absolute\.0\}" % q
            known = [b for x, b in c.items() if x.startswith("contains_key(")] == [True]
            v = r"ts\.owned\.equations\[%s\]" % nm if known else dep
            out += [r"^unify\(ts, (%s, %s|%s, %s), (gl|ctx)\)$" % (dep, v, v, dep)] + ([] if known else [r"^add_equation\(ts, %s, %s\)$" % (nm, dep)])
        return out
    some_text(ck, "depth", "reference", cs, ref, "a reference to another stage must be", g)
    ck.ob("depth", "reference kinds", {c.get("variant of e.kind.PipelineRef.stage") for c, v in cs} == {"Absolute", "Relative"}, "not all kinds of references are handled", where(g))
    us = [x for x in prog.fns if x.startswith(T) and "{" not in x and any(n for n in ck.graph(x, precise=True).calls(lambda a, d: a.endswith("::setup_pipeline_state")))] if True else []
    ck.ob("depth", "anchor unit", bool(us), "the inference of a unit is not found")
    for x in us:
        g = ck.graph(x, precise=True)
        r = named(prog, "ts a b c d e f")
        ends = {n for n in nodes(g, r"::unify$") if {re.sub(r"^(ts\.owned\.pipeline_state|.*pipeline_state)\.", "", r.v(a)) for a in g.args_of(n)[1:3]} == {"total_depth", "current_stage_depth"}}
        sp = nodes(g, r"::setup_pipeline_state$")
        p = None
        for n in sorted(sp):
            p = p or search(g, extra=lambda t, ty: {"Some"} if ty and "Option<" in ty and "PipelineState" in ty else {"Ok"} if t[0] == "call" and t[1].endswith("setup_pipeline_state") else None).find(paths.OkReturn(), start=[(n, {})], avoid=ends)
        ck.ob("depth", "as many stages as declared", bool(ends) and p is None, "that the last stage is the declared depth is not demanded", where(g))
    f = [x for x in prog.fns if re.search(r"flatten_regs::FlattenRegs<.*> as .*Pass>::visit_statement$", x)]
    g = ck.graph(f[0] if f else "?", precise=True)
    num = "C(st.PipelineRegMarker.0.Count.count_typeexpr_id)"
    bad = []
    for c, v in value_cases(ck, g, named(prog, "s st")):
        cnt = c.get("variant of st.PipelineRegMarker.0") == "Count"
        ok = v <= {"map(Statement::PipelineRegMarker{0: None} for 0..%s.Integer.0)" % num, "repeat(Statement::PipelineRegMarker{0: None}, %s.Integer.0)" % num, "[Statement::PipelineRegMarker{0: None}; %s.Integer.0]" % num} and bool(v) if cnt else v == {"None"}
        if not ok:
            bad.append((c, v))
    ck.ob("depth", "repeated reg", not bad, "`reg*n` becomes %s" % bad, where(g))


def g_tests(g, pred):
    """nodes which branch on a value for which pred holds"""
    out = []
    for c in g.ctxs:
        for i, bb in enumerate(c.body.bbs):
            t = bb["t"]
            if t[0] == "sw" and not bb["c"]:
                try:
                    x = g.operand(c, t[1])
                except Exception:
                    continue
                while x[0] == "un" and x[1] == "Not":
                    x = x[2]
                if pred(x):
                    out.append((c.id, i))
    return out


def zero_test(t, about, is_zero):
    """the outcome of comparing a number with zero"""
    if t[0] == "bin" and t[1] in ("Eq", "Ne", "Gt") and about(t[2]) and t[3] == ("k", 0):
        return is_zero if t[1] == "Eq" else 1 - is_zero
    return None
