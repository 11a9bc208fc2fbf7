"""What an expression, statement, pattern or argument list of the source means (AST -> HIR)."""
import re
import ir, paths, core, render
from core import prop
from common import *
from lowering import LR, value_cases
from render import compare, rejects
from units import reach, nodes, succ

AL = "spade_ast_lowering::"


class AR(LR):
    """visits are shown as the function that is applied; failed parts of a list are left out, for they fail the whole"""
    def _v(self, t):
        if t[0] == "call":
            if re.search(r"::Loc<.*>::(try_)?visit$", t[1]) and len(t[2]) == 3 and t[2][1][0] == "fn":
                return "%s(%s, %s)" % (t[2][1][1].split("::")[-1], self.v(t[2][0]), self.v(t[2][2]))
            if re.search(r"::with_id$", t[1]) and len(t[2]) == 2:
                return self.v(t[2][0])
        if t[0] == "phi":
            xs = {x: self.v(x) for x in t[1]}
            good = {v for v in xs.values() if not re.match(r"(Result::Err\{|from_residual\(|<fails>)", v)}
            if not good:
                return "<fails>"
            if len(good) == 1:
                return good.pop()
        return super()._v(t)

    def v(self, t):
        x = super().v(t)
        return re.sub(r"<([^<>|]+) \| (from_residual\(<err [^>]*>\)|Result::Err\{[^<>]*\})>", r"\1", x) if isinstance(x, str) and "| " in x else x


def cases_of(ck, g, r, assume=(), fixed=None):
    out = []
    for c, xs in value_cases(ck, g, r, assume, fixed=fixed):
        xs = {x for x in xs if not re.search(r"<fails>|map\((Result::Err|from_residual)", x)}
        if xs:
            out.append((c, xs))
    return out


METHOD = {"Eq": ("PartialEq", "eq"), "Neq": ("PartialEq", "ne"), "Lt": ("PartialOrd", "lt"), "Gt": ("PartialOrd", "gt"), "Le": ("PartialOrd", "le"), "Ge": ("PartialOrd", "ge"),
          "LogicalAnd": ("And", "and"), "LogicalOr": ("Or", "or"), "LogicalXor": ("Xor", "xor"), "BitwiseAnd": ("BitAnd", "bit_and"), "BitwiseOr": ("BitOr", "bit_or"), "BitwiseXor": ("BitXor", "bit_xor"),
          "WrappingAdd": ("WrappingAdd", "wrapping_add"), "WrappingSub": ("WrappingSub", "wrapping_sub"), "WrappingMul": ("WrappingMul", "wrapping_mul"), "WrappingLeftShift": ("WrappingShl", "wrapping_shl"), "WrappingRightShift": ("WrappingShr", "wrapping_shr")}
UMETHOD = {"Not": ("Not", "not"), "BitwiseNot": ("BitNot", "bit_not"), "WrappingSub": ("WrappingNeg", "wrapping_neg")}
CONST = {"Add": "Add", "Sub": "Sub", "Mul": "Mul", "Div": "Div", "Mod": "Mod", "Eq": "Eq", "Neq": "NotEq", "Lt": "Lt", "Gt": "Gt", "Le": "Le", "Ge": "Ge", "LogicalAnd": "LogicalAnd", "LogicalOr": "LogicalOr", "LogicalXor": "LogicalXor"}


def body_of(ck, fn):
    """the graph of a function and the terms of its first two parameters; #[recursive] puts the body into a closure"""
    prog = ck.prog
    f = AL + fn
    cl = f + "::{closure#0}"
    if cl in prog.fns and any(ir.callee(bb["t"]) and re.search(r"stacker::maybe_grow$", ir.callee(bb["t"])[0]) for bb in prog.fns[f].bbs if bb["t"][0] == "call"):
        return ck.graph(cl, precise=True), F(("arg", 0), "^0"), F(("arg", 0), "^1")
    return ck.graph(f, precise=True), ("arg", 0), ("arg", 1)


@prop("C10")
def c10(ck):
    prog = ck.prog
    ck.rule("expression", "an expression is represented by the construct it is, with its own parts in their places", 30)
    ck.rule("operator", "an operator applied to operands is the primitive operation or the trait method with its meaning, applied to the operands in order", 31)
    ck.rule("constant", "an expression inside a type or a number parameter is the operation on numbers it means, or an error", 38)
    ck.rule("statement", "a statement is represented with all its parts", 10)
    ck.rule("pattern", "a pattern is represented with all its parts, those of a struct or variant in the order of the members; a member that is missing, unknown or given twice is an error", 14)
    ck.rule("arguments", "arguments and type arguments are kept in order, with their names", 6)
    ck.rule("scope", "a name is looked up where it is written: a value before the names its statement declares, branches and blocks in their own scope", 8)

    def tables(fn, adt):
        g, e, ctx = body_of(ck, fn)
        r = AR({e: "e", ctx: "ctx"}, prog)
        return g, e, r

    X = lambda s: "visit_expression(e.%s, ctx)" % s
    CG = lambda s: "visit_const_generic(e.%s, ctx)" % s
    # ---- expressions
    g, e, r = tables("visit_expression_result", "spade_ast::Expression")
    EK = lambda s: "ExprKind::" + s
    cmp = lambda rule, key, v, exp, g=g, e=e, r=r, more=(), fixed=None: compare(ck, rule, key, cases_of(ck, g, r, (((e, v),) if v else ()) + tuple(more), fixed), exp, where(g))
    one = {
        "BoolLiteral": "BoolLiteral{0: e.BoolLiteral.0}",
        "ArrayShorthandLiteral": "ArrayShorthandLiteral{0: %s, 1: %s}" % (X("ArrayShorthandLiteral.0"), CG("ArrayShorthandLiteral.1")),
        "Index": "Index{0: %s, 1: %s}" % (X("Index.0"), X("Index.1")),
        "TupleLiteral": "TupleLiteral{0: map(%s)}" % X("TupleLiteral.0[*]"),
        "TupleIndex": "TupleIndex{0: %s, 1: e.TupleIndex.index}" % X("TupleIndex.target"),
        "FieldAccess": "FieldAccess{0: %s, 1: e.FieldAccess.1}" % X("FieldAccess.0"),
        "TypeCast": "TypeCast{0: %s, 1: visit_type_expression(e.TypeCast.1, TypeSpecKind::TypeCast{}, ctx)}" % X("TypeCast.0"),
        "If": "If{cond: %s, on_true: %s, on_false: %s}" % (X("If.cond"), X("If.on_true"), X("If.on_false")),
        "TypeLevelIf": "TypeLevelIf{cond: %s, on_true: %s, on_false: %s}" % (CG("TypeLevelIf.cond"), X("TypeLevelIf.on_true"), X("TypeLevelIf.on_false")),
        "Block": "Block{0: visit_block(e.Block.0, ctx)}",
        "Unsafe": "Block{0: visit_block(e.Unsafe.0, ctx)}",
        "StageValid": "StageValid{}", "StageReady": "StageReady{}",
        "StaticUnreachable": "StaticUnreachable{0: e.StaticUnreachable.0}",
    }
    for v, t in one.items():
        cmp("expression", v, v, [({}, EK(t))])
    cmp("expression", "Parenthesized", "Parenthesized", [({}, "visit_expression_result(e.Parenthesized.0, ctx)")])
    cmp("expression", "Lambda", "Lambda", [({}, "visit_lambda(e, ctx)")])
    for v in ("StrLiteral",):
        cs = cases_of(ck, g, r, ((e, v),))
        ck.ob("expression", v, not cs, "must be rejected, the code yields %s" % (cs[:1],), where(g))
    il = "e.IntLiteral.0"
    cmp("expression", "IntLiteral", "IntLiteral", [({"variant of " + il: k}, EK("IntLiteral{0: as_signed(%s), 1: IntLiteralKind::%s{%s}}" % (il, k, "" if k == "Unsized" else "0: %s.%s.size" % (il, k)))) for k in ("Unsized", "Signed", "Unsigned")])
    cmp("expression", "TriLiteral", "TriLiteral", [({"variant of e.TriLiteral.0": k}, EK("TriLiteral{0: TriLiteral::%s{}}" % k)) for k in ("Low", "High", "HighImp")])
    st, en = "e.RangeIndex.start", "e.RangeIndex.end"
    cmp("expression", "RangeIndex", "RangeIndex", [({"is_some(%s)" % st: a, "is_some(%s)" % en: b}, EK("RangeIndex{target: %s, start: %s, end: %s}" % (X("RangeIndex.target"), CG("RangeIndex.start") if a else "None", CG("RangeIndex.end") if b else "None"))) for a in (True, False) for b in (True, False)])
    br = "Match.branches[*]"
    cmp("expression", "Match", "Match", [({"is_some(e.%s.1)" % br: a}, EK("Match{0: %s, 1: map((visit_pattern(e.%s.0, ctx), %s, %s))}" % (X("Match.expression"), br, X(br + ".1") if a else "None", X(br + ".2")))) for a in (True, False)])
    lv = "lookup_variable(ctx.symtab, e.Identifier.0)"
    ident = [x for x in cases_of(ck, g, r, ((e, "Identifier"),), {"result of " + lv: "Ok"})]
    compare(ck, "expression", "Identifier variable", ident, [({}, EK("Identifier{0: %s}" % lv))], where(g))
    other = [(c, {re.sub(r"<err [^>]*>", "<err>", x) for x in xs}) for c, xs in cases_of(ck, g, r, ((e, "Identifier"),), {"result of " + lv: "Err"})]
    ok = {EK("Call{kind: CallKind::Function{}, callee: lookup_enum_variant(ctx.symtab, <err>.NotAVariable.0, 1).0, args: ArgumentList::Positional{0: new()}, turbofish: None, safety: ctx.safety, verilog_attr_groups: new()}"),
          EK("TypeLevelInteger{0: lookup_type_symbol(ctx.symtab, e.Identifier.0, 0).0}"), EK("TypeLevelBool{0: lookup_type_symbol(ctx.symtab, e.Identifier.0, 0).0}")}
    bad = [x for c, xs in other for x in xs if x not in ok]
    ck.ob("expression", "Identifier other", len(other) >= 2 and not bad, "a name that is no variable is an enum variant or a number parameter, the code makes %s of it" % (bad[:1],), where(g))
    for c, xs in other:
        for x in xs:
            if "TypeLevel" in x:
                m = [v for k, v in c.items() if "GenericMeta.0" in k or k.endswith(".GenericMeta.0")]
                want = {"TypeLevelInteger": {"Int", "Uint", "Number"}, "TypeLevelBool": {"Bool"}}[re.match(r"ExprKind::(\w+)", x).group(1)]
                ck.ob("expression", "number parameter %s" % sorted(m), bool(m) and set(m) <= want, "a parameter of kind %s becomes %s" % (m, x[:60]), where(g))
    lu = "lookup_unit(ctx.symtab, e.Call.callee, 1)"
    tf = "e.Call.turbofish"
    assoc = "visit_type_spec(TypeSpec::Named{0: prelude(e.Call.callee), 1: None}, TypeSpecKind::AssociatedFnBase{}, ctx)"
    cmp("expression", "Call", "Call",
        [({"is_some(%s)" % tf: a, "result of " + lu: "Ok"}, EK("Call{kind: visit_call_kind(e.Call.kind, ctx), callee: %s.0, args: visit_argument_list(e.Call.args, ctx), turbofish: %s, safety: ctx.safety, verilog_attr_groups: new()}" % (lu, "visit_turbofish(%s, ctx)" % tf if a else "None"))) for a in (True, False)]
        + [({"is_some(%s)" % tf: a, "result of " + lu: "Err"}, EK("AssociatedCall{kind: visit_call_kind(e.Call.kind, ctx), callee: %s, callee_ty: #1, name: unwrap_named(tail(e.Call.callee)), args: visit_argument_list(e.Call.args, ctx), turbofish: %s, safety: ctx.safety}" % (assoc, "visit_turbofish(%s, ctx)" % tf if a else "None"))) for a in (True, False)])
    tf = "e.MethodCall.turbofish"
    cmp("expression", "MethodCall", "MethodCall", [({"is_some(%s)" % tf: a}, EK("MethodCall{target: %s, op_trait: None, name: e.MethodCall.name, args: visit_argument_list(e.MethodCall.args, ctx), call_kind: visit_call_kind(e.MethodCall.kind, ctx), turbofish: %s, safety: ctx.safety}" % (X("MethodCall.target"), "visit_turbofish(%s, ctx)" % tf if a else "None"))) for a in (True, False)])
    pr = "e.PipelineReference."
    lk = "try_lookup_variable(ctx.symtab, ident_with_loc(%sname))" % pr
    dcl = "ctx.symtab.declarations[ctx.pipeline_ctx.scope][%sname]" % pr
    stage = {"Relative": "Relative{0: visit_type_expression(%sstage.Relative.0, TypeSpecKind::PipelineInstDepth{}, ctx)}" % pr, "Absolute": "Absolute{0: lookup_type_symbol(ctx.symtab, ident(%sstage.Absolute.0), 0).0}" % pr}
    und = "add_undecleared_at_offset(ctx.symtab, -ctx.pipeline_ctx.scope+current_scope(ctx.symtab), %sname)" % pr
    exp = []
    ref = lambda s, n, d: EK("PipelineRef{stage: PipelineRefKind::%s, name: %s, declares_name: %d, depth_typeexpr_id: #1}" % (stage[s], n, d))
    for s in stage:
        b = {"variant of %sstage" % pr: s}
        exp.append((dict(b, **{"is_some(%s)" % lk: True}), ref(s, lk, 0)))
        exp.append((dict(b, **{"is_some(%s)" % lk: False, "is_some(%s)" % dcl: False}), ref(s, und, 1)))
        exp.append((dict(b, **{"is_some(%s)" % lk: False, "is_some(%s)" % dcl: True, "variant of " + dcl: "Undecleared"}), ref(s, dcl + ".Undecleared.0", 0)))
        for d in ("Undefined", "Defined"):
            exp.append((dict(b, **{"is_some(%s)" % lk: False, "is_some(%s)" % dcl: True, "variant of " + dcl: d}), ref(s, und, 1), "if the code distinguishes it"))
    cmp("expression", "PipelineReference", "PipelineReference", exp)
    # array literals: all elements, labels by position
    f = [x for x in prog.fns if x.startswith(g.entry.path + "::{closure#") and x.count("{closure") == g.entry.path.count("{closure") + 1 and "#prom" not in x
         and any(a[1].endswith("ExprKind") and a[2] == "ArrayLiteral" for a in aggs(prog.fns[x]))]
    ck.ob("expression", "anchor ArrayLiteral", len(f) == 1, "the closure that lowers array literals is not found (%d)" % len(f))
    for x in f:
        ga = ck.graph(x, precise=True)
        ra = AR({F(("arg", 0), "^0"): "exprs", ("arg", 1): "ctx"}, prog)
        compare(ck, "expression", "ArrayLiteral", cases_of(ck, ga, ra), [({}, EK("ArrayLiteral{0: map(visit_expression(exprs[*].1, ctx))}"))], where(ga))
        a = args_under(ck, ga, lambda n, d: n.endswith("SymbolTable::add_thing"))
        got = {ra.v(b[2]) for n, b in a}
        ck.ob("expression", "array label", got == {"Thing::ArrayLabel{0: <index>(exprs)}"}, "a label must stand for the index of its element, it is %s" % sorted(got), where(ga))
    lt = "lookup_thing(ctx.symtab, e.LabelAccess.label, 1).1"
    cmp("expression", "LabelAccess", "LabelAccess", [({"variant of " + lt: "ArrayLabel", "'index' == as_str(e.LabelAccess.field)": True}, EK("IntLiteral{0: from_usize(%s.ArrayLabel.0), 1: IntLiteralKind::Unsized{}}" % lt))])
    known = set(one) | {"Parenthesized", "Lambda", "StrLiteral", "IntLiteral", "TriLiteral", "RangeIndex", "Match", "Identifier", "Call", "MethodCall", "PipelineReference", "ArrayLiteral", "LabelAccess", "BinaryOperator", "UnaryOperator", "MacroCall", "Incomplete"}
    new = set(prog.variants("spade_ast::Expression")) - known
    ck.ob("expression", "all kinds", not new, "expressions without a rule here: %s" % sorted(new))
    # ---- operators
    trait = lambda t: "visit_trait_spec(TraitSpec{path: from_strs(['%s']), type_params: None, paren_syntax: 0}, TypeSpecKind::Turbofish{}, ctx)" % t
    for op in prog.variants("spade_ast::BinaryOperator"):
        L, R = X("BinaryOperator.0"), X("BinaryOperator.2")
        if op in METHOD:
            t = EK("MethodCall{target: %s, op_trait: %s, name: intern('%s'), args: ArgumentList::Positional{0: [%s]}, call_kind: CallKind::Function{}, turbofish: None, safety: Safety::Default{}}" % (L, trait(METHOD[op][0]), METHOD[op][1], R))
        else:
            t = EK("BinaryOperator{0: %s, 1: BinaryOperator::%s{}, 2: %s}" % (L, op, R))
        cmp("operator", op, "BinaryOperator", [({}, t)], more=((F(e, "BinaryOperator.1"), op),))
    for op in prog.variants("spade_ast::UnaryOperator"):
        t = EK("UnaryOperator{0: UnaryOperator::%s{}, 1: %s}" % (op, X("UnaryOperator.1")))
        if op in UMETHOD:
            t = EK("MethodCall{target: %s, op_trait: %s, name: intern('%s'), args: empty(), call_kind: CallKind::Function{}, turbofish: None, safety: Safety::Default{}}" % (X("UnaryOperator.1"), trait(UMETHOD[op][0]), UMETHOD[op][1]))
        cmp("operator", "unary " + op, "UnaryOperator", [({}, t)], more=((F(e, "UnaryOperator.0"), op),))
    # ---- numbers in types
    gc, ec, rc = tables("visit_const_generic", "spade_ast::Expression")
    C = lambda s: "visit_const_generic(e.%s, ctx)" % s
    cc = lambda key, v, exp, more=(): compare(ck, "constant", key, cases_of(ck, gc, rc, ((ec, v),) + tuple(more)), exp, where(gc))
    ls = "lookup_type_symbol(ctx.symtab, e.Identifier.0, 1)"
    cc("Identifier", "Identifier", [({"variant of %s.1" % ls: "GenericMeta"}, "ConstGeneric::Name{0: %s.0}" % ls)])
    cc("BoolLiteral", "BoolLiteral", [({}, "ConstGeneric::Bool{0: e.BoolLiteral.0}")])
    cc("IntLiteral", "IntLiteral", [({}, "ConstGeneric::Int{0: as_signed(e.IntLiteral.0)}")])
    cc("StrLiteral", "StrLiteral", [({}, "ConstGeneric::Str{0: e.StrLiteral.0}")])
    cc("Parenthesized", "Parenthesized", [({}, C("Parenthesized.0"))])
    for op in prog.variants("spade_ast::BinaryOperator"):
        a = ((F(ec, "BinaryOperator.1"), op),)
        if op in CONST:
            cc("operator " + op, "BinaryOperator", [({}, "ConstGeneric::%s{0: %s, 1: %s}" % (CONST[op], C("BinaryOperator.0"), C("BinaryOperator.2")))], a)
        else:
            cs = cases_of(ck, gc, rc, ((ec, "BinaryOperator"),) + a)
            ck.ob("constant", "operator " + op, not cs, "there is no such operation on numbers, the code yields %s" % (cs[:1],), where(gc))
    for op in prog.variants("spade_ast::UnaryOperator"):
        a = ((F(ec, "UnaryOperator.0"), op),)
        want = {"Sub": "ConstGeneric::Sub{0: ConstGeneric::Int{0: 0}, 1: %s}" % C("UnaryOperator.1"), "Not": "ConstGeneric::LogicalNot{0: %s}" % C("UnaryOperator.1")}
        if op in want:
            cc("unary " + op, "UnaryOperator", [({}, want[op])], a)
        else:
            cs = cases_of(ck, gc, rc, ((ec, "UnaryOperator"),) + a)
            ck.ob("constant", "unary " + op, not cs, "there is no such operation on numbers, the code yields %s" % (cs[:1],), where(gc))
    cs = cases_of(ck, gc, rc, ((ec, "Call"),))
    arg = C("Call.args.Positional.0[0]")
    bad = []
    for c, xs in cs:
        path = [re.match(r"'(\w+)'", k).group(1) for k, v in c.items() if v is True and re.match(r"'\w+' ==", k)]
        want = {("int", "bits_for"): "IntBitsFor", ("uint", "bits_for"): "UintBitsFor", ("uint_bits_to_fit",): "UintBitsFor"}.get(tuple(sorted(path, key=lambda p: p == "bits_for")))
        if xs != {"ConstGeneric::%s{0: %s}" % (want, arg)} or c.get("variant of e.Call.kind") != "Function" or c.get("is_some(e.Call.turbofish)") is not False or c.get("-len(e.Call.args.Positional.0)+1 == 0") is not True:
            bad.append("%s: %s" % (path, sorted(xs)))
    ck.ob("constant", "Call", len(cs) >= 3 and not bad, "a call becomes the wrong operation: %s" % bad[:1], where(gc))
    for v in prog.variants("spade_ast::Expression"):
        if v not in ("Identifier", "BoolLiteral", "IntLiteral", "StrLiteral", "Parenthesized", "BinaryOperator", "UnaryOperator", "Call"):
            cs = cases_of(ck, gc, rc, ((ec, v),))
            ck.ob("constant", v, not cs, "this is no number, the code yields %s" % (cs[:1],), where(gc))
    # ---- statements
    gs, es, rs = tables("try_visit_statement", "spade_ast::Statement")
    S = lambda key, v, exp: compare(ck, "statement", key, cases_of(ck, gs, rs, ((es, v),)), exp, where(gs))
    ty = "e.Binding.0.ty"
    S("Binding", "Binding", [({"is_some(%s)" % ty: a}, "[Statement::Binding{0: Binding{pattern: visit_pattern(e.Binding.0.pattern, ctx), ty: %s, value: %s}}]" % ("visit_type_spec(%s, TypeSpecKind::BindingType{}, ctx)" % ty if a else "None", X("Binding.0.value"))) for a in (True, False)])
    S("Declaration", "Declaration", [({}, "[Statement::Declaration{0: map(handle_in(add_declaration(ctx.symtab, e.Declaration.0[*]), ctx.diags))}]")])
    S("Expression", "Expression", [({}, "[Statement::Expression{0: %s}]" % X("Expression.0"))])
    S("Register", "Register", [({}, "visit_register(e.Register.0, ctx)")])
    S("Label", "Label", [({}, "[Statement::Label{0: lookup_type_symbol(ctx.symtab, ident(e.Label.0), 0).0}]")])
    S("Assert", "Assert", [({}, "[Statement::Assert{0: %s}]" % X("Assert.0"))])
    S("Set", "Set", [({}, "[Statement::Set{target: %s, value: %s}]" % (X("Set.target"), X("Set.value")))])
    S("Type", "Type", [({}, "new()")])
    n, c = "is_some(e.PipelineRegMarker.0)", "is_some(e.PipelineRegMarker.1)"
    S("PipelineRegMarker", "PipelineRegMarker", [({n: False, c: False}, "[Statement::PipelineRegMarker{0: None}]"),
        ({n: True, c: False}, "[Statement::PipelineRegMarker{0: PipelineRegMarkerExtra::Count{count: visit_type_expression(e.PipelineRegMarker.0, TypeSpecKind::PipelineRegCount{}, ctx), count_typeexpr_id: #1}}]"),
        ({n: False, c: True}, "[Statement::PipelineRegMarker{0: PipelineRegMarkerExtra::Condition{0: %s}}]" % X("PipelineRegMarker.1"))])
    new = set(prog.variants("spade_ast::Statement")) - {"Binding", "Declaration", "Expression", "Register", "Label", "Assert", "Set", "Type", "PipelineRegMarker"}
    ck.ob("statement", "all kinds", not new, "statements without a rule here: %s" % sorted(new))
    gr, er, rr = tables("visit_register", "")
    cs = cases_of(ck, gr, rr)
    cs = [({re.sub(r"e\.0\.", "e.", k): v for k, v in c.items() if "attributes" not in k}, {re.sub(r", attributes: .*\}\}\]$", "}}]", x.replace("e.0.", "e.")) for x in xs}) for c, xs in cs]
    rg = lambda a, b, t: "[Statement::Register{0: Register{keyword: e.keyword, pattern: visit_pattern(e.pattern, ctx), clock: %s, reset: %s, initial: %s, value: %s, value_type: %s}}]" % (
        X("clock"), "(%s, %s)" % (X("reset.0"), X("reset.1")) if a else "None", X("initial") if b else "None", X("value"), "visit_type_spec(e.value_type, TypeSpecKind::BindingType{}, ctx)" if t else "None")
    B = (True, False)
    compare(ck, "statement", "register", cs, [({"is_some(e.reset)": a, "is_some(e.initial)": b, "is_some(e.value_type)": t}, rg(a, b, t)) for a in B for b in B for t in B], where(gr))
    gb, eb, rb = tables("visit_block", "")
    compare(ck, "statement", "block", cases_of(ck, gb, rb), [({"is_some(e.result)": a}, tuple("Block{statements: %s, result: %s}" % (x, X("result") if a else "None") for x in ("map(visit_statement(e.statements[*], ctx))", "[{**visit_statement(e.statements[*], ctx)*}]", "[{*visit_statement(e.statements[*], ctx)[*]*}]", "[*map(visit_statement(e.statements[*], ctx))]"))) for a in B], where(gb))
    # ---- patterns
    gp, ep, rp = tables("visit_pattern", "spade_ast::Pattern")
    P = lambda key, v, exp: compare(ck, "pattern", key, cases_of(ck, gp, rp, ((ep, v),)), exp, where(gp))
    K = lambda s: "PatternKind::" + s
    P("Integer", "Integer", [({}, K("Integer{0: as_signed(e.Integer.0)}"))])
    P("Bool", "Bool", [({}, K("Bool{0: e.Bool.0}"))])
    for v in ("Tuple", "Array"):
        P(v, v, [({}, K("%s{0: map(visit_pattern(e.%s.0[*], ctx))}" % (v, v)))])

    def bound(cond, ident, inner, wire):
        d = "get_declaration(ctx.symtab, %s)" % ident
        out = [(dict(cond, **{"is_some(%s)" % d: False}), K("Bound{name: add_thing(ctx.symtab, ident(%s), Thing::Variable{0: %s}, None, None), inner: %s, pre_declared: 0, wire: %s}" % (ident, ident, inner, wire)))]
        for s in ("Undefined", "Undecleared"):
            out.append((dict(cond, **{"is_some(%s)" % d: True, "variant of " + d: s}), K("Bound{name: %s.%s.0, inner: %s, pre_declared: 1, wire: %s}" % (d, s, inner, wire))))
        return out
    P("Bound", "Bound", bound({}, "e.Bound.0", "visit_pattern(e.Bound.1, ctx)", "None"))
    ev = "try_lookup_enum_variant(e.Path.path, ctx)"
    P("Path", "Path", [({"result of " + ev: "Ok"}, ev)] + bound({"result of " + ev: "Err"}, "unwrap_named(e.Path.path.0[0])", "None", "e.Path.wire"))
    lp = "lookup_patternable_type(ctx.symtab, e.Type.0, 1)"
    t1 = lambda a: K("Type{0: %s.0, 1: map(%s)}" % (lp, a))
    nm = "e.Type.1.Named.0[*]"
    short = "<Pattern::Path{wire: None, path: ident_with_loc(%s.0)} | %s.1>" % (nm, nm)
    P("Type", "Type", [
        ({"variant of e.Type.1": "Positional"}, t1("PatternArgument{target: %s.1.params.0[*].name, value: visit_pattern(e.Type.1.Positional.0[*], ctx), kind: ArgumentKind::Positional{}}" % lp)),
        ({"variant of e.Type.1": "Named", "is_some(%s.1)" % nm: True}, t1("PatternArgument{target: %s.0, value: visit_pattern(%s.1, ctx), kind: ArgumentKind::Named{}}" % (nm, nm))),
        ({"variant of e.Type.1": "Named", "is_some(%s.1)" % nm: False}, tuple(t1("PatternArgument{target: %s.0, value: visit_pattern(%s, ctx), kind: ArgumentKind::ShortNamed{}}" % (nm, x)) for x in (short, "Pattern::Path{wire: None, path: ident_with_loc(%s.0)}" % nm)))])
    named = ((ep, "Type"), (F(ep, "Type.1"), "Named"))
    pos = ((ep, "Type"), (F(ep, "Type.1"), "Positional"))
    rejects(ck, "pattern", "number of positional members", gp, rp, pos, {"-argument_num(%s.1.params)+len(e.Type.1.Positional.0) == 0" % lp: False}, "a pattern with the wrong number of members is accepted")
    rejects(ck, "pattern", "missing members", gp, rp, named, {"-len(%s.1.params.0) == 0" % lp: False}, "a pattern that leaves out a member is accepted")
    fc = AL + "visit_pattern::"
    cl = [x for x in prog.fns if x.startswith(fc) and "#prom" not in x and any(a[1].endswith("PatternArgument") for a in aggs(prog.fns[x])) and calls(prog.fns[x], r"HashSet<.*>::take$")]
    ck.ob("pattern", "anchor members", len(cl) == 1, "the closure that lowers named members is not found (%d)" % len(cl))
    for x in cl:
        gx = ck.graph(x, precise=True)
        for key, rx, v in (("member given twice", r"HashSet<.*>::(get|contains)$", "Some"), ("unknown member", r"HashSet<.*>::(take|remove)$", "None")):
            ns = nodes(gx, rx)
            ck.ob("pattern", "anchor " + key, len(ns) == 1, "%d calls where one is expected" % len(ns), where(gx))
            for n in ns:
                c = gx.ctxs[n[0]]
                t = c.body.bbs[n[1]]["t"]
                p = search(gx).find(paths.OkReturn(), start=[((n[0], t[4]), {(c.id, t[3][0]): ("v", v)})])
                ck.ob("pattern", key, p is None, "" if p is None else "it is accepted on the path %s" % paths.path_str(gx, p), where(gx))
        ins = nodes(gx, r"HashSet<.*>::(insert|replace)$")
        p = search(gx).find(paths.OkReturn(), avoid=ins)
        ck.ob("pattern", "members remembered", bool(ins) and p is None, "a member that was given is not remembered", where(gx))
    so = nodes(gp, r"sort(_unstable)?_by(_cached)?(_key)?$")
    p = search(gp, named).find(paths.OkReturn(), avoid=so)
    ck.ob("pattern", "order of members", bool(so) and p is None, "the members of a pattern are not put into the order of the type's members", where(gp))
    keyfn = [x for x in prog.fns if x.startswith(fc) and "#prom" not in x and calls(prog.fns[x], r"ParameterList::arg_index$|Parameterlist.*::arg_index$|::arg_index$")]
    okk = False
    for x in keyfn:
        gx = ck.graph(x, precise=True)
        rx = AR({F(("arg", 0), "^0"): "p", ("arg", 1): "m"}, prog)
        okk = okk or any(xs <= {"arg_index(p.params, m.target)", "arg_index(p.1.params, m.target)"} for c, xs in cases_of(ck, gx, rx))
    ck.ob("pattern", "key of the order", okk, "members are not sorted by their position in the type", where(gp))
    gt, et, rt = tables("try_lookup_enum_variant", "")
    lv = "lookup_enum_variant(ctx.symtab, e, 1)"
    compare(ck, "pattern", "variant without members", cases_of(ck, gt, rt), [({}, K("Type{0: %s.0, 1: new()}" % lv))], where(gt))
    cs = [c for c, _ in cases_of(ck, gt, rt)]
    ck.ob("pattern", "variant with members", bool(cs) and all(any("argument_num" in k for k in c) for c in cs), "a variant with members is accepted without a pattern for them", where(gt))
    # ---- arguments
    ga, ea, ra = tables("visit_argument_list", "spade_ast::ArgumentList")
    na = "e.Named.0[*]"
    compare(ck, "arguments", "positional", cases_of(ck, ga, ra, ((ea, "Positional"),)), [({}, "ArgumentList::Positional{0: map(visit_expression(e.Positional.0[*], ctx))}")], where(ga))
    compare(ck, "arguments", "named", cases_of(ck, ga, ra, ((ea, "Named"),)), [
        ({"variant of " + na: "Full"}, "ArgumentList::Named{0: map(NamedArgument::Full{0: %s.Full.0, 1: visit_expression(%s.Full.1, ctx)})}" % (na, na)),
        ({"variant of " + na: "Short"}, "ArgumentList::Named{0: map(NamedArgument::Short{0: %s.Short.0, 1: visit_expression(Expression::Identifier{0: ident_with_loc(%s.Short.0)}, ctx)})}" % (na, na))], where(ga))
    gk, ek, rk = tables("visit_call_kind", "spade_ast::CallKind")
    for v, t in (("Function", "Function{}"), ("Entity", "Entity{0: e.Entity.0}"), ("Pipeline", "Pipeline{inst_loc: e.Pipeline.0, depth: visit_type_expression(e.Pipeline.1, TypeSpecKind::PipelineInstDepth{}, ctx), depth_typeexpr_id: #1}")):
        compare(ck, "arguments", "kind " + v, cases_of(ck, gk, rk, ((ek, v),)), [({}, "CallKind::" + t)], where(gk))
    gf, ef, rf = tables("visit_turbofish", "")
    TE = lambda x: "visit_type_expression(%s, TypeSpecKind::Turbofish{}, ctx)" % x
    compare(ck, "arguments", "turbofish", cases_of(ck, gf, rf), [
        ({"variant of e": "Positional"}, ("Positional(map(%s))" % TE("e.Positional.0[*]"), "ArgumentList::Positional{0: map(%s)}" % TE("e.Positional.0[*]"))),
        ({"variant of e": "Named", "variant of " + na: "Full"}, "ArgumentList::Named{0: map(NamedArgument::Full{0: %s.Full.0, 1: %s})}" % (na, TE(na + ".Full.1"))),
        ({"variant of e": "Named", "variant of " + na: "Short"}, "ArgumentList::Named{0: map(NamedArgument::Short{0: %s.Short.0, 1: %s})}" % (na, TE("TypeExpression::TypeSpec{0: TypeSpec::Named{0: ident_with_loc(%s.Short.0), 1: None}}" % na)))], where(gf))
    # ---- scopes
    VX, VP = r"(Loc<.*>::(try_)?visit|::visit_expression)$", r"(Loc<.*>::(try_)?visit|::visit_pattern)$"

    def visits(g, fn):
        return {n for n, r_, d, rec in g.calls() if r_.endswith("::" + fn) or re.search(r"Loc<.*>::(try_)?(visit|map_ref)$", r_) and any(a[0] == "fn" and a[1].endswith("::" + fn) for a in g.args_of(n))}

    def before(rule, key, g, first, then, assume=(), detail=""):
        p = search(g, assume).find(paths.AtNodes(set(then)), avoid=set(first))
        ck.ob(rule, key, bool(first) and bool(then) and p is None, detail + ("" if p is None else " (%s)" % paths.path_str(g, p)), where(g))
    before("scope", "binding", gs, visits(gs, "visit_expression"), visits(gs, "visit_pattern"), ((es, "Binding"),), "the pattern of a let is entered before its value is looked up: `let x = x` would refer to itself")
    for key, gg, inner in (("block", gb, lambda x: visits(x, "visit_statement") | visits(x, "visit_expression")),):
        op, cl = nodes(gg, r"SymbolTable::new_scope$"), nodes(gg, r"SymbolTable::close_scope$")
        st = inner(gg)
        # the statements are visited by a closure
        st |= {n for n, r_, d, rec in gg.calls() if re.search(r"Iterator(>| for .*>)?::(map|for_each|flat_map|next)$", r_)}
        before("scope", key + " opened", gg, op, st, (), "the statements of a block are entered in the enclosing scope")
        before("scope", key + " closed", gg, cl, returns(gg), (), "the scope of a block is left open")
        p = reach(gg, cl, st)
        ck.ob("scope", key + " inside", p is None, "the block is visited after its scope is closed", where(gg))
        p = reach(gg, [s for n in op for s in succ(gg, n)], op)
        ck.ob("scope", key + " one scope", p is None, "more than one scope is opened for a block", where(gg))
        und_ = nodes(gg, r"::check_for_undefined$")
        before("scope", key + " declarations", gg, und_, cl, (), "names that were declared but not defined are not looked for before the scope is closed")
    mc = [x for x in prog.fns if x.startswith(AL + "visit_expression_result::{closure") and "#prom" not in x and calls(prog.fns[x], r"SymbolTable::new_scope$") and "spade_ast::Pattern" in " ".join(prog.fns[x].ty(i) for i in range(1, prog.fns[x].nargs + 1))]
    br = [(ck.graph(x, precise=True), None) for x in mc]
    if not br:
        # a loop in the function itself
        br = [(g, {n for n in nodes(g, r"Iterator(>| for .*>)?::next$") if ".Match.branches" in r.v(g.args_of(n)[0])})]
    ck.ob("scope", "anchor match", len(br) == 1 and br[0][1] != set(), "the code that lowers a branch is not found (%d)" % len(mc))
    for gm, loop in br:
        op, cl, vp, vx = nodes(gm, r"SymbolTable::new_scope$"), nodes(gm, r"SymbolTable::close_scope$"), visits(gm, "visit_pattern"), visits(gm, "visit_expression")
        a, st, ends = (), None, [paths.OkReturn()]
        if loop is not None:
            a = ((e, "Match"),)
            part = lambda ns: {n for n in ns if any(".Match.branches[*]" in r.v(x) for x in gm.args_of(n))}
            vp, vx = part(vp), part(vx)
            st = [((n[0], t[4]), {(n[0], t[3][0]): ("v", "Some")}) for n in loop for t in [gm.ctxs[n[0]].body.bbs[n[1]]["t"]]]
            ends.append(paths.AtNodes(loop))

        def branch(key, first, then, detail):
            p = None
            for goal in then if isinstance(then, list) else [paths.AtNodes(set(then))]:
                p = p or search(gm, a).find(goal, avoid=set(first) | (loop or set() if not isinstance(then, list) else set()), start=st)
            ck.ob("scope", key, bool(first) and bool(then) and p is None, detail + ("" if p is None else " (%s)" % paths.path_str(gm, p)), where(gm))
        branch("branch opened", op, vp | vx, "a branch is entered in the enclosing scope")
        branch("branch names", vp, vx, "the guard or the value of a branch is looked up before the names of its pattern are known")
        branch("branch closed", cl, ends, "the scope of a branch is left open")
        p = None
        for n in cl:
            if search(gm, a).find(paths.AtNodes({n}), start=st):
                p = p or search(gm, a).find(paths.AtNodes(vp | vx), start=[(m, {}) for m in succ(gm, n)], avoid=loop or set())
        ck.ob("scope", "branch inside", p is None, "the branch is visited after its scope is closed", where(gm))
    # ---- unsafe
    saf = F(e and body_of(ck, "visit_expression_result")[2], "safety")
    kind = {}
    for n, r_, d, rec in g.calls():
        if re.search(r"mem::(replace|swap|take)$", r_) and g.args_of(n)[0] == saf:
            a = g.args_of(n)
            kind[n] = a[1] if len(a) > 1 else ("unk", "default")
    for n, pl, t in g.stores():
        if pl[-1:] == [["f", "safety"]]:
            kind[n] = t() if callable(t) else t
    val = lambda t: {x[2] for x in ir.alts(t) if x[0] == "agg" and str(x[1]).endswith("Safety")}
    back = {n for n, t in kind.items() if t == saf}
    for v, want, fn in (("Unsafe", "Unsafe", "visit_block"), ("Lambda", "Default", "visit_lambda")):
        on = {n for n, t in kind.items() if val(t) == {want}}
        vs = nodes(g, r"::%s$" % fn)
        a = ((e, v),)
        before("scope", v + ": safety inside", g, on, vs, a, "the body is not entered as %s code" % want.lower())
        live = search(g, a).reachable()
        p = None
        for n in sorted(x for x in on if x in live):
            p = p or search(g, a).find(paths.OkReturn(), start=[(m, {}) for m in succ(g, n)], avoid=back)
        ck.ob("scope", v + ": safety outside", bool(back) and p is None, "what follows the block is taken for %s code: the old state is not restored%s" % (want.lower(), " on the path " + paths.path_str(g, p) if p else ""), where(g))
        p = None
        for n in sorted(x for x in back if x in live):
            p = p or search(g, a).find(paths.AtNodes(vs), start=[(m, {}) for m in succ(g, n)])
        ck.ob("scope", v + ": safety order", p is None, "the state is restored before the body is visited", where(g))
    odd = set()
    for v in prog.variants("spade_ast::Expression"):
        if v not in ("Unsafe", "Lambda"):
            live = search(g, ((e, v),)).reachable()
            odd |= {v for n in kind if n in live}
    ck.ob("scope", "safety elsewhere", not odd, "expressions of the kinds %s change whether code counts as unsafe" % sorted(odd), where(g))


def returns(g):
    return {(g.root.id, bi) for bi, bb in enumerate(g.root.body.bbs) if bb["t"][0] == "ret"}


def aggs(body):
    """the aggregates a body builds: (kind, type, variant)"""
    for bb in body.bbs:
        for s in bb["s"]:
            for a in _agg(s, body):
                yield a


def _agg(s, body):
    st = [s]
    while st:
        x = st.pop()
        if isinstance(x, (list, tuple)):
            if len(x) >= 3 and x[0] == "agg":
                yield x
            st.extend(x)


def calls(body, rx):
    return any(bb["t"][0] == "call" and ir.callee(bb["t"]) and re.search(rx, ir.callee(bb["t"])[0]) for bb in body.bbs if not bb["c"])
