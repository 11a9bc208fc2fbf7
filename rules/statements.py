"""Lowering of patterns and statements to the intermediate representation (HIR -> MIR)."""
import re
import ir, paths, core, render
from core import prop
from common import *
from render import compare, rejects
from lowering import LR, table, value_cases, bool_cases, ids, self_names, SELF, KIND, K, pushes, PUSH

PAT = r"<spade_common::location_info::Loc<spade_hir::Pattern> as spade_hir_lowering::PatternLocal>::"
STMT = r"<spade_common::location_info::Loc<spade_hir::Statement> as spade_hir_lowering::StatementLocal>::"


def split_top(s):
    """split at the commas outside brackets"""
    out, d, cur = [], 0, ""
    for ch in s:
        d += ch in "([{<"
        d -= ch in ")]}>"
        if ch == "," and not d:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    return out + ([cur.strip()] if cur.strip() else [])


def truth(name, stmts, used):
    """the literals whose conjunction a name computed by these statements is"""
    if name.startswith("all{") and name.endswith("}.1"):
        used.add("*" + name[:-2] + ".0")
        if "*" + name[:-2] + ".0" not in stmts:
            return {"undefined " + name}
        return {y for x in split_top(name[4:-3]) for y in truth(x, stmts, used)}
    ds = [x for x in stmts if x.startswith(name + " = ")]
    if not ds:
        return {name}
    if len(ds) > 1:
        return {"%s is defined twice" % name}
    used.add(ds[0])
    m = re.match(r"(.*) = (\w+(?:\(.*\))?)\[(.*)\] : Bool$", ds[0], re.S)
    if not m:
        return {"1"} - {"1"} if ds[0].endswith("= const Bool(1) : Bool") else {ds[0].split(" = ", 1)[1]}
    op, xs = m.group(2), split_top(m.group(3))
    if op == "Alias":
        return truth(xs[0], stmts, used)
    if op == "LogicalAnd":
        return {y for x in xs for y in truth(x, stmts, used)}
    xs = [truth(x, stmts, used) for x in xs]
    if op in ("LogicalNot", "Not") and len(xs[0]) == 1:
        return {"!" + x for x in xs[0]}
    return {"%s[%s]" % (op, ", ".join(" && ".join(sorted(x)) for x in xs))}


class PR(LR):
    """the condition of a pattern as the conjunction it computes, with the statements that do not take part in it"""

    def _v(self, t):
        if t[0] == "agg" and t[1].endswith("::PatternCondition"):
            f = dict(t[3])
            st, used = self.items(f["statements"]), set()
            c = truth(self.v(f["result_name"]), st, used)
            return "&{%s} with {%s}" % (", ".join(sorted(c)), ", ".join(sorted(set(st) - used)))
        return super()._v(t)


def sortlits(x):
    m = re.match(r"&\{(.*)\} with (.*)$", x, re.S)
    return "&{%s} with %s" % (", ".join(sorted(split_top(m.group(1)))), m.group(2)) if m else x


def guards(cs, opt="c"):
    """cases where an optional condition takes part if there is one, as two cases"""
    out = []
    for c, res in cs:
        k = "is_some(%s)" % opt
        if k not in c and any(re.search(r"\*%s\b" % opt, x) for x in res):
            out.append((dict(c, **{k: True}), {re.sub(r"\*%s\b" % opt, opt, x) for x in res}))
            out.append((dict(c, **{k: False}), {re.sub(r"\*%s\b(, )?" % opt, "", x) for x in res}))
            # the order of the literals follows their texts
            out[-2] = (out[-2][0], {sortlits(x) for x in out[-2][1]})
        else:
            out.append((c, res))
    return out


@prop("C34")
def c34(ck):
    prog = ck.prog
    ck.rule("pattern-bind", "a pattern binds each of its parts to exactly the part of the value that is at its position, and the parts of its parts in turn", 9)
    ck.rule("pattern-condition", "the condition of a pattern holds exactly if each of its parts matches the part of the value at its position, the variant is the one named, literals are equal and the guard holds", 7)
    ck.rule("pattern-name", "a variable pattern is known by its name, every other pattern by its own", 6)
    g = ck.graph(PAT + "lower_no_initial_binding", precise=True)
    r = PR(self_names(), prog)
    ok = {"variant of C(self)": "Single"}
    rec = lambda x: "lower_no_initial_binding(%s, value_name(%s), c)" % (x, x)
    sub = lambda x, op, more="": {rec(x), "value_name(%s) = %s[b%s] : M(%s)" % (x, op, more, x)}
    T = lambda key, v, exp, more=(): table(ck, "pattern-bind", key, g, r, ((KIND, v),) + tuple(more), [(dict(ok, **c), e) for c, e in exp], fixed=ok)
    for v in ("Integer", "Bool"):
        T(v, v, [({}, set())])
    T("Bound", "Bound", [({"is_some(kind.Bound.inner)": True}, sub("kind.Bound.inner", "Alias")), ({"is_some(kind.Bound.inner)": False}, set())])
    T("Tuple", "Tuple", [({}, sub("kind.Tuple.0[*]", "IndexTuple(<index>(kind.Tuple.0))"))])
    ix = "const Int(to_bigint(<index>(kind.Array.0))) : Int(ilog2(len(kind.Array.0))+1)"
    T("Array", "Array", [({}, sub("kind.Array.0[*]", "IndexArray", ", e(%x%)") | {"e(%x%) = " + ix})])
    pk = "variant of patternable_type_by_id(symtab(c.symtab), kind.Type.0).kind"
    pv = "kind.Type.1[*].value"
    T("Type", "Type", [({pk: "Struct"}, sub(pv, "IndexTuple(arg_index(struct_by_id(symtab(c.symtab), kind.Type.0).params, kind.Type.1[*].target))")),
                       ({pk: "Enum"}, sub(pv, "EnumMember(variant: enum_variant_by_id(symtab(c.symtab), kind.Type.0).option, member_index: <index>(kind.Type.1))"))])
    for v in prog.variants("spade_hir::PatternKind"):
        ck.ob("pattern-bind", "anchor " + v, v in ("Integer", "Bool", "Bound", "Tuple", "Array", "Type"), "a pattern kind without a rule here", where(g))
    gl = ck.graph(PAT + "lower", precise=True)
    table(ck, "pattern-bind", "initial", gl, PR({("arg", i): x for i, x in enumerate("self b c d".split())}, prog), (), [({}, {"value_name(self) = Alias[b] : c", "lower_no_initial_binding(self, b, d)"})])

    # conditions
    gc = ck.graph(PAT + "condition", precise=True)

    def V(v, exp):
        e = []
        for c, lits, st in exp:
            for sc in (True, False):
                if c.get("is_some(c)", sc) == sc:
                    e.append((dict(c, **{"is_some(c)": sc}), "&{%s} with {%s}" % (", ".join(sorted(lits + (["c"] if sc and st is not None else []))), ", ".join(st or []))) if st is not None else (c, lits))
        compare(ck, "pattern-condition", v, guards(value_cases(ck, gc, r, ((KIND, v),))), e, where(gc))
    V("Integer", [({}, ["Eq[b, const Int(kind.Integer.0) : M(self)]"], [])])
    V("Bool", [({"kind.Bool.0": True}, ["b"], []), ({"kind.Bool.0": False}, ["!b"], [])])
    bi, bn = {"is_some(kind.Bound.inner)": True}, {"is_some(kind.Bound.inner)": False}
    V("Bound", [(bi, "cond(kind.Bound.inner, value_name(kind.Bound.inner), c)", None), (bn, [], [])])
    sub = lambda x: (["cond(%s, value_name(%s), None).result_name" % (x, x)], ["*cond(%s, value_name(%s), None).statements" % (x, x)])
    for v in ("Tuple", "Array"):
        V(v, [({}, *sub("kind.%s.0[*]" % v))])
    pk = pk.replace("(c.symtab)", "(d.symtab)")
    a, b = sub(pv)
    V("Type", [({pk: "Struct"}, a, b), ({pk: "Enum"}, a + ["IsEnumVariant(variant: enum_variant_by_id(symtab(d.symtab), kind.Type.0).option)[b]"], b)])
    ga = ck.graph(r"spade_hir_lowering::all_conditions", precise=True)
    ra = LR({("arg", 0): "a", ("arg", 1): "ops", ("arg", 2): "ctx"}, prog)
    cs = value_cases(ck, ga, ra)
    z, o = "-len(ops) == 0", "-len(ops)+1 == 0"
    compare(ck, "pattern-condition", "all", cs, [({z: True}, "([e(#1) = const Bool(1) : Bool], e(#1))"), ({z: False, o: True}, "(new(), ops[0])"),
                                                 ({z: False, o: False}, "(map(e(#1) = LogicalAnd[<e(#1) | ops[0]>, ops[1..][*]] : Bool), <e(#1) | ops[0]>)")], where(ga))
    gn = ck.graph(PAT + "value_name", precise=True)
    for v in prog.variants("spade_hir::PatternKind"):
        compare(ck, "pattern-name", v, value_cases(ck, gn, r, ((KIND, v),)), [({}, "value_name(kind.Bound.name)" if v == "Bound" else "self")], where(gn))


UNIT = "spade_hir_lowering::generate_unit"


def built(terms, adt, r):
    """field texts of the values of this type that terms are made of"""
    out = []
    seen = set()
    for t in terms:
        for x in ir.subterms(t):
            if x[0] == "agg" and x[1] == adt and x not in seen:
                seen.add(x)
                out.append({k: r.v(v) for k, v in x[3]})
    return out


@prop("C35")
def c35(ck):
    prog = ck.prog
    ck.rule("stmt-lower", "each statement is lowered to the statement of the intermediate representation with its meaning, its expressions and patterns are lowered, and a register has its own clock, reset, initial value and input", 9)
    ck.rule("stmt-check", "a statement is accepted only if its pattern matches all values, its initial value is known at compile time and no value is dropped that must be used", 5)
    ck.rule("unit-lower", "a unit is lowered with all its parameters, its whole body, and the value of its body as its output", 10)
    g = ck.graph(STMT + "lower", precise=True)
    r = LR(self_names(), prog)
    S = F(SELF, "inner")
    b, e, a, s_, rg = "self.Binding.0", "self.Expression.0", "self.Assert.0", "self.Set", "self.Register.0"
    st = {
        "Error": {"error"}, "Declaration": set(), "Label": set(), "Expression": {"lower(%s)" % e},
        "Binding": {"lower(%s.value)" % b, "lower(%s.pattern, %s.value, M(%s.pattern), b)" % (b, b, b)},
        "PipelineRegMarker": {"b.subs.current_stage := b.subs.current_stage+1"},
        "Assert": {"lower(%s)" % a, "assert " + a},
        "Set": {"lower(%s.target)" % s_, "lower(%s.value)" % s_, "set %s.target = %s.value" % (s_, s_)},
    }
    ctxstore = re.compile(r"^b\b")
    for v in prog.variants("spade_hir::Statement"):
        if v == "Register":
            exp = []
            for i in (True, False):
                for rs in (True, False):
                    x = {"lower(%s.clock)" % rg, "lower(%s.value)" % rg, "lower_no_initial_binding(%s.pattern, value_name(%s.pattern), b)" % (rg, rg),
                         "value_name(%s.pattern) = reg{clock: %s.clock, reset: %s, initial: %s, value: %s.value} : M(%s.pattern)" % (
                             rg, rg, "(%s.reset.0, %s.reset.1)" % (rg, rg) if rs else "None", "to_vec_no_source_map(lower(%s.initial))" % rg if i else "None", rg, rg)}
                    x |= {"lower(%s.initial)" % rg} if i else set()
                    x |= {"lower(%s.reset.0)" % rg, "lower(%s.reset.1)" % rg} if rs else set()
                    exp.append(({"is_some(%s.initial)" % rg: i, "is_some(%s.reset)" % rg: rs}, x))
            table(ck, "stmt-lower", v, g, r, ((S, v),), exp, stores=ctxstore)
        elif v in st:
            table(ck, "stmt-lower", v, g, r, ((S, v),), [({}, st[v])], stores=ctxstore)
        else:
            ck.ob("stmt-lower", v, False, "a statement without a rule here", where(g))
    gb = ck.graph(STMT + "lower")
    for v in ("Binding", "Register"):
        p = F(F(S, v + ".0"), "pattern")
        must_call(ck, "stmt-check", v + " pattern", gb, lambda n, d, x: n.endswith("::check_irrefutable") and ir.derives(x[0], p), "the pattern is not required to match all values", ((S, v),))
    rejects(ck, "stmt-check", "initial value", g, r, ((S, "Register"),), {"is_some(%s.initial)" % rg: True, "is_some(runtime_requirement_witness(%s.initial, b))" % rg: True}, "a register is accepted")
    rejects(ck, "stmt-check", "unused value", g, r, ((S, "Expression"),), {"must_use(M(%s))" % e: True, "variant of C(%s)" % e: "Single"}, "a statement is accepted")
    gm = ck.graph(r"spade_mir::types::Type::must_use", precise=True)
    rm = LR({("arg", 0): "self"}, prog)
    compare(ck, "stmt-check", "must_use", bool_cases(ck, gm, rm), [({"variant of self": "Tuple", "-len(self.Tuple.0) == 0": True}, "0")] +
            [({"variant of self": "Tuple", "-len(self.Tuple.0) == 0": False}, "1")] + [({"variant of self": v}, "1") for v in prog.variants("spade_mir::types::Type") if v != "Tuple"], where(gm))
    # units
    gu = ck.graph(UNIT, precise=True)
    names = {("arg", i): gu.entry.name(i + 1) or "a%d" % i for i in range(gu.entry.nargs)}
    ru = LR({t: n for t, n in zip(names, "unit name types type_ctx symtab idtracker item_list unit_generic_list name_map mono_state name_source_map self_mono_item opt_passes trait_impls".split())}, prog)
    ts = returned(ck, gu)
    en = built(ts, "spade_mir::Entity", ru)
    ip = built(ts, "spade_mir::MirInput", ru)
    one = lambda key, xs, f, want: ck.ob("unit-lower", key, bool(xs) and all(re.fullmatch(want, x[f]) for x in xs), "`%s` of the unit is %s" % (f, sorted({x[f] for x in xs}) or "never built"), where(gu))
    one("name", en, "name", r"as_mir\(name\)")
    one("output", en, "output", r"unit\.body")
    one("output type", en, "output_type", r"M\(unit\.body\)")
    one("parameter name", ip, "name", r"unit\.inputs\[\*\]\.name\.1|tail\(unit\.inputs\[\*\]\.name\.1\)")
    one("parameter value", ip, "val_name", r"value_name\(unit\.inputs\[\*\]\.name\)")
    one("parameter type", ip, "ty", r"mir\(concrete_type_of_name\(types, unit\.inputs\[\*\]\.name, .*\)\)")
    one("parameter no_mangle", ip, "no_mangle", r"unit\.head\.inputs(\.0)?\[\*\]\.no_mangle")
    one("parameters", en, "inputs", r"(?!.*(part|filter|<take>|<skip>|<rev>)\().*unit\.inputs\[\*\].*")
    one("statements", en, "statements", r"(?!.*part\().*lower\(unit\.body\).*")
    UA = ("arg", 0)
    must_call(ck, "unit-lower", "pipelines", gu, lambda n, d, x: n.endswith("::lower_pipeline") and ir.derives(x[1], F(UA, "body")), "the stages of a pipeline are not lowered", ((F(F(UA, "head"), "unit_kind"), "Pipeline"), (F(F(F(UA, "head"), "unit_kind"), "inner"), "Pipeline")))
    must_call(ck, "unit-lower", "linearity", gu, lambda n, d, x: n.endswith("::check_linear_types") and ir.derives(x[0], F(UA, "inputs")) and ir.derives(x[1], F(UA, "body")), "the linearity of a unit is not checked")
