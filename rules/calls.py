"""Calls (HIR -> MIR): the operations built into the compiler, construction of structs and enums, instances of units."""
import re
import ir, paths, core, render
from core import prop
from common import *
from render import compare, rejects
from lowering import LR, table, value_cases, bool_cases, ids, self_names, SELF, KIND, K, pushes, canon, PUSH, EXPR

LOOKUP = re.compile(r"PathSegment::Named\{0: intern\('(\w+)'\)\}")
NAMES = {("arg", i): x for i, x in enumerate("self name args head attrs ctx".split())}


def noisy(t):
    return any(x[0] == "call" and re.search(r"backtrace", x[1], re.I) for x in ir.subterms(t))


def lookups(g, r):
    """the tests that decide whether the called unit is the one with a certain path: {test: path}"""
    fixed = {}
    while True:
        seen = {}
        render.CaseSearch(g, fixed, r, core.decider(()), lambda t: not noisy(t), seen).find(paths.OkReturn())
        ks = [k for k in seen if k not in fixed and "try_lookup_id(" in k]
        if not ks:
            return {k: "::".join(LOOKUP.findall(k)) for k in fixed}
        for k in ks:
            fixed[k] = False


class CR(LR):
    """names for what a call refers to"""

    def _v(self, t):
        x = super()._v(t)
        if x == "ctx.item_list.executables[name]":
            return "item"
        if x.startswith("get_generic_list(") and t[0] == "at":
            return "arg[%s]" % self.v(t[2])
        if t[0] == "call" and re.search(r"::expect_(integer|string)$", t[1]):
            return "%s(%s)" % (t[1].split("::")[-1], self.v(t[2][0]))
        if t[0] == "call" and t[1].endswith("::get_type_params"):
            return "generics(%s)" % self.v(t[2][0])
        return x


A, B = "args[0].value", "args[1].value"
LOWERED = "lower(args[*].value)"


def op(o, *xs, ty="M(self)"):
    return {LOWERED, "self = %s[%s] : %s" % (o, ", ".join(xs), ty)}


def signed(o, u, of):
    return [({"variant of " + of: "Int"}, op(o, A, B)), ({"variant of " + of: "UInt"}, op(u, A, B))]


def intrinsics():
    """path of a built-in unit -> what a call of it becomes, per case"""
    d = {"core::conv::transmute": [({}, op("BlackBoxAlias", A))], "core::undef::undef": [({}, {LOWERED, "self = const Undef(size(M(self))) : M(self)"})]}
    for n, o in (("eq", "Eq"), ("ne", "NotEq"), ("bit_and", "BitwiseAnd"), ("bit_or", "BitwiseOr"), ("bit_xor", "BitwiseXor")):
        d["core::ops::intrinsics::" + n] = [({}, op(o, A, B))]
    d["core::ops::intrinsics::bit_not"] = [({}, op("BitwiseNot", A))]
    for n, o in (("lt", "Lt"), ("le", "Le"), ("gt", "Gt"), ("ge", "Ge")):
        d["core::ops::intrinsics::" + n] = signed(o, "Unsigned" + o, "M(%s)" % A)
    d["core::ports::port"] = [({"variant of M(self)": "Tuple"}, {LOWERED, "e(%a%) = Nop[] : M(self).Tuple.0[0]", "e(%b%) = FlipPort[e(%a%)] : M(self).Tuple.0[1]", "self = ConstructTuple[e(%a%), e(%b%)] : M(self)"})]
    mem = lambda i: op("DeclClockedMemory(initial: %s)" % i, "args[0..2][*].value")
    k = "args[2].value.kind"
    d["std::mem::clocked_memory"] = [({}, mem("None"))]
    d["std::mem::clocked_memory_init"] = [
        ({"variant of " + k: "ArrayLiteral"}, mem("map(to_vec_no_source_map(lower(%s.ArrayLiteral.0[*])))" % k)),
        ({"variant of " + k: "ArrayShorthandLiteral"}, mem("map(to_vec_no_source_map(lower(%s.ArrayShorthandLiteral.0)) for 0..resolve_int(%s.ArrayShorthandLiteral.1, ctx))" % (k, k)))]
    d["std::mem::read_memory"] = [({}, op("IndexMemory", A, B))]
    for m in ("conv", "num"):
        for n, o in (("trunc", "Truncate"), ("sext", "SignExtend"), ("zext", "ZeroExtend")):
            d["std::%s::%s" % (m, n)] = [({}, op(o, A))]
        d["std::%s::concat" % m] = [({}, op("Concat", A, B))]
    for m in ("io::intrinsics", "ports"):
        d["std::%s::read_write_inout" % m] = [({}, op("ReadWriteItemsInOut(1)", A))]
        d["std::%s::read_write_items_inout" % m] = [({"variant of M(self)": "Array"}, op("ReadWriteItemsInOut(M(self).Array.length)", A))]
    d["std::ops::div_pow2"] = [({}, op("DivPow2", A, B))]
    for n in ("And", "Or", "Xor"):
        d["std::ops::reduce_" + n.lower()] = [({}, op("Reduce" + n, A))]
    d["std::ops::comb_div"] = signed("Div", "UnsignedDiv", "M(self)")
    d["std::ops::comb_mod"] = signed("Mod", "UnsignedMod", "M(self)")
    d["std::ports::read_mut_wire"] = [({}, op("ReadPort", A))]
    return d


KNOWN = "is_some(ungenerify_type(ctx.types, arg[generics(head)[*].name], symtab(ctx.symtab), ctx.item_list.types))"
NOTES = {"is_some(attrs[*][*].1)": True}


@prop("C36")
def c36(ck):
    prog = ck.prog
    ck.rule("intrinsic", "a call of a unit built into the compiler becomes exactly its operation on its arguments in order", 30)
    ck.rule("intrinsic-check", "a built-in conversion between sizes that do not fit together is an error", 6)
    ck.rule("instance", "a call of a struct, an enum variant, a unit or an extern unit becomes exactly that construction or instance with all arguments in order", 9)
    ck.rule("call", "arguments are matched with the parameters, unsafe units are only called in unsafe blocks", 10)
    g = ck.graph(EXPR + "handle_call", r"::handle_\w+$", precise=True)
    r = CR(NAMES, prog)
    lk = lookups(g, r)
    quiet = lambda t: not noisy(t)
    at = where(g)
    exp = intrinsics()
    known = dict({KNOWN: True}, **NOTES)
    for k, p in lk.items():
        ck.ob("intrinsic", "anchor " + p, p in exp, "a built-in unit without a rule here", at)
    found = {p: [k for k, x in lk.items() if x == p] for p in exp}

    def cases_of(p):
        if len(found[p]) != 1:
            return None
        fixed = dict(known, **{k: k == found[p][0] for k in lk})
        cs = render.event_cases(ck, g, r, (), lambda n, d: PUSH.search(n), pushes(r), fixed=fixed, interesting=quiet)
        return [({k: v for k, v in c.items() if k not in fixed}, x) for c, x in canon(cs)]
    for (p, e), cs in zip(exp.items(), ck.par(cases_of, exp)):
        if ck.ob("intrinsic", "lookup " + p, len(found[p]) == 1, "the unit must be recognised by its path, %d tests do that" % len(found[p]), at):
            compare(ck, "intrinsic", p, cs, [(c, sorted(ids(x))) for c, x in e], at)
    sz = lambda x: "size(M(%s))" % x
    S, Z = "-%s+%s > 0" % (sz(A), sz("self")), "%s-%s > 0" % (sz(A), sz("self"))
    bad = [("core::conv::transmute", {"%s == %s" % (sz(A), sz("self")): False}), ("core::conv::transmute", {"backward_%s == backward_%s" % (sz(A), sz("self")): False}),
           ("std::mem::clocked_memory_init", {"is_some(runtime_requirement_witness(args[2].value, ctx))": True})]
    for m in ("conv", "num"):
        bad += [("std::%s::trunc" % m, {S: True}), ("std::%s::sext" % m, {Z: True}), ("std::%s::zext" % m, {Z: True}), ("std::%s::concat" % m, {"-%s-%s+%s == 0" % (sz(A), sz(B), sz("self")): False})]
    for p, f in bad:
        rejects(ck, "intrinsic-check", "%s %s" % (p, list(f)[0].split("(")[0]), g, r, (), dict({k: x == p for k, x in lk.items()}, **f), "the call must be an error, it succeeds")

    # everything else
    gi = ck.graph(EXPR + "handle_call", precise=True)
    ri = CR(NAMES, prog)
    li = {k: False for k in lookups(gi, ri)}
    names = lambda h: "map(ParamName{name: as_str(%s.inputs.0[*].name), no_mangle: %s.inputs.0[*].no_mangle})" % (h, h)
    inst = lambda name, params, h: op("Instance(name: as_mir(%s), params: %s, argument_names: %s, verilog_attr_groups: map(map((attrs[*][*].0, attrs[*][*].1))))" % (name, params, names(h)), "args[*].value")
    dull = re.compile(r"expect_(integer|string)|num_integer|::ident$")
    own = lambda t: not noisy(t) and not any(x[0] == "call" and dull.search(x[1]) for x in ir.subterms(t))

    jobs = []

    def I(key, v, exp, **more):
        jobs.append((key, exp, dict(known, **li, **{"variant of item": v, "is_some(item)": True}, **more)))

    def job(j):
        cs = render.event_cases(ck, gi, ri, (), lambda n, d: PUSH.search(n), pushes(ri), fixed=j[2], interesting=own)
        return [({k: x for k, x in c.items() if k not in j[2]}, x) for c, x in canon(cs)]
    rejects(ck, "instance", "unknown", gi, ri, (), dict(known, **{"is_some(item)": False}, **li), "an item that is not known cannot be instantiated, the call succeeds")
    ns = [n for n, x, d, rec in gi.calls() if x.endswith("::ungenerify_type")]
    ck.ob("instance", "open generic tested", bool(ns), "no test that the generic parameters of a call are known", at)
    for n in ns[:1]:
        rejects(ck, "instance", "open generic", gi, ri, (), {KNOWN: False}, "the type of a generic parameter must be known, the call succeeds", start=n)
    I("enum", "EnumInstance", [({}, op("ConstructEnum(variant: item.EnumInstance.variant)", "args[*].value"))])
    I("struct", "StructInstance", [({}, op("ConstructTuple", "args[*].value"))])
    u = "item.Unit.0"
    gen = "map(into_known(resolve(arg[generics(%s.head)[*].name], ctx.types), ctx.types))" % u
    req = lambda s: "UnitName::WithID{0: request_compilation(ctx.mono_state, %s.name, 0, %s, ctx.symtab, %s)}" % (u, gen, s)
    none, mono = "-len(generics(%s.head)) == 0" % u, "is_some(ctx.self_mono_item)"
    I("unit", "Unit", [({none: True}, inst(u + ".name", "new()", u + ".head")),
                       ({none: False, mono: True}, inst(req("(ctx.self_mono_item, loc(self))"), "new()", u + ".head")),
                       ({none: False, mono: False}, inst(req("None"), "new()", u + ".head"))])
    e = "item.ExternUnit"
    gp = "generics(%s.1)[*]" % e
    tp = "%%s(resolve(arg[%s.name], ctx.types))" % gp
    less = "-len(map((as_str(ident(%s)), %%s)))+len(generics(%s.1)) > 0" % (gp, e)
    for m in prog.variants("spade_types::meta_types::MetaType"):
        fixed = {"variant of %s.meta" % gp: m, "is_some(arg[%s.name])" % gp: True}
        if m in ("Number", "Int", "Uint", "Str"):
            v = "Int(%s)" % (tp % "expect_integer") if m != "Str" else "String(%s)" % (tp % "expect_string")
            I("extern " + m, "ExternUnit", [({}, inst(e + ".0", "(as_str(ident(%s)), %s)" % (gp, v), e + ".1"))], **fixed)
    for (key, e, _), cs in zip(jobs, ck.par(job, jobs)):
        compare(ck, "instance", key, cs, [(c, sorted(ids(x))) for c, x in e], at)
    # calls and what is called
    ge = ck.graph(EXPR + "lower", precise=True)
    rl = LR(self_names(), prog)
    c = "kind.Call."
    head = "unit_by_id(symtab(b.symtab), %scallee)" % c
    margs = "match_args_with_params(%sargs, %s.inputs, 0)" % (c, head)
    P2 = lambda n, d: PUSH.search(n) or re.search(r"::(handle_call|match_args_with_params)$", n)
    fm = lambda n, a: pushes(rl)(n, a) if PUSH.search(n) else n.split("::")[-1] + "(%s)" % ", ".join(rl.v(x) for x in a)
    kinds = ("Function", "Entity", "Pipeline")
    uk, ckk, sf, um = "variant of %s.unit_kind" % head, "variant of %skind" % c, "variant of %ssafety" % c, "is_some(%s.unsafe_marker)" % head
    for a in kinds:
        for b in kinds:
            f = {uk: a, ckk: b, um: False}
            if a != b:
                rejects(ck, "call", "%s called as %s" % (a, b), ge, rl, ((KIND, "Call"),), f, "the unit must be instantiated as what it is")
                continue
            cs = render.event_cases(ck, ge, rl, ((KIND, "Call"),), P2, fm, interesting=quiet, fixed=f)
            cs = [({k: v for k, v in cc.items() if k not in f}, x) for cc, x in canon(cs)]
            compare(ck, "call", a, cs, [({}, sorted({margs, "handle_call(self, %scallee, %s, %s, %sverilog_attr_groups, b)" % (c, margs, head, c)}))], where(ge))
    rejects(ck, "call", "unsafe", ge, rl, ((KIND, "Call"),), {sf: "Default", um: True}, "an unsafe unit can only be called in an unsafe block")
