"""Lowering of the typed program to the intermediate representation (HIR -> MIR)."""
import re
import ir, paths, core, render
from core import prop
from common import *
from render import event_cases, compare, CaseSearch

PUSH = re.compile(r"StatementList::(push_\w+|append\w*)$")
EXPR = r"<spade_common::location_info::Loc<spade_hir::expression::Expression> as spade_hir_lowering::ExprLocal>::"


class LR(render.R):
    """renders MIR statements as `name = Operator[operands] : type`, leaving out source locations"""
    known = ()

    def _v(self, t):
        if t[0] == "agg":
            f = dict(t[3])
            if t[1] == "spade_mir::Binding":
                return "%s = %s[%s] : %s" % (self.v(f["name"]), self.v(f["operator"]), ", ".join(self.items(f["operands"])), self.v(f["ty"]))
            if t[1] == "spade_mir::Statement":
                if t[2] == "Constant":
                    return "%s = const %s : %s" % (self.v(f["0"]), self.v(f["2"]), self.v(f["1"]))
                if t[2] in ("Binding", "Register", "Assert"):
                    return ("assert " if t[2] == "Assert" else "") + self.v(f["0"])
                if t[2] == "Set":
                    return "set %s = %s" % (self.v(f["target"]), self.v(f["value"]))
                if t[2] == "Error":
                    return "error"
            if t[1] == "spade_mir::Register":
                return "%s = reg{%s} : %s" % (self.v(f["name"]), ", ".join("%s: %s" % (k, self.v(f[k])) for k in ("clock", "reset", "initial", "value")), self.v(f["ty"]))
            if t[1] == "spade_mir::Operator":
                return t[2] + ("(%s)" % ", ".join(("" if k.isdigit() else k + ": ") + self.v(x) for k, x in t[3] if k not in ("loc",)) if t[3] else "")
            if t[1] == "spade_mir::ConstantValue":
                return t[2] + ("(%s)" % self.v(f["0"]) if t[3] else "")
            if t[1] == "spade_mir::types::Type":
                return t[2] + ("(%s)" % ", ".join(self.v(x) for _, x in t[3]) if t[3] else "")
            if t[1].endswith("ValueName") and t[2] == "Expr":
                return "e(%s)" % self.v(f["0"])
            if t[2] == "None" and t[1].endswith("Option"):
                return "None"
        if t[0] == "call":
            if t[1].endswith("::ExprIdTracker::next") or t[1].endswith("::ExprIdTracker>::next"):
                return "%%%s%%" % (t[3],)
            if re.search(r"::(at_loc|near_loc|nowhere|between)$", t[1]) and t[2]:
                return self.v(t[2][0])
            if t[1] == "<position>":
                x, c = self.v(t[2][0]), self.pred(t[2][1])
                return "<first>(map(<index>(%s)%s for enumerate(%s)))" % (x, "" if c[1] and c[0] in self.known else " where " + c[0], x)
            if t[1].endswith("::all_conditions"):
                return "all{%s}" % ", ".join(sorted(self.items(t[2][1])))
            if t[1].endswith("::type_var_from_hir") and len(t[2]) == 5 and t[2][2][0] == "agg" and t[2][2][2] == "Generic":
                x = dict(t[2][2][3])["0"]
                return "hir_type(%s)" % self.v(dict(x[3])["0"] if x[0] == "agg" and x[2] == "Named" else x)
            if t[1].endswith("vec::from_elem"):
                return "map(%s for 0..%s)" % (self.v(t[2][0]), self.v(t[2][1]))
            if t[1].endswith("::PatternLocal>::condition") and len(t[2]) == 4:
                return "cond(%s, %s, %s)" % tuple(self.v(x) for x in t[2][:3])
            if re.search(r"::(TypeState>?::concrete_type_of(_infallible)?)$", t[1]):
                return "C(%s)" % re.sub(r"^(.*)\.id$", r"\1", self.v(t[2][1]))
            if t[1].endswith("to_mir_type") and len(t[2]) == 1:
                x = self.v(t[2][0])
                return "M" + x[1:] if re.match(r"C\([^()]*\)$", x) else "mir(%s)" % x
            if re.search(r"::ExprLocal>::(variable|lower)$", t[1]) and len(t[2]) == 2:
                return self.v(t[2][0]) if t[1].endswith("variable") else "lower(%s)" % self.v(t[2][0])
        return super()._v(t)

    def items(self, t):
        """the elements of a list built by pushing, extending, chaining and mapping, as texts in order"""
        k = t[0]
        if k in ("arr", "tup"):
            return [self.v(x) for x in t[1]]
        if k == "agg" and t[2] in ("Some", "Ok") and len(t[3]) == 1:
            return [self.v(t[3][0][1])]
        if k == "agg" and t[2] == "None":
            return []
        if k == "phi":
            return sorted({x for a in t[1] for x in self.items(a)})
        if k == "call":
            n, a = t[1], t[2]
            if n in ("<push>", "<pushloop>"):
                return self.items(a[0]) + [self.v(a[1])]
            if n in ("<extend>", "<extendloop>"):
                return self.items(a[0]) + self.items(a[1])
            if n == "<nothing>":
                return []
            if n == "<mapped>":
                if a[0][0] == "phi" and len(a) > 1 and self.src(a[1])[0] == "arr":
                    return [self.v(x) for x in a[0][1]]
                if a[0][0] == "elem":
                    return self.items(a[0][1])
                x = self.v(t)
                return [x[4:-1]] if x.startswith("map(") else [] if x == "nothing()" else ["*" + x]
            if re.search(r"Iterator(>| for .*>)?::chain$", n):
                return self.items(a[0]) + self.items(a[1])
            if re.search(r"(Vec(<.*>)?::(new|with_capacity)|default|empty)$", n):
                return []
            if render.TRANSP.search(n) and a and not (self.prog and n in self.prog.fns):
                return self.items(a[0])
            if re.search(r"(boxed|slice|into_vec|box_assume_init)", n) and a:
                return self.items(a[0])
        return ["*" + self.v(t)]

    def src(self, t):
        while t[0] == "call" and render.TRANSP.search(t[1]) and t[2]:
            t = t[2][0]
        return t


def ids(texts):
    """fresh names are numbered in the order they appear in the sorted texts"""
    ts = sorted(texts, key=lambda x: re.sub(r"%[^%]*%", "%", x))
    seen = {}
    out = set()
    for t in ts:
        t = re.sub(r"e\(self\.id\)", "self", t)
        out.add(re.sub(r"%[^%]*%", lambda m: "#%d" % seen.setdefault(m.group(0), len(seen) + 1), t))
    return out


def canon(cs):
    return [(c, ids(r)) for c, r in cs]


def pushes(r):
    def fmt(n, a):
        w = n.split("::")[-1]
        if w.startswith("append"):
            s = a[1]
            xs = r.items(s)
            return [x if not x.startswith("*") else x[1:] for x in xs]
        return r.v(a[1])
    return fmt


def table(ck, rule, key, g, r, assume, expected, fixed=None, **kw):
    cs = event_cases(ck, g, r, assume, lambda n, d: PUSH.search(n), pushes(r), fixed=fixed, **kw)
    exp = []
    for e in expected:
        exp.append((e[0], sorted(ids(set(e[1]))) if e[1] else set(), *e[2:]))
    return compare(ck, rule, key, canon(cs), exp, where(g))


SELF, KIND = ("arg", 0), F(("arg", 0), "kind")


def K(v, i):
    return F(KIND, "%s.%s" % (v, i))


def value_cases(ck, g, r, assume=(), fixed=None, mode="v", limit=400):
    """the values of g's entry function on its successful paths: [(conditions, texts)]; failures are left out"""
    # what a diagnostic says, and where the compiler was built, are no part of the value
    inter = lambda t: not any(x[0] == "call" and re.search(r"backtrace", x[1], re.I) for x in ir.subterms(t))
    cs = render.cases(ck, g, r, assume, result=r.s if mode == "s" else r.v, fixed=fixed, interesting=inter, limit=limit)
    out = []
    for c, res in cs:
        res = {x for x in res if not re.match(r"(Result::Err\{|from_residual\()", x)}
        if res:
            out.append((c, ids(res)))
    return out


def bool_cases(ck, g, r, assume=(), fixed=None, limit=400):
    """value_cases of a function that answers a question: an answer that is a test is one case per outcome"""
    tests = {}

    def res(t):
        x = r.v(t)
        if t[0] not in ("k", "phi"):
            v = r.variant_test(t) or r.pred(t)
            if v and v[0] != x or t[0] == "call":
                tests[x] = v
        return x
    cs = render.cases(ck, g, r, assume, result=res, fixed=fixed, limit=limit)
    out = []
    for c, rs in cs:
        todo = [(c, x) for x in rs]
        for c, x in todo:
            if x not in tests:
                out.append((c, {x}))
                continue
            v = tests[x]
            k, pol = v[0], v[-1]
            for val in ([True, False] if len(v) == 2 else v[2]):
                if c.get(k, val) == val:
                    yes = (val == (v[1] if len(v) == 4 else True)) == pol
                    out.append((dict(c, **{k: val}), {str(int(yes))}))
    return render.simplify(out)


def self_names(*more):
    d = {("arg", i): x for i, x in enumerate("self b c d e f g h".split())}
    d[KIND] = "kind"
    d.update(more)
    return d


INT2 = {"Add": ("Add", "UnsignedAdd"), "Sub": ("Sub", "UnsignedSub"), "Mul": ("Mul", "UnsignedMul"), "Div": ("Div", "UnsignedDiv"), "Mod": ("Mod", "UnsignedMod")}
SAME = {"LeftShift": "LeftShift", "RightShift": "RightShift", "ArithmeticRightShift": "ArithmeticRightShift"}
UNOP = {"Sub": "USub", "Not": "Not", "BitwiseNot": "BitwiseNot", "Dereference": "Alias", "Reference": "ConstructCopyView"}


@prop("C33")
def c33(ck):
    prog = ck.prog
    ck.rule("expr-operator", "each binary and unary operator is lowered to the MIR operator with its meaning, signed or unsigned as its operand type says, on its own operands in their order", 15)
    ck.rule("expr-value", "each other expression is lowered to the operator that computes it from its own parts, with its own type, and all its parts are lowered before", 18)
    ck.rule("expr-name", "an expression that is another name for a value yields exactly that value: a variable the name that holds it in this stage, a block its result", 6)
    g = ck.graph(EXPR + "lower", precise=True)
    r = LR(self_names(), prog)
    T = lambda rule, key, assume, exp, fixed=None: table(ck, rule, key, g, r, tuple(assume), exp, fixed)
    L, Rr = "kind.BinaryOperator.0", "kind.BinaryOperator.2"
    done = set()
    for op in prog.variants("spade_hir::expression::BinaryOperator"):
        a = ((KIND, "BinaryOperator"), (K("BinaryOperator", 1), op))
        tx = lambda o: {"lower(%s)" % L, "lower(%s)" % Rr, "self = %s[%s, %s] : M(self)" % (o, L, Rr)}
        if op in INT2:
            exp = [({"variant of M(%s)" % L: "Int"}, tx(INT2[op][0])), ({"variant of M(%s)" % L: "UInt"}, tx(INT2[op][1]))]
            exp2 = [({"variant of M(self)": "Int"}, tx(INT2[op][0])), ({"variant of M(self)": "UInt"}, tx(INT2[op][1]))]
            T("expr-operator", op, a, exp)
        elif op in SAME:
            T("expr-operator", op, a, [({}, tx(SAME[op]))])
        else:
            ck.ob("expr-operator", op, False, "an operator without a rule here", where(g))
    for op in prog.variants("spade_hir::expression::UnaryOperator"):
        ck.ob("expr-operator", "anchor " + op, op in UNOP, "an operator without a rule here", where(g))
        if op in UNOP:
            T("expr-operator", "unary " + op, ((KIND, "UnaryOperator"), (K("UnaryOperator", 0), op)), [({}, {"lower(kind.UnaryOperator.1)", "self = %s[kind.UnaryOperator.1] : M(self)" % UNOP[op]})])
    cg = lambda x, v: "ungenerify_type(b.types, hir_type(%s), symtab(b.symtab), b.item_list.types).%s.0" % (x, v)
    one = {
        "Identifier": set(), "PipelineRef": set(),
        "IntLiteral": {"self = const Int(kind.IntLiteral.0) : M(self)"},
        "BoolLiteral": {"self = const Bool(kind.BoolLiteral.0) : M(self)"},
        "TypeLevelInteger": {"self = const Int(%s) : M(self)" % cg("kind.TypeLevelInteger.0", "Integer")},
        "TypeLevelBool": {"self = const Bool(%s) : M(self)" % cg("kind.TypeLevelBool.0", "Bool")},
        "TupleLiteral": {"lower(kind.TupleLiteral.0[*])", "self = ConstructTuple[kind.TupleLiteral.0[*]] : M(self)"},
        "ArrayLiteral": {"lower(kind.ArrayLiteral.0[*])", "self = ConstructArray[kind.ArrayLiteral.0[*]] : M(self)"},
        "ArrayShorthandLiteral": {"lower(kind.ArrayShorthandLiteral.0)", "self = ConstructArray[kind.ArrayShorthandLiteral.0 for 0..resolve_int(kind.ArrayShorthandLiteral.1, b)] : M(self)"},
        "Index": {"lower(kind.Index.0)", "lower(kind.Index.1)", "self = IndexArray[kind.Index.0, kind.Index.1] : M(self)"},
        "TupleIndex": {"lower(kind.TupleIndex.0)", "self = IndexTuple(kind.TupleIndex.1)[kind.TupleIndex.0] : M(self)"},
        "TypeCast": {"lower(kind.TypeCast.0)", "self = Alias[kind.TypeCast.0] : M(self)"},
        "If": {"lower(kind.If.cond)", "lower(kind.If.on_true)", "lower(kind.If.on_false)", "self = Select[kind.If.cond, kind.If.on_true, kind.If.on_false] : M(self)"},
        "Error": {"error"},
    }
    for v, e in one.items():
        T("expr-value", v, ((KIND, v),), [({}, e)])
    for v, e in (("Low", "Bool(0)"), ("High", "Bool(1)"), ("HighImp", "HighImp")):
        T("expr-value", "TriLiteral " + v, ((KIND, "TriLiteral"), (K("TriLiteral", 0), v)), [({}, {"self = const %s : M(self)" % e})])
    st, en, tg = "kind.RangeIndex.start", "kind.RangeIndex.end", "kind.RangeIndex.target"
    T("expr-value", "RangeIndex", ((KIND, "RangeIndex"),), [
        ({"is_some(%s)" % st: a, "is_some(%s)" % en: b}, {"lower(%s)" % tg, "self = RangeIndexArray(start: %s, end_exclusive: %s)[%s] : M(self)" % ("resolve_int(%s, b)" % st if a else "0", "resolve_int(%s, b)" % en if b else "assume_array(C(%s)).1" % tg, tg)})
        for a in (True, False) for b in (True, False)])
    fa = "kind.FieldAccess.0"
    mem = "C(%s).Struct.members" % fa
    r.known = {"%s[*].0 == kind.FieldAccess.1" % mem}
    T("expr-value", "FieldAccess", ((KIND, "FieldAccess"),), [({"%s[*].0 == kind.FieldAccess.1" % mem: True}, {"lower(%s)" % fa, "self = IndexTuple(<first>(map(<index>(%s) for enumerate(%s))))[%s] : M(self)" % (mem, mem, fa)})],
      fixed={"%s[*].0 == kind.FieldAccess.1" % mem: True})
    bs, br = "lower(kind.Block.0.statements[*], b)", "kind.Block.0.result"
    T("expr-value", "Block", ((KIND, "Block"),), [({"is_some(%s)" % br: True}, {bs, "lower(%s)" % br}), ({"is_some(%s)" % br: False}, {bs, "self = Nop[] : unit()"})])
    for v, s in (("StageReady", "ready_signals"), ("StageValid", "valid_signals")):
        sig = "get(b.pipeline_context, self).%s[b.subs.current_stage]" % s
        T("expr-value", v, ((KIND, v),), [({"is_some(%s)" % sig: True}, {"self = Alias[%s] : Bool" % sig}), ({"is_some(%s)" % sig: False}, {"self = const Bool(1) : Bool"})])
    pt, cd, rs = "kind.Match.1[*].0", "kind.Match.1[*].1", "kind.Match.1[*].2"
    mt = lambda c: {"lower(kind.Match.0)", "lower(%s, kind.Match.0, M(%s), b)" % (pt, pt), "lower(%s)" % rs, "cond(%s, kind.Match.0, %s).statements" % (pt, c), "self = Match[cond(%s, kind.Match.0, %s).result_name, %s] : M(self)" % (pt, c, rs)}
    T("expr-value", "Match", ((KIND, "Match"),), [({"is_some(%s)" % cd: True}, mt(cd) | {"lower(%s)" % cd}), ({"is_some(%s)" % cd: False}, mt("None"))])
    # other names
    ga = ck.graph(EXPR + "alias", precise=True)
    V = lambda key, v, exp: compare(ck, "expr-name", key, value_cases(ck, ga, r, ((KIND, v),)), exp, where(ga))
    lk = "lookup(b.subs, kind.Identifier.0)"
    V("Identifier", "Identifier", [({"variant of " + lk: "Available"}, "value_name(%s.Available.0)" % lk)] + [({"variant of " + lk: x}, "value_name(kind.Identifier.0)") for x in ("Wire", "ZeroSized")])
    dp = "C(kind.PipelineRef.depth_typeexpr_id)"
    lr = "lookup_referenced(b.subs, %s.Integer.0, kind.PipelineRef.name)" % dp
    ok = {"result of " + dp: "Ok", "variant of " + dp: "Integer"}
    V("PipelineRef", "PipelineRef", [(dict(ok, **{"variant of " + lr: "Available"}), "value_name(%s.Available.0)" % lr)] + [(dict(ok, **{"variant of " + lr: x}), "value_name(kind.PipelineRef.name)") for x in ("Wire", "ZeroSized")])
    V("Block", "Block", [({"is_some(%s)" % br: True}, br), ({"is_some(%s)" % br: False}, "None")])
    for v in prog.variants("spade_hir::expression::ExprKind"):
        if v not in ("Identifier", "PipelineRef", "Block"):
            cs = value_cases(ck, ga, r, ((KIND, v),))
            ck.ob("expr-name", v, all(x == {"None"} for _, x in cs), "the expression must be given its own value, the code takes %s for it" % (cs[:1],), where(ga))
    gv = ck.graph(EXPR + "variable", precise=True)
    compare(ck, "expr-name", "variable", value_cases(ck, gv, r), [({}, ("<alias(self, b) | self>",))], where(gv))
