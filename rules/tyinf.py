"""Type inference: every typing equation of the language is imposed on every successful path."""
import re
import ir, paths, core
from core import prop, leaves, must_visit
from traversal import HEK, expr_children

TS = "spade_typeinference::TypeState"
FRESH = re.compile(r"TypeState::(new_generic_\w+|new_split_generic_\w+|new_concrete_int)$")
PRIM = re.compile(r"::(t_bool|t_clock|t_tri|t_err|t_bit|t_int|t_uint)$")


def norm(t, d=0):
    """the type a term denotes"""
    if d > 12 or not isinstance(t, tuple):
        return t
    k = t[0]
    n = lambda x: norm(x, d + 1)
    if k == "agg":
        last = t[1].split("::")[-1]
        fs = dict(t[3])
        if last == "TypedExpression":
            x = fs.get("0")
            if t[2] == "Id":
                if x and x[0] == "f" and x[2] == "id":
                    return n(x[1])
                return ("id", x)
            return ("name", x)
        if last == "TypeVar" and t[2] == "Known":
            kt = fs.get("1")
            ps = fs.get("2")
            kn = kt[2] if kt and kt[0] == "agg" else None
            args = tuple(n(a) for a in ps[1]) if ps and ps[0] == "arr" else (("args", n(ps) if ps else None),)
            if kn == "Integer":
                return ("tlint", dict(kt[3]).get("0"))
            if kn == "CopyView":
                return ("view",) + args
            if kn == "Array":
                return ("array",) + args
            if kn == "Inverted":
                return ("inverted",) + args
            if kn == "Tuple":
                return ("tuple",) + args
            return ("known", kt, args)
        if last == "UnificationBuilder":
            return t
        return t
    if k == "f":
        b = n(t[1])
        if b[0] == "fresh":
            if t[2] == "1":
                return ("size", b)
            if t[2] == "0":
                return b
        if t[2] == "id" and False:
            return b
        return ("f", t[1], t[2]) if b == t[1] else ("f", b, t[2])
    if k == "call":
        p = t[1]
        a = t[2]
        if re.search(r"HasType>?::(get_type|try_get_type)$", p):
            return n(a[0])
        if re.search(r"TypeState::(type_of|maybe_type_of|get_replacement)$", p):
            return n(a[1])
        if re.search(r"TypeVar::insert$", p):
            return n(a[0])
        if p.endswith("TypeState::add_type_var"):
            return n(a[1])
        if p.endswith("TypeVar::array"):
            return ("array", n(a[1]), n(a[2]))
        if p.endswith("TypeVar::inverted"):
            return ("inverted", n(a[1]))
        if p.endswith("TypeVar::tuple"):
            return ("tuple",) + (tuple(n(x) for x in a[1][1]) if a[1][0] == "arr" else (("args", n(a[1])),))
        if p.endswith("TypeVar::unit"):
            return ("tuple",)
        m = FRESH.search(p)
        if m:
            if m.group(1) == "new_concrete_int":
                return ("tlint", a[1])
            return ("fresh", m.group(1), t[3])
        m = PRIM.search(p)
        if m:
            return ("prim", m.group(1))
        if re.search(r"TypeState::type_var_from_hir$", p):
            return ("hir", a[2], a[3] if len(a) > 3 else None)
        if re.search(r"TypeState::hir_type_expr_to_var$", p):
            return ("hir", a[1], a[2] if len(a) > 2 else None)
        if p.endswith("TypeState::visit_const_generic_with_id"):
            return ("cg", a[1])
        if p == "<mapped>":
            return ("each", n(a[0]))
        return t
    if k == "elem":
        b = n(t[1])
        if b[0] == "each":
            return b[1]
        return ("elem", b)
    if k == "phi":
        return ir.mkphi([n(x) for x in t[1]])
    return t


def linear(t, d=0):
    """normal form of a size constraint: {atom: coefficient}"""
    if d > 10:
        return {("?", t): 1}

    def add(x, y, s=1):
        r = dict(x)
        for k, v in y.items():
            r[k] = r.get(k, 0) + s * v
        return {k: v for k, v in r.items() if v}
    if t[0] == "call":
        p, a = t[1], t[2]
        if p.endswith("::ce_var"):
            return {norm(a[0]): 1}
        if p.endswith("::ce_int"):
            return const(a[0])
        if re.search(r"ConstraintExpr as .*Add.*::add$|ConstraintExpr>?::add$", p):
            return add(linear(a[0], d + 1), linear(a[1], d + 1))
        if re.search(r"ConstraintExpr as .*Sub.*::sub$|ConstraintExpr>?::sub$", p):
            return add(linear(a[0], d + 1), linear(a[1], d + 1), -1)
        if re.search(r"ConstraintExpr as .*Neg.*::neg$|ConstraintExpr>?::neg$", p):
            return add({}, linear(a[0], d + 1), -1)
        if p.endswith("::bits_to_store"):
            return {("bits", frozenset(linear(a[0], d + 1).items())): 1}
    if t[0] == "agg" and t[1].endswith("ConstraintExpr"):
        fs = dict(t[3])
        if t[2] == "Var":
            return {norm(fs["0"]): 1}
        if t[2] == "Integer":
            return const(fs["0"])
        if t[2] == "Sum":
            return add(linear(fs["0"], d + 1), linear(fs["1"], d + 1))
        if t[2] == "Difference":
            return add(linear(fs["0"], d + 1), linear(fs["1"], d + 1), -1)
        if t[2] == "Sub":
            return add({}, linear(fs["0"], d + 1), -1)
        if t[2] == "UintBitsToRepresent":
            return {("bits", frozenset(linear(fs["0"], d + 1).items())): 1}
    return {("?", t): 1}


def const(t):
    if t[0] == "k":
        return {"1": t[1]} if t[1] else {}
    if t[0] == "call" and re.search(r"::one$", t[1]):
        return {"1": 1}
    if t[0] == "call" and re.search(r"::zero$", t[1]):
        return {}
    if t[0] == "call" and re.search(r"::to_big(u)?int$|to_bigint$", t[1]):
        return const(t[2][0])
    return {("?c", t): 1}


class UF:
    def __init__(self):
        self.p = {}

    def find(self, x):
        while self.p.get(x, x) != x:
            x = self.p[x]
        return x

    def union(self, a, b):
        self.p.setdefault(a, a)
        self.p.setdefault(b, b)
        a, b = self.find(a), self.find(b)
        if a != b:
            self.p[a] = b

    def cls(self, x):
        r = self.find(x)
        return [y for y in self.p if self.find(y) == r] or [x]

    def same(self, a, b, d=0):
        """a and b denote the same type (congruence over type constructors)"""
        if a == b or self.find(a) == self.find(b):
            return True
        if d > 4:
            return False
        for x in self.cls(a):
            for y in self.cls(b):
                if isinstance(x, tuple) and isinstance(y, tuple) and x and y and x[0] == y[0] and x[0] in ("array", "view", "inverted", "tuple") and len(x) == len(y):
                    if all(self.same(p, q, d + 1) for p, q in zip(x[1:], y[1:])):
                        return True
        return False


UNIFY = re.compile(r"TypeState::(unify|unify_expression_generic_error)$")
COMMIT = re.compile(r"UnificationBuilder::commit$")


class Equations:
    """unification edges / constraints / requirements imposed on every path of g that succeeds under `assume`"""

    def __init__(self, ck, g, assume, decide_bool=None, force=None, extra=None):
        self.ck, self.g, self.assume = ck, g, assume
        self.uf = UF()
        dec = core.decider(assume)
        self.decide = paths.combine(dec, extra) if extra else dec
        self.decide_bool = decide_bool
        self.force = force
        s = self.search()
        g.restrict(None)
        self.reach = s.reachable()
        self.live = self.search().find(paths.OkReturn()) is not None
        g.restrict(self.reach)
        self.edges = []
        self.constraints = []
        self.reqs = []
        for n, r, d, rec in g.calls():
            if n not in self.reach:
                continue
            if UNIFY.search(r):
                a = g.args_of(n)
                e = (norm(a[1]), norm(a[2]))
            elif COMMIT.search(r):
                b = g.args_of(n)[0]
                e = None
                for x in ir.alts(b):
                    if x[0] == "call" and x[1].endswith("::unify_with"):
                        e = (norm(x[2][0]), norm(x[2][1]))
                if e is None:
                    continue
            elif re.search(r"TypeState::add_equation$", r):
                a = g.args_of(n)
                e = (norm(a[1]), norm(a[2]))
            elif re.search(r"TypeState::add_constraint$", r):
                a = g.args_of(n)
                if self.must(n):
                    self.constraints.append((norm(a[1]), linear(a[2])))
                continue
            elif re.search(r"Requirement::check_or_add$", r):
                a = g.args_of(n)
                if self.must(n):
                    self.reqs.append(a[0])
                continue
            elif re.search(r"TypeState::add_requirement$", r):
                a = g.args_of(n)
                if self.must(n):
                    self.reqs.append(a[1])
                continue
            else:
                continue
            if self.must(n):
                self.edges.append((n, e))
                self.uf.union(*e)

    def search(self):
        return paths.Search(self.g, decide=self.decide, decide_bool=self.decide_bool, force=self.force)

    def must(self, n):
        if not self.live:
            return False
        s = self.search()
        self.ck.paths += 1
        return s.find(paths.OkReturn(), avoid={n}) is None

    def eq(self, a, b):
        return self.uf.same(a, b)

    def shapes(self, a, head):
        out = [x for x in self.uf.cls(a) if isinstance(x, tuple) and x and x[0] == head]
        if isinstance(a, tuple) and a and a[0] == head:
            out.append(a)
        return out

    def fresh(self, a, kind):
        return [x for x in self.uf.cls(a) if isinstance(x, tuple) and x and x[0] == "fresh" and re.search(kind, x[1])]

    def constraint(self, var, expr):
        """var = expr (dict atom->coef) is imposed, up to unification of atoms"""
        for v, l in self.constraints:
            if not self.eq(v, var):
                continue
            if self.lin_eq(l, expr):
                return True
        return False

    def lin_eq(self, l, m):
        if len(l) != len(m):
            return False
        left = list(m.items())
        for a, c in l.items():
            for i, (b, d) in enumerate(left):
                if c == d and self.atom_eq(a, b):
                    left.pop(i)
                    break
            else:
                return False
        return True

    def atom_eq(self, a, b):
        if a == b:
            return True
        if isinstance(a, tuple) and isinstance(b, tuple) and a and b:
            if a[0] == "bits" and b[0] == "bits":
                return self.lin_eq(dict(a[1]), dict(b[1]))
            if a[0] in ("bits",) or b[0] in ("bits",):
                return False
            return self.eq(a, b)
        return False

    def req(self, variant):
        return [dict(r[3]) for r in self.reqs if r[0] == "agg" and r[2] == variant]


def entry(prog, suffix):
    c = [n for n in prog.fns if re.search(suffix, n) and "{" not in n and "#" not in n]
    if len(c) != 1:
        raise core.MissingAnchor("expected exactly one function matching %s, found %d" % (suffix, len(c)))
    return c[0]


SEP = re.compile(r"TypeState>?::visit_(expression|statement)$")


def ti_inline(q):
    return bool(re.search(r"TypeState>?::(visit_|setup_pipeline_state|handle_function_like|handle_concat|handle_trunc|handle_comb|handle_clocked|handle_read|type_check_argument_list)", q)) and not re.search(r"TypeState>?::visit_(expression|statement|pattern|const_generic_with_id|const_generic|trait_spec|trait_bounds|unit|impl_blocks|unit_with_preprocessing|expression_result)$", q)


def expr_typing(ck):
    ck.rule("expr-equations", "for every expression kind, each typing equation between the expression, its operands and the built-in types is imposed (a unification, size constraint or deferred requirement) on every path of type inference that succeeds", 60)
    prog = ck.prog
    ent = entry(prog, r"TypeState>?::visit_expression_result$")
    g = ck.graph(ent, ti_inline)
    self_ = ("arg", 1)
    kind = ir.field(self_, "kind")
    V = lambda s: ir.field(kind, s)
    F = ir.field
    EL = ir.elem
    where = g.entry.file

    def E(variant, *more, **kw):
        return Equations(ck, g, ((kind, variant),) + tuple(more), **kw)

    def ob(key, ok, txt):
        ck.ob("expr-equations", key, ok, "type inference of this expression kind can succeed without imposing: " + txt, where)

    prim = lambda p: ("prim", "t_" + p)
    bop = lambda op: (ir.field(kind, "BinaryOperator.1"), op)
    uop = lambda op: (ir.field(kind, "UnaryOperator.0"), op)
    lhs, rhs = V("BinaryOperator.0"), V("BinaryOperator.2")
    operand = V("UnaryOperator.1")

    e = E("If")
    ob("If condition", e.eq(V("If.cond"), prim("bool")), "condition : bool")
    ob("If branches", e.eq(V("If.on_true"), V("If.on_false")), "both branches have one type")
    ob("If result", e.eq(self_, V("If.on_true")), "the if expression has the type of its branches")

    idx = lambda t: t[0] == "bin" and t[1] in ("Ne", "Eq", "Gt") and any(x[:2] == ("call", "<index>") for x in t[2:4])

    def not_first(t):
        if idx(t):
            return 0 if t[1] == "Eq" else 1
        return None
    br = ir.elem(V("Match.1"))
    fo = lambda base: (lambda t: core.relates(t, base))
    b0 = ("at", V("Match.1"), 0)
    e = E("Match", decide_bool=not_first, force=fo(F(br, "1")))
    ob("Match pattern", e.eq(F(br, "0"), V("Match.0")), "every pattern has the type of the scrutinee")
    ob("Match guard", e.eq(F(br, "1"), prim("bool")), "every guard : bool")
    ob("Match branches", e.eq(F(b0, "2"), F(br, "2")) or e.eq(self_, F(br, "2")), "all branches have one type")
    ob("Match result", e.eq(self_, F(b0, "2")) or e.eq(self_, F(br, "2")), "the match expression has the type of its branches")

    for op in ("Add", "Sub"):
        e = E("BinaryOperator", bop(op))
        k = "BinaryOperator::%s" % op
        a = e.fresh(lhs, "number")
        r = e.fresh(self_, "number")
        ob(k + " operands", e.eq(lhs, rhs) and a, "both operands have one number type")
        ob(k + " result", bool(r) and not e.eq(lhs, self_), "the result has a number type of its own")
        ok = any(e.constraint(("size", x), {("size", y): 1, "1": 1}) for x in r for y in a)
        ob(k + " width", ok, "width(result) = width(operand) + 1")
        ok = any(e.constraint(("size", y), {("size", x): 1, "1": -1}) for x in r for y in a)
        ob(k + " width back", ok, "width(operand) = width(result) - 1")
        sb = [x for f in e.req("SharedBase") for x in [f.get("0")] if x and x[0] == "arr"]
        ob(k + " base", any(any(e.eq(norm(m), lhs) for m in x[1]) and any(e.eq(norm(m), self_) for m in x[1]) for x in sb), "operands and result share their base type (int or uint)")
    e = E("BinaryOperator", bop("Mul"))
    a, b, r = e.fresh(lhs, "number"), e.fresh(rhs, "number"), e.fresh(self_, "number")
    ob("BinaryOperator::Mul operands", a and b and r, "operands and result are numbers")
    S = lambda x: ("size", x)
    ob("BinaryOperator::Mul width", any(e.constraint(S(x), {S(y): 1, S(z): 1}) for x in r for y in a for z in b), "width(result) = width(lhs) + width(rhs)")
    ob("BinaryOperator::Mul width back lhs", any(e.constraint(S(y), {S(x): 1, S(z): -1}) for x in r for y in a for z in b), "width(lhs) = width(result) - width(rhs)")
    ob("BinaryOperator::Mul width back rhs", any(e.constraint(S(z), {S(x): 1, S(y): -1}) for x in r for y in a for z in b), "width(rhs) = width(result) - width(lhs)")
    sb = [x for f in e.req("SharedBase") for x in [f.get("0")] if x and x[0] == "arr"]
    ob("BinaryOperator::Mul base", any(all(any(e.eq(norm(m), y) for m in x[1]) for y in (lhs, rhs, self_)) for x in sb), "operands and result share their base type")
    for op in ("Div", "Mod", "LeftShift", "RightShift", "ArithmeticRightShift"):
        e = E("BinaryOperator", bop(op))
        k = "BinaryOperator::%s" % op
        ob(k + " operands", e.eq(lhs, rhs) and e.fresh(lhs, "number"), "both operands have one number type")
        ob(k + " result", e.eq(self_, lhs), "the result has the type of the operands")
    done = {"Add", "Sub", "Mul", "Div", "Mod", "LeftShift", "RightShift", "ArithmeticRightShift"}
    ops = set(prog.variants("spade_hir::expression::BinaryOperator"))
    ob("BinaryOperator coverage", ops <= done, "operators without a typing rule here: %s" % sorted(ops - done))

    e = E("UnaryOperator", uop("Sub"))
    ints = [x for x in e.uf.cls(operand) if x[0] == "fresh" and x[1] == "new_generic_int"]
    ob("UnaryOperator::Sub", bool(ints) and e.eq(self_, operand), "operand and result are one int type")
    e = E("UnaryOperator", uop("BitwiseNot"))
    ob("UnaryOperator::BitwiseNot", bool(e.fresh(operand, "number")) and e.eq(self_, operand), "operand and result are one number type")
    e = E("UnaryOperator", uop("Not"))
    ob("UnaryOperator::Not", e.eq(self_, prim("bool")) and e.eq(operand, prim("bool")), "operand and result : bool")
    e = E("UnaryOperator", uop("Dereference"))
    ob("UnaryOperator::Dereference", any(e.eq(v[1], self_) for v in e.shapes(operand, "view")), "operand : &T, result : T")
    ob("UnaryOperator::Dereference copy", bool(e.fresh(self_, "copy_view")), "only Copy types are dereferenced")
    e = E("UnaryOperator", uop("Reference"))
    ob("UnaryOperator::Reference", any(e.eq(v[1], operand) for v in e.shapes(self_, "view")), "operand : T, result : &T")
    uops = set(prog.variants("spade_hir::expression::UnaryOperator"))
    ob("UnaryOperator coverage", uops <= {"Sub", "BitwiseNot", "Not", "Dereference", "Reference"}, "operators without a typing rule here: %s" % sorted(uops))

    e = E("Index")
    tgt, ix = V("Index.0"), V("Index.1")
    arrs = e.shapes(tgt, "array")
    ob("Index result", any(e.eq(x[1], self_) for x in arrs), "target : [T; N], result : T")
    ui = e.fresh(ix, "split_generic_uint")
    ob("Index index type", bool(ui), "index : uint")
    ob("Index width", any(e.constraint(S(u), {("bits", frozenset({(x[2], 1), ("1", -1)})): 1}) for u in ui for x in arrs), "width(index) = bits needed for N - 1")
    ob("Index non-empty", any(any(e.eq(norm(f.get("array_size", ("?",))), x[2]) for x in arrs) for f in e.req("ArrayIndexeeIsNonZero")), "N > 0 is required")

    def zero(y):
        if y[0] == "tlint":
            y = y[1]
        return known_int(y, 0) or (y[0] == "const" and str(y[1]).endswith("::ZERO")) or (_intval(y) == 0 and y[0] in ("k", "const", "call"))

    def has(t, x):
        ts = [norm(y) for y in ir.alts(t)]
        ts = [z for y in ts for z in ir.alts(y)]
        return any(y == x or (x == 0 and zero(y)) for y in ts)
    tgt = V("RangeIndex.target")
    for sv in ("Some", "None"):
        for ev in ("Some", "None"):
            nm = "RangeIndex%s%s" % ("" if sv == "Some" else " without start", "" if ev == "Some" else " without end")
            e = E("RangeIndex", (V("RangeIndex.start"), sv), (V("RangeIndex.end"), ev))
            ia, oa = e.shapes(tgt, "array"), e.shapes(self_, "array")
            st = ("cg", V("RangeIndex.start")) if sv == "Some" else 0
            isend = lambda t: has(t, ("cg", V("RangeIndex.end"))) if ev == "Some" else any(e.eq(norm(t), x[2]) for x in ia)
            ob(nm + " element", any(e.eq(x[1], y[1]) for x in ia for y in oa), "result and target have the same element type")
            okc = False
            for v, l in e.constraints:
                if any(e.eq(v, y[2]) for y in oa) and sorted(l.values()) == [-1, 1]:
                    pos = [k for k, c in l.items() if c == 1][0]
                    neg = [k for k, c in l.items() if c == -1][0]
                    okc = okc or (isend(pos) and has(neg, st))
            ob(nm + " width", okc, "length(result) = end - start")
            ob(nm + " order", any(has(f["start"], st) and isend(f["end"]) for f in e.req("RangeIndexEndAfterStart")), "start <= end is required")
            if ev == "Some":
                ob(nm + " bounds", any(isend(f["index"]) and any(e.eq(norm(f["size"]), x[2]) for x in ia) for f in e.req("RangeIndexInArray")), "end <= length(target) is required")

    mem = ir.elem(V("ArrayLiteral.0"))
    e = E("ArrayLiteral", force=lambda t: True)
    has_pair = any({core_base(a), core_base(b)} == {V("ArrayLiteral.0")} and a != b for _, (a, b) in e.edges)
    ob("ArrayLiteral elements", has_pair, "all elements have one type")
    ob("ArrayLiteral result", any(core_in(x[1], V("ArrayLiteral.0")) and x[2][0] == "tlint" and len_of(x[2][1], V("ArrayLiteral.0")) for x in e.shapes(self_, "array")), "result : [element; number of elements]")
    e = E("ArrayShorthandLiteral")
    ob("ArrayShorthandLiteral result", any(e.eq(x[1], V("ArrayShorthandLiteral.0")) and e.eq(x[2], ("cg", V("ArrayShorthandLiteral.1"))) for x in e.shapes(self_, "array")), "result : [element; amount]")
    ob("ArrayShorthandLiteral amount", bool(e.fresh(("cg", V("ArrayShorthandLiteral.1")), "tluint")), "amount : uint")
    e = E("TupleLiteral", force=lambda t: True)
    tp = e.shapes(self_, "tuple")
    ob("TupleLiteral result", bool(tp), "result is a tuple of the element types")
    e = E("TypeCast")
    hir = ("hir", V("TypeCast.1"), ("arg", 3))
    hirs = [x for x in e.uf.cls(self_) if x[0] == "hir" and x[1] == V("TypeCast.1")]
    ob("TypeCast", bool(hirs) and e.eq(self_, V("TypeCast.0")), "target and result have the type written in the cast")
    for v in ("StageValid", "StageReady", "BoolLiteral", "TypeLevelBool"):
        e = E(v)
        ob(v, e.eq(self_, prim("bool")), "result : bool")
    e = E("TriLiteral")
    ob("TriLiteral", e.eq(self_, prim("tri")), "result : tri")
    e = E("Identifier")
    ob("Identifier", e.eq(self_, ("name", V("Identifier.0"))), "result has the type of the named variable")
    for v, rx in (("Unsized", "new_generic_number"), ("Signed", "new_split_generic_int"), ("Unsigned", "new_split_generic_uint")):
        e = E("IntLiteral", (V("IntLiteral.1"), v))
        fr = e.fresh(self_, rx)
        ob("IntLiteral::%s type" % v, bool(fr), "result is a fresh %s" % rx)
        ob("IntLiteral::%s range" % v, any(ir.contains(f["value"], V("IntLiteral.0")) and e.eq(norm(f["target_type"]), self_) for f in e.req("FitsIntLiteral")), "the literal fits its type")
        if v != "Unsized":
            sz = V("IntLiteral.1")
            e = E("IntLiteral", (V("IntLiteral.1"), v), force=lambda t: core.relates(t, ir.field(V("IntLiteral.1"), v + ".0")))
            ok = any(((x[0] == "tlint" and ir.contains(x[1], V("IntLiteral.1")) and y[0] == "size") or (y[0] == "tlint" and ir.contains(y[1], V("IntLiteral.1")) and x[0] == "size")) for _, (x, y) in e.edges)
            ob("IntLiteral::%s size" % v, ok, "a written size suffix is the size of the type")
    e = E("TypeLevelInteger")
    ob("TypeLevelInteger", bool(e.fresh(self_, "number")) and any(e.eq(norm(f["target_type"]), self_) for f in e.req("FitsIntLiteral")), "number type that the value fits")
    e = E("TypeLevelIf")
    ob("TypeLevelIf branches", e.eq(self_, V("TypeLevelIf.on_true")) and e.eq(self_, V("TypeLevelIf.on_false")), "result has the type of both branches")
    ob("TypeLevelIf condition", bool(e.fresh(("cg", V("TypeLevelIf.cond")), "tlbool")), "condition : #bool")
    e = E("FieldAccess")
    ob("FieldAccess", any(e.eq(norm(f["target_type"]), V("FieldAccess.0")) and e.eq(norm(f["expr"]), self_) and f["field"] == V("FieldAccess.1") for f in e.req("HasField")), "the target has the field, and the result its type")
    for v, tk in (("MethodCall", 1), ("AssociatedCall", 0)):
        e = E(v)
        ok = any(e.eq(norm(f["expr"]), self_) and f["method"] == V(v + ".name") and ir.roots(f["call_kind"]) & {V(v + (".call_kind" if v == "MethodCall" else ".kind"))} and f["takes_self"] == ("k", tk) and (e.eq(norm(f["target_type"]), V("MethodCall.target")) if tk else norm(f["target_type"])[0:2] == ("hir", V("AssociatedCall.callee"))) for f in e.req("HasMethod"))
        ob(v, ok, "the method is resolved on the target type, and the result has its output type")
    e = E("PipelineRef")
    ob("PipelineRef type", e.eq(self_, ("name", V("PipelineRef.name"))), "result has the type of the referenced name")
    ob("PipelineRef range", len(e.req("ValidPipelineOffset")) >= 1 and all(r0 in e.req("ValidPipelineOffset")[0] for r0 in ("definition_depth", "current_stage", "reference_offset")), "the referenced stage lies inside the pipeline")
    e = E("Call", extra=None)
    ret = [x for x in e.uf.cls(self_) if x != self_]
    ob("Call result", any(ir.contains(x, V("Call.callee")) for x in ret for x in ir.alts(x)) or any(_mentions(x, V("Call.callee")) for x in ret), "the result has the output type of the callee")
    cp = V("Call.kind")
    hd = None
    for n, r, d, rec in g.calls(lambda r, d: r.endswith("SymbolTable::unit_by_id")):
        a = g.args_of(n)
        if a[1] == V("Call.callee"):
            hd = ir.field(("call", r, tuple(a), n), "unit_kind")
    if hd is not None:
        e = E("Call", (cp, "Pipeline"), (hd, "Pipeline"))
        ok = any(x[0] == "hir" and y[0] == "hir" and {x[1], y[1]} == {ir.field(cp, "Pipeline.depth"), ir.field(hd, "Pipeline.depth")} for _, (x, y) in e.edges)
        ob("Call pipeline depth", ok, "the depth written at the instantiation equals the depth of the pipeline")
    else:
        ob("Call pipeline depth", False, "the head of the callee is looked up")


def core_base(t):
    while isinstance(t, tuple) and t[0] in ("elem", "part", "at", "f"):
        t = t[1]
        if t[0] == "f" and t[2].startswith("ArrayLiteral"):
            return t
    return t


def core_in(t, base):
    return _mentions(t, base)


def _mentions(t, base, d=0):
    if t == base:
        return True
    if d > 14 or not isinstance(t, (tuple, frozenset)):
        return False
    return any(_mentions(x, base, d + 1) for x in t if isinstance(x, (tuple, frozenset)))


def len_of(t, base):
    return t is not None and _mentions(t, base) and any(isinstance(x, tuple) and x[0] == "call" and x[1].endswith("::len") for x in ir.subterms(t))


@prop("C06")
def c06(ck):
    expr_typing(ck)


# ------------------------------------------------------------------ calls, statements, patterns, units

def param(g, rx, nth=0):
    """term of the nth parameter of the entry whose type matches"""
    k = 0
    for i in range(g.entry.nargs):
        if re.search(rx, g.entry.ty(i + 1)):
            if k == nth:
                return ("arg", i)
            k += 1
    raise core.MissingAnchor("%s has no parameter of type %s" % (g.entry.path, rx))


class Obl:
    """equation obligations of one inference function"""

    def __init__(self, ck, rule, ent, *inline):
        self.ck, self.rule = ck, rule
        self.g = ck.graph(entry(ck.prog, ent), *inline)

    def eqs(self, *assume, **kw):
        e = Equations(self.ck, self.g, tuple(assume), **kw)
        return e

    def ob(self, key, ok, txt):
        self.ck.ob(self.rule, key, ok, "%s can succeed without imposing: %s" % (self.g.entry.path, txt), self.g.entry.file)


def known_int(x, n):
    return x[0] == "tlint" and _intval(x[1]) == n


def _intval(t):
    c = const(t) if t is not None else {}
    if not c:
        return 0
    if set(c) == {"1"}:
        return c["1"]
    return None


def calls_typing(ck):
    R = "call-equations"
    ck.rule(R, "every instantiation relates its argument types to the parameter types, its result to the output type, and the built-in units to their size relations, on every successful path", 14)
    F = ir.field
    o = Obl(ck, R, r"TypeState>?::type_check_argument_list$")
    a = ir.elem(param(o.g, r"\[.*Argument<"))
    e = o.eqs(force=lambda t: core.relates(t, a), decide_bool=lambda t: 0 if t == param(o.g, "^bool$") else None)
    hirs = [x for x in e.uf.cls(F(a, "value")) if x[0] == "hir" and x[1] == F(a, "target_type")]
    o.ob("argument type", bool(hirs), "the type of every argument is the type of its parameter")
    o.ob("argument generics", any(x[2] == param(o.g, "GenericListToken") for x in hirs), "parameter types are read with the generics of the called unit")

    o = Obl(ck, R, r"TypeState>?::handle_function_like$")
    g = o.g
    head, ckind, args = param(g, "UnitHead"), param(g, "CallKind"), param(g, "Loc<spade_hir::expression::ArgumentList")
    ety = param(g, "^&spade_typeinference::equation::TypeVarID")
    vis, ism = param(g, "^bool$", 0), param(g, "^bool$", 1)
    fresh_list = None
    e = o.eqs()
    hl = [(x[1], x[2]) for x in e.uf.cls(ety) if x[0] == "hir"]
    phis = [y for x in e.uf.cls(ety) if x[0] == "phi" for y in x[1]]
    outs = [x for x in phis + [c for c in e.uf.cls(ety)] if x[0] == "hir" and x[1] == F(head, "output_type")]
    o.ob("result type", bool(outs), "the type of the call is the output type of the unit")
    o.ob("result generics", any(x[2] is not None and x[2] != param(g, "GenericListToken") and ir.contains(x[2], F(head, "unit_type_params")) for x in outs), "the output type is read with the generics instantiated for this call")
    tal = [n for n, r, d, rec in g.calls(lambda r, d: r.endswith("::type_check_argument_list")) if n in e.reach and e.must(n)]
    okm = False
    for n in tal:
        a = g.args_of(n)
        m = a[1]
        okm = okm or (_mentions(m, args) and _mentions(m, F(F(head, "inputs"), "inputs")) or _mentions(m, args) and _mentions(m, F(head, "inputs")))
    o.ob("arguments checked", bool(tal) and okm, "the arguments matched with the parameters are type checked")
    okg = any(ir.contains(g.args_of(n)[4], F(head, "unit_type_params")) for n in tal)
    o.ob("arguments generics", okg, "the arguments are checked with the generics instantiated for this call")
    e = o.eqs((F(head, "unit_kind"), "Pipeline"), (ckind, "Pipeline"))
    cd, ud = F(ckind, "Pipeline.depth"), F(F(head, "unit_kind"), "Pipeline.depth")
    ok = any(x[0] == y[0] == "hir" and {x[1], y[1]} == {cd, ud} for _, (x, y) in e.edges)
    o.ob("pipeline depth", ok, "the depth written at the instantiation is the depth of the pipeline")
    gl = [z for _, (x, y) in e.edges for z in (x, y) if z[0] == "hir"]
    ok = any(z[1] == ud and z[2] != param(g, "GenericListToken") for z in gl) and any(z[1] == cd and z[2] == param(g, "GenericListToken") for z in gl)
    o.ob("pipeline depth scope", ok, "the instantiation depth is read in the caller's generics and the unit's depth in the callee's")
    va = {n for n, r, d, rec in g.calls(lambda r, d: re.search(r"::visit_argument_list$", r)) if any(x == args for x in g.args_of(n))}
    s = paths.Search(g, decide_bool=lambda t: 1 if t == vis else None)
    o.ob("arguments visited", s.find(paths.OkReturn(), avoid=va) is None, "arguments are inferred when the caller asks for it")

    S = lambda x: ("size", x)
    o = Obl(ck, R, r"TypeState>?::handle_concat$")
    tv = [param(o.g, "TypeVarID$", i) for i in range(3)]
    e = o.eqs()
    fr = [e.fresh(t, "generic_number") for t in tv]
    o.ob("concat types", all(fr), "both operands and the result are numbers")

    def c3(v, expr):
        return any(e.constraint(S(x), {S(y): a, S(z): b}) for x in fr[v] for y, a in [(y, expr[0][1]) for y in fr[expr[0][0]]] for z, b in [(z, expr[1][1]) for z in fr[expr[1][0]]])
    o.ob("concat width", c3(2, [(0, 1), (1, 1)]), "width(result) = width(lhs) + width(rhs)")
    o.ob("concat width lhs", c3(0, [(2, 1), (1, -1)]), "width(lhs) = width(result) - width(rhs)")
    o.ob("concat width rhs", c3(1, [(2, 1), (0, -1)]), "width(rhs) = width(result) - width(lhs)")
    sb = [f.get("0") for f in e.req("SharedBase")]
    o.ob("concat base", any(x and x[0] == "arr" and all(any(e.eq(norm(m), t) for m in x[1]) for t in tv) for x in sb), "operands and result share their base type")
    o = Obl(ck, R, r"TypeState>?::handle_trunc$")
    tv = [param(o.g, "TypeVarID$", i) for i in range(2)]
    e = o.eqs()
    o.ob("trunc types", all(e.fresh(t, "generic_number") for t in tv), "operand and result are numbers")
    sb = [f.get("0") for f in e.req("SharedBase")]
    o.ob("trunc base", any(x and x[0] == "arr" and all(any(e.eq(norm(m), t) for m in x[1]) for t in tv) for x in sb), "operand and result share their base type")
    o = Obl(ck, R, r"TypeState>?::handle_comb_mod_or_div$")
    e = o.eqs()
    o.ob("comb_div", bool(e.fresh(param(o.g, "TypeVarID$"), "generic_number")), "the operands are numbers")
    for f in ("clocked_memory", "read_memory"):
        o = Obl(ck, R, r"TypeState>?::handle_%s$" % f)
        n, ad = param(o.g, "TypeVarID$", 0), param(o.g, "TypeVarID$", 1)
        e = o.eqs()
        o.ob(f + " address width", any(e.constraint(S(u), {("bits", frozenset({(n, 1), ("1", -1)})): 1}) for u in [x for x in _fresh_all(e) if e.eq(S(x), ad)]), "width(address) = bits needed for number of elements - 1")
    # every built-in unit with special typing is recognised
    g = Graph_of(ck, r"TypeState>?::handle_function_like$")
    got = set()
    for n, r, d, rec in g.calls(lambda r, d: re.search(r"::handle_(concat|trunc|comb_mod_or_div|clocked_memory|read_memory)$", r)):
        got.add(r.split("::")[-1])
    want = {"handle_concat", "handle_trunc", "handle_comb_mod_or_div", "handle_clocked_memory", "handle_read_memory"}
    strs = {v for n, r, d, rec in g.calls(lambda r, d: r.endswith("Identifier::intern")) for x in g.args_of(n) for v in strings(x)}
    need = {"concat", "trunc", "comb_div", "comb_mod", "clocked_memory", "clocked_memory_init", "read_memory"}
    ck.ob(R, "built-in units", want <= got and need <= strs, "special typing missing for %s" % sorted((want - got) | (need - strs)), g.entry.file)


def strings(t):
    return [x[1] for x in ir.subterms(t) if x[0] == "s"]


def _fresh_all(e):
    out = set()
    for x in list(e.uf.p) + [v for v, _ in e.constraints]:
        for y in ir.subterms(x) if isinstance(x, tuple) else ():
            if y[0] == "fresh":
                out.add(y)
        if isinstance(x, tuple) and x[0] == "size":
            out.add(x[1])
    return out


def Graph_of(ck, ent):
    return ck.graph(entry(ck.prog, ent))


def stmts_typing(ck):
    R = "statement-equations"
    ck.rule(R, "each typing equation of a statement, pattern or unit is imposed on every successful path of type inference", 30)
    F = ir.field
    prim = lambda p: ("prim", "t_" + p)
    o = Obl(ck, R, r"TypeState>?::visit_statement_error$", lambda q: bool(re.search(r"TypeState>?::visit_register$", q)))
    st = param(o.g, "Loc<spade_hir::Statement>")
    gl = param(o.g, "GenericListToken")
    b = F(st, "Binding.0")
    pat, val, ty = F(b, "pattern"), F(b, "value"), F(b, "ty")
    e = o.eqs((st, "Binding"))
    o.ob("Binding value", e.eq(pat, val), "the bound pattern has the type of the value")
    e = o.eqs((st, "Binding"), force=lambda t: t == ty)
    o.ob("Binding annotation", e.eq(val, ("hir", ty, gl)), "the value has the type written in the binding")
    r = F(st, "Register.0")
    rp, rv, rt, rr, ri, rc = [F(r, x) for x in ("pattern", "value", "value_type", "reset", "initial", "clock")]
    e = o.eqs((st, "Register"))
    o.ob("Register value", e.eq(rp, rv), "the register has the type of the value it samples")
    o.ob("Register clock", e.eq(rc, prim("clock")), "the clock of a register is a clock")
    e = o.eqs((st, "Register"), force=lambda t: t == rt)
    o.ob("Register annotation", e.eq(rv, ("hir", rt, gl)), "the value has the type written for the register")
    e = o.eqs((st, "Register"), force=lambda t: t == rr)
    o.ob("Register reset condition", e.eq(F(rr, "0"), prim("bool")), "the reset condition is a bool")
    o.ob("Register reset value", e.eq(F(rr, "1"), rv), "the reset value has the type of the register")
    e = o.eqs((st, "Register"), force=lambda t: t == ri)
    o.ob("Register initial value", e.eq(ri, rv), "the initial value has the type of the register")
    a = F(st, "Assert.0")
    e = o.eqs((st, "Assert"))
    o.ob("Assert", e.eq(a, prim("bool")), "the asserted expression is a bool")
    t, v = F(st, "Set.target"), F(st, "Set.value")
    e = o.eqs((st, "Set"))
    o.ob("Set", any(e.eq(x[1], v) for x in e.shapes(t, "inverted")), "target : inv T, value : T")
    ex = F(st, "PipelineRegMarker.0")
    e = o.eqs((st, "PipelineRegMarker"), (ex, "Condition"), force=lambda t: t == ex)
    o.ob("Register marker condition", e.eq(F(ex, "Condition.0"), prim("bool")), "the enable condition of a pipeline stage is a bool")

    o = Obl(ck, R, r"TypeState>?::visit_pattern$")
    p = param(o.g, "Loc<spade_hir::Pattern>")
    k = F(p, "kind")
    V = lambda s: F(k, s)
    e = o.eqs((k, "Integer"))
    o.ob("Pattern Integer type", bool(e.fresh(p, "generic_number")), "an integer pattern matches numbers")
    o.ob("Pattern Integer range", any(ir.contains(f["value"], V("Integer.0")) and any(e.eq(norm(f["target_type"]), x) for x in e.fresh(p, "generic_number")) for f in e.req("FitsIntLiteral")), "an integer pattern fits the matched type")
    e = o.eqs((k, "Bool"))
    o.ob("Pattern Bool", e.eq(p, prim("bool")), "a bool pattern matches bools")
    nm, inn = V("Bound.name"), V("Bound.inner")
    e = o.eqs((k, "Bound"))
    o.ob("Pattern Bound", e.eq(p, ("name", nm)), "the bound variable has the type of what it is bound to")
    e = o.eqs((k, "Bound"), force=lambda t: t == inn, decide_bool=lambda t: 0 if t == V("Bound.pre_declared") else None)
    o.ob("Pattern Bound inner", e.eq(p, inn), "a bound sub-pattern has the type of the variable")
    e = o.eqs((k, "Tuple"))
    tp = e.shapes(p, "tuple")
    o.ob("Pattern Tuple", any(x[1:] == (("args", ("each", ir.elem(V("Tuple.0")))),) or _mentions(x, ir.elem(V("Tuple.0"))) for x in tp), "a tuple pattern matches tuples of the sub-pattern types")
    el = ir.elem(V("Array.0"))
    e = o.eqs((k, "Array"))
    ar = e.shapes(p, "array")
    o.ob("Pattern Array", any(core_in(x[1], V("Array.0")) and x[2][0] == "tlint" and len_of(x[2][1], V("Array.0")) for x in ar), "an array pattern matches arrays of its length and element type")
    e = o.eqs((k, "Array"), force=lambda t: core.relates(t, el) or core.relates(t, ir.elem(("part", V("Array.0")))))
    o.ob("Pattern Array elements", any({core_base2(x), core_base2(y)} == {V("Array.0")} and x != y for _, (x, y) in e.edges), "all elements of an array pattern have one type")
    args = V("Type.1")
    pats = [t for t in o.g.prog.adt("spade_hir::symbol_table::PatternableKind")["vs"]]
    e = o.eqs((k, "Type"))
    hs = [y for x in e.uf.cls(p) for y in (x[1] if x[0] == "phi" else [x]) if y[0] == "hir" and _mentions(y, V("Type.0"))]
    ends = {y[1][2].split(".")[-1] for y in hs if y[1][0] == "f"}
    o.ob("Pattern Type", {"output_type", "self_type"} <= ends and len(hs) >= len(pats), "a type pattern matches the named enum or struct (found %s)" % sorted(ends))
    ae = ir.elem(args)
    e = o.eqs((k, "Type"), force=lambda t: core.relates(t, ae))
    ok = any(any(x == F(ae, "value") for x in ed) and any(y[0] == "hir" and _mentions(y[1], V("Type.0")) for z in ed for y in ir.alts(z)) for _, ed in e.edges)
    o.ob("Pattern Type arguments", ok, "sub-patterns have the types of the fields they match")
    cover = {"Integer", "Bool", "Bound", "Tuple", "Array", "Type"}
    pk = set(o.g.prog.variants("spade_hir::PatternKind"))
    o.ob("Pattern coverage", pk <= cover, "pattern kinds without a typing rule here: %s" % sorted(pk - cover))

    o = Obl(ck, R, r"TypeState>?::visit_unit_with_preprocessing$")
    u = param(o.g, "Loc<spade_hir::Unit>")
    head, body = F(u, "head"), F(u, "body")
    inp = ir.elem(F(u, "inputs"))
    ot = F(head, "output_type")
    e = o.eqs(force=lambda t: core.relates(t, inp))
    o.ob("Unit inputs", any(x[0] == "hir" and x[1] == F(inp, "ty") for x in e.uf.cls(("name", F(inp, "name")))), "every input has its declared type")
    e = o.eqs(force=lambda t: t == ot)
    o.ob("Unit output", any(x[0] == "hir" and x[1] == ot for x in e.uf.cls(body)), "the body has the declared output type")
    e = o.eqs((ot, "None"))
    o.ob("Unit without output", ("tuple",) in e.uf.cls(body), "without an output type the body has the unit type")
    e = o.eqs((F(head, "unit_kind"), "Pipeline"))
    o.ob("Unit pipeline clock", any(e.eq(("name", F(x, "name")), prim("clock")) for x in [ir.elem(F(u, "inputs")), ("at", F(u, "inputs"), 0), ("at", F(u, "inputs"), 1)]), "the first (non-self) input of a pipeline is a clock")
    vb = {n for n, r, d, rec in o.g.calls(lambda r, d: re.search(r"TypeState>?::visit_expression$", r)) if any(x == body for x in o.g.args_of(n))}
    o.ob("Unit body", bool(vb) and paths.Search(o.g).find(paths.OkReturn(), avoid=vb) is None, "the body is inferred")
    cr = {n for n, r, d, rec in o.g.calls(lambda r, d: re.search(r"TypeState>?::check_requirements$", r)) if ("k", 1) in o.g.args_of(n)}
    o.ob("Unit requirements", bool(cr) and paths.Search(o.g).find(paths.OkReturn(), avoid=cr) is None, "all deferred requirements are checked at the end of the unit")
    if cr and vb:
        after = [((n), {}) for n in cr]
        late = [n for n, r, d, rec in o.g.calls(lambda r, d: re.search(r"TypeState>?::(visit_expression|handle_unit_data_constraints)$", r) or UNIFY.search(r) or COMMIT.search(r))]
        q = paths.Search(o.g).find(paths.AtNodes(late), start=after)
        o.ob("Unit requirements last", q is None, "requirements are checked after everything else was inferred")
    dc = {n for n, r, d, rec in o.g.calls(lambda r, d: re.search(r"TypeState>?::handle_unit_data_constraints$", r))}
    o.ob("Unit data constraints", bool(dc) and paths.Search(o.g).find(paths.OkReturn(), avoid=dc) is None, "the data constraints of the unit are imposed")


def core_base2(t):
    while isinstance(t, tuple):
        if t[0] in ("elem", "part", "at"):
            t = t[1]
        elif t[0] == "f" and re.search(r"^(ArrayLiteral|Array)\.0$", t[2]):
            return t
        elif t[0] == "phi":
            s = {core_base2(x) for x in t[1]}
            return s.pop() if len(s) == 1 else t
        else:
            return t
    return t


def is_data(e, t):
    return bool(e.fresh(t, "generic_data"))


def data_typing(ck):
    R = "data-constraints"
    ck.rule(R, "whatever is stored in a register is constrained to be Data on every successful path", 12)
    F = ir.field
    o = Obl(ck, R, r"TypeState>?::statement_data_constraints$")
    st = param(o.g, "Loc<spade_hir::Statement>")
    e = o.eqs((st, "Register"))
    o.ob("register value", is_data(e, F(F(st, "Register.0"), "value")), "the value of a register is Data")

    def rec(o, key, assume, callee_rx, term, force=None, txt="is examined"):
        g = o.g
        g.restrict(None)
        ev = {n for n, r, d, _ in g.calls(lambda r, d: re.search(callee_rx, r)) if any(y == term for x in g.args_of(n) for y in ir.alts(x))}
        s = paths.Search(g, decide=core.decider(assume), force=force or (lambda t: core.relates(t, term)))
        ck.paths += 1
        o.ob(key, bool(ev) and s.find(paths.OkReturn(), avoid=ev) is None, txt)
    rec(o, "binding pattern", ((st, "Binding"),), r"::pattern_data_constraint$", F(F(st, "Binding.0"), "pattern"), txt="the names bound by a let binding are examined")
    rec(o, "expression statement", ((st, "Expression"),), r"::expression_data_constraints$", F(st, "Expression.0"), txt="expression statements are examined")
    o = Obl(ck, R, r"TypeState>?::pattern_data_constraint$")
    p = param(o.g, "Loc<spade_hir::Pattern>")
    pl = param(o.g, r"Option<.*Loc<\(\)>")
    k = F(p, "kind")
    w, inn, nm = F(k, "Bound.wire"), F(k, "Bound.inner"), F(k, "Bound.name")
    e = o.eqs((k, "Bound"), (pl, "Some"), (w, "None"))
    o.ob("pipeline binding", is_data(e, ("name", nm)), "a name bound in a pipeline that is not a wire is Data")
    rec(o, "bound sub-pattern", ((k, "Bound"),), r"::pattern_data_constraint$", inn)
    rec(o, "tuple sub-pattern", ((k, "Tuple"),), r"::pattern_data_constraint$", ir.elem(F(k, "Tuple.0")))
    rec(o, "array sub-pattern", ((k, "Array"),), r"::pattern_data_constraint$", ir.elem(F(k, "Array.0")))
    rec(o, "type sub-pattern", ((k, "Type"),), r"::pattern_data_constraint$", F(ir.elem(F(k, "Type.1")), "value"))
    o = Obl(ck, R, r"TypeState>?::expression_data_constraints$")
    x = param(o.g, "Loc<spade_hir::expression::Expression>")
    k = F(x, "kind")
    e = o.eqs((k, "If"))
    o.ob("if", is_data(e, F(k, "If.on_true")), "the value of an if expression is Data")
    m = F(k, "Match.1")
    e = o.eqs((k, "Match"), force=lambda t: core.relates(t, ir.elem(m)) or core.relates(t, ir.elem(("part", m))))
    o.ob("match", any(is_data(e, F(z, "2")) for z in (ir.elem(m), ir.elem(("part", m)), ("at", m, 0))), "the value of a match expression is Data")
    bs = F(k, "Block.0")
    rec(o, "block statements", ((k, "Block"),), r"::statement_data_constraints$", ir.elem(F(bs, "statements")))
    rec(o, "block result", ((k, "Block"),), r"::expression_data_constraints$", F(bs, "result"))
    rec(o, "type level if, true", ((k, "TypeLevelIf"),), r"::expression_data_constraints$", F(k, "TypeLevelIf.on_true"))
    rec(o, "type level if, false", ((k, "TypeLevelIf"),), r"::expression_data_constraints$", F(k, "TypeLevelIf.on_false"))
    o = Obl(ck, R, r"TypeState>?::handle_unit_data_constraints$")
    u = param(o.g, "Loc<spade_hir::Unit>")
    i = ir.elem(F(u, "inputs"))
    ps = [t for t in _pipe_state(o.g)]
    e = o.eqs((F(i, "wire"), "None"), force=lambda t: core.relates(t, i) or any(x[0] == "f" and x[2] == "pipeline_state" for x in ir.subterms(t)))
    o.ob("pipeline input", is_data(e, ("name", F(i, "name"))), "an input of a pipeline that is not a wire is Data")
    rec(o, "unit body", (), r"::expression_data_constraints$", F(u, "body"))


def _pipe_state(g):
    return []


def depth_typing(ck):
    R = "stage-depth"
    ck.rule(R, "the number of stages of a pipeline is tracked through every stage marker and equals the declared depth", 6)
    F = ir.field
    o = Obl(ck, R, r"TypeState>?::visit_statement_error$")
    st = param(o.g, "Loc<spade_hir::Statement>")
    ex = F(st, "PipelineRegMarker.0")
    cur = lambda t: any(x[0] == "f" and x[2] == "current_stage_depth" for x in ir.roots(t))

    def marker(key, assume, off, txt, force):
        e = o.eqs((st, "PipelineRegMarker"), *assume, force=force)
        ok = False
        for v, l in e.constraints:
            if sorted(l.values()) == [1, 1] and any(cur(a) for a in l if isinstance(a, tuple)) and any(off(a) for a in l if isinstance(a, tuple)):
                ok = True
            if sorted(l.values()) == [1, 1] and "1" in l and off(("tlint", ("k", 1))) and any(cur(a) for a in l if isinstance(a, tuple)):
                ok = True
        o.ob(key, ok, txt)
        return e
    cnt = F(ex, "Count.count")
    marker("marker", ((ex, "None"),), lambda a: known_int(a, 1), "`reg;` advances the stage by one", None)
    marker("marker with condition", ((ex, "Condition"),), lambda a: known_int(a, 1), "`reg[cond];` advances the stage by one", lambda t: t == ex)
    marker("marker with count", ((ex, "Count"),), lambda a: a[0] == "hir" and a[1] == cnt, "`reg * n;` advances the stage by n", lambda t: t == ex)
    e = o.eqs((st, "Label"))
    lab = ("name", F(st, "Label.0"))
    lk = [ed for _, ed in e.edges if any(cur(x) for x in ed)]
    o.ob("label", any(not all(cur(x) for x in ed) for ed in lk), "a label denotes the stage it stands in")
    o = Obl(ck, R, r"TypeState>?::visit_unit_with_preprocessing$", lambda q: bool(re.search(r"::setup_pipeline_state$", q)))
    u = param(o.g, "Loc<spade_hir::Unit>")
    uk = F(F(u, "head"), "unit_kind")
    e = o.eqs((uk, "Pipeline"), force=lambda t: any(x[0] == "f" and x[2] == "pipeline_state" for x in ir.subterms(t)) or t[0] == "agg" and t[2] == "Some")
    dep = F(uk, "Pipeline.depth")
    ok = any(any(cur(x) or (x[0] == "f" and x[2] == "current_stage_depth") for x in ed) and any(x[0] == "f" and x[2].endswith("total_depth") for x in ed) for _, ed in e.edges)
    o.ob("total depth", ok, "the number of stages equals the declared depth")
    ok = any(norm(f["depth"])[0] == "hir" and norm(f["depth"])[1] == dep for f in e.req("PositivePipelineDepth"))
    o.ob("positive depth", ok, "the declared depth is not negative")
    g = o.g
    ini = []
    g.restrict(None)
    for c in g.ctxs:
        for bi, bb in enumerate(c.body.bbs):
            for s in bb["s"]:
                if s[1][0] == "agg" and s[1][1].endswith("::PipelineState"):
                    t = g.rvalue(c, s[1], bi)
                    ini.append(dict(t[3]))
    ok = bool(ini) and all(known_int(norm(f["current_stage_depth"]), 0) and norm(f["total_depth"])[0] == "hir" and norm(f["total_depth"])[1] == dep for f in ini)
    o.ob("initial depth", ok, "a pipeline starts in stage 0 with the declared depth as its total")


@prop("C07")
def c07(ck):
    calls_typing(ck)
    stmts_typing(ck)


@prop("C08")
def c08(ck):
    data_typing(ck)
    depth_typing(ck)
