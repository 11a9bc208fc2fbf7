"""Generated Verilog: operators and bit layout, as canonical text of what the code generator emits."""
import re
import ir, paths, core, render
from render import spec, eq0, gt0, compare, cases
from core import prop
from common import *

CG = "spade_mir::codegen::"
SPECIAL = [
    (r"ValueName>?::var_name$", lambda r, a: r.v(a[0])),
    (r"ValueName>?::backward_var_name$", lambda r, a: r.v(a[0]) + "'"),
    (r"MirTypeList as .*Index.*::index$", lambda r, a: "T(%s)" % r.v(a[1])),
    (r"Type>?::strip_copy_view_layers$", lambda r, a: r.v(a[0])),
    (r"Type>?::assume_enum$", lambda r, a: r.v(a[0]) + ".Enum.0"),
]
A = ("arg", 2)
BI = ("arg", 0)
OP = F(BI, "operator")
NAMES = {OP: "op", F(BI, "ty"): "ty", F(BI, "name"): "self", A: "ops"}
for _i in range(4):
    NAMES[("at", A, _i)] = "o%d" % _i
INL = r"enum_util::tag_size$"


def rend(prog):
    return render.R(NAMES, prog, SPECIAL)


def drop_asserts(cs):
    """operand count assertions are not conditions of the generated text"""
    out = []
    for c, r in cs:
        out.append(({k: v for k, v in c.items() if not re.match(r"-?(len|PtrMetadata)\(|\(len\(", k)}, r))
    return out


def members_empty(cs, zkey):
    """`there is no member to emit` is the same condition as `every member is zero sized`"""
    out = []
    for c, r in cs:
        e = [k for k in c if re.search(r"len\(.*ops", k)]
        c = dict(c)
        for k in e:
            v = c.pop(k)
            if v is False and c.get(zkey) is True:
                break
            if v is True:
                c[zkey] = True
        else:
            out.append((c, r))
    return out


def no_elements(cs, *keys):
    """a loop that is never entered emits what a loop over elements without bits emits"""
    out = []
    for c, r in cs:
        c = dict(c)
        for k in keys:
            if k not in c and any(k in d for d, _ in cs):
                c[k] = True
        out.append((c, r))
    return out


def where_variant(x, v):
    return {"variant of " + x: v}


# ------------------------------------------------------------------ operators

SIGNED = {"Add": "+", "Sub": "-", "Mul": "*", "Div": "/", "Mod": "%", "ArithmeticRightShift": ">>>"}
PLAIN = {"UnsignedAdd": "+", "UnsignedSub": "-", "UnsignedMul": "*", "UnsignedDiv": "/", "UnsignedMod": "%", "LeftShift": "<<", "RightShift": ">>",
         "LogicalAnd": "&&", "LogicalOr": "||", "LogicalXor": "^", "BitwiseAnd": "&", "BitwiseOr": "|", "BitwiseXor": "^"}
COMPARE = {"Eq": ("==", 1, 0), "NotEq": ("!=", 0, 0), "Gt": (">", 0, 1), "UnsignedGt": (">", 0, 0), "Lt": ("<", 0, 1), "UnsignedLt": ("<", 0, 0),
           "Ge": (">=", 1, 1), "UnsignedGe": (">=", 1, 0), "Le": ("<=", 1, 1), "UnsignedLe": ("<=", 1, 0)}
UNARY = {"LogicalNot": "!", "Not": "!", "BitwiseNot": "~", "USub": "-", "ReduceAnd": "&", "ReduceOr": "|", "ReduceXor": "^"}
Z = {"Z": "size(T(o0))", "S": "size(ty)"}


def operator_specs():
    sp = {}
    for o, v in SIGNED.items():
        sp[o] = [({}, "$signed({o0}) %s $signed({o1})" % v)]
    for o, v in PLAIN.items():
        sp[o] = [({}, "{o0} %s {o1}" % v)]
    for o, (v, z, s) in COMPARE.items():
        sp[o] = [(eq0("Z", Z), "1'b%d" % z), (eq0("Z", Z, False), ("$signed({o0}) %s $signed({o1})" if s else "{o0} %s {o1}") % v)]
    for o, v in UNARY.items():
        sp[o] = [({}, v + "{o0}")]
    sp["Select"] = [({}, "{o0} ? {o1} : {o2}")]
    for o, z in (("ReduceAnd", 1), ("ReduceOr", 0), ("ReduceXor", 0)):
        sp[o] = [(eq0("Z", Z), "1'b%d" % z), (eq0("Z", Z, False), UNARY[o] + "{o0}")]
    s1, z1 = (lambda v, e=e: eq0(e, Z, v) for e in ("S-1", "Z-1"))
    tr = spec("{o0}[«S-1»:0]", Z)
    sp["Truncate"] = [(dict(s1(True), **z1(True)), "{o0}"), (dict(s1(True), **z1(False)), tr), (s1(False), tr)]
    zz, nz = eq0("Z", Z), eq0("Z", Z, False)
    big, small = gt0("S-Z", Z), gt0("S-Z", Z, False)
    one, other = eq0("S-Z-1", Z), eq0("S-Z-1", Z, False)
    bit, bits = eq0("Z-1", Z), eq0("Z-1", Z, False)
    sp["SignExtend"] = [(zz, spec("«S»'b0", Z)), (dict(nz, **small), "{o0}")]
    for zc, sign in ((bit, "{o0}"), (bits, "{o0}[«Z-1»]")):
        sp["SignExtend"] += [(dict(nz, **dict(big, **dict(one, **zc))), spec("{%s, {o0}}" % sign, Z)), (dict(nz, **dict(big, **dict(other, **zc))), spec("{{ «S-Z» { %s }}, {o0}}" % sign, Z))]
    sp["ZeroExtend"] = [(zz, spec("«S»'b0", Z)), (dict(nz, **big), spec("{«S-Z»'b0, {o0}}", Z)), (dict(nz, **small), "{o0}")]
    zop = {"-size(T(ops[*])) == 0": True}
    nzop = {"-size(T(ops[*])) == 0": False}
    cat = [(zop, "{}"), (nzop, "{{join(map(ops[*]), , )}}")]
    sp["Concat"] = cat
    sp["DivPow2"] = [({}, "always_comb begin if ({o1} == 0) begin {self} = {o0}; end else begin {self} = $signed($signed({o0}) + $signed(1 << ({o1} - 1))) >>> $signed({o1}); end end")]
    n = "(len(ops) Div 2)"
    i = "i(0..%s)" % n
    sp["Match"] = [({}, "always_comb begin priority casez ({{join(map(ops[2*%s]), , )}}) {*{%s}'b{map(48 for 0..%s)}1{map(63 for 0..%s-%s-1)}: {self} = {ops[2*%s+1]};*} {%s}'b?: {self} = {size(ty)}'dx; endcase end" % (i, n, i, n, i, i, n))]
    return sp


def op_cases(ck, g, r, v, extra=None):
    return drop_asserts(cases(ck, g, r, ((OP, v),), extra=extra))


def compare_op(ck, rule, g, r, v, table, key=None, extra=None, post=None):
    cs = op_cases_raw(ck, g, r, v, extra)
    cs = post(cs) if post else cs
    return compare(ck, rule, key or v, drop_asserts(cs), table, where(g))


def op_cases_raw(ck, g, r, v, extra=None):
    return cases(ck, g, r, ((OP, v),), extra=extra)


@prop("C11")
def c11(ck):
    prog = ck.prog
    ck.rule("op-verilog", "each operator of the intermediate representation is emitted as the Verilog operator with its meaning, its operands in their order, signed exactly when the operator is signed", 45)
    ck.rule("op-binding", "the emitted expression is assigned to the value's own name", 1)
    g = ck.graph(fn_one(prog, r"codegen::forward_expression_code$"), INL, precise=True)
    r = rend(prog)
    for v, t in operator_specs().items():
        ck.ob("op-verilog", "anchor " + v, v in prog.variants("spade_mir::Operator"), "the operator does not exist")
        compare_op(ck, "op-verilog", g, r, v, t, post=lambda cs: no_elements(cs, "-size(T(ops[*])) == 0"))
    cs = cases(ck, ck.graph(fn_one(prog, r"codegen::statement_code$"), INLV, precise=True), stmt_rend(prog), ((ST, "Binding"), (SB_OP, "Add")))
    compare(ck, "op-binding", "operator bindings", cs, both("assign {self} = {forward_expression_code(b, types, ops)};", "assign {backward_expression_code(b, types, ops)} = {self'};"))


# ------------------------------------------------------------------ layout

L0 = {"Z": "size(T(o0))", "S": "size(ty)", "L": "T(o0).Array.length", "I": "size(T(o0).Array.inner)", "B": "backward_size(T(o0).Array.inner)", "BS": "backward_size(ty)",
      "s": "op.RangeIndexArray.start", "e": "op.RangeIndexArray.end_exclusive", "tag": "ilog2(next_power_of_two(len(T(o0).Enum.0)))",
      "P": "sum(size(T(o0).Enum.0[op.EnumMember.variant][0..op.EnumMember.member_index][*]))", "M": "size(T(o0).Enum.0[op.EnumMember.variant][op.EnumMember.member_index])",
      "ctag": "ilog2(next_power_of_two(len(ty.Enum.0)))", "C": "sum(size(ty.Enum.0[op.ConstructEnum.variant][*]))"}


def both(f, b, al=L0):
    """forward text if the value has forward bits, backward text if it has backward bits"""
    out = []
    for x in (True, False):
        for y in (True, False):
            out.append((dict(eq0("S", {"S": "size(ty)"}, x), **eq0("S", {"S": "backward_size(ty)"}, y)), "\n".join(([] if x else [f]) + ([] if y else [b]))))
    return out


def layout_specs():
    sp = {}
    sz = {"-size(T(ops[*])) == 0": True}
    nz = {"-size(T(ops[*])) == 0": False}
    sp["ConstructTuple"] = [(sz, "{}"), (nz, "{{join(map(ops[*]), , )}}")]
    sp["ConstructArray"] = [({}, "{{join(map(<rev>(ops)[*]), , )}}")]
    sp["ConstructCopyView"] = [({}, "{o0}")]
    one, many = eq0("L-1", L0), eq0("L-1", L0, False)
    sp["IndexArray"] = [(one, "{o0}"), (dict(many, **eq0("S-1", L0)), "{o0}[{o1}]"), (dict(many, **eq0("S-1", L0, False)), spec("{o0}[{o1} * «S»+:«S»]", L0))]
    r = spec("{o0}[«e*I-1»-:«e*I-s*I»]", L0)
    r2 = spec("{o0}[«s» * «I»+:«e*I-s*I»]", L0)
    sp["RangeIndexArray"] = [(one, "{o0}"), (dict(many, **dict(eq0("I-1", L0), **eq0("e-s-1", L0))), spec("{o0}[«s»]", L0)),
                             (dict(many, **dict(eq0("I-1", L0), **eq0("e-s-1", L0, False))), (r, r2)), (dict(many, **eq0("I-1", L0, False)), (r, r2))]
    sp["IndexMemory"] = [({}, "{o0}[{o1}]")]
    tup = lambda f, p: [({"variant of T(o0)": "Tuple"}, "{o0%s}{verilog_code(compute_tuple_index(op.IndexTuple.0, map(%s(T(o0).Tuple.0[*]))))}" % (p, f)),
                        ({"variant of T(o0)": "Struct"}, "{o0%s}{verilog_code(compute_tuple_index(op.IndexTuple.0, map(%s(T(o0).Struct.0[*].1))))}" % (p, f)),
                        ({"variant of T(o0)": "Array"}, "{o0%s}{verilog_code(compute_tuple_index(op.IndexTuple.0, map(%s(from_elem(T(o0).Array.inner, T(o0).Array.length)[*]))))}" % (p, f))]
    sp["IndexTuple"] = tup("size", "")
    m = dict(eq0("Z-1", L0, False))
    sp["EnumMember"] = [(eq0("Z-1", L0), "{o0}"), (m, spec("{o0}[«Z-P-tag-1»:«Z-M-P-tag»]", L0))]
    z0, t0, z1, t1 = (lambda v, e=e: eq0(e, L0, v) for e in ("Z", "tag", "Z-1", "tag-1"))
    x = lambda *cs: {k: v for c in cs for k, v in c.items()}
    sp["IsEnumVariant"] = [
        (z0(True), ("1", "1'b1", "1'd1")), (x(z0(False), t0(True)), ("1", "1'b1", "1'd1")),
        (x(z0(False), t0(False), z1(True)), "{o0} == 1'd{op.IsEnumVariant.variant}"),
        (x(z0(False), t0(False), z1(False), t1(True)), spec("{o0}[«Z-1»] == {ilog2(next_power_of_two(len(T(o0).Enum.0)))}'d{op.IsEnumVariant.variant}", L0)),
        (x(z0(False), t0(False), z1(False), t1(False)), spec("{o0}[«Z-1»:«Z-tag»] == {ilog2(next_power_of_two(len(T(o0).Enum.0)))}'d{op.IsEnumVariant.variant}", L0))]
    ce = []
    zk = "-size(ty.Enum.0[op.ConstructEnum.variant][*]) == 0"
    for tg in (True, False):
        for pad in (True, False):
            for mem in (True, False):
                items = ([] if tg else [spec("«ctag»'d{op.ConstructEnum.variant}", L0)]) + ([] if mem else ["{join(map(ops[*]), , )}"]) + ([] if pad else [spec("«S-C-ctag»'bX", L0)])
                t = "{%s}" % ", ".join(items)
                if tg and mem and not pad:
                    t = (t, "{, %s}" % items[0])      # cannot happen: a single variant has no padding
                ce.append((x(eq0("ctag", L0, tg), eq0("S-C-ctag", L0, pad), {zk: mem}), t))
    sp["ConstructEnum"] = ce
    bp = {}
    bp["ConstructTuple"] = [({"-backward_size(T(ops[*])) == 0": True}, "{}"), ({"-backward_size(T(ops[*])) == 0": False}, "{{join(map(ops[*]'), , )}}")]
    bp["ConstructArray"] = [({}, "{{join(map(<rev>(ops)[*]'), , )}}")]
    bp["IndexArray"] = [(one, "{o0'}"), (dict(many, **eq0("BS-1", L0)), "{o0'}[{o1}]"), (dict(many, **eq0("BS-1", L0, False)), spec("{o0'}[{o1} * «BS»+:«BS»]", L0))]
    q = spec("{o0'}[«s» * «B»+:«e*B-s*B»]", L0)
    q2 = spec("{o0'}[«e*B-1»-:«e*B-s*B»]", L0)
    bp["RangeIndexArray"] = [(one, "{o0'}"), (dict(many, **dict(eq0("B-1", L0), **eq0("e-s-1", L0))), spec("{o0'}[«s»]", L0)),
                             (dict(many, **dict(eq0("B-1", L0), **eq0("e-s-1", L0, False))), (q, q2)), (dict(many, **eq0("B-1", L0, False)), (q, q2))]
    bp["IndexTuple"] = tup("backward_size", "'")
    return sp, bp, zk


def fn_cases(ck, rx, names, inline=(), mode="v", special=SPECIAL, assume=(), **kw):
    g = ck.graph(fn_one(ck.prog, rx), *inline, precise=True)
    r = render.R(names, ck.prog, special)
    return g, cases(ck, g, r, assume, result=(r.s if mode == "s" else r.v), **kw)


ABC = {("arg", 0): "a", ("arg", 1): "b", ("arg", 2): "c"}


def size_specs():
    v = lambda n: {"variant of a": n}
    f = [(v("Int"), "a.Int.0"), (v("UInt"), "a.UInt.0"), (v("Bool"), "1"), (v("Tuple"), "sum(size(a.Tuple.0[*]))"), (v("Struct"), "sum(size(a.Struct.0[*].1))"),
         (v("Array"), spec("«L*I»", {"L": "a.Array.length", "I": "size(a.Array.inner)"})[1:-1]), (v("Memory"), spec("«L*I»", {"L": "a.Memory.length", "I": "size(a.Memory.inner)"})[1:-1]),
         (v("Enum"), "<0 | <max>(map(sum(size(a.Enum.0[*][*]))))>+ilog2(next_power_of_two(len(a.Enum.0)))"), (v("Backward"), "0"), (v("CopyView"), "size(a.CopyView.0)"), (v("InOut"), "size(a.InOut.0)")]
    b = [(v("Int"), "0"), (v("UInt"), "0"), (v("Bool"), "0"), (v("Tuple"), "sum(backward_size(a.Tuple.0[*]))"), (v("Struct"), "sum(backward_size(a.Struct.0[*].1))"),
         (v("Array"), spec("«L*I»", {"L": "a.Array.length", "I": "backward_size(a.Array.inner)"})[1:-1]), (v("Memory"), "0"), (v("Enum"), "0"), (v("Backward"), "size(a.Backward.0)"), (v("CopyView"), "0"), (v("InOut"), "0")]
    return f, b


@prop("C31")
def c31(ck):
    prog = ck.prog
    ck.rule("layout-size", "the number of forward and backward bits of every type is the one its layout needs", 22)
    ck.rule("layout-build", "building a value places every member with bits at its own position, in both directions", 6)
    ck.rule("layout-read", "reading a member selects exactly the bits the member was placed at, in both directions", 9)
    ck.rule("layout-index", "the position of a tuple member is computed from the sizes of the members before it", 4)
    f, b = size_specs()
    for nm, rx, t in (("size", r"types::.*::size$", f), ("backward_size", r"types::.*::backward_size$", b)):
        g, cs = fn_cases(ck, rx, ABC, (INL,))
        for c, x in t:
            compare(ck, "layout-size", "%s of %s" % (nm, c["variant of a"]), [y for y in cs if render.compatible(y[0], c)], [(c, x)], where(g))
    sp, bp, zk = layout_specs()
    r = rend(prog)
    g = ck.graph(fn_one(prog, r"codegen::forward_expression_code$"), INL, precise=True)
    for v, t in sp.items():
        post = (lambda cs: no_elements(members_empty(cs, zk), zk)) if v == "ConstructEnum" else lambda cs: no_elements(cs, "-size(T(ops[*])) == 0")
        compare_op(ck, "layout-build" if v.startswith("Construct") else "layout-read", g, r, v, t, post=post)
    g = ck.graph(fn_one(prog, r"codegen::backward_expression_code$"), INL, precise=True)
    for v, t in bp.items():
        compare_op(ck, "layout-build" if v.startswith("Construct") else "layout-read", g, r, v, t, key="backward " + v, post=lambda cs: no_elements(cs, "-backward_size(T(ops[*])) == 0"))
    al = {"n": "sum(b[*])", "p": "sum(b[0..a][*])", "w": "b[a]"}
    g, cs = fn_cases(ck, r"codegen::compute_tuple_index$", ABC)
    x = lambda *cs: {k: v for c in cs for k, v in c.items()}
    w0, n1, w1 = (lambda v, e=e: eq0(e, al, v) for e in ("w", "n-1", "w-1"))
    rng = "TupleIndex::Range{left: %s, right: %s}" % (spec("«n-p-1»", al)[1:-1], spec("«n-p-w»", al)[1:-1])
    compare(ck, "layout-index", "compute_tuple_index", cs, [
        (w0(True), "TupleIndex::ZeroWidth{}"), (x(w0(False), n1(True)), "TupleIndex::None{}"),
        (x(w0(False), n1(False), w1(True)), "TupleIndex::Single{0: %s}" % spec("«n-p-1»", al)[1:-1]),
        (x(w0(False), n1(False), w1(False)), rng)], where(g))
    g, cs = fn_cases(ck, r"TupleIndex::verilog_code$", ABC, mode="s")
    compare(ck, "layout-index", "TupleIndex::verilog_code", cs, [({"variant of a": "None"}, ""), ({"variant of a": "Single"}, "[{a.Single.0}]"), ({"variant of a": "Range"}, "[{a.Range.left}:{a.Range.right}]")], where(g))
    g, cs = fn_cases(ck, r"verilog::size_spec$", ABC, mode="s")
    compare(ck, "layout-index", "size_spec", cs, [(eq0("a-1"), ""), (eq0("a-1", {}, False), "[{a-1}:0]")], where(g))
    g, cs = fn_cases(ck, r"verilog::localparam_size_spec$", ABC, mode="s")
    compare(ck, "layout-index", "localparam_size_spec", cs, [({}, "[{a-1}:0]")], where(g))


# ------------------------------------------------------------------ statements and modules

ST = ("arg", 0)
CX = ("arg", 1)
SB = F(ST, "Binding.0")
SB_OP = F(SB, "operator")
SNAMES = {SB: "b", F(SB, "name"): "self", F(SB, "ty"): "ty", F(SB, "operands"): "ops", SB_OP: "op", F(CX, "types"): "types", F(ST, "Register.0"): "reg", F(ST, "Set.target"): "tgt", F(ST, "Set.value"): "val",
          F(ST, "Constant.0"): "cn", F(ST, "Constant.1"): "ct", F(ST, "Constant.2"): "cv", F(ST, "Assert.0"): "cond"}
for _i in range(3):
    SNAMES[("at", F(SB, "operands"), _i)] = "o%d" % _i
INLV = r"verilog::(logic|assign|reg)$"


def stmt_rend(prog):
    return render.R(SNAMES, prog, SPECIAL)


def conn_items(txt):
    """the port connections of an instance: header and the set of connected ports"""
    m = re.match(r"(.*) \((.*)\);$", txt, re.S)
    if not m:
        return txt
    items = re.findall(r'"(\.(?:[^"\\]|\\.)*)"', m.group(2))
    return "%s (%s);" % (m.group(1), " & ".join(sorted(items)))


def map_results(cs, f):
    return [(c, frozenset(f(x) for x in r)) for c, r in cs]


def unloop(s):
    return s.replace("{*", "").replace("*}", "")


SRCB = "{source_attribute(b.loc, <arg 1>)}\n"


@prop("C32")
def c32(ck):
    prog = ck.prog
    ck.rule("stmt", "every statement drives exactly the wires it defines with the value it stands for, forward and backward", 55)
    ck.rule("decl", "every name is declared with the size of its type before it is used", 8)
    ck.rule("instance", "an instance connects every operand that has bits to the port of the parameter it is passed to, and its result to the output", 1)
    ck.rule("module", "a module has a port for every parameter and output that has bits, in the right direction and size, connected to the name used inside, and contains the declarations and code of every statement", 4)
    ck.rule("port-name", "instances and modules agree on the names of ports", 2)
    r = stmt_rend(prog)
    g = ck.graph(fn_one(prog, r"codegen::statement_code$"), INLV, precise=True)
    w = where(g)
    C = lambda *a, **k: cases(ck, g, r, a, **k)
    fwd, bwd = "assign {self} = {forward_expression_code(b, types, ops)};", "assign {backward_expression_code(b, types, ops)} = {self'};"
    special = {"Instance", "Alias", "BlackBoxAlias", "Match", "DivPow2", "Nop", "FlipPort", "ReadMutWires", "DeclClockedMemory", "ReadWriteItemsInOut", "ConstructCopyView"}
    OPV = prog.variants("spade_mir::Operator")
    for v in OPV:
        if v not in special:
            compare(ck, "stmt", v, C((ST, "Binding"), (SB_OP, v)), both(fwd, bwd), w)
    x = lambda *cs: {k: v for c in cs for k, v in c.items()}
    al = [(x(c, {"variant of ty": v}), t if v != "Memory" else "") for c, t in both("assign {self} = {o0};", "assign {o0'} = {self'};") for v in prog.variants("spade_mir::types::Type")]
    for v in ("Alias", "BlackBoxAlias"):
        compare(ck, "stmt", v, C((ST, "Binding"), (SB_OP, v)), al, w)
    compare(ck, "stmt", "FlipPort", C((ST, "Binding"), (SB_OP, "FlipPort")), both("assign {self} = {o0'};", "assign {o0} = {self'};"), w)
    compare(ck, "stmt", "ReadMutWires", C((ST, "Binding"), (SB_OP, "ReadMutWires")), [({}, "assign {self} = {o0'};")], w)
    compare(ck, "stmt", "ConstructCopyView", C((ST, "Binding"), (SB_OP, "ConstructCopyView")), [(eq0("S", {"S": "size(ty)"}, v), "" if v else fwd) for v in (True, False)], w)
    for v in ("Match", "DivPow2", "DeclClockedMemory"):
        compare(ck, "stmt", v, C((ST, "Binding"), (SB_OP, v), fixed=eq0("S", {"S": "size(ty)"}, False)), [({}, "{forward_expression_code(b, types, ops)}")], w)
    al = {"n": "op.ReadWriteItemsInOut.0", "d": "div(size(ty), op.ReadWriteItemsInOut.0)", "i": "i(0..op.ReadWriteItemsInOut.0)"}
    many = spec("assign {o0}[«d*i-i»+:«d-1»] = {self'}[«d+d*i-1»] ? {self'}[«d*i»+:«d-1»] : «d-1»'bZ; "
                "assign {self}[«d*i»+:«d»] = {self'}[«d+d*i-1»] ? { 1'b0, «d-1»'bX } : { 1'b1, {o0}[«d*i-i»+:«d-1»] };", al)
    bit = spec("assign {o0} = {self'}[1] ? {self'}[0] : «d-1»'bZ; assign {self} = {self'}[1] ? { 1'b0, 1'bX } : { 1'b1, {o0} };", al)
    cs = map_results(C((ST, "Binding"), (SB_OP, "ReadWriteItemsInOut")), lambda s: unloop(s).replace("{ops[0]}", "{o0}"))
    o, t = (lambda v, e=e: eq0(e, al, v) for e in ("n-1", "d-2"))
    compare(ck, "stmt", "ReadWriteItemsInOut", cs, [(x(o(True), t(True)), bit), (x(o(True), t(False)), many), (o(False), many)], w)
    compare(ck, "stmt", "Nop", C((ST, "Binding"), (SB_OP, "Nop")), [({}, "")], w)
    # registers
    z = eq0("S", {"S": "size(reg.ty)"})
    nz = eq0("S", {"S": "size(reg.ty)"}, False)
    rr = [(z, "")]
    for rst in (True, False):
        for ini in (True, False):
            body = ("if ({reg.reset.0}) begin {reg.name} <= {reg.reset.1}; end else begin {reg.name} <= {reg.value}; end" if rst else "{reg.name} <= {reg.value};")
            rr.append((x(nz, {"is_some(reg.reset)": rst, "is_some(reg.initial)": ini}),
                       ("initial begin {reg.name} = 'b{as_string(eval_statements(reg.initial))}; end " if ini else "") + "always @(posedge {reg.clock}) begin " + body + " end"))
    compare(ck, "stmt", "Register", C((ST, "Register")), rr, w)
    compare(ck, "stmt", "Set", C((ST, "Set")), [(x(eq0("S", {"S": "size(T(val))"}, a), eq0("S", {"S": "backward_size(T(val))"}, b)), " ".join(([] if a else ["assign {tgt'} = {val};"]) + ([] if b else ["assign {val'} = {tgt};"]))) for a in (True, False) for b in (True, False)], w)
    cs = map_results(C((ST, "Assert")), lambda t: "asserts" if re.search(r"assert \(\{cond\}\)", t) and re.search(r"always @\(\{cond\}\)", t) and "$fatal(1);" in t and t.index("assert (") < t.index("$fatal") else t)
    compare(ck, "stmt", "Assert", cs, [({}, "asserts")], w)
    compare(ck, "stmt", "Constant", C((ST, "Constant")), [({}, "")], w)
    # instances
    ics = []
    for c, res in C((ST, "Binding"), (SB_OP, "Instance")):
        c = dict(c)
        # a parameter text is only built when there are parameters
        for k in [k for k in c if re.match(r"-?len\(<", k)]:
            c.pop(k)
        ics.append((c, frozenset(conn_items(y) for y in res)))
    head = "{source_attribute(op.Instance.loc, <arg 1>.source_code)}\n{codegen_verilog_attr_groups(op.Instance.verilog_attr_groups)}\n{as_verilog(op.Instance.name)}%s \\{instance_name(op.Instance.name, <arg 1>.unit_nameid, <arg 1>.instance_map, <arg 1>.instance_names)}"
    exp = []
    an = "op.Instance.argument_names[*]"
    for par in (True, False):
        for f in (True, False):
            for b in (True, False):
                for af in (True, False):
                    for ab in (True, False):
                        it = ([] if af else [".{mangle_input(%s.no_mangle, %s.name)}({ops[*]})" % (an, an)]) + ([] if ab else [".{mangle_output(%s.no_mangle, %s.name)}({ops[*]'})" % (an, an)]) + ([] if f else [".output__({self})"]) + ([] if b else [".input__({self'})"])
                        t = head % ("" if par else "#({join(map(\".{op.Instance.params[*].0}({op.Instance.params[*].1})\"), , )})") + " (" + " & ".join(sorted(it)) + ");"
                        exp.append((x({"-len(op.Instance.params) == 0": par}, eq0("S", {"S": "size(ty)"}, f), eq0("S", {"S": "backward_size(ty)"}, b), eq0("S", {"S": "size(T(ops[*]))"}, af), eq0("S", {"S": "backward_size(T(ops[*]))"}, ab)), t))
    compare(ck, "instance", "Instance", no_elements(ics, "-size(T(ops[*])) == 0", "-backward_size(T(ops[*])) == 0"), exp, w)
    # declarations
    gd = ck.graph(fn_one(prog, r"codegen::statement_declaration$"), INLV, precise=True)
    D = lambda *a, **k: cases(ck, gd, r, a, **k)
    src = lambda o: "{source_attribute(%s.loc, <arg 1>)}\n" % o
    for v in ("Add", "Alias", "Instance"):
        exp = []
        for ty in prog.variants("spade_mir::types::Type"):
            for f in (True, False):
                for b in (True, False):
                    for wide in ((True, False) if ty == "Memory" else (None,)):
                        t = ""
                        if not f:
                            t += src("b")
                            if ty == "Memory":
                                t += ("logic[{size(ty.Memory.inner)}-1:0] {self}[{ty.Memory.length}-1:0];\n" if wide else "logic {self}[{ty.Memory.length}-1:0];\n")
                            else:
                                t += "logic{size_spec(size(ty))} {self};\n"
                        if not b:
                            t += src("b") + "logic{size_spec(backward_size(ty))} {self'};\n"
                        if v == "Alias" and ty == "Memory":
                            t += "`define {self} {o0}"
                        c = x({"variant of ty": ty}, eq0("S", {"S": "size(ty)"}, f), eq0("S", {"S": "backward_size(ty)"}, b))
                        if wide is not None:
                            c.update(gt0("S-1", {"S": "size(ty.Memory.inner)"}, wide))
                        exp.append((c, t))
        compare(ck, "decl", "Binding " + v, D((ST, "Binding"), (SB_OP, v)), exp, where(gd))
    compare(ck, "decl", "Register", D((ST, "Register")), [(z, ""), (nz, src("reg") + "reg{size_spec(size(reg.ty))} {reg.name};")], where(gd))
    for v in ("Int", "UInt"):
        for neg in (True, False):
            for big in (True, False):
                pass
    constants(ck, gd, r, D)
    module_rules(ck, prog)


def constants(ck, gd, r, D):
    x = lambda *cs: {k: v for c in cs for k, v in c.items()}
    z = {"S": "size(ct)"}
    head = "localparam{localparam_size_spec(size(ct))} {cn} = "
    for ty in ("Int", "UInt"):
        exp = [(eq0("S", z), "")]
        for neg in (True, False):
            for small in (True, False):
                exp.append((x(eq0("S", z, False), gt0("0-v", {"v": "cv.Int.0"}, neg), gt0("32-s", {"s": "ct.%s.0" % ty}, small)),
                            head + ("-" if neg else "") + ("" if small else "{ct.%s.0}'d" % ty) + "{abs(cv.Int.0)};"))
        compare(ck, "decl", "Constant Int of type " + ty, D((ST, "Constant"), (F(ST, "Constant.2"), "Int"), (F(ST, "Constant.1"), ty)), exp, where(gd))
    for v, t in (("Bool", None), ("Undef", "{cv.Undef.0}'bx;"), ("HighImp", "'bz;")):
        exp = [(eq0("S", z), "")]
        if t:
            exp.append((eq0("S", z, False), head + t))
        else:
            for b in (True, False):
                exp.append((x(eq0("S", z, False), {"cv.Bool.0": b}), head + ("1;" if b else "0;")))
        compare(ck, "decl", "Constant " + v, D((ST, "Constant"), (F(ST, "Constant.2"), v)), exp, where(gd))


def module_rules(ck, prog):
    x = lambda *cs: {k: v for c in cs for k, v in c.items()}
    en = F(("arg", 0), "0")
    i = E(F(en, "inputs"))
    N = {en: "unit", i: "in", F(en, "output_type"): "oty", F(en, "output"): "out", E(F(en, "statements")): "stmt", F(en, "name"): "name"}
    r = render.R(N, prog, SPECIAL)
    g = ck.graph(fn_one(prog, r"codegen::entity_code$"), INLV, precise=True)
    S = lambda e, v: eq0("S", {"S": e}, v)
    ctxt = "Context{types: from_entity(unit), source_code: <arg 2>, instance_names: new(), instance_map: <arg 1>, unit_nameid: name.source}"
    for ty in ("Bool", "InOut"):
        exp = []
        for a in (True, False):
            for b in (True, False):
                for nm in (True, False):
                    for oa in (True, False):
                        for ob in (True, False):
                            inp = []
                            if not a:
                                inp.append("%s{size_spec(size(in.ty))} {mangle_input(in.no_mangle, in.name)}" % ("inout" if ty == "InOut" else "input"))
                            if not b:
                                inp.append("output{size_spec(backward_size(in.ty))} {mangle_output(in.no_mangle, in.name)}")
                            ports = ([", ".join(inp)] if inp else []) + ([] if oa else ["output{size_spec(size(oty))} output__"]) + ([] if ob else ["input{size_spec(backward_size(oty))} input__"])
                            body = []
                            if not a and not nm:
                                body += ["logic{size_spec(size(in.ty))} {in.val_name};", "assign {in.val_name} = {mangle_input(in.no_mangle, in.name)};"]
                            if not b:
                                body += ["logic{size_spec(backward_size(in.ty))} {in.val_name'};", "assign {mangle_output(in.no_mangle, in.name)} = {in.val_name'};"]
                            body += ["{statement_declaration(stmt, <arg 2>, new())}", "{statement_code(stmt, %s)}" % ctxt]
                            if not oa:
                                body.append("assign output__ = {out};")
                            if not ob:
                                body.append("assign {out'} = input__;")
                            c = x(S("size(in.ty)", a), S("backward_size(in.ty)", b), S("size(oty)", oa), S("backward_size(oty)", ob), {"is_some(in.no_mangle)": nm})
                            exp.append((c, "module {as_verilog(name)} | %s | %s | endmodule" % (" & ".join(sorted(ports)), " & ".join(sorted(body))), *(["weak"] if a else [])))
        for oa in (True, False):
            for ob in (True, False):
                cs = cases(ck, g, r, ((F(i, "ty"), ty),), result=lambda t: module_text(r.s(ir.field(t, "0"))), fixed=x(S("size(oty)", oa), S("backward_size(oty)", ob)))
                cs = no_elements(cs, "-size(in.ty) == 0", "-backward_size(in.ty) == 0")
                cs = [(x(c, S("size(oty)", oa), S("backward_size(oty)", ob)), y) for c, y in cs]
                e2 = [e for e in exp if render.compatible(e[0], x(S("size(oty)", oa), S("backward_size(oty)", ob)))]
                e2 = [(e[0], e[1]) if len(e) == 2 else ({k: v for k, v in e[0].items() if k != "is_some(in.no_mangle)"}, e[1]) for e in e2]
                compare(ck, "module", "%s input, output %s bits%s" % (ty, "without" if oa else "with", "" if ob else " and backward bits"), cs, e2, where(g))
    for nm, suf in (("mangle_input", "_i"), ("mangle_output", "_o")):
        gm, cs = fn_cases(ck, r"codegen::util::%s$" % nm, ABC, mode="s")
        compare(ck, "port-name", nm, cs, [({"is_some(a)": True}, "{b}"), ({"is_some(a)": False}, "{b}" + suf)], where(gm))


def module_text(s):
    s = unloop(s)
    m = re.match(r"\{codegen_verilog_attr_groups\(unit.verilog_attr_groups\)\}\s*module (\S+) \(\n?(.*?)\n?\);\n(.*)\nendmodule$", s, re.S)
    if not m:
        return s
    ports = m.group(2)
    pm = re.match(r"\{join\(map\((.*)\), ,\s*\)\}$", ports, re.S)
    ps = ports
    if pm:
        ps = pm.group(1)
        ps = re.findall(r'"((?:[^"\\]|\\.)*)"', ps) or [ps]
    elif ports.strip() == "":
        ps = []
    else:
        ps = [ports]
    body = [l.strip() for l in m.group(3).split("\n") if l.strip() and "COCOTB_CODE" not in l]
    at = [[k for k, l in enumerate(body) if l.startswith("{statement_" + w)] for w in ("declaration", "code")]
    late = " DECLARED AFTER USE" if at[0] and at[1] and at[0][0] > at[1][0] else ""
    return "module %s | %s | %s | endmodule%s" % (m.group(1), " & ".join(sorted(ps)), " & ".join(sorted(body)), late)
