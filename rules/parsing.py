"""The parser: what operators, literals and primary expressions of the source text become in the syntax tree."""
import re
import ir, paths, core, render
from core import prop, MissingAnchor
from common import *
from render import compare, event_cases
from lowering import LR, value_cases
from requirements import table

SP = "spade_parser::"
EX = SP + "expression::<impl spade_parser::Parser<'a>>::"
BO, UO, PW = "BinaryOperator::", "UnaryOperator::", "OpBindingPower::"

# loosest first
LEVELS = [["LogicalOr"], ["LogicalAnd"], ["LogicalXor"], ["Eq", "Neq"], ["Lt", "Gt", "Le", "Ge"], ["BitwiseOr"], ["BitwiseXor"], ["BitwiseAnd"],
          ["LeftShift", "RightShift", "ArithmeticRightShift", "WrappingLeftShift", "WrappingRightShift"],
          ["Add", "Sub", "WrappingAdd", "WrappingSub"], ["Mul", "Div", "Mod", "WrappingMul"]]
BIN = {"Plus": "Add", "Minus": "Sub", "Asterisk": "Mul", "Slash": "Div", "Percentage": "Mod", "Equals": "Eq", "NotEquals": "Neq", "Lt": "Lt", "Gt": "Gt", "Le": "Le", "Ge": "Ge",
       "RightShift": "RightShift", "ArithmeticRightShift": "ArithmeticRightShift", "LeftShift": "LeftShift", "PlusDot": "WrappingAdd", "MinusDot": "WrappingSub",
       "AsteriskDot": "WrappingMul", "RightShiftDot": "WrappingRightShift", "LeftShiftDot": "WrappingLeftShift", "DoublePipe": "LogicalOr", "LogicalAnd": "LogicalAnd",
       "LogicalXor": "LogicalXor", "Ampersand": "BitwiseAnd", "Pipe": "BitwiseOr", "BitwiseXor": "BitwiseXor"}
UN = {"Minus": "Sub", "MinusDot": "WrappingSub", "Not": "Not", "Tilde": "BitwiseNot", "Ampersand": "Reference", "Asterisk": "Dereference"}
PRIMARY = {"tuple_literal": "{}", "lambda": "{}", "array_literal": "{}", "entity_instance": "{}", "bool_literal": "Expression::BoolLiteral{0: {}}", "str_literal": "Expression::StrLiteral{0: {}}",
           "tri_literal": "Expression::TriLiteral{0: {}}", "int_literal": "Expression::IntLiteral{0: {}}", "ascii_char_literal": "Expression::IntLiteral{0: {}}", "ascii_string_literal": "{}",
           "block": "Block(new({}))", "if_expression": "{}", "type_level_if": "{}", "match_expression": "{}", "pipeline_reference": "{}", "label_access": "{}", "unsafe_block": "{}"}


def by_variant(ck, fn, adt):
    """{variant of the argument: result}"""
    g = ck.graph(fn, precise=True)
    r = LR({("arg", 0): "k"}, ck.prog)
    out = {}
    for c, x in value_cases(ck, g, r):
        v = c.get("variant of k")
        for n in [v] if v else ck.prog.variants(adt):
            out.setdefault(n, set()).update(x)
    return out, where(g)


@prop("C20")
def c20(ck):
    prog = ck.prog
    R = "binding"
    ck.rule(R, "each binary operator binds as tightly as the others of its group, and tighter than those of every looser group; a prefix operator binds tighter than all of them", 26)
    rank = {v: i for i, v in enumerate(prog.variants(SP + "expression::OpBindingPower"))}
    own = [n for n in prog.fns if re.search(r"<spade_parser::expression::OpBindingPower as std::cmp::(PartialOrd|Ord)>", n)]
    got, w = by_variant(ck, SP + "expression::binop_binding_power", "spade_ast::BinaryOperator")
    un, _ = by_variant(ck, SP + "expression::unop_binding_power", "spade_ast::UnaryOperator")
    one = lambda s: rank.get(next(iter(s))[len(PW):].rstrip("{}")) if s and len(s) == 1 else None
    lv = {v: one(x) for v, x in got.items()}
    for i, grp in enumerate(LEVELS):
        for v in grp:
            x = lv.get(v)
            ok = x is not None and all(lv.get(o) == x for o in grp) and all(lv.get(o) is not None and lv[o] < x for l in LEVELS[:i] for o in l)
            ck.ob(R, v, ok, "%s binds with %s, among %s" % (v, sorted(got.get(v, ())), {o: sorted(got.get(o, ())) for o in grp if o != v}), w)
    new = set(prog.variants("spade_ast::BinaryOperator")) - {v for l in LEVELS for v in l}
    ck.ob(R, "all operators", not new, "operators without a place among the groups: %s" % sorted(new), w)
    top = max((x for x in lv.values() if x is not None), default=0)
    ck.ob(R, "prefix", bool(un) and all(one(x) is not None and one(x) > top for x in un.values()), "a prefix operator binds looser than a binary one: %s" % un, w)
    ck.ob(R, "none", rank.get("None") is not None and rank["None"] < min((x for x in lv.values() if x is not None), default=0), "an operator binds no tighter than the start of an expression", w)
    R = "tokens"
    ck.rule(R, "each operator token stands for its operator, other tokens for none", 40)
    for fn, want, pre in (("binop_from_kind", BIN, BO), ("unop_from_kind", UN, UO)):
        got, w = by_variant(ck, EX + fn, "spade_ast::token::TokenKind")
        for v in prog.variants("spade_ast::token::TokenKind"):
            e = pre + want[v] + "{}" if v in want else "None"
            ck.ob(R, fn + " " + v, got.get(v) == {e}, "the token %s stands for %s, not %s" % (v, sorted(got.get(v, ())), e), w)

    R = "climbing"
    ck.rule(R, "an expression takes the operators that bind tighter than the context, each with a right operand that takes only tighter ones (so equal ones group to the left); custom infix operators bind loosest and group to the right; only a minus in front of a literal becomes part of it", 9)
    g = ck.graph(EX + "expr_bp", precise=True)
    r = LR({("arg", 0): "p", ("arg", 1): "min"}, prog)
    w = where(g)
    op, uop = "binop_from_kind(peek(p).kind)", "unop_from_kind(peek(p).kind)"
    rhs = "expr_bp(p, binop_binding_power(%s))" % op
    fin = [c for c, x in value_cases(ck, g, r)]
    table(ck, R, "stops", [(c, {"done"}) for c in fin if c.get("is_some(%s)" % op) is not False], [({"binop_binding_power(%s)-min > 0" % op: False}, "done")], lambda k: " > 0" in k, w)
    ck.ob(R, "ends", any(c.get("is_some(%s)" % op) is False for c in fin), "an expression ends where no operator follows", w)
    made = []
    for n, x, d, rec in g.calls():
        for a in g.args_of(n):
            for t in ir.alts(a):
                if t[0] == "agg" and t[1] == "spade_ast::Expression" and t[2] == "BinaryOperator":
                    made.append((n, t))
    for n, t in made:
        fs = dict(t[3])
        ck.ob(R, "operands", r.v(fs["1"]) == op and r.v(fs["2"]) == rhs and "expr_bp(p, binop" not in r.v(fs["0"]).replace("2: " + rhs + "}", ""), "a binary operator gets the operands %s" % [r.v(fs[k])[:160] for k in sorted(fs)], w)
    ck.ob(R, "built", bool(made), "binary operators are built in expr_bp", w)
    calls = {r.v(g.args_of(n)[1]) for n, x, _, _ in g.calls() if x == EX + "expr_bp"}
    ck.ob(R, "powers", calls == {"binop_binding_power(%s)" % op, "unop_binding_power(%s)" % uop}, "operands are parsed with the binding power of their operator: %s" % sorted(calls), w)
    neg = [(r.v(g.args_of(n)[1]), r.v(g.args_of(n)[2])) for n, x, _, _ in g.calls() if x == EX + "inline_negative_literal"]
    ck.ob(R, "prefix", neg == [(uop, "expr_bp(p, unop_binding_power(%s))" % uop)], "a prefix operator applies to the operand after it: %s" % neg, w)
    must_call(ck, R, "operand", g, lambda p, d, a: p.endswith("::base_expression") or p.endswith("::inline_negative_literal"), "an expression without an operand")
    g = ck.graph(EX + "custom_infix_operator", precise=True)
    r = LR({("arg", 0): "p"}, prog)
    cs = value_cases(ck, g, r)
    lhs = "expr_bp(p, OpBindingPower::None{})"
    ck.ob(R, "infix", bool(cs) and all(x == {lhs} or (len(x) == 1 and "args: ArgumentList::Positional{0: [%s, custom_infix_operator(p)]}" % lhs in next(iter(x)) and any("InfixOperatorSeparator" in k and v is True for k, v in c.items())) for c, x in cs) and any(x == {lhs} for c, x in cs) and any(x != {lhs} for c, x in cs), "custom infix operators: %s" % [sorted(x)[0][:160] for c, x in cs], where(g))
    g = ck.graph(EX + "inline_negative_literal", precise=True)
    r = LR({("arg", 0): "p", ("arg", 1): "op", ("arg", 2): "e"}, prog)
    bad = []
    n_ = 0
    for c, x in value_cases(ck, g, r):
        o, k = c.get("variant of split_loc(op).0"), c.get("variant of split_loc(e).0")
        lit = next((v for q, v in c.items() if q.endswith(".IntLiteral.0")), None)
        if o in ("Sub", None) and k in ("IntLiteral", None) and lit:
            v = "split_loc(e).0.IntLiteral.0.%s" % lit
            want = "Expression::IntLiteral{0: IntLiteral::" + ("Unsized{0: neg(%s.0)}}" % v if lit == "Unsized" else "Signed{val: neg(%s.val), size: %s.size}}" % (v, v))
            n_ += 1
        else:
            want = "Expression::UnaryOperator{0: split_loc(op).0, 1: split_loc(e).0}"
            if o in ("Sub", None) and k in ("IntLiteral", None):
                bad.append("%s: %s" % (c, x))
        if x != {want}:
            bad.append("%s: %s" % (c, sorted(x)[:1]))
    ck.ob(R, "negative literals", n_ == 2 and not bad, "a prefix operator gives %s" % str(bad[:2])[:400], where(g))

    R = "primary"
    ck.rule(R, "each kind of primary expression becomes its own kind of node, with the parts that were parsed, and may be followed by suffixes", 20)
    f = EX + "base_expression"
    n = f + "::{closure#0}" if f + "::{closure#0}" in prog.fns else f
    g = ck.graph(n, precise=True)
    r = LR({("arg", 0): "p"}, prog)
    P = "p.^0" if n != f else "p"
    seen = set()
    for c, x in value_cases(ck, g, r):
        on = [m.group(2) for k, v in c.items() if v is True for m in [re.match(r"^is_some\(((\w+)\(%s.*)\)$" % re.escape(P), k)] if m and m.group(2) not in ("argument_list",)]
        full = [k[8:-1] for k, v in c.items() if v is True and k.startswith("is_some(") and not k.startswith("is_some(argument_list")]
        if len(on) != 1:
            ck.ob(R, "case %s" % on, False, "a case without one primary expression: %s" % str(c)[:200], where(g))
            continue
        k, t = on[0], full[0]
        if k == "path_with_turbofish":
            al = "argument_list(%s)" % P
            mac = c.get(t + ".1")
            if mac is True:
                m_ = re.match(r"^expression_suffix\(%s, Expression::MacroCall\{callee: %s\.0, tokens: enclosed_token_stream\(%s, peek\(%s\)\.kind, TokenKind::Close(\w+)\{\}\), parse_ctx" % tuple(re.escape(y) for y in (P, t, P, P)), next(iter(x)))
                opn = c.get("variant of peek(%s).kind" % P)
                ck.ob(R, "macro %s" % opn, len(x) == 1 and bool(m_) and opn == "Open" + m_.group(1), "a macro call becomes %s" % sorted(x)[0][:200], where(g))
                seen.add("macro %s" % opn)
                continue
            if c.get("is_some(%s)" % al) is True:
                want = "expression_suffix(%s, Expression::Call{kind: CallKind::Function{}, callee: %s.0, args: %s, turbofish: %s.2})" % (P, t, al, t)
                k = "call"
            else:
                want = "expression_suffix(%s, Expression::Identifier{0: %s.0})" % (P, t)
                k = "identifier"
        else:
            want = "expression_suffix(%s, %s)" % (P, PRIMARY.get(k, "?").replace("{}", t))
        seen.add(k)
        ck.ob(R, k, x == {want}, "%s becomes %s" % (k, sorted(x)[0][:200]), where(g))
    miss = set(PRIMARY) | {"call", "identifier"}
    ck.ob(R, "all kinds", miss <= seen, "no case for %s" % sorted(miss - seen), where(g))
    # ---- numbers
    R = "numbers"
    ck.rule(R, "the digits of a number are read in its radix, underscores left out, up to the suffix, which gives signedness and a decimal width", 7)
    g = ck.graph("spade_ast::token::parse_int", precise=True)
    r = LR({("arg", 0): "text", ("arg", 1): "radix"}, prog)
    low = "replace(to_ascii_lowercase(text), [95], '')"
    cs = value_cases(ck, g, r)
    exp = {"u": "Unsigned", "i": "Signed"}
    kinds = {}
    for c, x in cs:
        s = next((k for k in ("u", "i") if any("contains(" in q and "'%s'" % k in q and v is True for q, v in c.items())), None)
        kinds.setdefault(s, set()).update(x)
    for s in ("u", "i", None):
        d = "split(%s, '%s')" % (low, s)
        want = "(parse_bytes(as_bytes(%s[0]), radix), LiteralKind::%s{0: parse_bytes(as_bytes(%s[1]), 10)})" % (d, exp[s], d) if s else "(parse_bytes(as_bytes(%s), radix), LiteralKind::Unsized{})" % low
        ck.ob(R, "suffix %s" % s, {y.replace("as_str(%s)" % low, low) for y in kinds.get(s, ())} == {want}, "a number with suffix %s is read as %s" % (s, sorted(kinds.get(s, ()))[:1]), where(g))
    got = {}
    for k in sorted(prog.fns):
        if re.match(r"^<spade_ast::token::TokenKind as logos::Logos<.*>>::\w+", k):
            g = ck.graph(k, precise=True)
            r = LR({("arg", 0): "lex"}, prog)
            for n_, x, d, rec in g.calls():
                a = g.args_of(n_)
                if len(a) == 2 and "parse_int(" in r.v(a[0]):
                    m = re.search(r"TokenKind::(\w+)>$", r.v(a[1]))
                    got.setdefault(m.group(1) if m else r.v(a[1]), set()).add(r.v(a[0]))
    for k, t in (("Integer", "slice(lex), 10"), ("HexInteger", "slice(lex)[2..], 16"), ("OctInteger", "slice(lex)[2..], 8"), ("BinInteger", "slice(lex)[2..], 2")):
        ck.ob(R, k, got.get(k) == {"parse_int(%s)" % t}, "%s is read as %s" % (k, sorted(got.get(k, ()))), "spade-ast/src/token.rs")
    sig = {True: [], False: []}
    for k in sorted(prog.fns):
        if re.match(r"^spade_parser::Parser<'a>::int_literal::\{", k) and "#prom" not in k:
            g = ck.graph(k, precise=True)
            if not g.root.body.nargs == 1 or k.count("{closure") < 2:
                continue
            cs = value_cases(ck, g, LR({("arg", 0): "env"}, prog))
            if any("to_bigint(" in y for c, x in cs for y in x):
                for c, x in cs:
                    m = next((v for q, v in c.items() if ("TokenKind::Minus{} ==" in q or "== TokenKind::Minus{}" in q) and not q.startswith("None")), next((v == "Minus" for q, v in c.items() if q.startswith("variant of ") and v in ("Minus", "Plus")), None))
                    for b in (True, False) if m is None and not any("== TokenKind::" in q or "TokenKind::Minus" in q for q in c) else (m,):
                        if b is not None:
                            sig[b] += [(y, where(g)) for y in x]
    for m in (True, False):
        ck.ob(R, "sign %s" % m, bool(sig[m]) and all(re.match(r"^neg\(to_bigint\(env\.\^\d\)\)$" if m else r"^to_bigint\(env\.\^\d\)$", y) for y, w in sig[m]),
              "a literal %s a minus is read as %s" % ("with" if m else "without", sorted({y for y, w in sig[m]})), sig[m][0][1] if sig[m] else "spade-parser/src/lib.rs")
