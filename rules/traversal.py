"""Traversal completeness: nothing of a program is skipped by a pass over it."""
import re
import ir, paths, core
from core import prop, leaves, must_visit
from common import must_call

HEXPR = "spade_hir::expression::Expression"
HEK = "spade_hir::expression::ExprKind"
HIRDESC = lambda h: h in {"spade_hir::Block", "spade_hir::Statement", "spade_hir::Binding", "spade_hir::Register", "spade_hir::PipelineRegMarkerExtra", "spade_hir::expression::ArgumentList", "spade_hir::expression::NamedArgument"}


def expr_children(prog, kind, only=None, targets=(HEXPR,)):
    """(label, head, term, assumptions) of every sub-expression an expression kind can hold"""
    out = []
    for vn, _, fs in prog.adt(HEK)["vs"]:
        if only and vn not in only:
            continue
        for fn, fty, _ in fs:
            for l in leaves(prog, fty, ir.field(kind, vn + "." + fn), set(targets), ((kind, vn),), vn + "." + fn, descend=HIRDESC):
                out.append(l)
    return out


def hir_pass(ck):
    ck.rule("pass-visits", "on every path of the HIR pass driver that succeeds for an expression of kind K, every sub-expression held by K has been handed to the pass driver", 30)
    ck.rule("pass-self", "the pass driver hands the expression itself, each statement, each unit and its body to the pass on every successful path", 4)
    e = "<spade_common::location_info::Loc<spade_hir::expression::Expression> as spade_hir_lowering::passes::pass::Passable>::apply"
    g = ck.graph(e, r"ArgumentList<.*>::expressions(_mut)?$")
    kind = ir.field(("arg", 0), "kind")
    must_visit(ck, "pass-visits", g, expr_children(ck.prog, kind), lambda r, d: d.endswith("Passable::apply"), "apply")
    must_call(ck, "pass-self", "expression", g, lambda r, d, a: d.endswith("Pass::visit_expression") and len(a) > 1 and a[1] == ("arg", 0), "an expression is left without being handed to the pass itself")
    st = ir.field(ir.field(kind, "Block.0"), "statements")
    must_visit(ck, "pass-self", g, [("Block.statements[*]", "", ir.elem(st), ((kind, "Block"),))], lambda r, d: d.endswith("Pass::visit_statement"), "visit_statement")
    u = "<spade_hir::Unit as spade_hir_lowering::passes::pass::Passable>::apply"
    g = ck.graph(u)
    must_call(ck, "pass-self", "unit", g, lambda r, d, a: d.endswith("Pass::visit_unit") and a[1] == ("arg", 0), "a unit is left without being handed to the pass")
    must_call(ck, "pass-self", "unit body", g, lambda r, d, a: d.endswith("Passable::apply") and a[0] == ir.field(("arg", 0), "body"), "the body of a unit is not handed to the pass driver")


@prop("C04")
def c04(ck):
    hir_pass(ck)
