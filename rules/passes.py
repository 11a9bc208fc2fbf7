"""Passes over the intermediate representation which replace statements: split registers, clock gating, duplicate wires."""
import re
import ir, paths, core, render
from core import prop
from common import *
from render import compare
from lowering import LR, value_cases, bool_cases

MIR = "spade_mir::"
P = MIR + "passes::"
ST = "spade_mir::Statement"
ANAMES = {("arg", i): x for i, x in enumerate("e a b c d f".split())}


def stripped(cases):
    """statements without the locations of the source they come from"""
    return [(c, [re.sub(r", ?(loc|e\.loc)\b", "", x) for x in v]) for c, v in cases]


@prop("C37")
def c37(ck):
    prog = ck.prog
    # ---- one register per member
    ck.rule("split", "a register of a compound type becomes one register per member: same clock and reset condition, that member's part of the value and of the reset value", 3)
    f = P + "split_compound_regs::split_compound_reg"
    g = ck.graph(f, precise=True)
    r = LR({("arg", 0): "e", ("arg", 1): "ids"}, prog)
    cs = [(c, sorted(v)) for c, v in value_cases(ck, g, r)]
    exp = [({"is_some(e.initial)": True}, "[e]")]
    for v in prog.variants("spade_mir::types::Type"):
        m = {"Tuple": "e.ty.Tuple.0", "Struct": "map(e.ty.Struct.0[*].1)"}.get(v)
        if v == "Array":
            arr = "map(e.ty.Array.inner for 0..e.ty.Array.length)"
            exp.append(({"is_some(e.initial)": False, "variant of e.ty": v}, tuple("generate_split_code(e, %s, ids)" % x for x in (arr, "repeat(e.ty.Array.inner, e.ty.Array.length)")) + ("[e]",)))
        elif m:
            exp.append(({"is_some(e.initial)": False, "variant of e.ty": v}, ("generate_split_code(e, %s, ids)" % m, m.startswith("map") and "generate_split_code(e, %s, ids)" % m[4:-1] or "[e]", "[e]")))
        else:
            exp.append(({"is_some(e.initial)": False, "variant of e.ty": v}, "[e]"))
    compare(ck, "split", "which", cs, exp, where(g))
    f = P + "split_compound_regs::generate_split_code"
    g = ck.graph(f, precise=True)
    r = LR({("arg", 0): "e", ("arg", 1): "ms", ("arg", 2): "ids"}, prog)
    cs = [(c, sorted(v)) for c, v in value_cases(ck, g, r)]
    i = "<index>(ms)"
    for has in (True, False):
        got = [x for c, v in cs if c.get("is_some(e.reset)") in (has, None) for x in v]
        reg, val, rst = (r"e\(#(\d+)\)" for _ in range(3))
        rx = r"\[\*(?:flat_)?map\(\[e\(#(?P<v>\d+)\) = IndexTuple\(%s\)\[e\.value\] : ms\[\*\], " % re.escape(i)
        rx += (r"\*?e\(#(?P<r>\d+)\) = IndexTuple\(%s\)\[e\.reset\.1\] : ms\[\*\], " % re.escape(i)) if has else r"(?:\*None, )?"
        rx += r"\*split_compound_reg\(e\(#(?P<n>\d+)\) = reg\{clock: e\.clock, reset: %s, initial: (?:None|e\.initial), value: e\(#(?P=v)\)\} : ms\[\*\], ids\)\]\), " % (r"\(e\.reset\.0, e\(#(?P=r)\)\)" if has else "None")
        rx += r"e\.name = ConstructTuple\[e\(#(?P=n)\) for (?:enumerate\()?ms\)?\] : e\.ty\]$"
        ck.ob("split", "members %s reset" % ("with" if has else "without"), bool(got) and all(re.match(rx, x) for x in got), "a register is split into %s" % [x[:700] for x in got], where(g))
    # ---- tag and payload
    ck.rule("gated", "a register of an option-like type is gated by its new tag: tag and payload keep clock, reset condition and their part of the value and of the reset value", 6)
    f = "<spade_common::location_info::Loc<&spade_mir::Register> as %sauto_clock_gating::RegExt>::perform_trivial_gating" % P
    g = ck.graph(f, precise=True)
    r = LR({("arg", 0): "e", ("arg", 1): "ids"}, prog)
    cs = [(c, sorted(v)) for c, v in value_cases(ck, g, r)]
    none = [c for c, v in cs if v == ["None"]]
    some = [(c, v) for c, v in cs if v != ["None"]]
    ck.ob("gated", "anchor", bool(some), "no register is gated", where(g))
    vs = "e.ty.Enum.0"
    for c, v in some:
        ok = c.get("is_some(e.initial)") is False and c.get("variant of e.ty") == "Enum" and c.get("-len(%s)+2 == 0" % vs) is True and (c.get("-len(%s[0]) == 0" % vs) is True or c.get("is_empty(%s[0])" % vs) is True)
        ck.ob("gated", "which %s" % sorted(k for k, b in c.items() if b is True), ok, "a register is gated if %s" % c, where(g))
        has = c.get("is_some(e.reset)")
        t = lambda x, k: r"split_trivial_tag_value\(%s, %s, .*?, ids, e\.loc\)\.%d" % (re.escape(x), re.escape(vs), k)
        rr = lambda k: (r"\(e\.reset\.0, %s\)" % t("e.reset.1", k)) if has else "None"
        rx = r"\[e\(#(?P<t>\d+)\) = reg\{clock: e\.clock, reset: %s, initial: None, value: %s\} : Bool, " % (rr(0), t("e.value", 0))
        rx += r"e\(#(?P<v>\d+)\) = Select\[%s, %s, e\(#(?P<p>\d+)\)\] : Tuple\(%s\[1\]\), " % (t("e.value", 0), t("e.value", 1), re.escape(vs))
        rx += r"e\(#(?P=p)\) = reg\{clock: e\.clock, reset: %s, initial: None, value: e\(#(?P=v)\)\} : Tuple\(%s\[1\]\), " % (rr(1), re.escape(vs))
        rx += r"e\.name = Concat\[e\(#(?P=t)\), e\(#(?P=p)\)\] : e\.ty\]$"
        ck.ob("gated", "registers %s" % has, len(v) == 1 and re.match(rx, v[0]) is not None, "a register is gated by %s" % [x[:900] for x in v], where(g))
    g = ck.graph(P + "auto_clock_gating::split_trivial_tag_value", precise=True)
    r = LR({("arg", 0): "e", ("arg", 1): "vs", ("arg", 2): "out", ("arg", 3): "ids", ("arg", 4): "loc"}, prog)
    size = "sum(map(size(vs[1][*])))"
    got = [x for c, v in value_cases(ck, g, r) for x in v]
    push = [r.v(g.args_of(n)[1]) for n, x, d, rec in g.calls() if x.endswith("Vec<T, A>::push")]
    rx0 = r"(e\(.*\)) = RangeIndexBits[({]start: (.*), end_exclusive: (.*)[)}]\[e\] : Bool$"
    rx1 = r"(e\(.*\)) = RangeIndexBits[({]start: (.*), end_exclusive: (.*)[)}]\[e\] : Tuple\(vs\[1\]\)$"
    m0 = [m for x in push if (m := re.match(rx0, x))]
    m1 = [m for x in push if (m := re.match(rx1, x))]
    ck.ob("gated", "parts", len(push) == 2 and len(m0) == len(m1) == 1, "a value is taken apart by %s" % push, where(g))
    if m0 and m1:
        s = m0[0].group(2)
        ck.ob("gated", "tag above payload", "size(vs[1][*])" in s and m0[0].group(3) in (s + "+1", "1+" + s) and m1[0].group(2) == "0" and m1[0].group(3) == s, "the tag is taken from %s..%s, the payload from %s..%s" % (s, m0[0].group(3), m1[0].group(2), m1[0].group(3)), where(g))
    # ---- every other statement is kept
    ck.rule("kept", "what a pass does not replace is kept as it is", 12)
    for name, f, ev in (("split", "<%ssplit_compound_regs::SplitCompoundRegs as %sMirPass>::transform_statements" % (P, P), ("map([split_compound_reg(a[*], b)])", "map(split_compound_reg(a[*], b))", "map(split_compound_reg(a[*].Register.0, b))")),
                        ("gate", "<%sauto_clock_gating::AutoGating as %sMirPass>::transform_statements" % (P, P), None)):
        g = ck.graph(f, precise=True)
        r = LR({("arg", 0): "e", ("arg", 1): "a", ("arg", 2): "b"}, prog)
        for c, v in [(c, sorted(v)) for c, v in value_cases(ck, g, r)]:
            k = c.get("variant of a[*]", "")
            ck.ob("kept", "%s %s %s" % (name, k, sorted(x for x in c if "variant" not in x)), bool(v) and all(("a[*].Register.0" in x and ("split_compound_reg" in x or "perform_trivial_gating" in x)) if k == "Register" else re.match(r"(flat_)?map\(\[?a\[\*\]\]?\)$|a$", x) for x in v), "the statements become %s" % [x[:300] for x in v], where(g))
    # ---- duplicates
    ck.rule("duplicates", "only a wire which is computed by the same operation on the same operands is replaced, by the wire that computes it", 14)
    f = P + "deduplicate_mut_wires::replace_duplicate_mut_wires"
    g = ck.graph(f, precise=True)
    r = LR({("arg", 0): "e"}, prog)
    b = "e[*].Binding.0."
    key = "(%soperator, %soperands, %sty)" % (b, b, b)
    ins = {n: g.args_of(n) for n, x, d, rec in g.calls() if re.search(r"Map<.*>::insert$", x)}
    rep = {n for n, a in ins.items() if r.v(a[1]) == b + "name"}
    seen = {n for n, a in ins.items() if r.v(a[1]) == key and r.v(a[2]) == b + "name"}
    ck.ob("duplicates", "anchor", bool(rep) and bool(seen), "the replaced names (%d) and the operations seen (%d) are not found: %s" % (len(rep), len(seen), [r.v(a[1]) for a in ins.values()]), where(g))
    for k, want, dec in (("no wires flow backwards", False, lambda t: 1 - int(t[1].endswith("ne")) if t[0] == "call" and re.search(r"PartialEq.*::(eq|ne)$", t[1]) and "backward_size(" in ir.show(t) else None),
                         ("the operation has no result", False, lambda t: 0 if t[0] == "call" and t[1].endswith("op_needs_deduplication") else None), ("it is a duplicate", True, None)):
        p = search(g, decide_bool=dec).find(paths.AtNodes(rep))
        ck.ob("duplicates", "replaced if " + k, (p is not None) == want, "a wire is%s replaced if %s" % (" not" if want else "", k), where(g))
    got = lambda t: t[0] in ("at", "call") and key in r.v(t)
    p = search(g, extra=lambda t, ty: {"None"} if ty and "Option" in ty and got(t) else None).find(paths.AtNodes(rep))
    ck.ob("duplicates", "replaced if it is new", p is None, "a wire which no earlier one is equal to is replaced", where(g))
    for n in rep:
        v = r.v(ins[n][2])
        ck.ob("duplicates", "replaced by", key in v and (b + "name") not in v.replace(key, ""), "a wire is replaced by %s" % v[:200], where(g))
    g2 = ck.graph(P + "deduplicate_mut_wires::op_needs_deduplication", precise=True)
    cases = bool_cases(ck, g2, LR(ANAMES, prog))
    for v in ("Instance", "DeclClockedMemory", "Nop", "Match", "ReadMutWires"):
        hit = [x for c, xs in cases for x in xs if c.get("variant of e") == v]
        if hit or v in prog.variants("spade_mir::Operator"):
            ck.ob("duplicates", "not merged: " + v, hit == ["0"], "two such values are merged although each is its own", where(g2))
    cs = [(c, sorted(v)) for c, v in value_cases(ck, g, r)]
    for c, v in cs:
        k = c.get("variant of e[*]")
        gone = [b for x, b in c.items() if x.startswith("contains_key(")]
        what = [x for x in c if x.startswith("contains_key(")]
        if gone == [True]:
            ok = k in ("Binding", "Set") and v == ["nothing()"] and what[0].endswith(", %s)" % ("e[*].Binding.0.name" if k == "Binding" else "e[*].Set.target"))
        elif k == "Binding":
            ok = len(v) == 1 and re.match(r"map\(%s = %s\[.*%s.*\] : %s\)$" % tuple(map(re.escape, (b + "name", b + "operator", b + "operands[*]", b + "ty"))), v[0]) is not None
        elif k == "Set":
            ok = len(v) == 1 and re.match(r"map\((e\[\*\]|set .*e\[\*\]\.Set\.target.* = .*e\[\*\]\.Set\.value.*)\)$", v[0]) is not None
        else:
            ok = v == ["map(e[*])"]
        ck.ob("duplicates", "kept %s %s" % (k, gone), ok, "if %s the statement becomes %s" % (c, [x[:300] for x in v]), where(g))
