"""Stalling pipelines: the enable, ready and valid signals of the stages."""
import itertools
import re
import ir, paths, core, render
from core import prop
from common import *
from render import compare, event_cases
from lowering import LR, value_cases
from units import nodes, succ, reach
from pipelines import P, named, stored

PUSH = r"StatementList::push_\w+$"


@prop("C38")
def c38(ck):
    prog = ck.prog
    # ---- boolean operations on signals that may be constant
    ck.rule("signals", "a conjunction, choice or inversion of signals is the constant or signal it must be, or a new signal with exactly this operation", 12)
    true, false = "MaybeConst::Const{0: 1}", "MaybeConst::Const{0: 0}"
    new = "MaybeConst::Val{0: e(#1)}"
    val = lambda x: (x, "MaybeConst::Val{0: %s.Val.0}" % x)
    const = lambda x, v: (x, "MaybeConst::Const{0: %s.Const.0}" % x, true if v else false) if v else (x, "MaybeConst::Const{0: %s.Const.0}" % x, false)
    va, neg = "variant of ", "MaybeConst::Const{0: Not(b.Const.0)}"
    tables = {
        "constexpr_and": ("l b c out ctx", [({va + "b": "Val", va + "c": "Val"}, new), ({va + "b": "Val", va + "c": "Const", "c.Const.0": True}, val("b")),
                                            ({va + "b": "Val", va + "c": "Const", "c.Const.0": False}, const("c", 0)), ({va + "b": "Const", "b.Const.0": True, va + "c": "Val"}, val("c")),
                                            ({va + "b": "Const", "b.Const.0": True, va + "c": "Const", "c.Const.0": True}, const("b", 1) + const("c", 1)),
                                            ({va + "b": "Const", "b.Const.0": True, va + "c": "Const", "c.Const.0": False}, const("c", 0)), ({va + "b": "Const", "b.Const.0": False}, const("b", 0))],
                          ("LogicalAnd[b.Val.0, c.Val.0]", "LogicalAnd[c.Val.0, b.Val.0]"), {"b": "Val", "c": "Val"}),
        "constexpr_select": ("l b c d out ctx", [({va + "d": "Val"}, new), ({va + "d": "Const", "d.Const.0": True}, val("b")), ({va + "d": "Const", "d.Const.0": False}, val("c"))],
                             ("Select[d.Val.0, to_value_name(b, l, out, ctx), to_value_name(c, l, out, ctx)]",), {"d": "Val"}),
        "constexpr_inv": ("l b out ctx", [({va + "b": "Val"}, new), ({va + "b": "Const", "b.Const.0": True}, (false, neg)), ({va + "b": "Const", "b.Const.0": False}, (true, neg))], ("Not[b.Val.0]",), {"b": "Val"}),
    }
    for fn, (names, exp, ops, when) in tables.items():
        g = ck.graph(P + fn, precise=True)
        r = named(prog, names)
        compare(ck, "signals", fn, value_cases(ck, g, r), exp, where(g))
        ids = nodes(g, r"ExprIdTracker::next$")
        push = {n: r.v(g.args_of(n)[1]) for n in nodes(g, PUSH)}
        ck.ob("signals", fn + ": new signal", len(ids) >= 1 and bool(push) and all(re.match(r"e\(.*?\) = ", x) and x.endswith(" : Bool") and x.split(" = ", 1)[1][:-len(" : Bool")] in ops for x in push.values()), "the new signal is %s, it must be %s" % (sorted(push.values()), " or ".join(ops)), where(g))
        idx = {x: i for i, x in enumerate(names.split())}
        asm = tuple((("arg", idx[x]), v) for x, v in when.items())
        p = search(g, asm).find(paths.OkReturn(), avoid=set(push))
        ck.ob("signals", fn + ": driven", bool(push) and p is None, "a signal is returned that nothing drives", where(g))
    f = [x for x in prog.fns if x.endswith("::or_const_true") and "pipelines" in x]
    g = ck.graph(f[0] if f else "?", precise=True)
    compare(ck, "signals", "absent", value_cases(ck, g, named(prog, "s")), [({"is_some(s)": True}, ("MaybeConst::Val{0: s}", "MaybeConst::Val{0: s.Some.0}")), ({"is_some(s)": False}, true)], where(g))
    g = ck.graph(P + "MaybeConst::to_value_name", precise=True)
    r = named(prog, "s l out ctx")
    compare(ck, "signals", "constant", value_cases(ck, g, r), [({va + "s": "Val"}, "s.Val.0"), ({va + "s": "Const"}, "e(#1)")], where(g))
    push = {n: r.v(g.args_of(n)[1]) for n in nodes(g, PUSH)}
    ck.ob("signals", "constant: driven", bool(push) and all("Not(" not in x and re.match(r"(const )?e\(.*?\)( =|: Bool =|,).*s\.Const\.0", x) or re.search(r"Constant\{0: e\(.*?\), 1: .*Bool.*, 2: .*Bool\{0: s\.Const\.0\}", x) for x in push.values()), "the constant is %s" % sorted(push.values()), where(g))
    # ---- which stage has which signal
    ck.rule("enable", "a stage has an enable signal if and only if it or a later stage has a condition; the signal is the conjunction of these conditions", 7)
    g = ck.graph(P + "lower_pipeline", precise=True)
    r = named(prog, "ins body out ctx names meth")
    hs = sorted(nodes(g, r"::handle_statement$"))
    if not hs:
        ck.ob("enable", "anchor", False, "the statements of a pipeline are not handled", where(g))
        return
    a = [r.v(x) for x in g.args_of(hs[0])]
    EN, CONDS, CLK = a[6], a[5], a[4]
    READY = EN[:-1] + ", None]" if EN.endswith("]") else "?"
    Z = "<rev>(zip(%s, %s))[*]" % (CONDS, EN)
    short = lambda x: x.replace(READY, "READY").replace(Z, "Z").replace(EN, "ENABLES")[:500]
    # the conditions of the stages and their signals, from the last stage to the first
    st = "<rev>(body.kind.Block.0.statements)[*]"
    vp = {n: r.v(g.args_of(n)[1]) for n in nodes(g, r"Vec<T, A>::push$") if r.v(g.args_of(n)[0]) == EN}
    some = {n for n, x in vp.items() if x.startswith("value_name(new_name(")}
    none = {n for n, x in vp.items() if x == "None"}
    mixed = set(vp) - some - none
    ck.ob("enable", "anchor signals", bool(some or mixed), "no enable signals are made: %s" % sorted(vp.values()), where(g))
    other = lambda v: (lambda t, ty: ({v} if r.v(t) == st else None))
    marked = lambda c: (lambda t, ty: ({"PipelineRegMarker"} if r.v(t) == st else {c} if r.v(t) == st + ".PipelineRegMarker.0" else None))
    asked = lambda c: (lambda t: (int(("is_some" in t[1]) == (c == "Some"))) if t[0] == "call" and re.search(r"Option<.*>::is_(some|none)$", t[1]) and r.v(t[2][0]) == st + ".PipelineRegMarker.0" else None)
    force = lambda t: r.v(t) == st
    if not mixed:
        p = search(g, extra=marked("Some"), decide_bool=asked("Some"), force=force).find(paths.AtNodes({hs[0]}), avoid=some)
        ck.ob("enable", "condition", p is None, "a stage with a condition has no enable signal", where(g))
        p = search(g, extra=marked("Some"), decide_bool=asked("Some")).find(paths.AtNodes(none)) or search(g, extra=marked("None"), decide_bool=asked("None")).find(paths.AtNodes(some))
        ck.ob("enable", "no condition", p is None, "a stage has no enable signal although it has a condition, or has one although no later stage has a condition", where(g))
        grab = Grab(some)
        search(g, extra=marked("Some"), decide_bool=asked("Some")).find(grab)
        q = search(g, extra=marked("None"), decide_bool=asked("None")).find(paths.AtNodes(none), start=grab.states) if grab.states else None
        ck.ob("enable", "later condition", not q, "a stage before one with a condition has no enable signal", where(g))
        p = next((v for v in prog.variants("spade_hir::Statement") if v != "PipelineRegMarker" and search(g, extra=other(v)).find(paths.AtNodes(set(vp)))), None)
        ck.ob("enable", "only stages", p is None, "a statement that is no `reg` has an entry in the list of enable signals: %s" % p, where(g))
    rev = nodes(g, r"<impl \[T\]>::reverse$")
    ck.ob("enable", "order", search(g).find(paths.AtNodes({hs[0]}), avoid=rev) is None and all(r.v(g.args_of(n)[0]) == EN for n in rev), "the enable signals are made from the last stage to the first but not reversed", where(g))
    push = {n: r.v(g.args_of(n)[1]).replace(Z, "Z") for n in nodes(g, PUSH)}
    reads = {n: re.match(r"Z\.1 = (\w+)\[(.*)\] : Bool$", x) for n, x in push.items()}
    first = {n for n, m in reads.items() if m and m.groups() == ("Alias", "Z.0")}
    same = {n for n, m in reads.items() if m and m.groups() == ("Alias", "Z.1")}
    both = {n for n, m in reads.items() if m and m.group(1) == "LogicalAnd" and m.group(2) in ("Z.0, Z.1", "Z.1, Z.0")}
    rest = {n: x for n, x in push.items() if n not in first | same | both and not re.search(r"= reg\{", x)}
    merged = [x for x in rest.values() if re.match(r"Z\.1 = (Alias|<.*\|.*>)\[.*\|", x)]
    ck.ob("enable", "operations", not [x for x in rest.values() if x not in merged], "an enable signal is %s" % [short(x) for x in rest.values()], where(g))
    zf = lambda t: r.v(t) == Z
    has = lambda v: (lambda t, ty: {v} if r.v(t) == Z + ".0" else None)
    if not merged:
        ck.ob("enable", "anchor operations", bool(first and same and both), "the enable signals are: %s" % [short(x) for x in push.values()], where(g))
        al = first | same | both
        bad = []
        if search(g, extra=has("Some"), force=zf).find(paths.OkReturn(), avoid=first):
            bad.append("the condition of the last stage that has one is not its enable signal")
        if search(g, extra=has("None")).find(paths.AtNodes(al)):
            bad.append("a stage without conditions after it has an enable signal that is driven")
        if search(g, extra=has("Some")).find(paths.AtNodes(same)):
            bad.append("a condition of a stage does not stall it")
        for n in sorted(al):
            s = [(m, {}) for m in succ(g, n)]
            if search(g, extra=has("Some"), force=zf).find(paths.OkReturn(), start=s, avoid=both):
                bad.append("a stage with a condition, before another with one, has no enable signal of its own")
            if search(g, extra=has("Some")).find(paths.AtNodes(first | same), start=s):
                bad.append("the enable signal of a stage with a condition, before another with one, is not the conjunction")
            if search(g, extra=has("None")).find(paths.AtNodes(first | both), start=s):
                bad.append("a stage without a condition is stalled by something else than the next one")
            if search(g, extra=has("None"), force=zf).find(paths.OkReturn(), start=s, avoid=same):
                bad.append("the enable signal of a stage without a condition is not that of the next one")
        ck.ob("enable", "conjunction", not bad, "; ".join(sorted(set(bad))), where(g))
    # ---- ready and valid
    ck.rule("valid", "`ready` in a stage is its enable signal; `valid` follows the values through the stages and is cleared where a stage stalls and the next one does not", 7)
    ctxs = [v for n, pl, v in stored(g, r) if "PipelineContext{" in v]
    ck.ob("valid", "ready", bool(ctxs) and all(("PipelineContext{ready_signals: %s, valid_signals: " % READY) in x for x in ctxs), "the ready signals are %s" % [short(x) for x in ctxs], where(g))
    ck.ob("valid", "first stage", bool(ctxs) and all(", valid_signals: [None, " in x for x in ctxs), "the first stage is not always valid: %s" % [short(x) for x in ctxs], where(g))
    sets = {n for n, pl, v in stored(g, r) if "PipelineContext{" in v}
    ck.ob("valid", "stored", bool(sets) and search(g).find(paths.OkReturn(), avoid=sets) is None, "the signals of the stages are not stored", where(g))
    regs = {n: x for n, x in ((n, r.v(g.args_of(n)[1])) for n in nodes(g, PUSH)) if "= reg{" in x}
    ck.ob("valid", "anchor register", len(regs) == 1, "there are %d registers for the valid signals" % len(regs), where(g))
    cond, i = CONDS + "[*]", "<index>(%s)" % CONDS
    for n, x in regs.items():
        vn = x.split(" = reg{")[0]
        both_ = lambda a, b: ["constexpr_and((), %s, %s, out, ctx)" % z for z in ((a, b), (b, a))]
        sel = ["constexpr_select((), or_const_true(%s), MaybeConst::Val{0: %s}, or_const_true(%s[%s]), out, ctx)" % (v, vn, READY, i) for v in (vn, "<None | %s>" % vn, "<%s | None>" % vn)]
        inv = lambda a: "constexpr_inv((), %s, out, ctx)" % a
        nxt = ["or_const_true(%s[%s])" % (READY, j) for j in (i + "+1", "1+" + i)]
        stall = [inv(s) for nx in nxt for s in both_(inv("or_const_true(%s)" % cond), nx)]
        want = {"%s = reg{clock: value_name(%s), reset: None, initial: None, value: %s.Val.0} : Bool" % (vn, CLK, v) for s in sel for t in stall for v in both_(s, t)}
        ck.ob("valid", "register", x in want and re.search(r"<index>\(", vn) is not None, "the valid signal of a stage is %s" % short(x), where(g))
        # what happens to the outcome
        values = {w.split("value: ", 1)[1].rsplit(".Val.0} : ", 1)[0] for w in want}
        outs = [m for m in nodes(g, r"::constexpr_and$") if "constexpr_and(%s)" % ", ".join(r.v(x) for x in g.args_of(m)) in values]
        vpush = {m: r.v(g.args_of(m)[1]) for m in nodes(g, r"Vec<T, A>::push$") if r.v(g.args_of(m)[0]).startswith("[None, ")}
        psome, pnone = {m for m, y in vpush.items() if y == vn}, {m for m, y in vpush.items() if y == "None"}
        go = lambda v, k=None: dict(extra=lambda t, ty: {v} if r.v(t) in values else None, decide_bool=lambda t: k if k is not None and any(r.v(t) == x + ".Const.0" for x in values) else None)
        start = [(x, {}) for m in sorted(outs) for x in succ(g, m)]
        bad = []
        if not start or not psome:
            bad.append("the outcome is not used")
        else:
            if search(g, **go("Val")).find(paths.OkReturn(), start=start, avoid={n}) or search(g, **go("Val")).find(paths.OkReturn(), start=start, avoid=psome) or search(g, **go("Val")).find(paths.AtNodes(pnone), start=start):
                bad.append("a stage that can be invalid has no valid signal")
            if search(g, **go("Const", 1)).find(paths.OkReturn(), start=start, avoid=pnone) or search(g, **go("Const", 1)).find(paths.AtNodes(psome | {n}), start=start):
                bad.append("a stage that is always valid has a valid signal")
            if search(g, **go("Const", 0)).find(paths.OkReturn(), start=start):
                bad.append("a stage that is never valid is accepted")
        ck.ob("valid", "outcome", not bad, "; ".join(bad), where(g))
        # the stage after it starts from this signal
        b = g.root.body
        opt = lambda l: re.sub(r"\s", "", b.ty(l)) == "std::option::Option<spade_mir::ValueName>"
        init = {s[0][0] for bb in b.bbs for s in bb["s"] if not bb["c"] and len(s[0]) == 1 and opt(s[0][0]) and s[1][0] == "agg" and s[1][2] == "None"}
        sel_n = {m for m in nodes(g, r"::constexpr_select$")}
        later = {(0, i2) for i2, bb in enumerate(b.bbs) if not bb["c"] and any(len(s[0]) == 1 and s[0][0] in init and not (s[1][0] == "agg" and s[1][2] == "None") for s in bb["s"])}
        p = search(g).find(paths.AtNodes(sel_n), start=[(m, {}) for m in succ(g, n)], avoid=later)
        ck.ob("valid", "passed on", p is None, "the valid signal of a stage does not follow from that of the stage before", where(g))


class Grab:
    """collects the states in which some nodes are reached"""
    needs_env = True

    def __init__(self, nodes):
        self.nodes, self.states = set(nodes), []

    def __call__(self, g, n, env):
        if n in self.nodes:
            self.states.append((n, dict(env)))
        return False
