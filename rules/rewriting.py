"""Passes over the intermediate representation which give its values other names: inlining, alias removal, renaming."""
import re
import ir, paths, core, render
from core import prop, leaves, must_visit
from common import *
from lowering import LR
from render import event_cases
from units import reach, nodes, has, succ

VN = "spade_mir::ValueName"
ST = "spade_mir::Statement"
MIRDESC = lambda h: h in {ST, "spade_mir::Binding", "spade_mir::Register", "spade_mir::MirInput", "spade_mir::Entity"}
show = ir.show
A = lambda i: ("arg", i)


def names_of(prog, term, ty=ST, only=None):
    """every name of a value a statement can hold"""
    for label, head, t, assume in leaves(prog, ty, term, {VN}, label="statement", descend=MIRDESC):
        # initial values are evaluated while compiling, they are no values of the unit
        if "initial" not in label and (not only or only(label)):
            yield label, head, t, assume


def defining(label):
    return re.search(r"Binding\.0\.name$|Register\.0\.name$|Constant\.0$", label) is not None


def of_statement(v, base=None):
    return lambda t, ty: {v} if ty and ty.replace("&mut", "").replace("&", "").strip() == ST and (base is None or t == base) else None


def input_visited(ck, rule, g, is_event, key, arg=None, decide_bool=None):
    """as must_visit for the inputs of the unit, which may be visited in several filtered walks"""
    ins = ir.field(A(0), "inputs")
    term = ir.field(ir.elem(ins), "val_name")
    part = ir.field(ir.elem(ins), "no_mangle")

    def strip(t, v):
        """t without filters on whether the name is kept; None if a filter drops the input"""
        if not isinstance(t, tuple):
            return t
        if t[:1] == ("call",) and t[1] == "<filter>":
            c, neg = t[2][1], False
            while c[0] == "un" and c[1] == "Not":
                c, neg = c[2], not neg
            m = re.search(r"Option<.*>::is_(some|none)$", c[1]) if c[0] == "call" else None
            x = strip(t[2][0], v)
            if m and c[2][0] == part and x == ins:
                return x if ((m.group(1) == "some") == bool(v)) != neg else None
            return t
        out = tuple(strip(x, v) for x in t)
        return None if any(o is None and x is not None for o, x in zip(out, t)) else out

    for v, label in ((1, "kept"), (0, "mangled")):
        def raw(t, v=v):
            m = re.search(r"Option<.*>::is_(some|none)$", t[1]) if t[0] == "call" else None
            return None if not m or t[2][0] != part else v if m.group(1) == "some" else 1 - v
        ev = set()
        for n, r, d, rec in g.calls(is_event):
            for x in (g.args_of(n) if arg is None else [g.args_of(n)[i] for i in arg]):
                if any((y := strip(z, v)) is not None and ir.derives(y, term) for z in ir.alts(x)):
                    ev.add(n)
        force = lambda t, v=v: (lambda x: x is not None and core.relates(x, term))(strip(t, v))
        p = paths.Search(g, decide=core.decider(((part, "Some" if v else "None"),)), decide_bool=raw, force=force).find(paths.OkReturn(), avoid=ev)
        ck.ob(rule, "%s input (name %s)" % (key, label), p is None and bool(ev), "a path leaves an input out" if p is not None else "nothing is done with it", where(g))


@prop("C09")
def c09(ck):
    prog = ck.prog
    stm = ir.elem(ir.field(A(0), "statements"))
    # ---- make_names_predictable
    ck.rule("renamed", "a pass which renames values renames every place of the unit where a name can occur", 26)
    f = "spade_mir::renaming::make_names_predictable"
    g = ck.graph(f, precise=True)
    both = lambda t: True
    look = lambda r, d: bool(re.search(r"NameState::get$|Map<.*>::get$", r))
    every = list(names_of(prog, stm)) + [("input", VN, ir.field(ir.elem(ir.field(A(0), "inputs")), "val_name"), ()), ("output", VN, ir.field(A(0), "output"), ())]
    must_visit(ck, "renamed", g, [x for x in every if x[0] != "input"], look, "predictable names")
    input_visited(ck, "renamed", g, look, "predictable names")
    st = [(g.place(g.ctxs[n[0]], pl), v()) for n, pl, v in g.stores()]
    for label, head, t, assume in every:
        to = [v for p, v in st if p == t or (ir.derives(p, t) and p != t)]
        ok = bool(to) and all(has(v, lambda x: x == t) and not has(v, lambda x: any(x == o[2] for o in every if o[2] != t)) for v in to)
        ck.ob("renamed", "predictable names stored in " + label, ok, "the name that is written to it is %s" % [show(v)[:120] for v in to], where(g))
    # ---- flatten_aliases
    f = "spade_mir::aliasing::flatten_aliases"
    g = ck.graph(f, precise=True)
    ren = lambda r, d: bool(re.search(r"aliasing::try_rename$", r))
    every = list(names_of(prog, stm)) + [("output", VN, ir.field(A(0), "output"), ())]
    must_visit(ck, "renamed", g, every, ren, "aliases", arg=(0,))
    tg = ck.graph("spade_mir::aliasing::try_rename", precise=True)
    st = [(n, tg.place(tg.ctxs[n[0]], pl), v()) for n, pl, v in tg.stores()]
    ck.ob("renamed", "alias replaced", bool(st) and all(p == A(0) or ir.derives(p, A(0)) for n, p, v in st) and all(show(v).startswith("arg1[") and "arg', 0" in show(v) for n, p, v in st), "a name is replaced by %s" % [show(v)[:120] for n, p, v in st], where(tg))
    p = search(tg, extra=lambda t, ty: {"Some"} if ty and "Option<" in ty else None).find(paths.OkReturn(), avoid={n for n, p, v in st})
    ck.ob("renamed", "alias always replaced", p is None, "a name that has a replacement is kept", where(tg))
    # ---- definitions
    ck.rule("defined", "every name a unit defines gets a new name, and the type it was defined with", 10)
    f = "spade_mir::renaming::make_names_predictable"
    g = ck.graph(f, precise=True)
    defs = list(names_of(prog, stm, only=defining)) + [("input", VN, ir.field(ir.elem(ir.field(A(0), "inputs")), "val_name"), ())]
    push = lambda r, d: r.endswith("NameState::push")
    must_visit(ck, "defined", g, [d for d in defs if d[0] != "input"], push, "new name,")
    input_visited(ck, "defined", g, push, "new name,")
    f = "spade_mir::type_list::MirTypeList::from_entity"
    g = ck.graph(f, r"MirTypeList::add_statements$", precise=True)
    isins = lambda r, d: bool(re.search(r"Map<.*>::insert$", r))
    must_visit(ck, "defined", g, defs, isins, "type")
    for n, r, d, rec in g.calls(isins):
        a = g.args_of(n)
        par = a[1][1] if a[1][0] == "f" else None
        kind = [l for l, _, t, _ in defs if ir.derives(a[1], t)]
        ty = {"name": "ty", "val_name": "ty", "Constant.0": "Constant.1"}
        ok = any(ir.derives(a[1], t) and ir.derives(a[2], type_of(t)) for _, _, t, _ in defs)
        ck.ob("defined", "type of %s" % (kind[0] if kind else show(a[1])[:60]), ok, "the type recorded for %s is %s" % (show(a[1])[:80], show(a[2])[:80]), where(g))
    # ---- removal of aliases
    ck.rule("aliases", "only aliases of a value are removed, in favour of the value they are an alias of", 30)
    f = "spade_mir::aliasing::flatten_aliases"
    g = ck.graph(f, precise=True)
    isalias = lambda vs: (lambda t, ty: vs if ty and ty.replace("&", "").strip() == "spade_mir::Operator" else {"Binding"} if ty and ty.replace("&mut", "").replace("&", "").strip() == ST else None)
    edge = {n for n, r, d, rec in g.calls() if re.search(r"Vec<T, A>::push$|Entry<.*>::or_insert\w*$", r) and has(g.args_of(n)[0], lambda t: t[0] == "call" and t[1].endswith("::entry"))}
    ck.ob("aliases", "anchor edges", len(edge) >= 2, "the place where aliases are collected was not found", where(g))
    def const(t, v=None):
        if t[0] == "k" and t[1] in (0, 1):
            return t[1]
        if v and t[0] == "call" and re.search(r"Operator as std::cmp::PartialEq.*::(eq|ne)$", t[1]):
            o = [x for x in t[2] if x[0] == "agg" and str(x[1]).endswith("Operator")]
            return int((o[0][2] == v) == t[1].endswith("eq")) if len(o) == 1 else None
    rt = [x for x in prog.fns if x.startswith(f + "::{closure") and "#prom" not in x and prog.fns[x].ty(0) == "bool" and any(re.search(r"Map<.*>::contains_key$|Map<.*>::get$", r) for _, r, _, _ in ck.graph(x, precise=True).calls())]
    ck.ob("aliases", "anchor removal", len(rt) == 1 or not any(re.search(r"::retain(_mut)?$", r) for _, r, _, _ in g.calls()), "the place where aliases are removed was not found", where(g))
    for v in prog.variants("spade_mir::Operator"):
        if v != "Alias":
            p = search(g, extra=isalias({v}), decide_bool=lambda t: const(t, v)).find(paths.AtNodes(edge))
            ck.ob("aliases", "no alias: " + v, p is None, "an operator that is no alias is treated as one", where(g))
    for x in rt:
        rg = ck.graph(x, precise=True)
        for v in prog.variants("spade_mir::Operator"):
            p = search(rg, extra=isalias({v}), decide_bool=lambda t: const(t, v)).find(BoolReturn(0))
            ck.ob("aliases", "removed: " + v, (p is None) == (v != "Alias"), "a binding with this operator %s" % ("is removed" if v != "Alias" else "is not removed"), where(rg))
        for v in prog.variants(ST):
            if v != "Binding":
                p = search(rg, extra=of_statement(v)).find(BoolReturn(0))
                ck.ob("aliases", "removed: statement " + v, p is None, "a statement that is no binding is removed", where(rg))
        no = lambda t: 0 if t[0] == "call" and re.search(r"Map<.*>::contains_key$", t[1]) else const(t, "Alias")
        val = lambda t: None if t is None else 1 - val(t[2]) if t[0] == "un" and t[1] == "Not" and val(t[2]) is not None else no(t)
        vs = [val(t) for t in returned(ck, rg, extra=isalias({"Alias"}), decide_bool=no)]
        ck.ob("aliases", "removed if replaced", bool(vs) and all(v == 1 for v in vs), "an alias that is not replaced is removed", where(rg))
        for n, r, d, rec in rg.calls():
            if re.search(r"Map<.*>::contains_key$", r):
                a = show(rg.args_of(n)[1])
                ck.ob("aliases", "asked for " + a[-20:], bool(re.search(r"Binding\.0\.(operands\[0\]|name)$", a)), "asked for %s" % a, where(rg))
    # inputs keep their names
    ins = {n for n, r, d, rec in g.calls() if re.search(r"Set<.*>::insert$|Extend<.*>>::extend$", r) and show(g.args_of(n)[1]).endswith(("inputs[*].val_name", "val_name)"))}
    must_visit(ck, "aliases", g, [("input", VN, ir.field(ir.elem(ir.field(A(0), "inputs")), "val_name"), ())], lambda r, d: bool(re.search(r"Set<.*>::insert$|::extend$", r)), "input kept")
    first = []
    for x in prog.fns:
        if x.startswith(f + "::{closure") and "#prom" not in x and re.match(r"[iu]\d+$|bool$|\(", prog.fns[x].ty(0)):
            kg = ck.graph(x, precise=True)
            if any(re.search(r"Set<.*>::contains$", r) for _, r, _, _ in kg.calls()):
                q = lambda v: {show(t) for t in returned(ck, kg, decide_bool=lambda t: v if t[0] == "call" and re.search(r"Set<.*>::contains$", t[1]) else None)}
                first.append((q(1), q(0), any(re.search(r"(sorted|min)_by\w*key$|min_by_key$", r) for _, r, _, _ in g.calls()), x))
    num = lambda s: [int(m.group(1)) if (m := re.search(r"(-?\d+)$", t)) else None for t in s]
    for i, o, srt, x in first:
        if not srt:
            continue
        a, b = num(i), num(o)
        ck.ob("aliases", "inputs first", None not in a + b and max(a) < min(b), "an input can be replaced by another name: its rank is %s, that of others is %s" % (sorted(i), sorted(o)), x)
    # what replaces them
    fin = [(n, g.args_of(n)) for n, r, d, rec in g.calls() if re.search(r"Vec<T, A>::push$", r) and g.args_of(n)[0] == ir.field(A(0), "statements")]
    for n, a in fin:
        s = LR({A(0): "e"}, prog).v(a[1])
        m = re.match(r"(.*)\.1 = Alias\[(.*)\.0\] : (.*)$", s)
        ck.ob("aliases", "alias kept for debugging", bool(m) and m.group(1) == m.group(2) and m.group(2) + ".0" in m.group(3), "the alias added is %s" % s[:200], where(g))
    # ---- inlining
    inlining(ck)


def type_of(t):
    """where the type of a defined name is"""
    s = t[2]
    if s.endswith("val_name") or s.endswith("name"):
        return ir.field(t[1], "ty")
    return ir.field(t[1], re.sub(r"0$", "1", s))


R = lambda x: "<map[%s] | %s>" % (x, x)


def looked_up(c, t):
    """a name that was found in the table, or one that was not, is what R says, however the code distinguishes them"""
    for k, v in c.items():
        m = re.match(r"is_some\(map\[(.*)\]\)$", k)
        if not m:
            continue
        x = m.group(1)
        t = t.replace(R(x), "@")
        if v:
            t = t.replace("map[%s]" % x, "@")
        else:
            t = re.sub(r"(?<![\w.\[])%s(?![\w.\[])" % re.escape(x), "@", t)
            if x.endswith("[*]"):
                t = t.replace("[*%s]" % x[:-3], "[@]")
                t = t.replace("[%s]" % x, "[@]") if "map[%s]" % x not in t else t
        t = t.replace("@", R(x))
    return t


def inlining(ck):
    prog = ck.prog
    F = "spade_hir_lowering::inline::"
    ck.rule("inlined", "an inlined unit is the unit with its inputs replaced by the operands of the instance and all other names by new ones", 20)
    f = fn_one(prog, r"^spade_hir_lowering::inline::InlinedStatements.*::finalize$")
    g = ck.graph(f, precise=True)
    r = LR({A(i): x for i, x in enumerate("self map ids ts out nids".split())}, prog)
    s = "self.Normal.0[*]."
    want = {
        "Binding": ["%s = %s[%s] : %s" % (R(s + "Binding.0.name"), s + "Binding.0.operator", R(s + "Binding.0.operands[*]"), s + "Binding.0.ty")],
        "Register": ["%s = reg{clock: %s, reset: %s, initial: %s, value: %s} : %s" % (R(s + "Register.0.name"), R(s + "Register.0.clock"), rst, s + "Register.0.initial", R(s + "Register.0.value"), s + "Register.0.ty") for rst in ("(%s, %s)" % (R(s + "Register.0.reset.0"), R(s + "Register.0.reset.1")), "None")],
        "Constant": ["%s = const %sConstant.2 : %sConstant.1" % (R(s + "Constant.0"), s, s)],
        "Assert": ["assert " + R(s + "Assert.0")],
        "Set": ["set %s = %s" % (R(s + "Set.target"), R(s + "Set.value"))],
        "Error": ["error"],
    }
    for v in prog.variants(ST):
        cs = event_cases(ck, g, r, ((A(0), "Normal"),), lambda n, d: n.endswith("Vec<T, A>::push"), lambda n, a: r.v(a[1]) if a[0] == A(4) else None, extra=of_statement(v))
        got = sorted({looked_up(c, x.lstrip("?")) for c, res in cs for x in res})
        ck.ob("inlined", "statement " + v, got == sorted(want.get(v, ["?"])), "a statement of an inlined unit becomes %s, expected %s" % (got, want.get(v)), where(g))
        bad = [c for c, res in cs if v == "Register" and res and any("reset: None" in x for x in res) != (c.get("is_some(%sRegister.0.reset)" % s) is False) and c]
        ck.ob("inlined", "reset " + v, not bad, "the reset is lost if %s" % bad, where(g))
    # an inlined instance
    call = ((A(0), "InlinedCall"),)
    fz = args_under(ck, g, lambda n, d: n.endswith("::finalize"), call)
    ck.ob("inlined", "anchor contents", len(fz) == 1, "the contents of an inlined unit are not translated", where(g))
    inp = "(self.InlinedCall.input_expr_map[*].0, %s)" % R("self.InlinedCall.input_expr_map[*].1")
    new = ("none",)
    for n, a in fz:
        new = a[1]
        ck.ob("inlined", "contents", r.v(a[0]) == "self.InlinedCall.target.statements[*]", "what is translated is %s" % r.v(a[0])[:150], where(g))
        items = r.items(a[1])
        ck.ob("inlined", "operands", bool(items) and items[-1] == inp, "the inputs must be replaced by the operands, as the caller names them, last; the names are %s" % [x[:100] for x in items], where(g))
        key, val = re.match(r"\((.*?), (<?ValueName.*)\)$", items[0]).groups() if items and re.match(r"\((.*?), (<?ValueName.*)\)$", items[0]) else ("", "")
        ck.ob("inlined", "names of the unit", "self.InlinedCall.name_map[*].0" in key, "the names that are replaced are %s" % key[:200], where(g))
        ck.ob("inlined", "names of the callers", "map[*].0" in key.replace("name_map[*].0", ""), "names of the surrounding unit are not replaced: %s" % key[:200], where(g))
        ck.ob("inlined", "names are new", "0: next(nids)" in val and re.search(r"e\(%\(", val) is not None and val.count("Named{") == 1, "the names are replaced by %s" % val[:200], where(g))
        ck.ob("inlined", "where it goes", a[4] == A(4), "the statements of an inlined unit go to %s" % show(a[4]), where(g))
    p = search(g, call, force=lambda t: "InlinedCall" in show(t)).find(paths.OkReturn(), avoid={n for n, a in fz})
    ck.ob("inlined", "all contents", p is None, "the contents of an inlined unit are left out", where(g))
    al = [(n, a) for n, a in args_under(ck, g, lambda n, d: n.endswith("Vec<T, A>::push"), call) if a[0] == A(4)]
    out = [r.v(a[1]) for n, a in al]
    exp = "%s = Alias[%s[self.InlinedCall.inner_output_name]] : self.InlinedCall.ty" % (R("self.InlinedCall.outer_output_name"), r.v(new))
    ck.ob("inlined", "result", out == [exp], "the result of an inlined unit is %s" % [x[:60] + " ... " + x[-100:] for x in out], where(g))
    p = search(g, call).find(paths.OkReturn(), avoid={n for n, a in al})
    ck.ob("inlined", "result always", p is None, "the result of an inlined unit is left out", where(g))
    # collecting
    f = F + "perform_inlining"
    g = ck.graph(f, precise=True)
    r = LR({A(i): x for i, x in enumerate("target units ids nids cache".split())}, prog)
    src = "units[target.mir.name].mir.statements[*]"
    uncached = lambda t, ty: {"None"} if t[0] in ("at", "call") and show(t).startswith("arg4[") else None
    push = [(n, g.args_of(n)) for n, rr, d, rec in g.calls() if rr.endswith("Vec<T, A>::push")]
    keep = {n for n, a in push if r.v(a[1]) == src}
    calls = {n for n, a in push if a[1][0] == "agg" and a[1][2] == "InlinedCall"}
    ck.ob("inlined", "anchor collected", bool(keep) and len(calls) == 1, "the statements of a unit are not collected", where(g))
    loop = [n for n in nodes(g, r"Iterator>?::next$") if n[0] == 0 and r.v(g.args_of(n)[0]) + "[*]" == src]
    ck.ob("inlined", "anchor loop", len(loop) == 1, "the statements of a unit are not visited in a loop", where(g))
    ops = prog.variants("spade_mir::Operator")

    def around(extra, ev, decide_bool=None):
        for n in loop:
            c, t = g.ctxs[n[0]], g.ctxs[n[0]].body.bbs[n[1]]["t"]
            st = [((n[0], t[4]), {(c.id, t[3][0]): ("v", "Some")})]
            for goal in (paths.AtNodes({n}), paths.OkReturn()):
                p = search(g, extra=extra, decide_bool=decide_bool).find(goal, start=st, avoid=ev)
                if p:
                    return p
    for v in prog.variants(ST):
        if v != "Binding":
            p = around(of_statement(v), keep)
            ck.ob("inlined", "kept " + v, p is None, "" if p is None else "a statement is left out: %s" % paths.path_str(g, p), where(g))
    op = lambda v: (lambda t, ty: {v} if ty and ty.replace("&", "").strip() == "spade_mir::Operator" else of_statement("Binding")(t, ty))
    for v in ops:
        if v != "Instance":
            p = around(op(v), keep)
            ck.ob("inlined", "kept binding " + v, p is None, "" if p is None else "a binding is left out: %s" % paths.path_str(g, p), where(g))
    inl = lambda v: (lambda t: v if t[0] == "f" and t[2] == "inline" else 1 - v if t[0] == "un" and t[2][0] == "f" and t[2][2] == "inline" else None)
    found = lambda v: (lambda t, ty: {v} if ty and "Option<" in ty and t[0] == "at" and t[1] == A(1) and "Instance" in str(t) else op("Instance")(t, ty))
    for key, ex, db, ev, txt in (("an external instance", found("None"), None, keep, "is left out"), ("an instance that is not inlined", found("Some"), inl(0), keep, "is left out"), ("an inlined instance", found("Some"), inl(1), calls, "is not inlined")):
        p = around(ex, ev, db)
        ck.ob("inlined", key, p is None, "" if p is None else "%s %s: %s" % (key, txt, paths.path_str(g, p)), where(g))
    callee = "units[%s.Binding.0.operator.Instance.name]" % src
    for n in calls:
        got = {k: r.v(v).replace("<optfilter>(%s, %s.mir.inline)" % (callee, callee), callee) for k, v in dict(push)[n][1][3]}
        exp = {"outer_output_name": src + ".Binding.0.name", "inner_output_name": callee + ".mir.output", "ty": src + ".Binding.0.ty",
               "target": "perform_inlining(%s, units, ids, nids, cache)" % callee,
               "input_expr_map": "map((%s.mir.inputs[*].val_name, %s.Binding.0.operands[*]))" % (callee, src)}
        for k, x in exp.items():
            ck.ob("inlined", "instance: " + k, got.get(k) == x, "is %s, expected %s" % (got.get(k, "")[:250], x), where(g))
        for d in ("Binding.0.name", "Register.0.name", "Constant.0"):
            ck.ob("inlined", "instance: new name for " + d, "(%s.mir.statements[*].%s, " % (callee, d) in got.get("name_map", ""), "this name of the inlined unit keeps its name in every copy", where(g))
    done = {n for n, rr, d, rec in g.calls() if re.search(r"Map<.*>::insert$", rr)}
    normal = {n for n, a in push if a[1][0] == "agg" and a[1][2] == "Normal"}
    for n in keep:
        p = reach(g, succ(g, n), done, avoid=normal)
        ck.ob("inlined", "collected statements", p is None and bool(done), "statements which were collected are forgotten", where(g))
    f = F + "do_inlining"
    g = ck.graph(f, precise=True)
    r = LR({A(0): "es", A(1): "ids", A(2): "nids"}, prog)
    ts = [r.v(t) for t in returned(ck, g)]
    ck.ob("inlined", "units", any("finalize(perform_inlining(" in t and "(es" in t for t in ts), "the units are %s" % [t[:200] for t in ts], where(g))
    f = fn_one(prog, r"^spade_hir_lowering::inline::InlinedEntity.*::finalize$")
    g = ck.graph(f, precise=True)
    fz = nodes(g, r"InlinedStatements<.*>::finalize$")
    ck.ob("inlined", "all statements", bool(fz) and search(g, force=lambda t: "statements" in show(t)).find(paths.OkReturn(), avoid=fz) is None and all(show(g.args_of(n)[0]) == "arg0.statements[*]" for n in fz), "statements are left out", where(g))
    skip = [x for n, x, d, rec in g.calls() if re.search(r"::(filter|skip|take|step_by|filter_map)$", x)]
    ck.ob("inlined", "no statement skipped", not skip, "statements are skipped by %s" % skip, where(g))
