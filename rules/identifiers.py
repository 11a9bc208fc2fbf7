"""The identifiers of the generated Verilog: distinct things of a module have distinct, legal names."""
import re
import ir, paths, core, render
from core import prop
from common import *
from render import compare
from lowering import LR, value_cases
from units import reach, nodes, succ

MIR = "spade_mir::"
SN = {("arg", i): x for i, x in enumerate("self b c d e f".split())}


def table(ck, rule, key, fn, expected):
    g = ck.graph(fn, precise=True)
    return compare(ck, rule, key, value_cases(ck, g, LR(SN, ck.prog)), expected, where(g))


@prop("C27")
def c27(ck):
    prog = ck.prog
    ck.rule("distinct", "a value is given a name whose identifiers no other thing of the module has", 12)
    ck.rule("written", "the text of a name is the same wherever it is written, and escaped exactly if it may be a keyword", 9)
    ck.rule("instance", "every instance of a module has its own name", 4)
    # ---- the table of names
    g = ck.graph(MIR + "renaming::NameState::push", precise=True)
    named = ((("arg", 1), "Named"),)
    ins = events(g, lambda n, d, a: n.endswith("::insert") and "name_map" in ir.show(a[0]))
    rec = events(g, lambda n, d, a: re.search(r"::(extend|insert)$", n) and a and "used" in ir.show(a[0]) and "name_map" not in ir.show(a[0]))
    ask = events(g, lambda n, d, a: re.search(r"Set<.*>::(contains|insert|get|replace)$", n) and "used" in ir.show(a[0]))
    ck.ob("distinct", "anchor", bool(ins) and bool(rec) and bool(ask), "the table of names (%d), the identifiers taken (%d) and the question for them (%d) are not found" % (len(ins), len(rec), len(ask)), where(g))
    ids = lambda t: "unescaped_var_name(" in ir.show(t)
    p = search(g, named).find(paths.AtNodes(ins))
    ck.ob("distinct", "a name is entered", p is not None, "no name is entered", where(g))
    p = search(g, named, force=ids).find(paths.AtNodes(ins), avoid=rec)
    ck.ob("distinct", "taken identifiers are remembered", p is None, "" if p is None else "a name is given without its identifiers being remembered: %s" % paths.path_str(g, p), where(g))
    taken = lambda v: (lambda t: v if t[0] == "call" and re.search(r"Set<.*>::contains$", t[1]) and "used" in ir.show(t[2][0]) else None)
    p = search(g, named, decide_bool=taken(1), force=ids).find(paths.AtNodes(ins))
    ck.ob("distinct", "taken identifiers are not used again", p is None, "" if p is None else "a name is given although its identifier is taken: %s" % paths.path_str(g, p), where(g))
    p = search(g, named, decide_bool=taken(0)).find(paths.AtNodes(ins))
    ck.ob("distinct", "free identifiers are used", p is not None, "no name is found although the identifier is free", where(g))
    r = LR(SN, prog)
    both = lambda s: "unescaped_var_name(" in s and "_mut\"" in s and not re.search(r"\]\[|<(take|skip|filter|step_by)\w*>|(take|skip)\w*\(", s)
    for what, ns in (("remembered", rec), ("asked for", ask)):
        s = [" ".join(r.v(x) for x in g.args_of(n)[1:]) for n in ns]
        ck.ob("distinct", "both identifiers are %s" % what, bool(s) and (any(both(x) for x in s) or both(" ".join(s))), "the identifiers of the value and of its inverted part must be %s, these are: %s" % (what, [x[:200] for x in s]), where(g))
    for n in ins:
        a = g.args_of(n)
        ts = [x for x in ir.alts(a[2]) if x[0] == "agg" and x[2] == "Named"]
        ok = a[1] == ("arg", 1) and len(ts) == 1 and dict(ts[0][3])["1"] == F(("arg", 1), "Named.1") and dict(ts[0][3])["2"] == F(("arg", 1), "Named.2")
        ck.ob("distinct", "what is entered", ok and any(ir.show(x) == "arg1" for x in ir.alts(a[2])), "%s is entered for the name" % r.v(a[2])[:200], where(g))
    st = [(r.v(t() if callable(t) else t)) for n, d, t in g.stores()]
    ck.ob("distinct", "numbers", any("names" in x and x.endswith("+1") for x in st), "the number of a copy is not counted up: %s" % [x[:100] for x in st], where(g))
    gr = ck.graph(MIR + "renaming::NameState::reserve", precise=True)
    rr = events(gr, lambda n, d, a: n.endswith("::insert") and "used" in ir.show(a[0]) and a[1] == ("arg", 1))
    ck.ob("distinct", "reserved", bool(rr) and search(gr).find(paths.OkReturn(), avoid=rr) is None, "a reserved identifier is not remembered", where(gr))
    # ---- reserved before use
    g = ck.graph(MIR + "renaming::make_names_predictable", precise=True)
    r = LR({("arg", 0): "e"}, prog)
    flt = lambda s: re.sub(r"<filter>\((e\.\w+), is_(none|some)\(e\.\w+\[\*\]\.no_mangle\)\)", r"\1", s)
    res, push = {}, {}
    for n, rr, d, rec in g.calls():
        if rr.endswith("NameState::reserve"):
            res[n] = r.v(g.args_of(n)[1])
        if rr.endswith("NameState::push"):
            push[n] = r.v(g.args_of(n)[1])
    got = {flt(x) for x in res.values()}
    for key, rx in (("output", r"^'output__'$"), ("input", r"^'input__'$"), ("forward ports", r"^mangle_input\(e\.inputs\[\*\]\.no_mangle, e\.inputs\[\*\]\.name\)$"), ("backward ports", r"^mangle_output\(e\.inputs\[\*\]\.no_mangle, e\.inputs\[\*\]\.name\)$"),
                    ("instances", r"^instance_name\(e\.statements\[\*\]\.Binding\.0\.operator\.Instance\.name, "), ("temporaries", r"^unescaped_var_name\(.*e\.statements\[\*\]\.Binding\.0\.name.*\)$"), ("inverted temporaries", r"_e_.*Binding\.0\.name.*_mut\"")):
        ns = {n for n in res if re.search(rx, flt(res[n]))}
        ck.ob("distinct", "reserved: " + key, bool(ns), "the identifiers of %s are not reserved, only %s" % (key, sorted(x[:60] for x in got)), where(g))
    plain = {n for n in push if ".no_mangle)" in push[n] and "is_some" in push[n]}
    late = [push[n] for n in push if n not in plain and reach(g, succ(g, n), set(res)) is not None]
    ck.ob("distinct", "reserved first", bool(res) and not late, "names are given before all other identifiers are reserved: %s" % late[:2], where(g))
    late = [n for n in plain if reach(g, succ(g, n), set(res)) is None]
    first = [n for n in set(push) - plain if reach(g, [n], plain) is not None]
    ck.ob("distinct", "ports without mangling first", not late and not first and bool(plain), "an input whose name must be kept is named after other values", where(g))
    want = {"e.inputs[*].val_name", "e.statements[*].Constant.0", "e.statements[*].Register.0.name", "e.statements[*].Binding.0.name"}
    have = {flt(x) for x in push.values()}
    ck.ob("distinct", "all names", have == want, "the names of %s are numbered, expected %s" % (sorted(have), sorted(want)), where(g))
    # ---- texts
    V = MIR + "codegen::util::<impl spade_mir::ValueName>::"
    table(ck, "written", "unescaped name", V + "unescaped_var_name", [({"variant of self": "Named"}, '"{self}"'), ({"variant of self": "Expr"}, '"_e_{self.Expr.0.0}"')])
    table(ck, "written", "name", V + "var_name", [({"needs_escaping(self)": True}, '"\\{unescaped_var_name(self)} "'), ({"needs_escaping(self)": False}, "unescaped_var_name(self)")])
    bw = [({"variant of self": "Expr", "needs_escaping(self)": False}, '"_e_{self.Expr.0.0}_mut"'), ({"variant of self": "Expr", "needs_escaping(self)": True}, '"\\_e_{self.Expr.0.0}_mut "')]
    for z in (True, False):
        n = "{self.Named.1}" + ("_mut" if z else "_n{self.Named.0}_mut")
        bw += [({"variant of self": "Named", "-self.Named.0 == 0": z, "needs_escaping(self)": True}, '"\\%s "' % n), ({"variant of self": "Named", "-self.Named.0 == 0": z, "needs_escaping(self)": False}, '"%s"' % n)]
    table(ck, "written", "inverted name", V + "backward_var_name", bw)
    g = ck.graph(V + "needs_escaping", precise=True)
    from lowering import bool_cases
    compare(ck, "written", "escaping", bool_cases(ck, g, LR(SN, prog)), [({"variant of self": "Named", "-self.Named.0 == 0": True}, "1"), ({"variant of self": "Named", "-self.Named.0 == 0": False}, "0"), ({"variant of self": "Expr"}, "0")], where(g))
    for key, fn, sfx in (("input port", "mangle_input", "i"), ("output port", "mangle_output", "o")):
        table(ck, "written", key, MIR + "codegen::util::" + fn, [({"is_some(self)": True}, "b"), ({"is_some(self)": False}, '"{b}_%s"' % sfx)])
    U = MIR + "unit_name::UnitName::"
    table(ck, "written", "module", U + "as_verilog", [({"variant of self.kind": "Unescaped"}, "self.kind.Unescaped.0"), ({"variant of self.kind": "Escaped"}, '"\\{self.kind.Escaped.name} "')])
    table(ck, "written", "module for tools", U + "without_escapes", [({"variant of self.kind": "Unescaped"}, "self.kind.Unescaped.0"), ({"variant of self.kind": "Escaped"}, "self.kind.Escaped.name")])
    g = ck.graph("<spade_mir::ValueName as std::fmt::Display>::fmt", precise=True)
    cs = value_cases(ck, g, LR(SN, prog))
    pl = [x for c, xs in cs for x in xs if c.get("variant of self") == "Named" and c.get("-self.Named.0 == 0") is True and c.get("'new' == self.Named.1") is not True]
    nb = [x for c, xs in cs for x in xs if c.get("variant of self") == "Named" and (c.get("-self.Named.0 == 0") is False or c.get("'new' == self.Named.1") is True)]
    ok = len(pl) == 1 and "self.Named.1" in pl[0] and "self.Named.0" not in pl[0]
    ck.ob("written", "first copy", ok, "the first copy of a name is written %s" % pl, where(g))
    ck.ob("written", "other copies", bool(nb) and all(re.search(r"95, 110, 192.*self\.Named\.1\)?, .*self\.Named\.0|\{self\.Named\.1\}_n\{self\.Named\.0\}", x) for x in nb), "another copy is written %s" % nb, where(g))
    # ---- instances
    g = ck.graph(MIR + "unit_name::InstanceNameTracker::use_name", precise=True)
    r = LR(SN, prog)
    cnt = "or_default(entry(self.previous_names, c))"
    table(ck, "instance", "name", MIR + "unit_name::InstanceNameTracker::use_name", [({}, ('"{c}_{%s}"' % cnt, '"{c}_{or_insert(entry(self.previous_names, c), 0)}"'))])
    inc = {n for n, d, t in g.stores() if re.match(r"or_(default|insert)\(entry\(self\.previous_names, c\)(, 0)?\)\+1$", r.v(t() if callable(t) else t))}
    ck.ob("instance", "counted", bool(inc) and search(g).find(paths.OkReturn(), avoid=inc) is None, "the next instance gets the same name", where(g))
    mp = {n for n, x, d, rec in g.calls() if re.search(r"Map<.*>::insert$", x)}
    ck.ob("instance", "recorded", bool(mp) and search(g).find(paths.OkReturn(), avoid=mp) is None and all([r.v(a) for a in g.args_of(n)[2:]] == ["b"] for n in mp), "the instance is not recorded for the tools", where(g))
    table(ck, "instance", "of a module", U + "instance_name", [({"variant of self.kind": "Unescaped"}, "use_name(d, self.source, self.kind.Unescaped.0, b, c)"), ({"variant of self.kind": "Escaped"}, "use_name(d, self.source, <<last>(self.kind.Escaped.path) | self.kind.Escaped.name>, b, c)")])
