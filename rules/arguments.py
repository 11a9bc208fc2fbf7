"""Arguments of calls, constructors and turbofishes: which parameter each of them is bound to."""
import re
import ir, paths, core, render
from core import prop
from common import *
from render import compare, event_cases
from lowering import LR, value_cases

MA = "spade_hir::param_util::match_args_with_params"
SORT = r"::sort(ed)?(_unstable)?_by(_cached)?(_key)?$"


def short(s):
    return s.replace("as_listlike(params)", "P").replace("args.Named.0[*]", "A").replace("default()", "new()")


def orders(ck, prog, g, n):
    """what a sort compares: the texts of the keys of the closure it is given"""
    f = g.args_of(n)[1]
    if f[0] == "cell":
        f = f[1]
    if f[0] != "clos" or f[1] not in prog.fns:
        return None
    gc = ck.graph(f[1], precise=True)
    two = gc.root.body.nargs == 3
    r = LR({("arg", 0): "env", ("arg", 1): "a", ("arg", 2): "b"}, prog)
    xs = {y for c, x in value_cases(ck, gc, r) for y in x}
    if two:
        return {re.sub(r"^(partial_)?cmp\((.*), b(.*)\)$", lambda m: m.group(2) if m.group(2) == "a" + m.group(3) else m.group(0), y) for y in xs}
    return xs


def params_of(ck, R, prog, fn, names, expected, key):
    g = ck.graph(fn, precise=True)
    cs = [(c, {y for y in x if y != "None"} or {"None"}) for c, x in value_cases(ck, g, LR(names, prog))]
    # the first place for which a test holds
    m = re.match(r"^<first>\(map\(<index>\(self\.0\) where (.*) for (enumerate\()?self\.0\)?\)\)$", next(iter(cs[0][1]))) if len(cs) == 1 and len(cs[0][1]) == 1 else None
    if m:
        cs = [({m.group(1): True}, {"<index>(self.0)"}), ({m.group(1): False}, {"None"})]
    compare(ck, R, key, cs, expected, where(g))


@prop("C21")
def c21(ck):
    prog = ck.prog
    g = ck.graph(MA, precise=True)
    r = LR({("arg", 0): "args", ("arg", 1): "params", ("arg", 2): "is_method"}, prog)
    # ---- lookups
    R = "lookup"
    ck.rule(R, "a parameter is found by its own name, and its index, type and default are those at its place in the declaration", 7)
    W = "spade_hir::param_util::ParameterListWrapper<'a, TypeLike, T>::"
    nm = {("arg", 0): "self", ("arg", 1): "name"}
    k = "name == self.0[*].0"
    for f, v in (("try_get_arg_type", "self.0[*].1"), ("arg_index", "<index>(self.0)"), ("arg_default", "self.0[*].2")):
        params_of(ck, R, prog, W + f, nm, [({k: True}, v), ({k: False}, "None")], f)
    k = "name == self.0[*].name"
    params_of(ck, R, prog, "spade_hir::ParameterList::try_get_arg_type", nm, [({k: True}, "self.0[*].ty"), ({k: False}, "None")], "ParameterList::try_get_arg_type")
    gi = ck.graph("spade_hir::ParameterList::arg_index", precise=True)
    cs = value_cases(ck, gi, LR(nm, prog))
    ck.ob(R, "ParameterList::arg_index", bool(cs) and all((c.get(k) is True and all("<index>(self.0)" in y for y in x)) or (c.get(k) is False and all("<index>" not in y for y in x)) for c, x in cs),
          "the index of a parameter is %s" % [(c, sorted(x)) for c, x in cs][:2], where(gi))
    n = 0
    for f in sorted(prog.fns):
        if re.search(r"param_util::ParameterListLike<.*>>::as_listlike$", f):
            n += 1
            v = "map((ident(self[*]), (), self[*].default))" if "TypeParam>" in f else "map((self.0[*].name, self.0[*].ty, None))"
            params_of(ck, R, prog, f, nm, [({}, "ParameterListWrapper{0: %s}" % v)], "as_listlike of " + ("type parameters" if "TypeParam>" in f else "parameters"))
    ck.ob(R, "lists", n == 2, "%d kinds of parameter lists, 2 expected" % n, where(g))
    # ---- positional
    R = "positional"
    ck.rule(R, "the n-th argument is bound to the n-th parameter, a missing one to the default of that parameter, and anything else is an error", 4)
    cs = [(c, x) for c, x in value_cases(ck, g, r) if c.get("variant of args") == "Positional"]
    Z = "zip_longest(args.Positional.0, P.0)[*]"
    bound = "Argument{target: %s.Both.1.0, value: %s.Both.0, target_type: %s.Both.1.1, kind: ArgumentKind::Positional{}}" % (Z, Z, Z)
    deflt = "Argument{target: %s.0, value: %s.2, target_type: %s.1, kind: ArgumentKind::Default{}}" % (Z, Z, Z)
    has = "is_some(%s.2)" % Z
    for d in (True, False):
        got = set()
        for c, x in cs:
            if {short(q): v for q, v in c.items()}.get(has, d) == d:
                for y in x:
                    m = re.match(r"^map\(<?(.*?)>?\)$", short(y), re.S)
                    got |= {p for p in (m.group(1).split(" | ") if m else [short(y)])}
        errs = {re.match(r"^Result::Err\{0: ArgumentError::(\w+)", p).group(1) for p in got if p.startswith("Result::Err{0: ArgumentError::")}
        rest = {p for p in got if not p.startswith("Result::Err{")}
        w = "a default" if d else "no default"
        ck.ob(R, "bound, parameter with " + w, rest == ({bound, deflt} if d else {bound}), "when the parameter has %s the list consists of %s" % (w, sorted(rest)), where(g))
        ck.ob(R, "errors, parameter with " + w, errs == ({"TooManyArguments"} if d else {"TooManyArguments", "TooFewArguments"}), "when the parameter has %s the errors are %s" % (w, sorted(errs)), where(g))
    # ---- named
    R = "named"
    ck.rule(R, "a named argument is bound to the parameter of that name, each name once, a name that no parameter has is an error, and a parameter that is not named takes its default", 16)

    def fmt(n, a):
        w = n.split("::")[-1]
        if re.search(SORT, n):
            return None
        return w + "(%s)" % ", ".join(short(r.v(x)) for x in a)

    ev = [({short(q): v for q, v in c.items()}, {y.lstrip("?") for y in x}) for c, x in event_cases(ck, g, r, (), lambda n, d: re.search(r"(HashSet|HashMap|BTreeSet|BTreeMap|IndexSet)<.*::(insert|remove)$", n), fmt) if c.get("variant of args") == "Named"]
    vs = [({short(q): v for q, v in c.items()}, {short(y) for y in x}) for c, x in value_cases(ck, g, r) if c.get("variant of args") == "Named"]
    d = "is_some(arg_default(P, P.0[*].0))"
    arg = lambda t, v, k: "(arg_index(P, %s), Argument{target: %s, value: %s, target_type: try_get_arg_type(P, %s), kind: ArgumentKind::%s{}})" % (t, t, v, t, k)
    dflt = "{*%s*}" % arg("P.0[*].0", "arg_default(P, P.0[*].0)", "Default")
    for V, kind in (("Full", "Named"), ("Short", "ShortNamed")):
        N = "A.%s.0" % V
        dup, known = "is_some(get(new(), %s))" % N, "is_some(try_get_arg_type(P, %s))" % N
        alt = "contains(new(), %s)" % N
        sel = lambda cs: [(c, x) for c, x in cs if c.get("variant of A", V) == V]
        isdup = lambda c: c.get(dup, c.get(alt))
        for dv in (True, False):
            for what, cond, want in (("again", lambda c: isdup(c) is True, "ArgumentError::DuplicateNamedBindings{new: %s," % N),
                                     ("unknown", lambda c: isdup(c) is False and c.get(known) is False, "ArgumentError::NoSuchArgument{name: %s}" % N),
                                     ("bound", lambda c: isdup(c) is False and c.get(known) is True, None)):
                xs = {y for c, x in sel(vs) if cond(c) and c.get(d, dv) == dv for y in x}
                item = arg(N, "A.%s.1" % V, kind)
                w = "%s %s, default %s" % (V, what, dv)
                if want:
                    ok = bool(xs) and all(want in y and item not in y for y in xs)
                else:
                    ok = xs == ({"map([*map(%s), %s][*].1)" % (item, dflt)} if dv else {"map(%s.1)" % item})
                ck.ob(R, w, ok, "when a name is given (%s) and other parameters have a default is %s, the result is %s" % (what, dv, sorted(xs)[:2]), where(g))
        es = [x for c, x in sel(ev) if isdup(c) is False and c.get(known) is True]
        ck.ob(R, "%s recorded" % V, bool(es) and all("insert(new(), %s)" % N in x for x in es), "a name that was given is not recorded: %s" % [sorted(x) for x in es][:1], where(g))
        ck.ob(R, "%s no longer missing" % V, bool(es) and all(any(re.match(r"^(swap_|shift_)?remove\(map\(P\.0\[\*\]\.0\), %s\)$" % re.escape(N), y) for y in x) for x in es), "a parameter that was named stays missing: %s" % [sorted(x) for x in es][:1], where(g))
    rm = re.compile(r"^(swap_|shift_)?remove\(map\(P\.0\[\*\]\.0\), P\.0\[\*\]\.0\)$")
    for dv in (True, False):
        es = [x for c, x in ev if c.get(d) is dv]
        ck.ob(R, "missing, default %s" % dv, bool(es) and all(any(rm.match(y) for y in x) is dv for x in es), "a parameter whose default is %s and that is not named is%s taken from the missing ones" % (dv, " not" if dv else ""), where(g))
    R = "complete"
    ck.rule(R, "a call that leaves a parameter without an argument is rejected, and the arguments are in the order of the parameters", 2)
    full = [c for c, x in vs]
    ck.ob(R, "nothing missing", bool(full) and all(any("len(P.0)" in q and v is (q.endswith(" == 0")) for q, v in c.items()) for c in full), "a call is accepted without a test that no parameter is missing", where(g))
    so = [n for n, x, dd, rec in g.calls() if re.search(SORT, x) and "try_get_arg_type(P, " in short(r.v(g.args_of(n)[0]))]
    ck.ob(R, "sorted by index", bool(so) and all(orders(ck, prog, g, n) == {"a.0"} for n in so), "the arguments are sorted by %s" % [sorted(orders(ck, prog, g, n) or ()) for n in so], where(g))
    av = render.CaseSearch(g, {"variant of args": "Named"}, r, core.decider(()), lambda t: True, {}).find(paths.OkReturn(), avoid=set(so))
    ck.ob(R, "always sorted", bool(so) and av is None, "named arguments can be returned without being sorted", where(g))
    # ---- turbofish
    R = "type arguments"
    ck.rule(R, "the n-th type of the list that becomes the type parameters is the one bound to the n-th type parameter", 5)
    g = ck.graph("spade_typeinference::TypeState::create_generic_list", precise=True)
    hit = [n for n, x, dd, rec in g.calls() if dd == MA or x == MA]
    ck.ob(R, "matched", len(hit) == 1, "%d places match type arguments with type parameters" % len(hit), where(g))
    if hit:
        a = g.args_of(hit[0])
        r = LR({a[0]: "turbofish"}, prog)
        tp = r.v(a[1])
        L = "%s(%s, %s, 0)" % (MA.split("::")[-1], r.v(a[0]), tp)
        so = [n for n, x, dd, rec in g.calls() if re.search(SORT, x) and L in r.v(g.args_of(n)[0])]
        ck.ob(R, "place", bool(so) and all(r.v(g.args_of(n)[0]) == "map((<index>(%s), %s[*]))" % (tp, L) for n in so), "the matched types are put at %s" % [r.v(g.args_of(n)[0])[:200] for n in so], where(g))
        ck.ob(R, "sorted", bool(so) and all(orders(ck, prog, g, n) == {"a.0"} for n in so), "the types are sorted by %s" % [sorted(orders(ck, prog, g, n) or ()) for n in so], where(g))
        co = {r.v(g.args_of(n)[0]) for n, x, dd, rec in g.calls() if x.endswith("::collect")}
        ck.ob(R, "value", "map(%s[*].value)" % L in co, "the list of types is none of %d collected ones" % len(co), where(g))
        ok = False
        for f in sorted(prog.fns):
            if f.startswith(g.entry.path + "::{closure") and "#prom" not in f:
                gc = ck.graph(f, precise=True)
                rc = LR({("arg", 0): "env", ("arg", 1): "a"}, prog)
                un = [n for n, x, dd, rec in gc.calls() if x.endswith("TypeState::unify")]
                for n in un:
                    x, y = (rc.v(z) for z in gc.args_of(n)[1:3])
                    ok |= bool(re.match(r"^hir_type_expr_to_var\(.*env\.\^\d\[a\.0\]", x)) and y.startswith("new_generic_with_meta(") and "a.1.meta" in y
                    if not ok:
                        ck.note("unify(%s, %s)" % (x[:150], y[:150])) if hasattr(ck, "note") else None
        ck.ob(R, "unified", ok, "the type given for a type parameter is not unified with the parameter", where(g))
