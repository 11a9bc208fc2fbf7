"""Requirements: facts about sizes and values that type inference collects and must decide before a unit is accepted."""
import re
import ir, paths, core, render, units
from core import prop, MissingAnchor
from common import *
from render import compare, event_cases
from lowering import LR, value_cases

TI = "spade_typeinference::"
RQ = TI + "requirements::Requirement::"
RES = "RequirementResult::"


def atom(k, v):
    """an arithmetic test over integers, as a set of signed terms which is positive (or zero) exactly when the test has the stated outcome"""
    m = re.match(r"^(.*) (>|==) 0$", k) or re.match(r"^()(==)$", "==" if re.match(r"^[^=]+ == [^=]+$", k) else "")
    if not m:
        return (k, v)
    if not m.group(1):
        m = re.match(r"^(.*) (==) 0$", "%s-%s == 0" % tuple(k.split(" == ")))
    ts, depth, cur, sign = {}, 0, "", 1

    def flush():
        nonlocal cur, sign
        c = cur.strip()
        if c:
            n, s = 1, sign
            x = re.match(r"^neg\((.*)\)$", c)
            if x and balanced(x.group(1)):
                c, s = x.group(1), -s
            x = re.match(r"^(\d+)(?:\*(.*))?$", c)
            if x:
                n, c = int(x.group(1)), x.group(2) or "1"
            ts[c] = ts.get(c, 0) + s * n
        cur, sign = "", 1
    for ch in m.group(1):
        if depth == 0 and ch in "+-":
            flush()
            sign = 1 if ch == "+" else -1
            continue
        depth += (ch in "([{<") - (ch in ")]}>")
        cur += ch
    flush()
    ts = {a: n for a, n in ts.items() if n}
    if m.group(2) == "==":
        f = min(frozenset(ts.items()), frozenset((a, -n) for a, n in ts.items()), key=sorted)
        return (f, "zero" if v else "nonzero")
    if not v:
        # not (e > 0) is  1 - e > 0
        ts = {a: -n for a, n in ts.items()}
        ts["1"] = ts.get("1", 0) + 1
        ts = {a: n for a, n in ts.items() if n}
    return (frozenset(ts.items()), "positive")


def balanced(s):
    d = 0
    for ch in s:
        d += (ch == "(") - (ch == ")")
        if d < 0:
            return False
    return d == 0


def table(ck, rule, key, cases, expected, keep, where):
    """every case of the code is one of the expected ones: the tests the rule talks about (those matching `keep`), as atoms, and the result"""
    got = {}
    for c, v in cases:
        a = frozenset(atom(k, x) for k, x in c.items() if keep(k))
        for x in v:
            got.setdefault((a, x), c)
    want = {(frozenset(atom(k, x) for k, x in c.items()), v) for c, v in expected}
    bad = ["the code yields %s when %s" % (x, ", ".join("%s is %s" % y for y in sorted(c.items()))[:400]) for (a, x), c in got.items() if (a, x) not in want]
    bad += ["no case of the code yields %s when %s" % (x, sorted(map(str, a))) for a, x in want if (a, x) not in got]
    return ck.ob(rule, key, not bad, "; ".join(bad[:2])[:700], where)


class At:
    needs_env = False

    def __init__(self, nodes):
        self.nodes = nodes

    def __call__(self, g, n, e):
        return n in self.nodes


SAT, NOC = RES + "Satisfied{0: new()}", RES + "NoChange{}"


@prop("C26")
def c26(ck):
    prog = ck.prog
    R = "bounds"
    ck.rule(R, "a requirement is satisfied exactly when its inequality holds of the inferred values: a literal lies in the range of its integer type, a where clause compares its two sides with its own operator, ranges and offsets are ordered; an unknown value leaves it undecided", 14)
    f = RQ + "check"
    g = ck.graph(f, precise=True)
    w = where(g)
    r = LR({("arg", 0): "q", ("arg", 1): "ts", ("arg", 2): "ctx"}, prog)

    def val(v, fld):
        return "resolve(q.%s.%s, ts).Known.1.Integer.0" % (v, fld)
    for v, tests in (("PositivePipelineDepth", ["-D > 0"]), ("RangeIndexEndAfterStart", ["S-E > 0"]), ("RangeIndexInArray", ["I-Z > 0"]),
                     ("ArrayIndexeeIsNonZero", ["-A == 0"]), ("ValidPipelineOffset", ["-R > 0", "R-F > 0"])):
        names = {"D": "depth", "S": "start", "E": "end", "I": "index", "Z": "size", "A": "array_size", "R": "reference_offset", "F": "definition_depth"}
        cs = value_cases(ck, g, r, ((("arg", 0), v),))
        exp = []
        for t in tests:
            for k, n in names.items():
                t = t.replace(k, "{%s}" % n)
            exp.append(t)
        exp = {re.sub(r"\{(\w+)\}", lambda m: val(v, m.group(1)), t): False for t in exp}
        got = [(c, x) for c, x in cs if x != {NOC}]
        table(ck, R, v, got, [(exp, SAT)], lambda k: " > 0" in k or " == 0" in k, w)
        und = [c for c, x in cs if x == {NOC}]
        ck.ob(R, v + " undecided", all("Unknown" in c.values() for c in und), "an unknown value leaves the requirement open, and nothing else does: %s" % [c for c in und if "Unknown" not in c.values()][:1], w)
    # ---- where clauses
    L, RH = val("WhereInequality", "lhs"), val("WhereInequality", "rhs")
    kn = {}
    for s in ("lhs", "rhs"):
        kn["variant of resolve(q.WhereInequality.%s, ts)" % s] = "Known"
        kn["variant of resolve(q.WhereInequality.%s, ts).Known.1" % s] = "Integer"
    iq = ir.field(("arg", 0), "WhereInequality.inequality")
    for v, t in (("Neq", ("%s-%s == 0", False)), ("Lt", ("%s-%s > 0", (RH, L))), ("Gt", ("%s-%s > 0", (L, RH))), ("Leq", ("%s-%s > 0", False, (L, RH))), ("Geq", ("%s-%s > 0", False, (RH, L)))):
        cs = value_cases(ck, g, r, ((("arg", 0), "WhereInequality"), (iq, v)), fixed=kn)
        a, b = t[-1] if isinstance(t[-1], tuple) else (L, RH)
        table(ck, R, "where " + v, cs, [({t[0] % (a, b): not (len(t) > 1 and t[1] is False)}, SAT)], lambda k: " > 0" in k or " == " in k, w)
    for s, o in (("lhs", "rhs"), ("rhs", "lhs")):
        cs = value_cases(ck, g, r, ((("arg", 0), "WhereInequality"),), fixed={"variant of resolve(q.WhereInequality.%s, ts)" % s: "Unknown"})
        ck.ob(R, "where %s unknown" % s, bool(cs) and all(x == {NOC} for c, x in cs), "a where clause with an unknown side stays open: %s" % [sorted(x)[:1] for c, x in cs if x != {NOC}][:2], w)
    # ---- literals
    inner = []
    for n in sorted(prog.fns):
        if n.startswith(f + "::{closure"):
            h = ck.graph(n, precise=True)
            if any(re.search(r"::pow$", x) for _, x, _, _ in h.calls()):
                inner.append(n)
    if not inner:
        raise MissingAnchor("the range of an integer type in Requirement::check")
    n = max(inner, key=len)
    h = ck.graph(n, precise=True)
    hr = LR({("arg", 0): "env", ("arg", 1): "a"}, prog)
    rows = value_cases(ck, h, hr)
    # what the code passes to it for each integer type
    envs = {}

    def fmt(_, args):
        for t in args:
            if t[0] == "clos" and t[1] == n:
                return "\x00".join(r.v(x) for x in t[2])
    look = lambda t: "lookup_type_symbol" in r.v(t)
    for c, x in event_cases(ck, g, r, ((("arg", 0), "FitsIntLiteral"),), lambda p, d: p.endswith("::expect_integer"), fmt, interesting=look):
        hits = [re.search(r"from_strs\(\['(\w+)'\]\)", k).group(1) for k, v in c.items() if v is True and "from_strs" in k]
        if len(hits) == 1 and "resolve(q.FitsIntLiteral.target_type, ts)" in str(c):
            envs.setdefault(hits[0], set()).update(x)
    for ty, uns in (("int", False), ("uint", True)):
        es = envs.get(ty, set())
        if not ck.ob(R, "literal of " + ty, len(es) == 1, "a literal of type %s is not compared with one range: %s" % (ty, sorted(es)[:2]), w):
            continue
        env = next(iter(es)).lstrip("?").split("\x00")
        cs = []
        for c, x in rows:
            c2, ok = {}, True
            for k, v in c.items():
                k2 = re.sub(r"env\.\^(\d+)", lambda m: env[int(m.group(1))], k)
                if k2 in ("0", "1"):
                    ok = ok and (k2 == "1") == v
                else:
                    c2[k2] = v
            if ok:
                cs.append((c2, {re.sub(r"env\.\^(\d+)", lambda m: env[int(m.group(1))], y) for y in x}))
        q = "q.FitsIntLiteral.value"
        for kind, V in (("Literal", q + ".Literal.0"), ("Generic", "resolve(%s.Generic.0, ts).Known.1.Integer.0" % q)):
            sub = [(c, x) for c, x in cs if c.get("variant of " + q) in (kind, None) and "Unknown" not in c.values()]
            half = "pow(2, saturating_sub(a, 1))"
            rng = {"-%s > 0" % V: False, "%s-pow(2, a)+1 > 0" % V: False} if uns else {"neg(%s)-%s > 0" % (half, V): False, "%s-<0 | checked_sub(%s, 1)> > 0" % (V, half): False}
            zero = "%s == 0" % V
            # zero needs no special case, but is allowed one
            want = [({zero: True}, SAT), (dict(rng, **{zero: False}), SAT)]
            if not any(atom(k, x)[0] == atom(zero, True)[0] for c, _ in sub for k, x in c.items()):
                want = [(rng, SAT)]
            table(ck, R, "%s %s" % (ty, kind.lower()), sub, want, lambda k: " > 0" in k or " == 0" in k, w)
        und = [(c, x) for c, x in cs if "Unknown" in c.values()]
        ck.ob(R, ty + " unknown", bool(und) and all(x == {NOC} for c, x in und), "a literal with an unknown value stays open", w)
    # ---- shared base
    cs = value_cases(ck, g, r, ((("arg", 0), "SharedBase"),))
    ck.ob(R, "SharedBase", bool(cs) and all("Replacement{from: q.SharedBase.0[*], to: insert(" in y or "NoChange" in y for c, x in cs for y in x) and any("Satisfied" in y for c, x in cs for y in x), "every type that shares the base is replaced by it: %s" % [sorted(x)[:1] for c, x in cs][:2], w)

    # ---- collected requirements are decided
    R = "decided"
    ck.rule(R, "an open requirement is kept and examined again; at the end of a unit one which does not hold is an error, and whatever one implies is unified before the next round", 9)
    h = ck.graph(RQ + "check_or_add", precise=True)
    hr = LR({("arg", 0): "q", ("arg", 1): "ts", ("arg", 2): "ctx"}, prog)
    ev = lambda p, d: bool(re.search(r"::add_requirement$|::TypeState::unify$", p))
    tx = lambda R_: (lambda p, a: "%s(%s)" % (p.rsplit("::", 1)[-1], ", ".join(R_.v(x) for x in (sorted(a[1:3], key=R_.v) if p.endswith("unify") else a[1:]))))
    res = "check(q, ts, ctx)"
    compare(ck, R, "check_or_add", event_cases(ck, h, hr, (), ev, tx(hr)), [
        ({"variant of " + res: "NoChange"}, "add_requirement(q)"),
        ({"variant of " + res: "UnsatisfiedNow"}, "add_requirement(q)"),
        ({"variant of " + res: "Satisfied"}, "unify(%s.Satisfied.0[*].from, %s.Satisfied.0[*].to)" % (res, res))], where(h))
    h = ck.graph(TI + "TypeState::add_requirement", precise=True)
    hr = LR({("arg", 0): "ts", ("arg", 1): "q"}, prog)
    compare(ck, R, "add_requirement", event_cases(ck, h, hr, (), lambda p, d: bool(re.search(r"::(push|extend|insert)$", p)), lambda p, a: "%s %s" % (hr.v(a[0]), hr.v(a[1])) if "requirements" in hr.v(a[0]) else None), [({}, "ts.owned.requirements q")], where(h))
    cr = TI + "TypeState::check_requirements"
    top = ck.graph(cr, precise=True)
    tr = LR({("arg", 0): "ts", ("arg", 1): "final", ("arg", 2): "ctx"}, prog)
    chk = [x for x in top.calls() if x[1] == RQ + "check"]
    ck.ob(R, "examined", bool(chk) and all(tr.v(top.args_of(x[0])[0]) == "ts.owned.requirements[*]" for x in chk), "check_requirements examines each collected requirement", where(top))
    must_call(ck, R, "examined on return", top, lambda p, d, a: "requirements" in tr.v(a[0] if a else ("none",)) and bool(re.search(r"iter|next|drain|retain|take", p)), "check_requirements returns without looking at the collected requirements")
    # the function in which one requirement is examined: a closure, or check_requirements itself
    own = [x for x in sorted(prog.fns) if x.startswith(cr) and any(p == RQ + "check" and n_[0] == 0 for n_, p, _, _ in ck.graph(x, precise=True).calls())]
    for x in own:
        h = ck.graph(x, precise=True)
        if x == cr:
            rr = tr
            fin = {"final": True}
        else:
            rr = LR({("arg", 0): "env", ("arg", 1): "q"}, prog)
            cs = value_cases(ck, h, rr)
            sub = {}
            for c, v in cs:
                k = next((c[y] for y in c if y.startswith("variant of check(")), None)
                sub.setdefault(k, []).append((c, v))
            ck.ob(R, "final", bool(sub.get("UnsatisfiedNow")) and len({tuple(sorted((k, v) for k, v in c.items() if not k.startswith("variant"))) for c, _ in sub["UnsatisfiedNow"]}) == 1 and all([v for k, v in c.items() if not k.startswith("variant")] == [False] and any(re.match(r"^env\.\^\d+$", k) for k in c) for c, _ in sub["UnsatisfiedNow"]), "a requirement that does not hold is tolerated in the final check", where(h))
            texts = {k: {y for c, v in l for y in v} for k, l in sub.items()}
            m = {k: [re.match(r"^\((0|1), (.*)\)$", y) for y in v] for k, v in texts.items()}
            if all(z for v in m.values() for z in v):
                keep = {z.group(1) for k in ("NoChange", "UnsatisfiedNow") for z in m.get(k, ())}
                ck.ob(R, "kept", len(keep) == 1 and all(z.group(2) == "None" for k in ("NoChange", "UnsatisfiedNow") for z in m.get(k, ())) and m.get("Satisfied") and all(z.group(1) not in keep and z.group(2).endswith(".Satisfied.0") for z in m["Satisfied"]), "an open requirement is kept, a satisfied one replaced by what it implies: %s" % {k: sorted(v) for k, v in texts.items()}, where(h))
                for y in sorted(prog.fns):
                    if y.startswith(cr + "::{") and y != x and y.count("::{closure") == 1:
                        hh = ck.graph(y, precise=True)
                        c2 = value_cases(ck, hh, LR({("arg", 0): "env", ("arg", 1): "a"}, prog))
                        if any("a.1" in c for c, _ in c2):
                            compare(ck, R, "filter", c2, [({"a.1": True}, "a.0" if keep == {"1"} else "None"), ({"a.1": False}, "None" if keep == {"1"} else "a.0")], where(hh))
    un = events(top, lambda p, d, a: p == TI + "TypeState::unify")
    ck.ob(R, "implied", bool(un) and all({".to" in tr.v(z) and ".Satisfied.0" in tr.v(z) for z in top.args_of(y)[1:3] if ".to" in tr.v(z)} == {True} and any(".from" in tr.v(z) for z in top.args_of(y)[1:3]) for y in un), "what a satisfied requirement implies is unified", where(top))
    again = events(top, lambda p, d, a: bool(a) and "ts.owned.requirements" in tr.v(a[0]) and bool(re.search(r"iter$|clone$|drain$", p)))
    for y in un:
        p = search(top).find(paths.OkReturn(), avoid=again, start=[(z, {}) for z in units.succ(top, y)])
        ck.paths += 1
        ck.ob(R, "again", p is None, "" if p is None else "after a unification the requirements are not examined again", where(top))
    # ---- checkpoints bring them back
    h = ck.graph(TI + "TypeState::checkpoint", precise=True)
    hr = LR({("arg", 0): "ts"}, prog)
    compare(ck, R, "checkpoint", event_cases(ck, h, hr, (), lambda p, d: p.endswith("::push"), lambda p, a: hr.v(a[1]) if "checkpoints" in hr.v(a[0]) else None), [({}, "(ts.owned.requirements, ts.owned.constraints)")], where(h))
    h = ck.graph(TI + "TypeState::restore", precise=True)
    st = {hr.v(h.place(h.ctxs[y[0]], pl)): hr.v(v()) for y, pl, v in h.stores()}
    ck.ob(R, "restore", st.get("ts.owned.requirements") == "part(ts.owned.checkpoints)[*].0" and st.get("ts.owned.constraints") == "part(ts.owned.checkpoints)[*].1", "leaving a checkpoint restores the requirements: %s" % st, where(h))

    # ---- every unit
    R = "raised"
    ck.rule(R, "every unit ends with a final check of its requirements, after which nothing is unified; a where clause with == constrains its parameter, any other becomes a requirement with its own operator", 8)
    vu = TI + "TypeState::visit_unit_with_preprocessing"
    top = ck.graph(vu, precise=True)
    last = lambda p, d, a: p == cr and len(a) > 1 and a[1] in (("const", 1), ("const", True)) or p == cr and LR({}, prog).v(a[1]) in ("1", "true", "True")
    must_call(ck, R, "final check", top, last, "a unit is accepted without the final check of its requirements")
    ends = events(top, last)
    late = events(top, lambda p, d, a: p.startswith(TI + "TypeState::") and bool(re.search(r"::(unify\w*|add_requirement|add_constraint|visit_\w+|handle_\w+)$", p)))
    for y in ends:
        p = search(top).find(At(late), start=[(z, {}) for z in units.succ(top, y)])
        ck.paths += 1
        ck.ob(R, "nothing after it", p is None, "" if p is None else "types are unified after the final check; path: %s" % paths.path_str(top, p), where(top))
    f = TI + "TypeState::create_generic_list"
    h = ck.graph(f, precise=True)
    hr = LR({("arg", 0): "ts", ("arg", 7): "wheres"}, prog)

    def kind(t):
        x = hr.v(t)
        if x.startswith("new_generic_tlint("):
            return "fresh"
        if x.startswith("visit_const_generic(") and "wheres[*].Int.constraint" in x.split("add_mapped")[0]:
            return "value"
        if "wheres[*].Int.target>]" in x or "wheres[*].Int.target]" in x:
            return "parameter"
        if re.match(r"^<.*wheres\[\*\]\.Int\.(\w+)>$|^wheres\[\*\]\.Int\.\w+$", x):
            return re.search(r"Int\.(\w+)>?$", x).group(1)
        return x[:60]

    def fmt2(p, a):
        if p.endswith("add_constraint"):
            return "%s = %s" % (kind(a[1]), kind(a[2]))
        t = a[1]
        fs = dict(t[3]) if t[0] == "agg" else None
        if not fs:
            m = re.match(r"^Requirement::WhereInequality\{", hr.v(t))
            return "requirement" if m else None
        return "requirement %s" % {k: kind(v) for k, v in fs.items() if k in ("lhs", "rhs", "inequality")}
    cs = event_cases(ck, h, hr, (), lambda p, d: bool(re.search(r"TypeState::add_(requirement|constraint)$", p)), fmt2, interesting=lambda t: hr.v(t).rstrip(">").endswith(".Int.kind"))
    got = {}
    for c, x in cs:
        k = next((v for q_, v in c.items() if q_.startswith("variant of ")), None)
        got.setdefault(k, set()).update(y.lstrip("?") for y in x)
    for v in prog.variants("spade_hir::WhereClauseKind"):
        want = {"parameter = value"} if v == "Eq" else {"fresh = value", "requirement {'lhs': 'parameter', 'rhs': 'fresh', 'inequality': 'kind'}"}
        x = got.get(v, got.get(None))
        ck.ob(R, "where " + v, x == want, "a where clause of kind %s leads to %s" % (v, sorted(x or ())), where(h))
    # none is skipped
    from_ = events(h, lambda p, d, a: p.endswith("TypeState::visit_const_generic") and "Int.constraint" in hr.v(a[1]))
    adds = {"add_constraint": events(h, lambda p, d, a: p.endswith("TypeState::add_constraint")), "add_requirement": events(h, lambda p, d, a: p.endswith("TypeState::add_requirement"))}
    for y in from_:
        ok = paths.OkReturn()

        class Out(At):
            needs_env = getattr(ok, "needs_env", False)

            def __call__(self, g_, n_, e):
                return n_ in self.nodes or ok(g_, n_, e)
        p = search(h).find(Out({y}), avoid=adds["add_constraint"], start=[(z, {}) for z in units.succ(h, y)])
        ck.paths += 1
        ck.ob(R, "imposed", p is None, "" if p is None else "a where clause is passed over; path: %s" % paths.path_str(h, p), where(h))
        for z in adds["add_constraint"]:
            if kind(h.args_of(z)[1]) == "fresh":
                p = search(h).find(Out({y}), avoid=adds["add_requirement"], start=[(x, {}) for x in units.succ(h, z)])
                ck.paths += 1
                ck.ob(R, "required", p is None, "" if p is None else "a where clause does not become a requirement; path: %s" % paths.path_str(h, p), where(h))
    for fn, names in ((vu, {1: "e"}), (TI + "TypeState::handle_function_like", None)):
        h = ck.graph(fn, precise=True)
        hr = LR({("arg", i): "e%d" % i for i in range(10)}, prog)
        n_ = [h.args_of(x[0]) for x in h.calls() if x[1] == f]
        t = [(hr.v(a[7]), hr.v(a[2])) for a in n_]
        ck.ob(R, "clauses of " + fn.rsplit("::", 1)[-1], bool(t) and all(x.endswith(".where_clauses") and y.endswith(".unit_type_params") and x.rsplit(".", 1)[0] == y.rsplit(".", 1)[0] for x, y in t), "the where clauses of the unit are imposed together with its parameters: %s" % t, where(h))
