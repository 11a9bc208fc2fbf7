"""Exhaustiveness of patterns: the usefulness algorithm, function by function, and where it is asked."""
import re
import ir, paths, core, render
from core import prop
from common import *
from render import compare, rejects
from lowering import LR, value_cases, bool_cases, ids, self_names, SELF, KIND, K, canon, EXPR
from calls import noisy

P = "spade_hir_lowering::pattern::"
U = "spade_hir_lowering::usefulness::"
SMALL = r"usefulness::(Matrix|PatStack)::(push|rows|head|is_empty|new|empty)$|usefulness::Usefulness::new_\w+$"


def events_of(ck, g, r, pred, assume=(), fixed=None, stores=None, only=None):
    def fmt(n, a):
        return n.split("::")[-1] + "(%s)" % ", ".join(r.v(x) for x in (a if only is None else [a[i] for i in only]))

    return canon(render.event_cases(ck, g, r, assume, lambda n, d: pred.search(n), fmt, fixed=fixed, interesting=lambda t: not noisy(t), stores=stores))


@prop("C13")
def c13(ck):
    prog = ck.prog
    ck.rule("constructors", "the ways a value of a type can be built, and the parts each of them has, are complete and split at every boundary a pattern draws", 38)
    ck.rule("coverage", "a pattern covers exactly the values its constructor has and its parts cover", 5)
    ck.rule("recursion", "a value is missing exactly if it is missing for one of the constructors, in the rows that cover that constructor, with the parts of the first column in place of it", 7)
    ck.rule("asked", "a match, let or reg whose patterns leave out a value is an error; branches with a guard do not count", 10)
    nm = {("arg", i): x for i, x in enumerate("self b c d e f".split())}

    def graph(f):
        return ck.graph(f, SMALL, precise=True), LR(nm, prog)

    def V(rule, key, f, exp, mode=value_cases, assume=(), fixed=None, drop=()):
        g, r = graph(f)
        cs = mode(ck, g, r, assume, fixed)
        compare(ck, rule, key, [({k: v for k, v in c.items() if k not in drop}, x) for c, x in cs], exp, where(g))

    # what a value of a type can be
    one = "[Constructor::Single{}]"
    e = [({"variant of self": t}, one) for t in ("Error", "Tuple", "Struct", "Array", "Backward", "CopyView")]
    e.append(({"variant of self": "Enum"}, "map(Constructor::Variant{0: <index>(self.Enum.options)} for enumerate(self.Enum.options))"))
    pr = lambda b, **more: dict({"variant of self": "Single", "variant of self.Single.base": b}, **more)
    e += [(pr(b), one) for b in ("Clock", "Tri", "Memory", "InOut")]
    e.append((pr("Bool"), "group_missing_constructors([Constructor::Bool{0: 0}, Constructor::Bool{0: 1}], b)"))
    n = "to_u128(self.Single.params[0].Integer.0)"
    isint = {"variant of self.Single.params[0]": "Integer"}
    for b, lo, hi in (("Int", "neg(shl(1, %s-1))" % n, "shl(1, %s-1)-1" % n), ("Uint", "0", "shl(1, %s)-1" % n)):
        e.append((dict(pr(b, **isint), **{"-%s == 0" % n: True}), "[Constructor::IntRange{min: 0, max: 0}]"))
        e.append((dict(pr(b, **isint), **{"-%s == 0" % n: False}), "split_int_range(%s, %s, split(b[*], self, new()))" % (lo, hi)))
    V("constructors", "of a type", P + "split_wildcard", e)
    for t in prog.variants("spade_types::ConcreteType"):
        ck.ob("constructors", "anchor type " + t, t in ("Error", "Tuple", "Struct", "Array", "Enum", "Single", "Integer", "Bool", "String", "Backward", "CopyView"), "a type without a rule here")
    for t in prog.variants("spade_types::PrimitiveType"):
        ck.ob("constructors", "anchor primitive " + t, t in ("Int", "Uint", "Clock", "Bool", "Tri", "Memory", "InOut"), "a primitive type without a rule here")
    ctors = prog.variants(P + "Constructor")
    for t in ctors:
        ck.ob("constructors", "anchor constructor " + t, t in ("Single", "Bool", "Variant", "IntRange", "Missing", "Wildcard"), "a constructor without a rule here")
    V("constructors", "split", P + "Constructor::split", [({"variant of self": "Wildcard"}, "split_wildcard(b, c)"), ({"variant of self": "IntRange"}, "split_int_range(self.IntRange.min, self.IntRange.max, c)")] +
      [({"variant of self": x}, "[self]") for x in ctors if x not in ("Wildcard", "IntRange")])
    s = lambda t: {"variant of self": "Single", "variant of b": t}
    V("constructors", "parts", P + "Constructor::fields", [(s("Error"), "new()"), (s("Tuple"), "b.Tuple.0"), (s("Struct"), "map(b.Struct.members[*].1)"), (s("Array"), "map(b.Array.inner for 0..to_u128(b.Array.size))"),
      (s("Single"), "new()"), (s("Backward"), "new()"), (s("CopyView"), "fields(self, b.CopyView.0)"), ({"variant of self": "Variant", "variant of b": "Enum"}, "map(b.Enum.options[self.Variant.0].1[*].1)")] +
      [({"variant of self": x}, "new()") for x in ("Bool", "IntRange", "Missing")])
    # boundaries between the ranges of a number
    V("constructors", "range of", P + "Constructor::as_range", [({"variant of self": "IntRange"}, "(self.IntRange.min, self.IntRange.max)")])
    g, r = ck.graph(P + "split_int_range", precise=True), LR(nm, prog)
    other = lambda v: {"variant of c[*]": v}
    first = lambda xs: {re.sub(r"\*map\(Constructor::IntRange\{min: self, max: nothing\(\)-1\}\), ", "", x) for x in xs}
    whole = "[Constructor::IntRange{min: self, max: b}]"
    none = {x for _, xs in value_cases(ck, g, r, fixed=other("Wildcard")) for x in first(xs)}
    ck.ob("constructors", "ranges without boundaries", whole in none, "without other ranges there is one from the lowest to the highest value, the code yields %s" % sorted(none), where(g))
    edge = "<as_range(c[*]).0 | as_range(c[*]).1+1>"
    cs = value_cases(ck, g, r, fixed=other("IntRange"))
    cmp = lambda e: [x for c, _ in cs for x in c if x.endswith(e)]
    lo, hi = cmp("-self > 0"), cmp("-b > 0")
    test = re.compile(r"<as_range\((c|<filter>\(c, .*\))\[\*\]\)\.0 \| as_range\((c|<filter>\(c, .*\))\[\*\]\)\.1\+1>-(self|b) > 0$")
    ck.ob("constructors", "boundaries tested", bool(lo) and bool(hi) and all(test.match(x) for x in lo + hi),
          "the boundaries within the range are those above its lowest and up to its highest value, the code tests %s" % sorted(set(lo + hi)), where(g))
    flat = lambda x: re.sub(r"[<>]|^\{\*|\*\}$", "", x.replace("map(%s)[*]" % edge, edge))
    cut = flat("[*map(Constructor::IntRange{min: %s | self, max: %s-1}), Constructor::IntRange{min: %s | self, max: b}]" % (edge, edge, edge))
    for c, xs in cs:
        c = {x: v for x, v in c.items() if x in lo + hi}
        within = any(c.get(x) for x in lo) and any(c.get(x) is False for x in hi) and not any(c.get(x) for x in hi) and not any(c.get(x) is False for x in lo)
        xs = {flat(x) for x in first(xs)}
        ck.ob("constructors", "ranges %s" % ("cut" if within else "not cut"), xs <= {cut, whole} and (not within or xs == {cut}) and (within or not c or cut not in xs), "the ranges end before each boundary and the next starts at it, the code yields %s" % sorted(xs), where(g))
    ev = events_of(ck, g, r, re.compile(r"::(sort\w*)$"), fixed=other("IntRange"))
    ck.ob("constructors", "boundaries sorted", all(len(x) == 1 for _, x in ev) and bool(ev), "the boundaries must be taken in order", where(g))
    # constructors no pattern mentions
    g, r = graph(P + "group_missing_constructors")
    for v in ctors:
        cs = value_cases(ck, g, r, fixed={"variant of b[*]": v})
        bad = []
        for c, xs in cs:
            e = [p for k, p in c.items() if k.startswith("-len(<filter>(self, Not(any(") and "is_covered_by(self[*], " in k]
            a = [p for k, p in c.items() if k.startswith("any(") and "is_covered_by(self[*], " in k]
            mentioned = "*nothing()" if v == "Wildcard" else "*b"
            want = {"self"} if e and all(e) and not a else {"[%s, Constructor::Missing{all_missing: %s}]" % (mentioned, "nothing()" if a and all(a) else "self")}
            if xs != want or not (e or a):
                bad.append("%s when %s" % (sorted(xs), c))
        ck.ob("constructors", "unmentioned " + v, bool(cs) and not bad, "; ".join(bad), where(g))
    # patterns
    V("coverage", "constructor", P + "Constructor::is_covered_by", [({"variant of b": "Wildcard"}, "1")] +
      [({"variant of self": "Missing", "variant of b": x}, "0") for x in ctors if x != "Wildcard"] + [({"variant of self": "Single", "variant of b": "Single"}, "1")] +
      [({"variant of self": x, "variant of b": x, "b.%s.0 == self.%s.0" % (x, x): v}, str(int(v))) for x in ("Bool", "Variant") for v in (True, False)] +
      [({"variant of self": "IntRange", "variant of b": "IntRange", "b.IntRange.min-self.IntRange.min > 0": True}, "0"),
       ({"variant of self": "IntRange", "variant of b": "IntRange", "b.IntRange.min-self.IntRange.min > 0": False, "-b.IntRange.max+self.IntRange.max > 0": True}, "0"),
       ({"variant of self": "IntRange", "variant of b": "IntRange", "b.IntRange.min-self.IntRange.min > 0": False, "-b.IntRange.max+self.IntRange.max > 0": False}, "1")], bool_cases)
    dp = lambda c, f: "DeconstructedPattern{ctor: Constructor::%s, fields: %s, ty: C(self)}" % (c, f)
    k = lambda v, **m: dict({"variant of self.kind": v}, **m)
    pk = "variant of patternable_type_by_id(symtab(b.symtab), self.kind.Type.0).kind"
    inner = "is_some(self.kind.Bound.inner)"
    args = "map(from_hir(self.kind.Type.1[*].value, b))"
    V("coverage", "pattern", P + "DeconstructedPattern::from_hir", [
        (k("Integer"), dp("IntRange{min: self.kind.Integer.0, max: self.kind.Integer.0}", "new()")), (k("Bool"), dp("Bool{0: self.kind.Bool.0}", "new()")),
        (k("Bound", **{inner: True}), "from_hir(self.kind.Bound.inner, b)"), (k("Bound", **{inner: False}), dp("Wildcard{}", "new()")),
        (k("Tuple"), dp("Single{}", "map(from_hir(self.kind.Tuple.0[*], b))")), (k("Array"), dp("Single{}", "map(from_hir(self.kind.Array.0[*], b))")),
        (k("Type", **{pk: "Struct"}), dp("Single{}", args)),
        (k("Type", **{pk: "Enum"}), dp("Variant{0: enum_variant_by_id(symtab(b.symtab), self.kind.Type.0).option}", args))], drop=("variant of M(self)",))
    wild = "DeconstructedPattern{ctor: Constructor::Wildcard{}, fields: new(), ty: self}"
    V("coverage", "any value", P + "DeconstructedPattern::wildcard", [({}, wild)])
    V("coverage", "any parts", P + "DeconstructedPattern::wild_from_ctor", [({}, "DeconstructedPattern{ctor: self, fields: map(wildcard(fields(self, b)[*])), ty: b}")])
    V("coverage", "parts", P + "DeconstructedPattern::specialize", [({"variant of self.ctor": x}, "wild_from_ctor(b, self.ty).fields" if x == "Wildcard" else "self.fields") for x in ctors])
    # the algorithm
    V("recursion", "first column", U + "PatStack::pop_head", [({}, "PatStack{pats: [*specialize(self.pats[0], b), *self.pats[1..]]}")])
    g, r = ck.graph(U + "Matrix::specialize", SMALL.replace("push|", ""), precise=True), LR(nm, prog)
    cov = "is_covered_by(b, self.patterns[*].pats[0].ctor)"
    vs = value_cases(ck, g, r)
    if not any(re.search(r"Matrix::push$|Vec<.*>::push$", x) for n, x, d, rec in g.calls()):
        # collected instead of pushed
        compare(ck, "recursion", "rows", vs, [({cov: True}, "Matrix{patterns: map(pop_head(self.patterns[*], b))}"), ({cov: False}, "Matrix{patterns: nothing()}")], where(g))
    else:
        compare(ck, "recursion", "rows", events_of(ck, g, r, re.compile(r"Matrix::push$|Vec<.*PatStack.*>::push$"), only=(1,)), [({cov: True}, ["push(pop_head(self.patterns[*], b))"]), ({cov: False}, set())], where(g))
    g, r = ck.graph(U + "is_useful", SMALL, precise=True), LR(nm, prog)
    sp = "split(self.pats[0].ctor, self.pats[0].ty, map(b.patterns[*].pats[0].ctor))[*]"
    rec = "apply_constructor(is_useful(pop_head(self, %s), specialize(b, %s)), %s, self.pats[0].ty)" % (sp, sp, sp)
    z = "-len(self.pats) == 0"
    less, more = "Usefulness{witnesses: new()}", "Usefulness{witnesses: [Witness{0: new()}]}"
    cs = value_cases(ck, g, r)
    compare(ck, "recursion", "usefulness", cs, [({z: True, "-len(b.patterns) == 0": True}, more), ({z: True, "-len(b.patterns) == 0": False}, less), ({z: False}, ("[*%s, {**%s*}]" % (less, rec),))], where(g))
    cs = [(c, {x for x in xs}) for c, xs in events_of(ck, g, r, re.compile(r"Usefulness::extend$"), only=(1,))]
    compare(ck, "recursion", "every constructor", cs, [({z: True}, set()), ({z: False}, ["extend(%s)" % rec])], where(g))
    w, o = "-len(self.witnesses) == 0", "-len(b.witnesses) == 0"
    V("recursion", "found", U + "Usefulness::is_useful", [({w: True}, "0"), ({w: False}, "1")], bool_cases)
    g, r = ck.graph(U + "Usefulness::extend", precise=True), LR(nm, prog)
    cs = events_of(ck, g, r, re.compile(r"::(extend\w*|append|push)$"), stores=re.compile(r"^self"))
    cs = [(c, {re.sub(r"^\w+\(self.witnesses, b.witnesses(\[\*\])?\)$|^self := b$", "joined", x) for x in xs}) for c, xs in cs if not c.get(o)]
    compare(ck, "recursion", "joined", cs, [({o: False, w: True}, ["joined"]), ({o: False, w: False}, ["joined"])], where(g))
    g, r = ck.graph(U + "Usefulness::apply_constructor", precise=True), LR(nm, prog)
    each = lambda x: "Usefulness{witnesses: map(apply_constructor(self.witnesses[*], %s, c))}" % x
    compare(ck, "recursion", "kept", value_cases(ck, g, r), [({w: True}, "self")] + [({w: False, "variant of b": x}, each("b.Missing.all_missing[*]" if x == "Missing" else "b")) for x in ctors], where(g))
    # where it is asked
    IRR = r"<spade_common::location_info::Loc<spade_hir::Pattern> as spade_hir_lowering::PatternLocal>::"
    g, r = ck.graph(IRR + "is_trivially_irrefutable", precise=True), LR(nm, prog)
    t = lambda x: "is_trivially_irrefutable(%s, b)" % x
    exp = [(k("Integer"), "0"), (k("Bool"), "0"), (k("Type", **{pk: "Enum"}), "0")]
    for v, c, q in (("Tuple", {}, "all(self.kind.Tuple.0: %s)" % t("self.kind.Tuple.0[*]")), ("Array", {}, "all(self.kind.Array.0: %s)" % t("self.kind.Array.0[*]")),
                    ("Type", {pk: "Struct"}, "all(self.kind.Type.1: %s)" % t("self.kind.Type.1[*].value"))):
        exp += [(k(v, **dict(c, **{q: x})), str(int(x))) for x in (True, False)]
    tb = t("self.kind.Bound.inner")
    yes = lambda v: {c: x for c, x in exp}
    cs = []
    for c, xs in bool_cases(ck, g, r):
        # an optional part that is absent is the default
        if c.get("variant of self.kind") == "Bound":
            ck.ob("asked", "trivial Bound %s" % sorted(x for x in c.values() if isinstance(x, bool)), xs == ({"0"} if c.get(tb) is False else {"1"}) or c.get(inner) is False and xs == {"None"} or c.get(inner) is False and xs == {"1"},
                  "a name without a pattern matches everything, with one as the pattern does; the code says %s when %s" % (sorted(xs), c), where(g))
        else:
            cs.append((c, xs))
    compare(ck, "asked", "trivial", cs, exp, where(g))
    V("asked", "refutable", IRR + "is_refutable", [({}, "is_useful(PatStack{pats: [wildcard(C(self))]}, Matrix{patterns: [PatStack{pats: [from_hir(self, b)]}]})")])
    g, r = ck.graph(IRR + "check_irrefutable", precise=True), LR(nm, prog)
    q = "is_useful(is_refutable(self, c))"
    rejects(ck, "asked", "let and reg", g, r, (), {"is_trivially_irrefutable(self, c)": False, q: True}, "a pattern that does not match everything must be an error")
    seen = {}
    render.CaseSearch(g, {"is_trivially_irrefutable(self, c)": False}, r, core.decider(()), lambda t: not noisy(t), seen).find(paths.OkReturn())
    ck.ob("asked", "let and reg test", q in seen, "the question must be whether the pattern leaves out anything, the code asks %s" % sorted(seen), where(g))
    g, r = ck.graph(EXPR + "lower", precise=True), LR(self_names(), prog)
    cond, err = "is_some(kind.Match.1[*].1)", "is_error_recursively(C(kind.Match.0))"
    M = ((KIND, "Match"),)
    base = lambda p: "is_useful(new([wildcard(C(kind.Match.0))]), new(%s))" % p
    ev = events_of(ck, g, r, re.compile(r"usefulness::is_useful$"), M)
    ev = [(c, {x for x in xs if "witnesses" not in x}) for c, xs in ev]
    compare(ck, "asked", "match patterns", ev, [({err: False, cond: False}, [base("map(new([from_hir(kind.Match.1[*].0, b)]))")]), ({err: False, cond: True}, [base("nothing()")]), ({err: True}, set())], where(g))
    ns = [n for n, x, d, rec in g.calls() if x.endswith("Usefulness::is_useful")]
    seen = {}
    render.CaseSearch(g, {cond: False}, r, core.decider(M), lambda t: not noisy(t), seen).find(paths.OkReturn())
    ks = [x for x in seen if x.startswith("is_useful(is_useful(new([wildcard(C(kind.Match.0))])")]
    if ck.ob("asked", "match test", len(ks) == 1, "the outcome of the question must be tested, the code tests %s" % sorted(seen), where(g)):
        rejects(ck, "asked", "match", g, r, M, {ks[0]: True, err: False}, "a match that leaves out a value must be an error")
