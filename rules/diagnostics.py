"""What happens to the errors the compiler finds: none is dropped, all are reported, and any of them stops the build."""
import re
import ir, paths, core, render
from core import prop
from common import *

DIAG = "spade_diagnostics::diagnostic::Diagnostic"
TYPES = (DIAG, "spade_typeinference::error::UnificationError", "spade_hir::symbol_table::LookupError", "spade_hir::param_util::ArgumentError")
SHARED = re.compile(r"^(&|\*|std::sync::|std::rcs?::|std::rcs::|alloc::|std::cell::|impl |dyn )")
# functions which keep or print the error they are lent
REPORT = re.compile(r"ErrorHandler(<'_>)?::report$|ErrorHandler<'a>::report$|CompilationError>?::report$|Reportable<.*>>?::(report|or_report)$|DiagHandler::emit$|Clone>::clone$")


def carries(ty):
    return any(t in ty for t in TYPES) and not SHARED.search(ty) and "Fn(" not in ty and "spade_macros" not in ty


class Flat(ir.Graph):
    """a single body; closures are bodies of their own"""

    def _expand(self, c, bi):
        c.subs[bi] = []
        return []


def strip_call(b, l, seen=None):
    """names of what a local was computed by: calls, or `arg`"""
    seen = set() if seen is None else seen
    if l in seen:
        return set()
    seen.add(l)
    if 1 <= l <= b.nargs:
        return {"arg"}
    out = set()
    for proj, kind, pay, bi, line in b.defs().get(l, []):
        if kind == "call":
            ce = ir.callee(pay)
            n = ce[0] if ce else "?"
            last = re.sub(r"<.*?>", "", n).split("::")[-1]
            if last in ("branch", "from_residual", "map", "map_err", "into_iter", "next", "clone", "into", "from", "transpose", "cloned", "as_ref") and pay[2] and pay[2][0][0] in ("c", "m"):
                out |= strip_call(b, pay[2][0][1][0], seen)
            else:
                out.add(n)
        elif pay[0] in ("use", "cast", "rep") and pay[1][0] in ("c", "m"):
            out |= strip_call(b, pay[1][1][0], seen)
        elif pay[0] in ("ref", "disc"):
            out |= strip_call(b, pay[1][0], seen)
        elif pay[0] in ("agg", "tup"):
            for o in (pay[4] if pay[0] == "agg" else pay[1]):
                if o[0] in ("c", "m"):
                    out |= strip_call(b, o[1][0], seen)
    return out


def lends(b, o, local, depth=0):
    """is this operand a reference to (part of) the local"""
    if o[0] not in ("c", "m") or depth > 6:
        return False
    l = o[1][0]
    for proj, kind, pay, bi, line in b.defs().get(l, []):
        if kind == "rv":
            if pay[0] == "ref":
                if pay[1][0] == local or lends(b, ["c", [pay[1][0]]], local, depth + 1):
                    return True
            elif pay[0] in ("use", "cast") and pay[1][0] in ("c", "m") and lends(b, pay[1], local, depth + 1):
                return True
    return False


GOOD = ("Ok", "None", "Continue")


def nonempty(v):
    """the vector has elements"""
    def size(t):
        return t[0] == "call" and re.search(r"::len$", t[1]) and t[2] and t[2][0] == v

    def num(t):
        return str(t[1]).split("_")[0] if t[0] == "k" else None

    def dec(t):
        if t[0] == "call" and re.search(r"::is_empty$", t[1]) and t[2] and t[2][0] == v:
            return 0
        if t[0] == "bin":
            op, a, b = t[1:4]
            if size(b):
                a, b = b, a
                op = {"Lt": "Gt", "Gt": "Lt", "Le": "Ge", "Ge": "Le"}.get(op, op)
            if size(a):
                k = (op, num(b))
                if k in (("Eq", "0"), ("Lt", "1"), ("Le", "0")):
                    return 0
                if k in (("Ne", "0"), ("Ge", "1"), ("Gt", "0")):
                    return 1
        return None
    return dec


class Collect:
    needs_env = True

    def __init__(self, node, place, search):
        self.node, self.place, self.search, self.envs = node, place, search, []

    def __call__(self, g, n, env):
        if n == self.node:
            c = g.ctxs[0]
            p = self.place
            while True:
                v = self.search.val_of_place(c, env, p)
                if v is not None and v[0] == "v":
                    break
                if len(p) == 1:
                    break
                p = p[:-1]
            down = [e[1] for e in self.place[len(p):] if isinstance(e, list) and e[0] == "d"]
            if v is None or v[0] != "v" or (down and v[1] == down[0]) or (not down and v[1] not in GOOD):
                self.envs.append(dict(env))
        return False


def lost(prog, f):
    """[(line, type, origin, path)] of the errors this body can drop while it carries on"""
    b = prog.fn(f)
    drops = [(bi, bb["t"][1], b.tys[bb["t"][2]]) for bi, bb in enumerate(b.bbs) if not bb["c"] and bb["t"][0] == "drop" and carries(b.tys[bb["t"][2]])]
    if not drops:
        return None
    g = Flat(prog, f)
    calls = [(n, r, b.bbs[n[1]]["t"]) for n, r, d, rec in g.calls()]
    out = []
    okret = b.ty(0)
    for bi, place, ty in drops:
        local = place[0]
        if any(t == b.ty(0) for t in TYPES):
            # another error takes its place
            continue
        kept = {n for n, r, t in calls if REPORT.search(r) and any(lends(b, a, local) for a in t[2])}
        start = None
        dec = None
        it = re.match(r"std::vec::into_iter::IntoIter|std::iter|std::vec::drain", ty)
        if it:
            steps = {n: t for n, r, t in calls if re.search(r"::next$", r) and any(lends(b, a, local) for a in t[2])}
            if not steps:
                start = [((0, 0), {})]
            else:
                start = [((0, t[4]), {(0, t[3][0]): ("v", "Some")}) for t in steps.values()]
                kept = kept | set(steps)
                s0 = paths.Search(g)
                first = s0.find(paths.AtNodes({(0, bi)}), avoid=set(steps))
                if first:
                    out.append((b.bbs[bi]["l"], ty, {"not iterated"}, paths.path_str(g, first)))
        if ty.startswith("std::vec::Vec"):
            dec = nonempty(g.place(g.ctxs[0], [local]))
        S = paths.Search(g, decide_bool=dec)
        C = Collect((0, bi), place, S)
        S.find(C, avoid=kept - {(0, bi)}, start=start)
        if C.envs:
            p = paths.Search(g, decide_bool=dec).find(paths.OkReturn(), start=[((0, bi), e) for e in C.envs], avoid=kept)
            if p:
                out.append((b.bbs[bi]["l"], ty, strip_call(b, local) or {"?"}, "%s dropped at line %d, returns at line %d" % (re.sub(r"[a-z_]+::", "", ty), b.bbs[bi]["l"], b.bbs[p[-1][1]]["l"])))
    return out



# errors which may be forgotten: (source file, how the value was computed, why)
ALLOWED = [
    (r"passes/disallow_inout_bindings\.rs$", r"::concrete_type_of$", "a type that is not known is reported by the lowering that follows"),
    (r"linear_check/linear_state\.rs$", r"::concrete_type_of$", "a type that is not known is reported by the lowering that follows"),
    (r"spade-ast-lowering/src/lib\.rs$", r"::(try_lookup_enum_variant|lookup_unit|lookup_variable)$", "the name is looked up as something else next"),
    (r"spade-hir/src/symbol_table\.rs$", r"::lookup_id$", "the caller asks if the name exists"),
    (r"spade-parser/src/lib\.rs$", r"::next_token_helper$", "text in comments need not consist of tokens"),
    (r"spade-parser/src/lib\.rs$", r"::peek$", "the error that made the parser skip tokens is already stored"),
    (r"spade-parser/src/lib\.rs$", r"::parameter_list$", "the tokens are only tried to improve another error"),
    (r"spade-typeinference/src/lib\.rs$", r"::do_and_restore$", "the caller asks if the types are equal"),
    (r"spade-typeinference/src/lib\.rs$", r"TypeState::unify$|::can_unify$", "the caller asks if the impl applies"),
    (r"spade-typeinference/src/lib\.rs$", r"Requirement::check$", "a requirement that does not hold yet is checked again at the end"),
    (r"spade-hir-lowering/src/lib\.rs$", r"KnownTypeVar::expect_string$|::expect_string$", "what is not a string is no parameter"),
    (r"spade-hir/src/symbol_table\.rs$", r"::lookup_id_in_namespace$", "the name is looked up to describe another error"),
    (r"tools/spadedoc/", r"SymbolTable::lookup_\w+$", "documentation is produced for what exists"),
]
REPORTED = re.compile(r"Reportable<.*>>::report$|ErrorHandler.*::report$")
# functions of the standard library which forget the error of the value they are called on
FORGET = re.compile(r"^std::result::Result<T, E>::(ok|unwrap_or|unwrap_or_default|map_or|is_ok_and|and|or|iter|into_iter|into_ok|flatten|copied|cloned)$|result::Result<T, E> as std::iter::traits::collect::IntoIterator>::into_iter$")
DISCARD = re.compile(r"^std::(mem::forget|vec::Vec<T, A>::(clear|truncate|retain|retain_mut|pop|remove|swap_remove|drain|split_off|dedup\w*)|mem::drop|iter::traits::iterator::Iterator::(count|last|nth|find|find_map|position|any|all|min|max|\w+_by|\w+_by_key|skip|skip_while|take|take_while|step_by|filter|flatten|flat_map|partition|reduce|for_each|fold))$")


def allowed(b, org):
    """is every one of the computations reported already, or listed"""
    org = {o for o in org if not o.startswith("std::")}
    return bool(org) and all(REPORTED.search(o) or any(re.search(x, b.file) and re.search(y, o) for x, y, _ in ALLOWED) for o in org)


def edges(prog):
    """who calls, or creates the closures of, whom"""
    es = {}
    for f, b in prog.fns.items():
        e = es.setdefault(f, set())
        for bb in b.bbs:
            t = bb["t"]
            if bb["c"] or t[0] != "call":
                continue
            ce = ir.callee(t)
            if ce:
                e.update(ce[:2])
            for o in t[2]:
                if o[0] == "k" and isinstance(o[1].get("fn"), dict):
                    e.add(o[1]["fn"].get("r", o[1]["fn"]["d"]))
        if "{closure" in f:
            es.setdefault(f[:f.rindex("::{closure")], set()).add(f)
    return es


def stores_diag(b):
    """does this body add an error to a list it was lent"""
    for bb in b.bbs:
        t = bb["t"]
        ce = ir.callee(t) if not bb["c"] and t[0] == "call" else None
        if ce and (re.search(r"::handle_in$", ce[0]) or re.search(r"Vec<T, A>::push$", ce[0]) and any(
                o[0] in ("c", "m") and b.ty(o[1][0]).startswith("&") and "Vec<%s>" % DIAG in b.ty(o[1][0]) for o in t[2])):
            return True
    return False


def after(ck, rule, key, g, source, sink, detail, floor=1):
    """after each call for which source holds, a call for which sink holds is passed before the function succeeds"""
    src, snk = events(g, source), events(g, sink)
    if not ck.ob(rule, key + " anchor", len(src) >= floor, "%d of the calls this rule is about found, at least %d exist" % (len(src), floor), where(g)):
        return
    p = paths.Search(g).find(paths.OkReturn(), start=[(n, {}) for n in src], avoid=snk)
    ck.ob(rule, key, p is None, "" if p is None else "%s; path: %s" % (detail, paths.path_str(g, p)), where(g))


@prop("C02")
def c02(ck):
    paths.DROP_USES = re.compile("|".join(t.split("::")[-1] for t in TYPES))
    prog = ck.prog
    ck.rule("kept", "an error value is handed on, reported or stored wherever the function that has it carries on", 45)
    ck.rule("consumed", "error values are not handed to library functions which forget them", 1000)
    fs = sorted(f for f in prog.fns if any(not bb["c"] and bb["t"][0] == "drop" and carries(prog.fns[f].tys[bb["t"][2]]) for bb in prog.fns[f].bbs))
    for f, ls in zip(fs, ck.par(lambda f: lost(prog, f), fs)):
        b = prog.fns[f]
        ck.fns.add(f)
        bad = []
        for line, ty, org, p in ls or ():
            if any(t in b.ty(0) for t in ("eyre::Report",)) or b.ty(0) == "std::string::String" and "{closure" in f and org == {"arg"}:
                # it becomes another kind of error
                continue
            if allowed(b, org):
                continue
            bad.append("%s:%d an error computed by %s is forgotten: %s" % (b.file, line, ", ".join(sorted(org)), p))
        ck.ob("kept", f, not bad, "; ".join(bad), "%s:%d" % (b.file, b.line))
    for f in sorted(prog.fns):
        b = prog.fns[f]
        if b.file.startswith(("spade-macros", "tools/spadedoc")):
            continue
        for bi, bb in enumerate(b.bbs):
            t = bb["t"]
            if bb["c"] or t[0] != "call":
                continue
            ce = ir.callee(t)
            if not ce or not ce[0].startswith(("std::", "<std::", "itertools", "rayon", "core::")):
                continue
            bad = None
            took = False
            for o in t[2]:
                if o[0] in ("c", "m") and len(o[1]) == 1:
                    ty = b.ty(o[1][0])
                    if not carries(ty):
                        continue
                    took = True
                    if FORGET.search(ce[0]) and re.match(r"std::result::Result<", ty) and not allowed(b, strip_call(b, o[1][0])):
                        bad = ce[0]
                    if DISCARD.search(ce[0]) and "closure" not in ty:
                        bad = ce[0]
                elif o[0] == "k" and isinstance(o[1].get("fn"), dict):
                    r = o[1]["fn"]
                    n = r.get("r", r["d"])
                    if FORGET.search(n) or n.startswith("std::mem::drop"):
                        gs = [b.tys[x] for x in r.get("g", ())]
                        if any(carries(x) for x in gs):
                            bad = n
            if took or bad:
                ck.ob("consumed", "%s %s" % (f, ce[0].split("::")[-1]), not bad, "%s forgets the error" % bad, "%s:%d" % (b.file, bb["l"]))

    # lists of errors
    ck.rule("listed", "an error that is put into a list ends up in it, and taking the list yields every error in it", 5)
    LST = "spade_diagnostics::diag_list::"
    for key, f, txt in (("of a result", "<std::result::Result<T, %s> as %sResultExt<T>>::handle_in" % (DIAG, LST), r"Vec<T, A>::push$"), ("of an error", "%s<impl %s>::handle_in" % (LST, DIAG), r"Vec<T, A>::push$"),
                        ("of a list", LST + "DiagList::extend", r"Extend<T>>::extend$|Vec<T, A>::append$")):
        g = ck.graph(f, precise=True)
        errs = {n for n, r, d, rec in g.calls() if re.search(txt, r) and "errors" in ir.show(g.args_of(n)[0]) and ir.contains(g.args_of(n)[1], ("arg", 1 if key == "of a list" else 0))}
        p = search(g, [(("arg", 0), "Err")] if key == "of a result" else ()).find(paths.OkReturn(), avoid=errs)
        ck.ob("listed", key, p is None, "" if p is None else "the error is not stored on the path %s" % paths.path_str(g, p), where(g))
    g = ck.graph(LST + "DiagList::drain", precise=True)
    taken = [n for n, r, d, rec in g.calls() if re.search(r"mem::(swap|take|replace)$", r) and "errors" in "".join(ir.show(a) for a in g.args_of(n))]
    p = paths.Search(g).find(paths.OkReturn(), avoid=taken)
    ck.ob("listed", "drain", p is None and len(taken) == 1, "the list must be taken on every path", where(g))
    ck.ob("listed", "drain result", not any(DISCARD.search(r) for n, r, d, rec in g.calls()), "errors are removed from the list", where(g))
    # the lists are read after everything that fills them
    ck.rule("drained", "after every step which can store errors in a list, the list is read before the step counts as successful", 12)
    anyarg = lambda rx: (lambda r, d, a: bool(re.search(rx, r)))
    drains = lambda what: (lambda r, d, a: bool(re.search(r"::drain_diag_list$|DiagList::drain$", r)) and any(re.search(what, ir.show(x)) for x in a))
    g = ck.graph("spade::parse", precise=True)
    after(ck, "drained", "parser", g, anyarg(r"Parser<.*>::top_level_module_body$"), drains(r"diags"), "the errors of the parser are not read")
    f = "spade::run_global_compilation_tasks"
    g = ck.graph(f, precise=True)
    low = r"global_symbols::(gather_\w+|handle_external_modules)$|^spade::lower_ast$|impl_auto_traits$"
    after(ck, "drained", "lowering", g, anyarg(low), drains(r"diags"), "the errors of the lowering are not read", 6)
    after(ck, "drained", "impls", g, anyarg(r"TypeState::visit_impl_blocks$|::resolve_obligations$"), drains(r"diags"), "the errors of the impls are not read", 2)
    # ... and those of the impls come from the list of their own type state
    st = {ir.show(a) for n, r, d, rec in g.calls() if re.search(r"::drain_diag_list$|DiagList::drain$", r) for a in g.args_of(n)}
    ck.ob("drained", "impls list", any("owned" in x for x in st), "the list of the type state of the impls is not read, the lists read are %s" % sorted(st), where(g))
    f = [x for x in prog.fns if x.startswith("spade::run_local_compilation_steps::{closure") and any(re.search(r"TypeState::visit_unit$", (ir.callee(bb["t"]) or ("",))[0]) for bb in prog.fns[x].bbs if bb["t"][0] == "call" and not bb["c"])]
    for x in f:
        g = ck.graph(x, precise=True)
        after(ck, "drained", "unit", g, anyarg(r"TypeState::visit_unit$"), drains(r"diags"), "the errors of the unit are not read")
        res = [n for n, r, d, rec in g.calls() if re.search(r"TypeState::visit_unit$", r)]
        ck.ob("drained", "unit reported", paths.Search(g).find(paths.OkReturn(), start=[(n, {}) for n in res], avoid=events(g, anyarg(r"Reportable<.*>::(report|or_report)$|ErrorHandler.*::report$"))) is None, "the error of the unit is not reported", where(g))
    ck.ob("drained", "unit found", len(f) == 1, "the place where units are type checked was not found")
    g = ck.graph("spade_hir_lowering::monomorphisation::monomorphize_item", precise=True)
    after(ck, "drained", "monomorphised unit", g, anyarg(r"TypeState::visit_unit_with_preprocessing$"), drains(r"diags"), "the errors of the unit are not read")
    after(ck, "drained", "passes", g, anyarg(r"passes::pass::\w+.*::apply$|::apply$"), drains(r"diags"), "the errors of the passes are not read", 6)
    es = edges(prog)
    fills = {x for x, b in prog.fns.items() if x.startswith(("spade_typeinference", "<spade_typeinference", "spade_hir_lowering", "<spade_hir_lowering")) and stores_diag(b)}
    ck.ob("drained", "anchor fills", len(fills) >= 6, "the functions which store errors were not found")
    for start in ("spade_hir_lowering::generate_unit",):
        prev, todo = {start: None}, [start]
        while todo:
            x = todo.pop()
            for y in es.get(x, ()):
                if y in prog.fns and y not in prev:
                    prev[y] = x
                    todo.append(y)
        for x in sorted(fills & set(prev)):
            ch = [x]
            while prev[ch[-1]]:
                ch.append(prev[ch[-1]])
            ck.ob("drained", "code generation " + x, False, "stores an error after the list was read for the last time: %s" % " <- ".join(ch))
        ck.ob("drained", "code generation", True)
