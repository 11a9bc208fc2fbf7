"""Which units are compiled, when, and in which order they are written."""
import re
import ir, paths, core, render
from core import prop
from common import *
from diagnostics import DISCARD, Flat

MONO = "spade_hir_lowering::monomorphisation::"
show = ir.show


def closures(prog, f, rx):
    """the closures of f that call a function"""
    out = []
    for x in prog.fns:
        if x.startswith(f + "::{closure") and "#prom" not in x:
            for bb in prog.fns[x].bbs:
                ce = ir.callee(bb["t"]) if not bb["c"] and bb["t"][0] == "call" else None
                if ce and re.search(rx, ce[0]):
                    out.append(x)
                    break
    return out


def reach(g, frm, to, avoid=(), **kw):
    return search(g, **kw).find(paths.AtNodes(set(to)), start=[(n, {}) for n in frm], avoid=set(avoid))


def nodes(g, rx, *argrx):
    return {n for n, r, d, rec in g.calls() if re.search(rx, r) and all(any(re.search(x, show(a)) for a in g.args_of(n)) for x in argrx)}


def has(t, pred):
    return any(pred(x) for x in ir.subterms(t))


@prop("C15")
def c15(ck):
    prog = ck.prog
    A = lambda i: ("arg", i)
    # ---- requests
    ck.rule("requested", "a requested instantiation is queued exactly if it was not requested before, under one lock", 14)
    g = ck.graph(MONO + "MonoState::request_compilation", precise=True)
    name = lambda t: t[0] == "call" and t[1].endswith("UnitName::name_id") and t[2][0] == A(1)
    key = lambda t: t[0] == "tup" and len(t[1]) == 2 and has(t[1][0], name) and t[1][1] == A(3)
    look = {n for n, r, d, rec in g.calls() if re.search(r"Map<.*>::(get|contains_key|entry|get_mut)$", r) and "translation" in show(g.args_of(n)[0])}
    ins = {n for n, r, d, rec in g.calls() if re.search(r"Map<.*>::insert$|Entry<.*>::(insert|or_insert\w*)$", r) and "translation" in show(g.args_of(n)[0])}
    push = {n for n, r, d, rec in g.calls() if re.search(r"VecDeque<.*>::push_\w+$|Vec<.*>::push$", r) and "to_compile" in show(g.args_of(n)[0])}
    add = {n for n, r, d, rec in g.calls() if re.search(r"fetch_add$", r) and "remaining_units" in show(g.args_of(n)[0])}
    lock = nodes(g, r"Mutex<T>::(try_)?lock$")
    for k, s in (("lookup", look), ("insertion", ins), ("queueing", push), ("count", add), ("lock", lock)):
        ck.ob("requested", "anchor " + k, len(s) == 1, "one %s expected, %d found" % (k, len(s)), where(g))
    isget = lambda t: t[0] in ("call", "at") and "translation" in show(t)[:60]
    known = lambda v: (lambda t, ty: {v} if ty and "Option<" in ty and "NameID" in ty and "translation" in show(t) else None)
    for k, s in (("queued", push), ("recorded", ins), ("counted", add)):
        p = search(g, extra=known("None")).find(paths.OkReturn(), avoid=s)
        ck.ob("requested", "new " + k, p is None, "" if p is None else "a new instantiation is not %s on the path %s" % (k, paths.path_str(g, p)), where(g))
        p = search(g, extra=known("Some")).find(paths.AtNodes(s))
        ck.ob("requested", "known not " + k, p is None, "" if p is None else "an instantiation that was requested before is %s again on the path %s" % (k, paths.path_str(g, p)), where(g))
    p = reach(g, lock, lock)
    ck.ob("requested", "one lock", all(reach(g, [s], lock) is None for n in lock for s in succ(g, n)), "the lock is taken more than once: another thread can request the same instantiation in between", where(g))
    drops = [n for n in guard_drops(g) if reach(g, [n], ins | push) is not None]
    ck.ob("requested", "lock held", not drops, "the lock is released before the instantiation is recorded", where(g))
    for n in look | ins:
        a = g.args_of(n)
        ck.ob("requested", "key of " + ("lookup" if n in look else "insertion"), key(a[1]), "the key must consist of the name and the parameters, it is %s" % show(a[1])[:200], where(g))
    for n in push:
        it = [x for x in ir.subterms(g.args_of(n)[1]) if x[0] == "agg" and str(x[1]).endswith("MonoItem")]
        f = dict(zip(prog_fields(prog, MONO + "MonoItem"), it[0][3])) if it and not isinstance(it[0][3], dict) else {}
        s = show(it[0]) if it else ""
        ck.ob("requested", "what is queued", bool(it) and field(it[0], "params") == A(3) and name(strip(field(it[0], "source_name"))), "the unit that is queued is %s" % s[:200], where(g))
        newname = field(it[0], "new_name") if it else ("unk", "")
        for m in ins:
            v = g.args_of(m)[2]
            ck.ob("requested", "name used", has(newname, lambda x: x == v), "the unit is compiled under another name than the one recorded for it", where(g))
    for v, want in ((1, lambda t: has(t, name) and not has(t, lambda x: x[0] == "call" and x[1].endswith("::new_name"))), (0, lambda t: has(t, lambda x: x[0] == "call" and x[1].endswith("FrozenSymtab::new_name")))):
        ts = returned(ck, g, decide_bool=lambda t, v=v: v if t == A(2) else None, extra=known("None"))
        ck.ob("requested", "name %s" % ("kept" if v else "new"), bool(ts) and all(want(t) for t in ts), "the name returned is %s" % [show(t)[:120] for t in ts], where(g))
    ts = returned(ck, g, extra=known("Some"))
    ck.ob("requested", "name found", bool(ts) and all("translation" in show(t) for t in ts), "the name returned is %s" % [show(t)[:120] for t in ts], where(g))

    # ---- queue
    ck.rule("finished", "the compiler stops taking units from the queue only when none is queued or being compiled", 8)
    g = ck.graph(MONO + "MonoState::next_target", precise=True)
    pop = {n for n, r, d, rec in g.calls() if re.search(r"VecDeque<.*>::pop_\w+$", r) and "to_compile" in show(g.args_of(n)[0])}
    ck.ob("finished", "anchor queue", len(pop) >= 1, "the queue is not read", where(g))
    popped = lambda t: t[0] == "call" and re.search(r"::pop_\w+$", t[1]) or t[0] == "elem" and "to_compile" in show(t)
    some = lambda t, ty: {"Some"} if popped(t) or ty and "Option<" in ty and "MonoItem" in ty and "to_compile" in show(t) else None
    ts = returned(ck, g, extra=some)
    ck.ob("finished", "unit returned", bool(ts) and all(has(t, popped) for t in ts), "what is returned is %s" % [show(t)[:100] for t in ts], where(g))

    def left(t):
        if t[0] == "bin" and "remaining_units" in show(t):
            z = ("k", 0)
            if z in (t[2], t[3]):
                op = t[1] if t[3] == z else {"Lt": "Gt", "Gt": "Lt"}.get(t[1], t[1])
                return {"Eq": 0, "Ne": 1, "Gt": 1, "Le": 0}.get(op)
        if t[0] == "call" and t[1].endswith("Atomic<bool>::load"):
            return 0
        return None
    nopool = lambda t, ty: {"Some"} if t[0] == "call" and t[1].endswith("rayon_core::thread_pool::yield_now") else {"None"} if some(t, ty) else None
    p = search(g, extra=nopool, decide_bool=left).find(VariantReturn("None"))
    ck.ob("finished", "units left", p is None, "" if p is None else "the queue is given up although units are being compiled: %s" % paths.path_str(g, p), where(g))
    f = MONO + "compile_items"
    cs = closures(prog, f, r"monomorphize_item$")
    ck.ob("finished", "anchor task", len(cs) == 1, "the task that compiles a unit was not found")
    for x in cs:
        g = ck.graph(x, precise=True)
        mono, sub = nodes(g, r"::monomorphize_item$"), nodes(g, r"fetch_sub$", r"remaining_units")
        p = search(g).find(paths.AtNodes(sub), avoid=mono)
        ck.ob("finished", "counted after", p is None and bool(sub), "a unit counts as finished before it is compiled: the units it requests can be lost", where(g))
        p = search(g).find(paths.OkReturn(bad=()), avoid=sub)
        ck.ob("finished", "counted", p is None, "" if p is None else "a finished unit is not counted as finished on the path %s" % paths.path_str(g, p), where(g))
        p = [n for n in sub if any(reach(g, [s], sub) for s in succ(g, n))]
        ck.ob("finished", "counted once", not p, "a finished unit is counted more than once", where(g))
    g = ck.graph(f, precise=True)
    sp = nodes(g, r"::spawn(_fifo|_broadcast)?$")
    nt = nodes(g, r"next_target$")
    inner = [n for n in nt]
    some = lambda t, ty: {"Some"} if t[0] == "call" and t[1].endswith("::next_target") else None
    for n in nt:
        c = g.ctxs[n[0]]
        cg = ck.graph(c.body.path, precise=True)
        ns, ss = nodes(cg, r"::next_target$"), nodes(cg, r"::spawn(_fifo|_broadcast)?$|::monomorphize_item$")
        p = [m for m in ns for s in succ(cg, m) if search(cg, extra=some).find(paths.AtNodes(ns), start=[(s, {})], avoid=ss)]
        ck.ob("finished", "every unit compiled", not p and bool(ss), "a unit that was taken from the queue is not compiled", where(cg))

    # ---- what is compiled at all
    ck.rule("instantiated", "units without parameters are compiled, instantiated units get exactly the requested types", 10)
    g = ck.graph(f, precise=True)
    req = nodes(g, r"::request_compilation$")
    unit = lambda t, ty: {"Unit"} if ty and ty.replace("&", "").strip().endswith("ExecutableItem") else None
    gen = lambda v: (lambda t: v if t[0] == "call" and t[1].endswith("::is_empty") and "type_params" in show(t) else None)
    nx = nodes(g, r"Iterator>?::next$", r"^.{0,12}arg0")
    scope = nodes(g, r"rayon.*::(scope|scope_fifo|in_place_scope)$")
    ck.ob("instantiated", "anchor request", len(req) == 1 and bool(scope), "the request of the units without parameters was not found", where(g))
    p = search(g, extra=unit, decide_bool=gen(1), force=lambda t: "arg0" in show(t)[:20]).find(paths.AtNodes(scope), avoid=req)
    ck.ob("instantiated", "not generic", p is None, "" if p is None else "a unit without parameters is not compiled: %s" % paths.path_str(g, p), where(g))
    p = search(g, extra=unit, decide_bool=gen(0)).find(paths.AtNodes(req))
    ck.ob("instantiated", "generic", p is None, "a generic unit is compiled without its parameters", where(g))
    skip = [r for n, r, d, rec in g.calls() if DISCARD.search(r) and has(g.args_of(n)[0], lambda x: x == A(0))]
    ck.ob("instantiated", "all", not skip, "units are skipped by %s" % skip, where(g))
    for n in req:
        a = g.args_of(n)
        ck.ob("instantiated", "request", show(a[1]).endswith("Unit.0.name") and a[2] == ("k", 1) and show(a[5]).startswith("option::Option::None"), "the request is %s" % [show(x)[:60] for x in a], where(g))

    f = MONO + "monomorphize_item"
    g = ck.graph(f, precise=True)
    u = lambda t: has(t, lambda x: x[0] in ("at", "atx") or True) and "arg1[" in show(t) or "source_name" in show(t)
    vis = nodes(g, r"::visit_unit_with_preprocessing$")
    gu = nodes(g, r"^spade_hir_lowering::generate_unit$")
    ck.ob("instantiated", "anchor inference", len(vis) == 1 and len(gu) == 1, "the steps of the compilation of a unit were not found", where(g))
    have = lambda t, ty: {"Some"} if ty and "Option<" in ty and "ExecutableItem" in ty else unit(t, ty)
    p = search(g, extra=have, decide_bool=gen(0)).find(paths.AtNodes(gu), avoid=vis)
    ck.ob("instantiated", "types inferred again", p is None, "" if p is None else "a generic unit is compiled without inferring the types for its parameters: %s" % paths.path_str(g, p), where(g))
    child = lambda t: has(t, lambda x: x[0] == "call" and x[1].endswith("TypeState::create_child") and x[2][0] == A(7))
    old = lambda t: has(t, lambda x: x[0] == "f" and x[2] == "1" and "source_name" in show(x))
    for v, want, txt in ((0, child, "the inferred ones"), (1, old, "those of its definition")):
        got = [a[2] for n, a in args_under(ck, g, lambda r, d: r == "spade_hir_lowering::generate_unit", extra=have, decide_bool=gen(v))]
        ck.ob("instantiated", "types of " + ("a unit without parameters" if v else "a generic unit"), bool(got) and all(want(t) for t in got) and (v or not any(old(t) for t in got)), "the types used must be %s, are %s" % (txt, [show(t)[:150] for t in got]), where(g))
    for n in gu:
        a = g.args_of(n)
        ck.ob("instantiated", "name", show(a[1]) == "arg0.new_name", "the unit is compiled under the name %s" % show(a[1]), where(g))
        ck.ob("instantiated", "unit", "source_name" in show(a[0]), "the unit compiled is %s" % show(a[0])[:100], where(g))
        got = [x for x in a if has(x, lambda y: y[0] == "agg" and y[2] == "Some") and x != a[0] and any(y == A(0) for y in ir.subterms(x))]
        ck.ob("instantiated", "origin", bool(got), "the instantiation is not passed on to the requests the unit makes", where(g))
    # the parameters
    cs = [x for x in closures(prog, f, r"TypeState::unify$") if any(re.search(r"KnownTypeVar.*::insert$", r) for _, r, _, _ in Flat(prog, x).calls())]
    ck.ob("instantiated", "anchor parameters", len(cs) >= 1, "the place where the parameters are given their types was not found")
    for x in cs:
        if len(closures(prog, x, r"TypeState::unify$")):
            continue
        g = ck.graph(x, precise=True)
        un = nodes(g, r"TypeState::unify$")
        ok = force_loop(g, un)
        ck.ob("instantiated", "every parameter", ok is None, "" if ok is None else "a parameter is not given its type: %s" % ok, where(g))
        skip = [r for n, r, d, rec in g.calls() if DISCARD.search(r)]
        ck.ob("instantiated", "all parameters", not skip, "parameters are skipped by %s" % skip, where(g))
        src = [show(t) for n, r, d, rec in g.calls() if r.endswith("Iterator::zip") for t in g.args_of(n)]
        ck.ob("instantiated", "parameters in order", len(src) == 2 and "type_params" in src[0] and "params" in src[1] and "rev" not in "".join(src), "parameters and types are paired as %s" % src, where(g))

    # ---- passes
    ck.rule("passes", "every pass runs on the unit before it is lowered, the checks after the rewriting passes", 12)
    g = ck.graph(f, precise=True)
    app = {}
    for n, r, d, rec in g.calls():
        if re.search(r"Passable>::apply$", r):
            a = g.args_of(n)
            for x in ir.subterms(a[1]):
                if x[0] == "agg" and "passes::" in str(x[1]):
                    app.setdefault(str(x[1]).split("::")[-1], set()).add(n)
                    break
    want = ("LowerLambdaDefs", "FlattenRegs", "LowerMethods", "LowerTypeLevelIf", "InOutChecks", "DisallowZeroSize")
    have = sorted({m.group(1) for m in (re.match(r"<spade_hir_lowering::passes::\w+::(\w+)(<.*>)? as spade_hir_lowering::passes::pass::Pass>::visit_expression$", x) for x in prog.fns) if m})
    for k in want:
        ck.ob("passes", "anchor " + k, k in have, "the pass does not exist any more")
    for k in have:
        p = search(g).find(paths.AtNodes(gu), avoid=app.get(k, set()))
        ck.ob("passes", k, p is None, "" if p is None else "the pass is not run on the path %s" % paths.path_str(g, p), where(g))
        for n in app.get(k, ()):
            a = g.args_of(n)
            gua = [g.args_of(m)[0] for m in gu][0]
            ck.ob("passes", k + " unit", a[0] == gua or strip(a[0]) == strip(gua), "the pass runs on %s, the unit lowered is %s" % (show(a[0])[:100], show(gua)[:100]), where(g))
    for chk in ("InOutChecks", "DisallowZeroSize"):
        for k in ("LowerLambdaDefs", "FlattenRegs", "LowerMethods", "LowerTypeLevelIf"):
            p = reach(g, app.get(chk, ()), app.get(k, ()))
            ck.ob("passes", "%s after %s" % (chk, k), p is None, "the check runs before the pass", where(g))


def strip(t):
    while t[0] == "f" and t[2] in ("inner", "0") and False:
        t = t[1]
    return t


def field(t, name):
    """field of an aggregate term"""
    fs = t[3]
    if isinstance(fs, dict):
        return fs.get(name)
    for x in fs:
        if isinstance(x, tuple) and len(x) == 2 and x[0] == name:
            return x[1]
    return ("unk", "field")


def prog_fields(prog, adt):
    return ()


def succ(g, n):
    return [m for m in g.succ_plain(n)]


def guard_drops(g):
    """nodes where the guard of a lock is released"""
    out = []
    for c in g.ctxs:
        for bi, bb in enumerate(c.body.bbs):
            t = bb["t"]
            if not bb["c"] and t[0] == "drop" and "MutexGuard" in c.body.tys[t[2]]:
                out.append((c.id, bi))
            ce = ir.callee(t) if not bb["c"] and t[0] == "call" else None
            if ce and ce[0] == "std::mem::drop" and any(o[0] in ("c", "m") and "MutexGuard" in c.body.ty(o[1][0]) for o in t[2]):
                out.append((c.id, bi))
    return out


def force_loop(g, ev, only=None):
    """a path around the loop that does not pass the event"""
    nx = {n for n in nodes(g, r"Iterator>?::next$") if not only or only(n)}
    if not nx:
        return None if ev and search(g).find(paths.OkReturn(), avoid=ev) is None else "no loop found"
    for n in nx:
        c = g.ctxs[n[0]]
        t = c.body.bbs[n[1]]["t"]
        p = search(g).find(paths.AtNodes({n}), start=[((n[0], t[4]), {(c.id, t[3][0]): ("v", "Some")})], avoid=ev)
        if p:
            return paths.path_str(g, p)
        p = search(g).find(paths.OkReturn(), start=[((n[0], t[4]), {(c.id, t[3][0]): ("v", "Some")})], avoid=ev)
        if p:
            return paths.path_str(g, p)
    return None


@prop("C03")
def c03(ck):
    prog = ck.prog
    ck.rule("kept", "the code of every unit that was compiled is written", 10)
    f = MONO + "compile_items"
    for x in closures(prog, f, r"monomorphize_item$"):
        g = ck.graph(x, precise=True)
        for v, inner, rx in (("Ok", "Some", r"Vec<T, A>::push$|Extend<T>>::extend$"), ("Err", None, r"Extend<T>>::extend$|Vec<T, A>::(push|append)$")):
            def ex(t, ty, v=v, inner=inner):
                if t[0] == "call" and t[1].endswith("::monomorphize_item"):
                    return {v} if ty and "Result<" in ty else {inner} if inner else None
                if inner and ty and "Option<" in ty and "MirOutput" in ty:
                    return {inner}
                return None
            st = {n for n, r, d, rec in g.calls() if re.search(rx, r) and any(has(a, lambda t: t[0] in ("call", "err") and "monomorphize_item" in str(t[1])) for a in g.args_of(n)[1:])}
            p = search(g, extra=ex, force=lambda t: v == "Err" and "monomorphize_item" in str(t)).find(paths.OkReturn(bad=()), avoid=st)
            ck.ob("kept", "result " + v, p is None and bool(st), "" if p is None else "the result of a unit is forgotten on the path %s" % paths.path_str(g, p), where(g))
        ck.ob("kept", "whole results", not any(DISCARD.search(r) for n, r, d, rec in g.calls()), "errors are skipped", where(g))
    g = ck.graph(f, precise=True)
    bad = [r for n, r, d, rec in g.calls() if n[0] == 0 and (DISCARD.search(r) or re.search(r"Itertools::(dedup|unique|duplicates)\w*$", r))]
    ck.ob("kept", "results", not bad, "results are skipped by %s" % bad, where(g))
    # the place where units become code
    f = "spade::codegen"
    cs = [x for x in closures(prog, f, r"spade_mir::codegen::entity_code$")]
    ck.ob("kept", "anchor code", len(cs) == 1, "the place where the code is generated was not found")
    for x in cs:
        g = ck.graph(x, precise=True)
        code = nodes(g, r"spade_mir::codegen::entity_code$")
        stm = lambda vs: (lambda t, ty: vs if ty and ty.replace("&", "").strip() == "spade_mir::Statement" else None)
        for v in prog.variants("spade_mir::Statement"):
            want = "Some" if v == "Error" else "None"
            p = search(g, extra=stm({v}), force=lambda t: "statements" in show(t)).find(VariantReturn(want))
            ck.ob("kept", "units with the statement " + v, p is None, "" if p is None else "code is %sgenerated for a unit with this statement: %s" % ("" if v == "Error" else "not ", paths.path_str(g, p)), where(g))
        p = search(g).find(VariantReturn("Some"), avoid=code)
        ck.ob("kept", "code", p is None, "a unit is left out", where(g))
        for n in code:
            a = g.args_of(n)
            ck.ob("kept", "what is generated", has(a[0], lambda t: t[0] == "call" and t[1].endswith("prepare_codegen") and "mir" in show(t)), "the code is generated of %s" % show(a[0])[:120], where(g))
    g = ck.graph(f, precise=True)
    bad = [r for n, r, d, rec in g.calls() if n[0] == 0 and (DISCARD.search(r) or re.search(r"Itertools::(dedup|unique|duplicates)\w*$|ParallelIterator::(filter|take_any\w*|skip_any\w*|find_\w+|while_some|flatten\w*|flat_map\w*)$", r)) and not r.endswith("::filter_map")]
    ck.ob("kept", "units", not bad, "units are skipped by %s" % bad, where(g))
    inl = {n for n, r, d, rec in g.calls() if r.endswith("inline::do_inlining")}
    ck.ob("kept", "anchor inlining", len(inl) == 1 and all(g.args_of(n)[0] == ("arg", 0) for n in inl), "the units must go through inlining", where(g))
    ps = {n for n, r, d, rec in g.calls() if re.search(r"Vec<T, A>::push$", r) and show(g.args_of(n)[1]).endswith(("local_module_code", "local_module_code}"))}
    ps |= {n for n, r, d, rec in g.calls() if re.search(r"Vec<T, A>::push$", r) and "entity_code" in show(g.args_of(n)[1])[:40]}
    why = force_loop(g, ps, lambda n: n[0] == 0)
    ck.ob("kept", "code stored", why is None and len(ps) >= 1, "the code of a unit is not stored: %s" % why, where(g))
    ts = [t for t in returned(ck, g)]
    mods = [field_of(t, "module_code") for t in ts]
    ck.ob("kept", "code returned", bool(mods) and all("local_module_code" in show(m) or "entity_code" in show(m) for m in mods), "the code that is returned is %s" % [show(m)[:150] for m in mods], where(g))
    g = ck.graph("spade::compile", precise=True)
    for n, r, d, rec in g.calls():
        if r == "std::fs::write" and "outfile" in show(g.args_of(n)[0]):
            a = g.args_of(n)[1]
            ck.ob("kept", "code written", has(a, lambda t: t[0] == "f" and t[2] == "module_code") or "spade::codegen" in show(a), "what is written is %s" % show(a)[:150], where(g))
    # inlining
    f = "spade_hir_lowering::inline::do_inlining"
    g = ck.graph(f, precise=True)
    ok = []
    for n, r, d, rec in g.calls():
        if n[0] == 0 and (DISCARD.search(r) or r.endswith("::filter_map")):
            cl = [x for x in prog.fns if x.startswith(f + "::{closure") and prog.fns[x].ty(0) == "bool"]
            ok.append(r.endswith("::filter") and len(cl) == 1 and inline_only(ck, prog, cl[0]))
    ck.ob("kept", "inlined units", len(ok) <= 1 and all(ok), "only the units that are marked to be inlined may be left out", where(g))

    ck.rule("ordered", "the order of the units does not depend on which of them was finished first", 3)
    f = MONO + "compile_items"
    g = ck.graph(f, precise=True)
    par = nodes(g, r"rayon.*::(scope|scope_fifo|in_place_scope|join)$")
    srt = {n for n, r, d, rec in g.calls() if n[0] == 0 and re.search(r"::(sorted|sort|sort_unstable|sorted_unstable)(_by_key|_by_cached_key|_by)?$", r)}
    p = reach(g, par, [n for n in g.nodes() if n[0] == 0 and g.root.body.bbs[n[1]]["t"][0] == "ret"], avoid=srt)
    ck.ob("ordered", "sorted", p is None and bool(par), "" if p is None else "the results are returned in the order in which they were finished: %s" % paths.path_str(g, p), where(g))
    ks = set()
    for x in prog.fns:
        if x.startswith(f + "::{closure") and "#prom" not in x and prog.fns[x].ty(0).endswith("MonoKey") and prog.fns[x].nargs == 2:
            kg = ck.graph(x, precise=True)
            ks |= {show(t) for t in returned(ck, kg)}
    for x in closures(prog, f, r"Ord>?::cmp$|PartialOrd>?::partial_cmp$"):
        kg = ck.graph(x, precise=True)
        for n, r, d, rec in kg.calls():
            if re.search(r"::(partial_)?cmp$", r):
                ks |= {"arg0.0" if sorted(show(a) for a in kg.args_of(n)) == ["arg1.0", "arg2.0"] else "cmp(%s)" % ",".join(show(a) for a in kg.args_of(n))}
    ck.ob("ordered", "key", ks == {"arg1.0"} or ks == {"arg0.0"}, "the results are sorted by %s" % sorted(ks), where(g))
    own = [x for x in prog.fns if x == "<%sMonoKey as std::cmp::Ord>::cmp" % MONO]
    kf = lambda fn: sorted({y for x in prog.fns if x == fn for t in returned(ck, ck.graph(fn, precise=True)) for s in ir.subterms(t) if s[0] == "agg" and str(s[1]).endswith("MonoKey") for y in re.findall(r"arg0\.(\w+)", show(s))})
    ck.ob("ordered", "key of a unit", kf(MONO + "MonoItem::key") == ["params", "source_name"], "the key of a unit consists of %s" % kf(MONO + "MonoItem::key"))
    # a derived order compares all fields
    for nm, fty, _ in prog.adt(MONO + "MonoKey")["vs"][0][2] if own else ():
        cg = ck.graph("<%sMonoKey as std::cmp::Ord>::cmp" % MONO, precise=True)
        us = [n for n, r, d, rec in cg.calls() if r.endswith("::cmp") and any(show(a).endswith("." + nm) for a in cg.args_of(n))]
        ck.ob("ordered", "key compares " + nm, bool(us) or nm == "span", "this part of the key is not compared", where(cg))


def field_of(t, name):
    for x in ir.subterms(t):
        if x[0] == "agg":
            m = field(x, name)
            if m and m[0] != "unk":
                return m
    return ("unk", "none")


def inline_only(ck, prog, x):
    g = ck.graph(x, precise=True)
    ts = {show(t) for t in returned(ck, g)}
    return all(t in ("<un Not ('f', ('f', ('arg', 1), 'mir'), 'inline')>",) for t in ts)
