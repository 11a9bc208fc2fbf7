"""Any error makes the build fail without output, and a build without errors writes the code of every unit, in a fixed order."""
import json, os, re
import facts, ir, paths, core, render
from core import prop
from common import *
from diagnostics import Flat

EH = "spade::error_handling::ErrorHandler<'a>::"
RS = "<std::result::Result<T, E> as spade::error_handling::Reportable<T>>::"
RD = "<spade_diagnostics::diagnostic::Diagnostic as spade::error_handling::Reportable<()>>::"
DG = "spade_diagnostics::diagnostic::Diagnostic"
LVL = "DiagnosticLevel"


def field_stores(g, field, ty):
    """[(node, value)] of the writes to this field of the type (written through a reference, or of a local), None where the whole is replaced"""
    out = []
    for c in g.ctxs:
        for bi, bb in enumerate(c.body.bbs):
            if bb["c"]:
                continue
            for st in bb["s"]:
                p = st[0]
                if ty not in c.body.ty(p[0]):
                    continue
                e = [x for x in p[1:] if x != "*"]
                if e and e[-1] == ["f", field]:
                    out.append(((c.id, bi), g.rvalue(c, st[1], bi)))
                elif not e and "*" in p[1:]:
                    out.append(((c.id, bi), None))
    return out


def handler_calls(g):
    """nodes of the calls that are lent the error handler"""
    out = {}
    for n, r, d, rec in g.calls():
        t = g.ctxs[n[0]].body.bbs[n[1]]["t"]
        looked = any(k == "exact" for k, _ in g.ctxs[n[0]].subs.get(n[1], ()))
        if not looked and any(o[0] in ("c", "m") and "ErrorHandler" in g.ctxs[n[0]].body.ty(o[1][0]) for o in t[2]):
            out[n] = r
    return out


def same(rx, v):
    """decides comparisons of the enumeration a call returns"""
    def dec(t):
        if t[0] == "call" and re.search(r"PartialEq.*::(eq|ne)$", t[1]) and len(t[2]) == 2:
            a, b = t[2]
            if b[0] == "call":
                a, b = b, a
            if a[0] == "call" and rx.search(a[1]) and b[0] == "agg":
                return int((b[2] == v) == t[1].endswith("::eq"))
        return None
    return dec


def texts(prog):
    """[(function, line, kind, text)] of the diagnostics the compiler creates"""
    out = []
    for f, b in sorted(prog.fns.items()):
        hits = []
        for bi, bb in enumerate(b.bbs):
            ce = ir.callee(bb["t"]) if not bb["c"] and bb["t"][0] == "call" else None
            m = re.match(re.escape(DG) + "::(error|bug|warning)$", ce[0]) if ce else None
            if m:
                hits.append((bi, m.group(1)))
        if hits and not f.startswith(DG):
            g = Flat(prog, f)
            for bi, k in hits:
                s = ir.show(g.args_of((0, bi))[1])
                # places the text is filled with do not matter
                m = re.search(r"<bytes \(([\d, ]+),?", s)
                out.append((f, b.bbs[bi]["l"], k, b.file, "bytes " + m.group(1) if m else " ".join(re.findall(r"'[^']*'", s))))
    return out


@prop("C01")
def c01(ck):
    prog = ck.prog
    ck.rule("recorded", "reporting an error of severity bug or error marks the build as failed; a warning alone does not", 10)
    ck.rule("sticky", "nothing takes the mark back", 4)
    sev = re.compile(r"CompilationError>?::severity$")
    for fn, variants in ((EH + "report", ("Bug", "Error")), (EH + "set_failed", (None,))):
        g = ck.graph(fn, r"ErrorHandler<'a>::set_failed$", precise=True)
        for v in variants:
            ex = (lambda t, ty: {v} if v and t[0] == "call" and sev.search(t[1]) or v and ty and LVL in ty else None)
            for fld in ("failed", "failed_now"):
                st = {n for n, x in field_stores(g, fld, "ErrorHandler") if x == ("k", 1)}
                p = search(g, extra=ex, decide_bool=same(sev, v)).find(paths.OkReturn(), avoid=st)
                ck.ob("recorded", "%s %s %s" % (fn.split("::")[-1], v, fld), p is None, "" if p is None else "%s is not set on the path %s" % (fld, paths.path_str(g, p)), where(g))
    g = ck.graph(EH + "report", r"ErrorHandler<'a>::set_failed$", precise=True)
    sv = [n for n, r, d, rec in g.calls() if sev.search(r) and ir.contains(g.args_of(n)[0], ("arg", 1))]
    ck.ob("recorded", "severity asked", len(sv) >= 1, "the severity of the error is not asked for", where(g))
    ex = lambda t, ty: {"Warning"} if t[0] == "call" and sev.search(t[1]) else None
    for fld in ("failed", "failed_now"):
        p = search(g, extra=ex, decide_bool=same(sev, "Warning")).find(paths.AtNodes({n for n, x in field_stores(g, fld, "ErrorHandler")}))
        ck.ob("recorded", "warning " + fld, p is None, "" if p is None else "a warning sets %s" % fld, where(g))
    rep = events(g, lambda r, d, a: bool(re.search(r"CompilationError>?::report$", r)) and ir.contains(a[0], ("arg", 1)))
    p = search(g).find(paths.OkReturn(), avoid=rep)
    ck.ob("recorded", "printed", p is None, "" if p is None else "the error is not printed on the path %s" % paths.path_str(g, p), where(g))
    g = ck.graph(EH + "failed", precise=True)
    vs = {ir.show(t) for t in returned(ck, g)}
    ck.ob("recorded", "asked", vs == {"arg0.failed"}, "`failed` must return the mark, it returns %s" % sorted(vs), where(g))
    for f, b in sorted(prog.fns.items()):
        if "#" in f:
            continue
        hit = any("ErrorHandler" in b.ty(st[0][0]) for bb in b.bbs if not bb["c"] for st in bb["s"] if len(st[0]) > 1)
        agg = [(bi, st) for bi, bb in enumerate(b.bbs) if not bb["c"] for st in bb["s"] if st[1][0] == "agg" and str(st[1][1]).endswith("error_handling::ErrorHandler")]
        if hit:
            bad = [n for n, x in field_stores(Flat(prog, f), "failed", "ErrorHandler") if x != ("k", 1)]
            ck.ob("sticky", f, not bad, "the mark that the build failed is overwritten", "%s:%d" % (b.file, b.line))
        if agg:
            ck.ob("sticky", "created by " + f, f == EH + "new", "an error handler is created by copying parts of another", "%s:%d" % (b.file, b.line))
    mk = {}
    for f, b in sorted(prog.fns.items()):
        for bb in b.bbs:
            ce = ir.callee(bb["t"]) if not bb["c"] and bb["t"][0] == "call" else None
            if ce and ce[0] == EH + "new":
                mk[f] = mk.get(f, 0) + 1
    ck.ob("sticky", "handlers created", mk.get("spade::compile") == 1 and not any(f.startswith("spade::") and f != "spade::compile" for f in mk), "the compiler must use one error handler per build, it creates them in %s" % mk)

    ck.rule("reported", "the functions that report an error pass it to the error handler", 6)
    anyrep = lambda r: bool(re.search(r"ErrorHandler<'\w+>::report$|ErrorHandler::report$", r))
    for fn, err in ((RS + "report", True), (RS + "or_report", True), (RS + "or_do_report", True), (RD + "or_report", False), (RD + "report", False), (RD + "or_do_report", False)):
        g = ck.graph(fn, precise=True)
        okc = events(g, lambda r, d, a: (anyrep(r) and ir.contains(a[1], ("arg", 0))) or bool(re.search(r"Reportable<.*>>?::(report|or_report)$", r)) and ir.contains(a[0], ("arg", 0)) and r != fn)
        iserr = lambda t: int(t[1].endswith("is_err")) if t[0] == "call" and re.search(r"::is_(err|ok)$", t[1]) and t[2][0] == ("arg", 0) else None
        p = search(g, [(("arg", 0), "Err")] if err else (), decide_bool=iserr).find(paths.OkReturn(bad=()), avoid=okc)
        ck.ob("reported", fn.split(" ")[0].lstrip("<") + " " + fn.split("::")[-1], p is None and bool(okc), "" if p is None else "the error is not reported on the path %s" % paths.path_str(g, p), where(g))
    g = ck.graph(EH + "drain_diag_list", precise=True)
    ev = events(g, lambda r, d, a: anyrep(r))
    force = lambda t: t[0] == "elem" or "drain" in ir.show(t)
    p = search(g, force=force).find(paths.OkReturn(), avoid=ev)
    ck.ob("reported", "list", p is None and bool(ev), "an error in a list is not reported", where(g))
    from diagnostics import DISCARD
    ck.ob("reported", "whole list", not any(DISCARD.search(r) for n, r, d, rec in g.calls()), "errors of the list are skipped", where(g))

    ck.rule("severity", "errors have the severity they were created with", 15)
    for k, v in (("error", "Error"), ("bug", "Bug"), ("warning", "Warning")):
        g = ck.graph(DG + "::" + k, r"Diagnostic::new$", precise=True)
        vs = {ir.show(x) for t in returned(ck, g) for x in ir.subterms(t) if x[0] == "agg" and LVL in str(x[1])}
        ck.ob("severity", k, len(vs) == 1 and all(x.endswith("::" + v) or x.endswith("::" + v + "{}") for x in vs), "must have the severity %s, has %s" % (v, sorted(vs)), where(g))
    nimpl = 0
    for f in sorted(prog.fns):
        m = re.match(r"<(.*) as spade_diagnostics::CompilationError>::severity$", f)
        if m:
            nimpl += 1
            g = ck.graph(f, precise=True)
            vs = {ir.show(t) for t in returned(ck, g)}
            want = {"arg0.level"} if m.group(1) == DG else None
            ck.ob("severity", m.group(1), vs == want if want else all(re.search(r"::(Error|Bug)(\{\})?$", x) for x in vs), "severity is %s" % sorted(vs), where(g))
    ck.ob("severity", "anchor impls", nimpl >= 3, "the severities of the errors were not found")
    for f, b in sorted(prog.fns.items()):
        if not f.startswith(DG + "::") or "#" in f or "{closure" in f or not b.ty(0).endswith("diagnostic::Diagnostic") or f.split("::")[-1] in ("error", "bug", "warning", "new", "level"):
            continue
        g = Flat(prog, f)
        bad = [n for n, x in field_stores(g, "level", "diagnostic::Diagnostic")]
        agg = [st for bb in b.bbs if not bb["c"] for st in bb["s"] if st[1][0] == "agg" and str(st[1][1]).endswith("diagnostic::Diagnostic")]
        ck.ob("severity", f, not bad and not agg, "the severity is changed", "%s:%d" % (b.file, b.line))
    errs = set(json.load(open(os.path.join(facts.VERIF, "engine", "baseline_errors.json"))))
    nw = 0
    for f, line, kind, file, txt in texts(prog):
        b = prog.fns[f]
        if kind == "warning":
            nw += 1
            ck.ob("severity", "warning in " + f, txt not in errs, "what used to be an error is a warning now", "%s:%d" % (file, line))
            # a warning stops nothing: as the error of a result it would stop a phase while the build counts as successful
            if "Diagnostic>" in b.ty(0) and "Result<" in b.ty(0):
                g = Flat(prog, f)
                es = [x for t in returned(ck, g) for x in ir.alts(t) if x[0] == "err" or x[0] == "agg" and x[2] == "Err"]
                ck.ob("severity", "warning handed on by " + f, not any("Diagnostic::warning" in ir.show(x) for x in es), "a warning is returned as an error", "%s:%d" % (file, line))
    ck.ob("severity", "anchor texts", nw >= 5 and len(errs) > 200, "the warnings were not found")

    ck.rule("gated", "output files are written only when no error was reported up to then", 8)
    g = ck.graph("spade::compile", precise=True)
    writes = {}
    for n, r, d, rec in g.calls():
        if re.search(r"^std::fs::(write|copy|rename|File::create|OpenOptions::open)$|std::fs::File::(create|create_new|options)$|OpenOptions::open$", r):
            s = ir.show(g.args_of(n)[0])
            writes.setdefault(next((x for x in ("outfile", "verilator_wrapper_output", "mir_output", "item_list_file", "state_dump_file") if x in s), s[:60]), set()).add(n)
    asked = {n for n, r, d, rec in g.calls() if r == EH + "failed"}
    failed = lambda t: 1 if t[0] == "call" and t[1] == EH + "failed" else None
    hc = handler_calls(g)
    outs = {k: v for k, v in writes.items() if k != "state_dump_file"}
    for k in ("outfile", "verilator_wrapper_output", "mir_output", "item_list_file"):
        ck.ob("gated", "anchor " + k, k in outs, "the place where %s is written was not found" % k, where(g))
    # failures to write one of the outputs do not concern the others
    wr = lambda n: any("fs::write" in ir.show(a)[:200] for a in g.args_of(n)) or hc[n].endswith("::set_failed")
    rep = [n for n in hc if n not in asked and not wr(n)]
    for k, ns in sorted(outs.items()):
        p = search(g, decide_bool=failed).find(paths.AtNodes(ns))
        ck.ob("gated", k, p is None, "" if p is None else "%s is written although the build failed: %s" % (k, paths.path_str(g, p)), where(g))
        p = paths.Search(g).find(paths.AtNodes(ns), start=[(n, {}) for n in rep], avoid=asked)
        ck.ob("gated", k + " after all", p is None, "" if p is None else "errors reported after the state of the build was asked for are ignored by the writing of %s: %s" % (k, paths.path_str(g, p)), where(g))
    for step in ("run_global_compilation_tasks", "run_local_compilation_steps", "codegen"):
        ck.ob("gated", "anchor step " + step, any(r == "spade::" + step for r in hc.values()), "the step was not found", where(g))
    for f, b in sorted(prog.fns.items()):
        if f.split("::")[0].lstrip("<") in ("spade", "spade_parser", "spade_ast_lowering", "spade_hir", "spade_hir_lowering", "spade_typeinference", "spade_mir", "spade_diagnostics", "spade_common", "spade_types", "spade_ast") and f not in {c.body.path for c in g.ctxs}:
            for bb in b.bbs:
                ce = ir.callee(bb["t"]) if not bb["c"] and bb["t"][0] == "call" else None
                if ce and re.search(r"^std::fs::(write|copy|rename|remove\w*)$|std::fs::File::(create|create_new)$", ce[0]):
                    ck.ob("gated", "writes elsewhere " + f, False, "a file is written outside `compile`", "%s:%d" % (b.file, bb["l"]))

    ck.rule("verdict", "the build counts as successful only if no error was reported, and then it does", 8)
    rep = [n for n in hc if n not in asked]
    p = search(g, decide_bool=failed).find(paths.OkReturn())
    ck.ob("verdict", "failed", p is None, "" if p is None else "a failed build succeeds: %s" % paths.path_str(g, p), where(g))
    p = paths.Search(g).find(paths.OkReturn(), start=[(n, {}) for n in rep], avoid=asked)
    ck.ob("verdict", "asked last", p is None, "" if p is None else "errors reported after the state of the build was asked for are ignored: %s" % paths.path_str(g, p), where(g))
    for k, ns in sorted(writes.items()):
        res = {n for n in hc if re.search(r"Reportable<.*>>?::(report|or_report)$", hc[n]) and "fs::write" in ir.show(g.args_of(n)[0])[:200]}
        p = paths.Search(g).find(paths.OkReturn(), start=[(n, {}) for n in ns], avoid=res)
        ck.ob("verdict", "write of " + k, p is None, "" if p is None else "an error while writing is not reported", where(g))
    un = [n for n, r, d, rec in g.calls() if (re.search(r"Reportable<.*>>?::(or_report|report)$", r) or anyrep(r)) and any("run_local_compilation_steps" in x[1] for a in g.args_of(n) for x in ir.subterms(a) if x[0] == "call") and
          not any(x[0] == "call" and x[1].startswith("std::fs::") for a in g.args_of(n)[:1] for x in ir.subterms(a))]
    ck.ob("verdict", "units", len(un) >= 1, "the errors of the units are not reported", where(g))
    g2 = ck.graph("spade::main", precise=True)
    comp = [n for n, r, d, rec in g2.calls() if r == "spade::compile"]
    ck.ob("verdict", "anchor main", len(comp) == 1, "main must compile once", where(g2))
    ex = lambda t, ty: {"Err"} if t[0] == "call" and t[1] == "spade::compile" else None
    p = search(g2, extra=ex).find(paths.OkReturn())
    ck.ob("verdict", "exit status", p is None, "" if p is None else "the program succeeds although the build failed: %s" % paths.path_str(g2, p), where(g2))
    pr = {n for n, r, d, rec in g2.calls() if re.search(r"write_all$|eprint|_eprint$", r) and "Buffer" in ir.show(g2.args_of(n)[-1])}
    p = paths.Search(g2).find(paths.OkReturn(bad=()), start=[(n, {}) for n in comp], avoid=pr)
    ck.ob("verdict", "messages", p is None, "" if p is None else "the messages are not printed on the path %s" % paths.path_str(g2, p), where(g2))
    # a unit that is wrong is not lowered
    f = [x for x in prog.fns if x.startswith("spade::run_local_compilation_steps::{closure") and any(re.search(r"TypeState::visit_unit$", (ir.callee(bb["t"]) or ("",))[0]) for bb in prog.fns[x].bbs if bb["t"][0] == "call" and not bb["c"])]
    ck.ob("verdict", "anchor units", len(f) == 1, "the place where units are type checked was not found")
    for x in f:
        g3 = ck.graph(x, precise=True)
        vu = lambda t: "TypeState::visit_unit(" in ir.show(t)[:300] and "or_report" not in ir.show(t)[:60]
        ex = lambda t, ty: {"Err"} if t[0] == "call" and re.search(r"Reportable<.*>>?::report$|TypeState::visit_unit$", t[1]) else None
        p = search(g3, extra=ex).find(VariantReturn("Some"))
        ck.ob("verdict", "unit with error", p is None, "" if p is None else "a unit with type errors is lowered: %s" % paths.path_str(g3, p), where(g3))

        def dec(t):
            if t[0] == "call" and t[1].endswith("::is_empty") and "diags" in ir.show(t):
                return 0
            if t[0] == "bin" and "diags" in ir.show(t) and "len" in ir.show(t):
                a, b = t[2], t[3]
                z = ("k", 0)
                if (t[1], b) in (("Ne", z), ("Gt", z)) or (t[1], a) in (("Ne", z), ("Lt", z)):
                    return 1
                if (t[1], b) == ("Eq", z) or (t[1], a) == ("Eq", z):
                    return 0
            return None
        p = search(g3, decide_bool=dec).find(VariantReturn("Some"))
        ck.ob("verdict", "unit with errors", p is None, "" if p is None else "a unit with type errors is lowered: %s" % paths.path_str(g3, p), where(g3))
        dr = [n for n, r, d, rec in g3.calls() if re.search(r"::drain_diag_list$|DiagList::drain$", r)]
        tests = {n for n, r, d, rec in g3.calls() if re.search(r"::(len|is_empty)$", r) and "diags" in ir.show(g3.args_of(n)[0])}
        p = paths.Search(g3).find(paths.AtNodes(tests), start=[(n, {}) for n in dr])
        ck.ob("verdict", "unit with errors asked first", p is None and bool(tests), "the list of errors is emptied before it is looked at", where(g3))
