"""Check framework: obligations, floors, known findings, evidence, and the shared rule primitives."""
import json, multiprocessing, os, re, sys, time
import facts, ir, paths
from ir import Graph, MissingAnchor, derives, roots, show, callee, subterms

VERIF = facts.VERIF
KNOWN = os.path.join(VERIF, "known-findings.json")
BASELINE = os.path.join(VERIF, "engine", "baseline_fns.json")

PROPS = {}


def prop(pid):
    def d(f):
        PROPS[pid] = f
        return f
    return d


class Check:
    def __init__(self, pid, prog, tier):
        self.pid = pid
        self.prog = prog
        self.tier = tier
        self.obs = []
        self.rules = {}
        self.fns = set()
        self.paths = 0
        self.callsites = 0
        self.samples = {}
        self.floors = {}
        base = json.load(open(BASELINE)) if os.path.exists(BASELINE) else []
        self.baseline = set(base)
        self.assumptions = []

    # new helper functions (not in the tree this machinery was written against) are looked through
    def inliner(self, *extra):
        rxs = [re.compile(x) for x in extra if isinstance(x, str)]
        fs = [x for x in extra if not isinstance(x, str)]

        def inl(path):
            if any(r.search(path) for r in rxs):
                return True
            if any(f(path) for f in fs):
                return True
            return bool(self.baseline) and path in self.prog.fns and path not in self.baseline and "{closure" not in path
        return inl

    def rule(self, name, text, floor=1):
        self.rules[name] = text
        self.floors[name] = floor

    def graph(self, entry, *inline, **kw):
        g = Graph(self.prog, entry, inline=self.inliner(*inline), **kw)
        for c in g.ctxs:
            self.fns.add(c.body.path)
        return g

    def par(self, fn, items):
        """[fn(x) for x in items], each on its own copy of the terms computed so far; fn must not record obligations"""
        items = list(items)
        global _job
        _job = (fn, items, self)
        with multiprocessing.get_context("fork").Pool(min(8, os.cpu_count() or 1, max(1, len(items)))) as p:
            res = p.map(_run_job, range(len(items)), chunksize=1)
        self.paths += sum(n for _, n in res)
        return [x for x, _ in res]

    def ob(self, rule, key, ok, detail="", where=""):
        assert rule in self.rules, rule
        self.obs.append((rule, key, bool(ok), detail, where))
        s = self.samples.setdefault(rule, [])
        if len(s) < 6:
            s.append("%s: %s%s" % (key, "holds" if ok else "VIOLATED", " [%s]" % where if where else ""))
        return ok

    def count(self, rule):
        return sum(1 for o in self.obs if o[0] == rule)


def _run_job(i):
    fn, items, ck = _job
    n = ck.paths
    return fn(items[i]), ck.paths - n


def run_check(pid, tier="quick"):
    t0 = time.time()
    d, h = facts.extract()
    t1 = time.time()
    prog = ir.Program(d)
    ck = Check(pid, prog, tier)
    err = None
    try:
        PROPS[pid](ck)
    except MissingAnchor as e:
        # the construct that carries the guarantee is gone
        ck.rules.setdefault("anchor", "every construct the rules speak about exists")
        ck.ob("anchor", str(e), False, str(e))
    except Exception as e:
        # a shape the analysis cannot handle is reported, never passed over
        import traceback
        ck.rules.setdefault("analysis", "the analysis runs to its end")
        ck.ob("analysis", type(e).__name__, False, traceback.format_exc()[-800:])
    for r, f in ck.floors.items():
        n = ck.count(r)
        if n < f:
            ck.ob(r, "%s: floor" % r, False, "only %d obligations were found for this rule; at least %d exist in the code it governs" % (n, f))
    known = json.load(open(KNOWN)) if os.path.exists(KNOWN) else {"findings": []}
    kf = {(k["property"], k["key"]): k for k in known["findings"]}
    viol, kn = [], []
    for rule, key, ok, detail, where in ck.obs:
        if ok:
            continue
        k = "%s|%s" % (rule, key)
        if (pid, k) in kf:
            kn.append((k, kf[(pid, k)]))
        else:
            viol.append({"rule": rule, "key": k, "detail": detail, "where": where, "rule_text": ck.rules.get(rule, "")})
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    ev = {
        "property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other",
        "coverage": {
            "explanation": "Static analysis of the MIR of the current source tree (no execution). " + "; ".join("%s: %s" % (r, t) for r, t in sorted(ck.rules.items())),
            "obligations": len(ck.obs),
            "discharged": sum(1 for o in ck.obs if o[2]),
            "obligations_per_rule": {r: ck.count(r) for r in sorted(ck.rules)},
            "functions_analysed": len(ck.fns),
            "functions_in_program": len(prog.fns),
            "paths_queries": ck.paths,
            "call_sites_inspected": ck.callsites,
            "tree": h,
            "samples": [x for r in sorted(ck.samples) for x in ck.samples[r]] or ["none"],
            "exhaustive": True,
        },
        "assumptions": ck.assumptions,
        "wall_s": round(time.time() - t0, 2),
        "violations": len(viol),
    }
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1)
    for k, e in kn:
        print("KNOWN-FINDING: property=%s %s" % (pid, e["what"]))
    rp = os.path.join(VERIF, "evidence", pid + ".violations.json")
    if viol:
        with open(rp, "w") as fh:
            json.dump(viol, fh, indent=1)
        for v in viol[:20]:
            print("  %s\n    %s\n    %s" % (v["key"], v["where"], v["detail"][:600]))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    if os.path.exists(rp):
        os.remove(rp)
    print("OK property=%s obligations=%d (%.1fs extraction, %.1fs analysis)" % (pid, len(ck.obs), t1 - t0, time.time() - t1))
    return 0


# ------------------------------------------------------------------ types

def parse_ty(s):
    """'A<B, (C, D)>' -> (head, [args]); tuples have head '()', slices '[]', fn pointers opaque"""
    s = s.strip()
    pos = [0]

    def ws():
        while pos[0] < len(s) and s[pos[0]] == " ":
            pos[0] += 1

    def ty():
        ws()
        while pos[0] < len(s) and s[pos[0]] == "&":
            pos[0] += 1
            ws()
            m = re.match(r"'\w+ ", s[pos[0]:])
            if m:
                pos[0] += m.end()
            if s.startswith("mut ", pos[0]):
                pos[0] += 4
            ws()
        if pos[0] < len(s) and s[pos[0]] == "(":
            pos[0] += 1
            a = lst(")")
            return ("()", a)
        if pos[0] < len(s) and s[pos[0]] == "[":
            pos[0] += 1
            a = ty()
            while pos[0] < len(s) and s[pos[0]] != "]":
                pos[0] += 1
            pos[0] += 1
            return ("[]", [a])
        m = re.match(r"(dyn |impl |fn)", s[pos[0]:])
        if m:
            st = pos[0]
            dep = 0
            while pos[0] < len(s):
                ch = s[pos[0]]
                if ch in "<([":
                    dep += 1
                elif ch in ">)]" and not s[pos[0] - 1] == "-":
                    if dep == 0:
                        break
                    dep -= 1
                elif ch == "," and dep == 0:
                    break
                pos[0] += 1
            return (s[st:pos[0]], [])
        st = pos[0]
        while pos[0] < len(s) and (s[pos[0]].isalnum() or s[pos[0]] in "_:'{}#"):
            pos[0] += 1
        head = s[st:pos[0]]
        args = []
        if pos[0] < len(s) and s[pos[0]] == "<":
            pos[0] += 1
            args = lst(">")
        if pos[0] == st:
            pos[0] += 1
        return (head, args)

    def lst(end):
        out = []
        while True:
            ws()
            if pos[0] >= len(s):
                return out
            if s[pos[0]] == end:
                pos[0] += 1
                return out
            if s[pos[0]] == ",":
                pos[0] += 1
                continue
            out.append(ty())
    return ty()


COLL = {"Vec", "VecDeque", "HashSet", "BTreeSet", "FxHashSet", "[]", "IntoIter"}
WRAP = {"Box", "Loc", "Rc", "Arc"}


def subst(t, env):
    if t[0] in env and not t[1]:
        return env[t[0]]
    return (t[0], [subst(a, env) for a in t[1]])


_reach = {}


def ty_heads(t, out):
    out.add(t[0])
    for a in t[1]:
        ty_heads(a, out)
    return out


def reaching(prog, targets):
    """ADTs from which a value of a target type can be reached through fields"""
    key = (id(prog), frozenset(targets))
    if key in _reach:
        return _reach[key]
    refs = {}
    for n, a in prog.adts.items():
        hs = set()
        for _, _, fs in a["vs"]:
            for _, fty, _ in fs:
                ty_heads(parse_ty(fty), hs)
                if re.match(r"^[A-Z]$", fty) or re.search(r"<[A-Z]>", fty):
                    hs.add("<param>")
        refs[n] = hs
    r = set(targets) | {"<param>"}
    ch = True
    while ch:
        ch = False
        for n, hs in refs.items():
            if n not in r and hs & r:
                r.add(n)
                ch = True
    _reach[key] = r
    return r


def leaves(prog, ty, term, targets, assume=(), label="", depth=0, descend=lambda head: True, stack=()):
    """every occurrence of a type in `targets` below `term`:
       yields (label, head, term, assumptions) with assumptions = ((term, variant), ...)"""
    if isinstance(ty, str):
        ty = parse_ty(ty)
    head, args = ty
    last = head.split("::")[-1]
    if head in targets:
        yield (label, head, term, assume)
        return
    if depth > 6:
        return
    if last in WRAP and args:
        yield from leaves(prog, args[0], term, targets, assume, label, depth, descend, stack)
        return
    if last in COLL and args:
        yield from leaves(prog, args[0], ir.elem(term), targets, assume, label + "[*]", depth, descend, stack)
        return
    if last == "Option" and args:
        yield from leaves(prog, args[0], term, targets, assume, label + "?", depth, descend, stack)
        return
    if head == "()":
        for i, a in enumerate(args):
            yield from leaves(prog, a, ir.field(term, str(i)), targets, assume, "%s.%d" % (label, i), depth, descend, stack)
        return
    if head in prog.adts and head in reaching(prog, targets) and descend(head):
        if "<param>" in reaching(prog, targets) and len(args) == 1 and not (ty_heads(args[0], set()) & reaching(prog, targets)) and not any(ty_heads(parse_ty(f[1]), set()) & (reaching(prog, targets) - {"<param>"}) for v in prog.adts[head]["vs"] for f in v[2]):
            return
        a = prog.adts[head]
        env = {"T": args[0]} if len(args) == 1 else {}
        for vn, _, fs in a["vs"]:
            for fn, fty, _ in fs:
                ft = subst(parse_ty(fty), env)
                if a["enum"]:
                    yield from leaves(prog, ft, ir.field(term, vn + "." + fn), targets, assume + ((term, vn),), "%s/%s.%s" % (label, vn, fn), depth + 1, descend, stack + (head,))
                else:
                    yield from leaves(prog, ft, ir.field(term, fn), targets, assume, "%s.%s" % (label, fn), depth + 1, descend, stack + (head,))


def has_part(t, base):
    """the chain from t down to base goes through a lossy adaptor"""
    if t == base:
        return False
    if not isinstance(t, tuple):
        return True
    k = t[0]
    if k == "part":
        return True
    if k in ("f", "elem", "at", "err"):
        return has_part(t[1], base)
    if k == "phi":
        return all(has_part(x, base) for x in t[1])
    return True


def decider(assume):
    m = {}
    for t, v in assume:
        m.setdefault(t, set()).add(v)

    def decide(term, ty):
        return m.get(term)
    return decide


def must_visit(ck, rule, g, leafset, is_event, key, extra_assume=(), goal=None, exempt=None, lossy_ok=False, decide_bool=None, start=None, arg=None, vacuous_ok=None):
    """For every leaf, every path of g on which the leaf's variants hold and every container on the way
    is inhabited passes through an event call handed (a projection of) the leaf."""
    for label, head, term, assume in leafset:
        k = "%s %s" % (key, label)
        if exempt and exempt(label):
            continue
        ev = set()
        for n, r, dcl, rec in g.calls(is_event):
            a = g.args_of(n)
            if arg is not None:
                a = [a[i] for i in arg if i < len(a)]
            ok = False
            for x in a:
                for y in ir.alts(x):
                    if derives(y, term) and (lossy_ok or not has_part(y, term)):
                        ok = True
            if ok:
                ev.add(n)
        ck.callsites += len(ev)
        mk = lambda: paths.Search(g, decide=decider(tuple(assume) + tuple(extra_assume)), decide_bool=decide_bool, force=lambda t, term=term: relates(t, term))
        if not (vacuous_ok and vacuous_ok(label)) and mk().find(goal or paths.OkReturn(), start=start) is None:
            ck.ob(rule, k, False, "no successful path of %s handles `%s` at all (the rule would be vacuous)" % (g.entry.path, label), g.entry.file + ":%d" % g.entry.line)
            continue
        s = mk()
        r = s.find(goal or paths.OkReturn(), avoid=ev, start=start)
        ck.paths += 1
        if r is None:
            ck.ob(rule, k, True, where="%d visiting call(s)" % len(ev))
        else:
            ck.ob(rule, k, False, "a path through %s succeeds without the call on `%s` (%s): %s" % (g.entry.path, label, show(term), paths.path_str(g, r)), g.entry.file + ":%d" % g.entry.line)


def relates(t, term):
    """the tested option/collection step concerns the leaf: t is a prefix of the leaf or carries it"""
    if t[0] in ("tup",):
        return any(relates(x, term) for x in t[1])
    if t[0] == "phi":
        return any(relates(x, term) for x in t[1])
    return t in roots(term) and t[0] != "arg" or derives(t, term)
