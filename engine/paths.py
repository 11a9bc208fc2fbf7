"""Path queries on the expanded CFG: constant/variant-sensitive reachability."""
import re
from collections import deque, defaultdict
import ir
from ir import callee, derives, roots, show

STD_VARIANTS = {
    "Option": ["None", "Some"],
    "Result": ["Ok", "Err"],
    "ControlFlow": ["Continue", "Break"],
    "Ordering": None,
}
BRANCH = {"Ok": "Continue", "Some": "Continue", "Err": "Break", "None": "Break"}


def strip_ty(t):
    t = t.strip()
    while t.startswith("&"):
        t = t[1:].lstrip()
        t = re.sub(r"^'\w+ ", "", t)
        if t.startswith("mut "):
            t = t[4:]
    return t


def head_ty(t):
    return re.sub(r"<.*", "", strip_ty(t))


class Variants:
    def __init__(self, prog):
        self.prog = prog
        self.cache = {}

    def of(self, ty):
        """[(discriminant value str, variant name)] of an enum type string, or None"""
        h = head_ty(ty)
        if h in self.cache:
            return self.cache[h]
        last = h.split("::")[-1]
        r = None
        if h in self.prog.adts and self.prog.adts[h]["enum"]:
            r = [(d, n) for n, d, _ in self.prog.adts[h]["vs"]]
        elif h.startswith(("std::", "core::")) and STD_VARIANTS.get(last):
            r = [(str(i), n) for i, n in enumerate(STD_VARIANTS[last])]
        self.cache[h] = r
        return r


# types whose drops keep what is known of the dropped value alive (set by checks about drops)
DROP_USES = None


def analyse_body(body):
    """relevant keys for the constant environment, and per-block live-in locals"""
    if body._rel is not None:
        return body._rel, body._live
    rel = {0}
    work = [0]
    defs = body.defs()

    def add(l):
        if l not in rel:
            rel.add(l)
            work.append(l)
    for bb in body.bbs:
        if bb["c"]:
            continue
        t = bb["t"]
        if t[0] == "sw" and t[1][0] in ("c", "m"):
            add(t[1][1][0])
    while work:
        l = work.pop()
        for proj, kind, pay, bi, _ in defs.get(l, []):
            if kind == "rv":
                k = pay[0]
                if k == "use" and pay[1][0] in ("c", "m"):
                    add(pay[1][1][0])
                elif k in ("disc", "ref"):
                    add(pay[1][0])
                elif k == "un" and pay[2][0] in ("c", "m"):
                    add(pay[2][1][0])
                elif k == "bin":
                    for o in pay[2:4]:
                        if o[0] in ("c", "m"):
                            add(o[1][0])
                elif k == "tup":
                    for o in pay[1]:
                        if o[0] in ("c", "m"):
                            add(o[1][0])
                elif k == "agg" and pay[4] and len(pay[4]) == 1:
                    pass
            else:
                ce = callee(pay)
                if ce and (ce[1].endswith("Try::branch") or re.search(r"::(is_some|is_none|is_ok|is_err|map|and_then|or_else|or|map_err|ok_or_else|ok_or|ok|cloned|copied|as_ref|transpose)$", ce[0])):
                    for o in pay[2][:1]:
                        if o[0] in ("c", "m"):
                            add(o[1][0])
    # liveness of locals (whole-local granularity)
    n = len(body.bbs)
    use = [set() for _ in range(n)]
    kill = [set() for _ in range(n)]

    def opl(o):
        if o and o[0] in ("c", "m"):
            yield o[1][0]
            for e in o[1][1:]:
                if isinstance(e, list) and e[0] == "i":
                    yield e[1]

    def rvl(r):
        k = r[0]
        if k in ("use", "rep", "cast"):
            yield from opl(r[1])
        elif k in ("ref", "disc"):
            yield r[1][0]
        elif k == "bin":
            yield from opl(r[2])
            yield from opl(r[3])
        elif k == "un":
            yield from opl(r[2])
        elif k == "agg":
            for o in r[4]:
                yield from opl(o)
        elif k in ("tup", "arr"):
            for o in r[1]:
                yield from opl(o)
        elif k in ("clos",):
            for o in r[2]:
                yield from opl(o)
        elif k == "aggo":
            for o in r[1]:
                yield from opl(o)
    for i, bb in enumerate(body.bbs):
        if bb["c"]:
            continue
        u, kl = use[i], kill[i]
        for s in bb["s"]:
            for l in rvl(s[1]):
                if l not in kl:
                    u.add(l)
            if len(s[0]) == 1:
                kl.add(s[0][0])
            elif s[0][0] not in kl:
                u.add(s[0][0])
        t = bb["t"]
        if t[0] == "sw":
            for l in opl(t[1]):
                if l not in kl:
                    u.add(l)
        elif t[0] == "call":
            for o in t[2]:
                for l in opl(o):
                    if l not in kl:
                        u.add(l)
            if isinstance(t[1], list):
                for l in opl(t[1]):
                    if l not in kl:
                        u.add(l)
        elif t[0] == "drop" and DROP_USES and DROP_USES.search(body.tys[t[2]]):
            if t[1][0] not in kl:
                u.add(t[1][0])
        elif t[0] == "ret":
            if 0 not in kl:
                u.add(0)
        elif t[0] == "assert":
            for l in opl(t[1]):
                if l not in kl:
                    u.add(l)
    live = [set(u) & rel for u in use]
    preds = defaultdict(list)
    for i, bb in enumerate(body.bbs):
        if not bb["c"]:
            for s in body.succs(i):
                preds[s].append(i)
    work = deque(i for i in range(n))
    # a call's destination is killed on the edge to its target
    while work:
        i = work.popleft()
        bb = body.bbs[i]
        if bb["c"]:
            continue
        out = set()
        for s in body.succs(i):
            out |= live[s]
        t = bb["t"]
        if t[0] == "call" and len(t[3]) == 1:
            out.discard(t[3][0])
        new = (use[i] & rel) | (out - kill[i])
        if new != live[i]:
            live[i] = new
            work.extend(preds[i])
    # references to relevant locals keep them alive only while the reference is: approximate by
    # never dropping locals whose address is taken
    body._rel = rel
    body._live = live
    return rel, live


class Search:
    """g: ir.Graph.
    decide(term, ty) -> variant name | None   fixes the outcome of a discriminant test
    decide_bool(term) -> 0/1 | None           fixes the outcome of a boolean/integer test
    force(term) -> bool                       containers/options which are assumed inhabited
    """

    call_truth = True

    def __init__(self, g, decide=None, decide_bool=None, force=None, maxstates=400000):
        self.g = g
        self.variants = Variants(g.prog)
        self.decide = decide or (lambda t, ty: None)
        self.decide_bool = decide_bool or (lambda t: None)
        self.force = force
        self.maxstates = maxstates
        self.visited_nodes = set()
        self._termcache = {}

    # env: dict key -> value; key (ctx, local) or (ctx, local, field) ; ("it", node) flags
    def val_of_operand(self, c, env, o):
        if o[0] == "k":
            if "v" in o[1]:
                return ("k", int(o[1]["v"]))
            return None
        if o[0] in ("c", "m"):
            return self.val_of_place(c, env, o[1])
        return None

    def val_of_place(self, c, env, p):
        proj = [e for e in p[1:] if e != "*"]
        if not proj:
            v = env.get((c.id, p[0]))
            return v
        if len(proj) == 1 and proj[0][0] == "f":
            return env.get((c.id, p[0], proj[0][1]))
        return None

    def setv(self, env, c, p, v, rel):
        proj = [e for e in p[1:] if e != "*"]
        if p[0] not in rel:
            return
        if not proj:
            key = (c.id, p[0])
            for k in [k for k in env if len(k) == 3 and k[:2] == key]:
                del env[k]
        elif len(proj) == 1 and proj[0][0] == "f":
            key = (c.id, p[0], proj[0][1])
        else:
            return
        if v is None:
            env.pop(key, None)
        else:
            env[key] = v

    def step_block(self, c, bi, env):
        """apply statements of the block to env (mutates)"""
        body = c.body
        rel, live = analyse_body(body)
        for s in body.bbs[bi]["s"]:
            p, r = s[0], s[1]
            if p[0] not in rel:
                continue
            k = r[0]
            v = None
            if k == "use":
                o = r[1]
                v = self.val_of_operand(c, env, o)
                if o[0] in ("c", "m") and len([e for e in o[1][1:] if e != "*"]) == 0 and len(p) == 1:
                    sub = [(kk, vv) for kk, vv in env.items() if len(kk) == 3 and kk[0] == c.id and kk[1] == o[1][0]]
                    self.setv(env, c, p, v, rel)
                    for kk, vv in sub:
                        env[(c.id, p[0], kk[2])] = vv
                    continue
            elif k == "ref":
                v = self.val_of_place(c, env, r[1])
            elif k == "agg" and r[2]:
                v = ("v", r[2])
            elif k == "tup":
                self.setv(env, c, p, None, rel)
                if len(p) == 1:
                    for i, o in enumerate(r[1]):
                        vv = self.val_of_operand(c, env, o)
                        if vv is not None:
                            env[(c.id, p[0], str(i))] = vv
                continue
            elif k == "disc":
                pv = self.val_of_place(c, env, r[1])
                if pv is not None and pv[0] == "v":
                    vs = self.variants.of(body.tys[r[2]])
                    if vs:
                        for d, n in vs:
                            if n == pv[1]:
                                v = ("k", int(d))
            elif k == "un" and r[1] == "Not":
                x = self.val_of_operand(c, env, r[2])
                if x is not None and x[0] == "k" and x[1] in (0, 1):
                    v = ("k", 1 - x[1])
            elif k == "bin" and r[1] in ("Eq", "Ne", "BitAnd", "BitOr"):
                a, b = self.val_of_operand(c, env, r[2]), self.val_of_operand(c, env, r[3])
                if r[1] in ("Eq", "Ne"):
                    if a and b and a[0] == b[0] == "k":
                        v = ("k", int((a[1] == b[1]) == (r[1] == "Eq")))
                elif r[1] == "BitAnd":
                    if (a == ("k", 0)) or (b == ("k", 0)):
                        v = ("k", 0)
                    elif a == b == ("k", 1):
                        v = a
                else:
                    if (a == ("k", 1)) or (b == ("k", 1)):
                        v = ("k", 1)
                    elif a == b == ("k", 0):
                        v = a
            self.setv(env, c, p, v, rel)

    def switch_term(self, c, bi):
        """(kind, term, ty) tested by the switch ending this block; kind disc|val"""
        key = (c.id, bi)
        r = self._termcache.get(key)
        if r is not None:
            return r
        t = c.body.bbs[bi]["t"]
        o = t[1]
        r = ("val", ("unk", "sw"), None)
        if o[0] in ("c", "m"):
            l = o[1][0]
            d = None
            if len(o[1]) == 1:
                ds = [x for x in c.body.defs().get(l, []) if not x[0]]
                if len(ds) == 1 and ds[0][1] == "rv" and ds[0][2][0] == "disc":
                    d = ds[0][2]
            if d is not None:
                r = ("disc", self.g.place(c, d[1]), c.body.tys[d[2]])
            else:
                r = ("val", self.g.place(c, o[1]), c.body.tys[t[4]] if len(t) > 4 else None)
        self._termcache[key] = r
        return r

    def succs(self, node, env):
        """yield (node', env') — env is not mutated"""
        g = self.g
        c = g.ctxs[node[0]]
        bi = node[1]
        body = c.body
        rel, live = analyse_body(body)
        env = dict(env)
        self.step_block(c, bi, env)
        t = body.bbs[bi]["t"]
        k = t[0]

        def prune(e, c2, b2):
            r2, l2 = analyse_body(c2.body)
            lv = l2[b2]
            out = {}
            for kk, vv in e.items():
                if kk[0] == "it":
                    out[kk] = vv
                elif kk[0] == c2.id and kk[1] not in lv:
                    continue
                else:
                    out[kk] = vv
            return out

        def go(b2, e):
            return ((c.id, b2), prune(e, c, b2))

        if k == "goto":
            yield go(t[1], env)
        elif k == "drop":
            yield go(t[3], env)
        elif k == "assert":
            yield go(t[3], env)
        elif k == "sw":
            yield from self._switch(c, bi, t, env, go)
        elif k == "call":
            yield from self._call(c, bi, t, env, go, rel)
        elif k == "ret":
            yield from self._ret(c, env, prune)

    def _switch(self, c, bi, t, env, go):
        v = self.val_of_operand(c, env, t[1])
        if v is not None and v[0] == "k":
            for val, b in t[2]:
                if int(val) == v[1]:
                    yield go(b, env)
                    return
            yield go(t[3], env)
            return
        kind, term, ty = self.switch_term(c, bi)
        targets = [(int(val), b) for val, b in t[2]]
        allowed = None
        flagedge = None
        if kind == "disc":
            vs = self.variants.of(ty) if ty else None
            dv = self.decide(term, ty) if vs else None
            if dv is not None:
                dvs = dv if isinstance(dv, (set, frozenset)) else {dv}
                ds = {int(d) for d, n in vs if n in dvs}
                if not ds:
                    # the assumption is about the payload of this option / result; an iterator
                    # yields such a payload at least once
                    flag = ("it", c.id, bi)
                    if flag not in env or {n for _, n in vs} != {"None", "Some"}:
                        allowed = {int(d) for d, n in vs if n in ("Some", "Ok", "Continue")}
                        env = dict(env)
                        env[flag] = 1
                else:
                    allowed = ds
            elif self.force is not None and vs and {n for _, n in vs} == {"None", "Some"} and self.force(term):
                flag = ("it", c.id, bi)
                some = 1
                if flag not in env:
                    allowed = {some}
                    env = dict(env)
                    env[flag] = 1
        else:
            b = self.truth(term)
            if b is not None:
                allowed = {int(b)}
        seen_vals = set()
        # refine knowledge of the tested place along each edge (bool values only)
        for val, b in targets:
            seen_vals.add(val)
            if allowed is not None and val not in allowed:
                continue
            yield go(b, self._refine(c, bi, t, env, val))
        # otherwise edge
        if allowed is not None:
            rest = allowed - seen_vals
            if not rest:
                return
        yield go(t[3], env)

    def _force_bool(self, term):
        if term[0] == "call" and len(term[2]) == 1:
            m = re.search(r"::(is_some|is_none|is_empty)$", term[1])
            if m and self.force(ir.elem(term[2][0]) if m.group(1) == "is_empty" else term[2][0]):
                return 1 if m.group(1) == "is_some" else 0
        return None

    def truth(self, term):
        b = self.decide_bool(term)
        if b is None and self.force is not None:
            b = self._force_bool(term)
        if b is None and term[0] == "un" and term[1] == "Not":
            x = self.truth(term[2])
            b = None if x is None else 1 - x
        return b

    def test_bool(self, c, bi, o):
        return self.decide_bool(self.g.operand(c, o))

    def recv_variant(self, c, o, isresult):
        """the variant of the option or result a combinator is called on, where known"""
        if o[0] not in ("c", "m"):
            return None
        x = self.decide(self.g.operand(c, o), c.body.ty(o[1][0]) if len(o[1]) == 1 else None)
        return next(iter(x)) if x and len(x) == 1 else None

    def _refine(self, c, bi, t, env, val):
        o = t[1]
        if o[0] in ("c", "m") and len(o[1]) == 1:
            l = o[1][0]
            rel, live = analyse_body(c.body)
            env = dict(env)
            env[(c.id, l)] = ("k", val)
            ds = [x for x in c.body.defs().get(l, []) if not x[0]]
            if len(ds) == 1 and ds[0][1] == "call" and val in (0, 1):
                # is_ok() and the like tell the variant of what they were asked about
                ce = callee(ds[0][2])
                m = re.search(r"^std::(?:option::Option|result::Result)<.*>::is_(some|none|ok|err)$", ce[0]) if ce else None
                a = ds[0][2][2][0] if m and ds[0][2][2] else None
                if a and a[0] in ("c", "m") and len(a[1]) == 1:
                    dr = [x for x in c.body.defs().get(a[1][0], []) if not x[0]]
                    if len(dr) == 1 and dr[0][1] == "rv" and dr[0][2][0] == "ref" and len(dr[0][2][1]) == 1 and dr[0][2][1][0] in rel:
                        w = m.group(1)
                        if not val:
                            w = {"some": "none", "none": "some", "ok": "err", "err": "ok"}[w]
                        env[(c.id, dr[0][2][1][0])] = ("v", w.capitalize())
            if len(ds) == 1 and ds[0][1] == "rv" and ds[0][2][0] == "disc":
                p = ds[0][2][1]
                vs = self.variants.of(c.body.tys[ds[0][2][2]])
                pj = [e for e in p[1:] if e != "*"]
                if vs and p[0] in rel and (not pj or len(pj) == 1 and pj[0][0] == "f"):
                    for d, n in vs:
                        if int(d) == val:
                            env[(c.id, p[0]) if not pj else (c.id, p[0], pj[0][1])] = ("v", n)
        return env

    def _call(self, c, bi, t, env, go, rel):
        g = self.g
        ce = callee(t)
        subs = c.subs.get(bi, [])
        dest = t[3]
        ex = [s for kk, s in subs if kk == "exact"]
        if ex:
            for s in ex:
                yield ((s.id, 0), env)
            return
        res = None
        if ce is not None:
            path, decl = ce[0], ce[1]
            if decl.endswith("FromResidual::from_residual"):
                ty = c.body.ty(dest[0]) if len(dest) == 1 else ""
                h = head_ty(ty).split("::")[-1]
                res = {"Result": ("v", "Err"), "Option": ("v", "None"), "ControlFlow": ("v", "Break")}.get(h)
                if h == "Poll":
                    res = None
            elif decl.endswith("Try::branch"):
                x = self.val_of_operand(c, env, t[2][0])
                if x and x[0] == "v" and x[1] in BRANCH:
                    res = ("v", BRANCH[x[1]])
                elif x and x[0] == "v" and x[1] in ("Continue", "Break"):
                    res = x
            elif re.search(r"::(is_some|is_none|is_ok|is_err)$", path):
                x = self.val_of_operand(c, env, t[2][0])
                if x and x[0] == "v" and x[1] in BRANCH:
                    res = ("k", int(path.endswith({"Some": "is_some", "None": "is_none", "Ok": "is_ok", "Err": "is_err"}[x[1]])))
                else:
                    b = self.truth(("call", path, tuple(g.args_of((c.id, bi))))) if self.call_truth else None
                    res = None if b is None else ("k", int(b))
            elif re.search(r"(Option|Result)<.*>::(map|cloned|copied|as_ref|as_mut|as_deref|inspect)$|::clone$", path) and t[2]:
                x = self.val_of_operand(c, env, t[2][0])
                if x and x[0] == "v":
                    res = x
            elif re.search(r"Option<.*>::ok_or(_else)?$", path):
                x = self.val_of_operand(c, env, t[2][0])
                if x and x[0] == "v":
                    res = {"Some": ("v", "Ok"), "None": ("v", "Err")}.get(x[1])
            elif re.search(r"Result<.*>::map_err$", path):
                x = self.val_of_operand(c, env, t[2][0])
                if x and x[0] == "v":
                    res = x
            elif re.search(r"Result<.*>::ok$", path):
                x = self.val_of_operand(c, env, t[2][0])
                if x and x[0] == "v":
                    res = {"Ok": ("v", "Some"), "Err": ("v", "None")}.get(x[1])
        loops = [s for kk, s in subs if kk == "loop"]
        if loops:
            comb = self._comb(ce[0] if ce else "", ce[1] if ce else "")
            recv = self.val_of_operand(c, env, t[2][0]) if t[2] else None
            can_enter, can_skip = True, True
            if comb and "1" in comb["enter"]:
                if recv is None:
                    b = self.test_bool(c, bi, t[2][0])
                    recv = None if b is None else ("k", b)
                if recv is not None and recv[0] == "k":
                    recv = ("v", str(recv[1]))
            if comb and recv is None and ({"Some", "None", "Ok", "Err"} & set(comb["enter"])) and t[2]:
                x = self.recv_variant(c, t[2][0], bool({"Ok", "Err"} & set(comb["enter"])))
                recv = ("v", x) if x else None
            if comb and recv and recv[0] == "v":
                can_enter = recv[1] in comb["enter"]
                can_skip = recv[1] not in comb["enter"]
            if can_enter:
                for s in loops:
                    yield ((s.id, 0), env)
            if can_skip:
                forced = False
                if self.force is not None:
                    for s in loops:
                        if any(self.force(a) for a in s.args[1:]):
                            forced = True
                if not forced:
                    e = dict(env)
                    r = comb["skip"] if comb else res
                    if comb and comb["skip"] == "same":
                        r = recv
                    self.setv(e, c, dest, r, rel)
                    if t[4] is not None:
                        yield go(t[4], e)
            return
        if t[4] is None:
            return
        e = dict(env)
        self.setv(e, c, dest, res, rel)
        yield go(t[4], e)

    COMB = [
        (re.compile(r"Option<T>::map$|Option<.*>::map$"), dict(enter={"Some"}, skip=("v", "None"), ret=("v", "Some"))),
        (re.compile(r"Option<T>::and_then$"), dict(enter={"Some"}, skip=("v", "None"), ret="closure")),
        (re.compile(r"Option<T>::filter$"), dict(enter={"Some"}, skip=("v", "None"), ret="filter")),
        (re.compile(r"Option<T>::or_else$"), dict(enter={"None"}, skip=("v", "Some"), ret="closure")),
        (re.compile(r"Result<T, E>::map$"), dict(enter={"Ok"}, skip=("v", "Err"), ret=("v", "Ok"))),
        (re.compile(r"Result<T, E>::and_then$"), dict(enter={"Ok"}, skip=("v", "Err"), ret="closure")),
        (re.compile(r"Result<T, E>::map_err$"), dict(enter={"Err"}, skip=("v", "Ok"), ret=("v", "Err"))),
        (re.compile(r"Result<T, E>::or_else$"), dict(enter={"Err"}, skip=("v", "Ok"), ret="closure")),
        (re.compile(r"Option<T>::ok_or_else$"), dict(enter={"None"}, skip=("v", "Ok"), ret=("v", "Err"))),
        (re.compile(r"bool>::then$|bool::then$"), dict(enter={"1"}, skip=("v", "None"), ret=("v", "Some"))),
        (re.compile(r"Option<T>::(unwrap_or_else)$"), dict(enter={"None"}, skip=None, ret="closure")),
        (re.compile(r"Option<T>::(is_some_and)$"), dict(enter={"Some"}, skip=("k", 0), ret="closure")),
        (re.compile(r"Option<T>::(is_none_or)$"), dict(enter={"Some"}, skip=("k", 1), ret="closure")),
        (re.compile(r"Result<T, E>::(is_ok_and)$"), dict(enter={"Ok"}, skip=("k", 0), ret="closure")),
        (re.compile(r"Iterator>?::any$"), dict(iter=1, enter=(), skip=("k", 0), stop=("k", 1))),
        (re.compile(r"Iterator>?::all$"), dict(iter=1, enter=(), skip=("k", 1), stop=("k", 0))),
        (re.compile(r"Iterator>?::find_map$"), dict(iter=1, enter=(), skip=("v", "None"), stop=("v", "Some"))),
        (re.compile(r"Iterator>?::(try_for_each|try_fold)$"), dict(iter=1, enter=(), skip=None, stop=("v", "Err"))),
    ]

    def _comb(self, path, decl):
        for r, d in self.COMB:
            if r.search(path) or r.search(decl):
                return d
        return None

    def _ret(self, c, env, prune):
        g = self.g
        p = c.parent
        if p is None:
            return
        rv = env.get((c.id, 0))
        sub0 = [(k[2], v) for k, v in env.items() if len(k) == 3 and k[0] == c.id and k[1] == 0]
        env = {k: v for k, v in env.items() if k[0] == "it" or k[0] != c.id}
        kinds = [kk for kk, s in p.subs.get(c.callbb, []) if s is c]
        t = p.body.bbs[c.callbb]["t"]
        prel, _ = analyse_body(p.body)
        if kinds and kinds[0] == "exact":
            if t[4] is None:
                return
            e = dict(env)
            self.setv(e, p, t[3], rv, prel)
            if t[3][0] in prel and len(t[3]) == 1:
                for f, v in sub0:
                    e[(p.id, t[3][0], f)] = v
            yield ((p.id, t[4]), prune(e, p, t[4]))
            return
        ce = callee(t)
        comb = self._comb(ce[0], ce[1]) if ce else None
        if comb is None or comb.get("iter"):
            # the closure may run again, or the call finishes
            if comb and "stop" in comb:
                st = comb["stop"]
                if rv is None and st[0] == "k":
                    b = self.truth(g.local(c, 0))
                    rv = None if b is None else ("k", int(b))
                if rv is not None and rv == st:
                    e = dict(env)
                    self.setv(e, p, t[3], st, prel)
                    if t[4] is not None:
                        yield ((p.id, t[4]), prune(e, p, t[4]))
                    return
                if rv is None:
                    e = dict(env)
                    self.setv(e, p, t[3], st, prel)
                    if t[4] is not None:
                        yield ((p.id, t[4]), prune(e, p, t[4]))
                e = dict(env)
                self.setv(e, p, t[3], comb["skip"], prel)
                for kk, s in p.subs[c.callbb]:
                    yield ((s.id, 0), env)
                if t[4] is not None:
                    yield ((p.id, t[4]), prune(e, p, t[4]))
                return
            if rv == ("v", "Err"):
                # an error produced inside the closure: the surrounding collection yields Err
                return
            for kk, s in p.subs[c.callbb]:
                yield ((s.id, 0), env)
            e = dict(env)
            self.setv(e, p, t[3], None, prel)
            if t[4] is not None:
                yield ((p.id, t[4]), prune(e, p, t[4]))
            return
        r = comb["ret"]
        if r == "closure":
            r = rv
        elif r == "filter":
            b = rv[1] if rv is not None and rv[0] == "k" else self.truth(g.local(c, 0))
            for x, v in ((1, "Some"), (0, "None")):
                if b is None or b == x:
                    e = dict(env)
                    self.setv(e, p, t[3], ("v", v), prel)
                    if t[4] is not None:
                        yield ((p.id, t[4]), prune(e, p, t[4]))
            return
        elif rv == ("v", "Err") and r in (("v", "Some"), ("v", "Ok")):
            # Some(Err(..)): propagated by transpose()? / flatten
            return
        e = dict(env)
        self.setv(e, p, t[3], r, prel)
        if t[4] is not None:
            yield ((p.id, t[4]), prune(e, p, t[4]))

    # ---------------------------------------------------------------- queries
    def find(self, goal, avoid=(), start=None, startenv=None):
        """shortest path from start to a node for which goal(node, env) holds, never *leaving*
        a node in avoid (a call node in avoid blocks the path).  Returns list of nodes or None."""
        g = self.g
        avoid = set(avoid)
        starts = start or [((g.root.id, 0), {})]
        q = deque()
        prev = {}
        for n, e in starts:
            key = (n, frozenset(e.items()))
            if key not in prev:
                prev[key] = None
                q.append((n, e, key))
        cnt = 0
        while q:
            n, e, key = q.popleft()
            cnt += 1
            self.visited_nodes.add(n)
            if cnt > self.maxstates:
                raise RuntimeError("path search exceeded %d states in %s" % (self.maxstates, g.entry.path))
            if n in avoid:
                continue
            # environment after the block's statements, for goal evaluation
            if self._goal(goal, n, e):
                path = []
                k = key
                while k is not None:
                    path.append(k[0])
                    k = prev[k]
                return path[::-1]
            for n2, e2 in self.succs(n, e):
                k2 = (n2, frozenset(e2.items()))
                if k2 not in prev:
                    prev[k2] = key
                    q.append((n2, e2, k2))
        return None

    def _goal(self, goal, n, e):
        c = self.g.ctxs[n[0]]
        if goal.needs_env:
            env = dict(e)
            self.step_block(c, n[1], env)
            return goal(self.g, n, env)
        return goal(self.g, n, e)

    def reachable(self, start=None, avoid=()):
        """set of reachable nodes (avoid nodes are included but not left)"""
        seen = set()

        class G:
            needs_env = False

            def __call__(s, g, n, e):
                seen.add(n)
                return False
        self.find(G(), avoid=(), start=start) if not avoid else self.find(G(), avoid=avoid, start=start)
        return seen | (set(avoid) & self.visited_nodes)


def live_nodes(search, goal):
    """nodes on some path from the entry to the goal"""
    prev = {}
    start = ((search.g.root.id, 0), {})
    key = (start[0], frozenset())
    seen = {key}
    todo = [(start[0], {}, key)]
    good = []
    while todo:
        n, e, k = todo.pop()
        if len(seen) > search.maxstates:
            raise RuntimeError("path search exceeded %d states in %s" % (search.maxstates, search.g.entry.path))
        if search._goal(goal, n, e):
            good.append(k)
        for n2, e2 in search.succs(n, e):
            k2 = (n2, frozenset(e2.items()))
            prev.setdefault(k2, []).append(k)
            if k2 not in seen:
                seen.add(k2)
                todo.append((n2, e2, k2))
    live = set(good)
    todo = list(good)
    while todo:
        for k in prev.get(todo.pop(), ()):
            if k not in live:
                live.add(k)
                todo.append(k)
    return {k[0] for k in live}


class AtNodes:
    needs_env = False

    def __init__(self, nodes):
        self.nodes = set(nodes)

    def __call__(self, g, n, e):
        return n in self.nodes


class OkReturn:
    """return of the entry function with a value that is not known to be an error"""
    needs_env = True

    def __init__(self, bad=("Err",), only=None):
        self.bad = set(bad)
        self.only = only

    def __call__(self, g, n, env):
        if n[0] != g.root.id:
            return False
        if g.root.body.bbs[n[1]]["t"][0] != "ret":
            return False
        v = env.get((g.root.id, 0))
        if v is not None and v[0] == "v" and v[1] in self.bad:
            return False
        if v is not None and v[0] == "k" and ("k", v[1]) in self.bad:
            return False
        if self.only is not None:
            return v in self.only
        return True


def path_str(g, path, maxn=14):
    """human-readable file:line trail"""
    out = []
    for n in path:
        c = g.ctxs[n[0]]
        l = c.body.bbs[n[1]]["l"]
        s = "%s:%d" % (c.body.file, l)
        if l > 1 and (not out or out[-1] != s):
            out.append(s)
    if len(out) > maxn:
        out = out[:maxn // 2] + ["…"] + out[-maxn // 2:]
    return " -> ".join(out)


# --------------------------------------------------------------------- rules

def variant_decider(base, variants):
    """assume discriminant of any term equal to `base` is `variants`"""
    vs = {variants} if isinstance(variants, str) else set(variants)

    def decide(term, ty):
        if term == base:
            return vs
        return None
    return decide


def combine(*ds):
    def decide(t, ty):
        for d in ds:
            r = d(t, ty)
            if r is not None:
                return r
        return None
    return decide
