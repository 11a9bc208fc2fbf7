"""Rule primitives shared by the rule modules."""
import re
import ir, paths, core
from core import MissingAnchor

F, E = ir.field, ir.elem


def fn_one(prog, rx):
    c = [n for n in prog.fns if re.search(rx, n) and "{closure" not in n and "#" not in n]
    if len(c) != 1:
        raise MissingAnchor("expected exactly one function matching %s, found %d" % (rx, len(c)))
    return c[0]


def where(g):
    return "%s:%d" % (g.entry.file, g.entry.line)


def search(g, assume=(), decide_bool=None, force=None, extra=None):
    dec = core.decider(assume)
    if extra:
        dec = paths.combine(dec, extra)
    asked = decide_bool

    def decide_bool(t):
        v = asked(t) if asked else None
        if v is None and t[0] == "call" and len(t[2]) == 1:
            m = re.search(r"^std::(?:option::Option|result::Result)<.*>::is_(some|none|ok|err)$", t[1])
            x = dec(t[2][0], None) if m else None
            if x and len(x) == 1:
                v = int(next(iter(x)).lower() == m.group(1))
        return v
    return paths.Search(g, decide=dec, decide_bool=decide_bool, force=force)


def events(g, pred):
    """nodes of the calls for which pred(resolved, declared, args) holds"""
    return {n for n, r, d, rec in g.calls() if pred(r, d, g.args_of(n))}


def must_call(ck, rule, key, g, pred, detail, assume=(), goal=None, decide_bool=None, force=None, vacuous_ok=False, start=None, extra=None):
    """every path (to an Ok return) passes one of the calls for which pred(resolved, declared, args) holds"""
    ev = events(g, pred)
    goal = goal or paths.OkReturn()
    if not vacuous_ok and search(g, assume, decide_bool, force, extra).find(goal, start=start) is None:
        return ck.ob(rule, key, False, "no successful path exists at all in %s under the rule's assumption (the rule would be vacuous)" % g.entry.path, where(g))
    r = search(g, assume, decide_bool, force, extra).find(goal, avoid=ev, start=start)
    ck.paths += 1
    ck.callsites += len(ev)
    return ck.ob(rule, key, r is None, "" if r is None else "%s; path: %s" % (detail, paths.path_str(g, r)), where(g))


def never(ck, rule, key, g, detail, assume=(), goal=None, decide_bool=None, avoid=(), force=None, extra=None):
    """no path satisfying the assumptions reaches the goal"""
    r = search(g, assume, decide_bool, force, extra).find(goal or paths.OkReturn(), avoid=avoid)
    ck.paths += 1
    return ck.ob(rule, key, r is None, "" if r is None else "%s; path: %s" % (detail, paths.path_str(g, r)), where(g))


def possible(ck, rule, key, g, detail, assume=(), goal=None, decide_bool=None, force=None, extra=None):
    """some path satisfying the assumptions reaches the goal"""
    r = search(g, assume, decide_bool, force, extra).find(goal or paths.OkReturn())
    ck.paths += 1
    return ck.ob(rule, key, r is not None, detail, where(g))


def returned(ck, g, assume=(), decide_bool=None, force=None, extra=None):
    """the terms the entry function can return under the assumptions (Ok/Some payload included as aggregates)"""
    g.restrict(None)
    s = search(g, assume, decide_bool, force, extra)
    reach = s.reachable()
    g.restrict(reach)
    t = g.local(g.root, 0)
    g.restrict(None)
    ck.paths += 1
    return ir.alts(t)


def args_under(ck, g, pred, assume=(), decide_bool=None, force=None, extra=None):
    """[(node, args)] of matching calls reachable under the assumptions, arguments evaluated under them"""
    g.restrict(None)
    s = search(g, assume, decide_bool, force, extra)
    reach = s.reachable()
    g.restrict(reach)
    out = []
    for n, r, d, rec in g.calls():
        if n in reach and pred(r, d):
            out.append((n, g.args_of(n)))
    g.restrict(None)
    ck.paths += 1
    return out


class Panics:
    """reaching a block that diverges (panic / unreachable)"""
    needs_env = False

    def __call__(self, g, n, e):
        t = g.ctxs[n[0]].body.bbs[n[1]]["t"]
        return t[0] == "call" and t[4] is None


class BoolReturn:
    """return of the entry function that may be the given boolean"""
    needs_env = True

    def __init__(self, v):
        self.v = v

    def __call__(self, g, n, env):
        if n[0] != g.root.id or g.root.body.bbs[n[1]]["t"][0] != "ret":
            return False
        x = env.get((g.root.id, 0))
        return x is None or x == ("k", self.v)


class VariantReturn:
    """return of the entry function that may be one of the given variants"""
    needs_env = True

    def __init__(self, *vs):
        self.vs = vs

    def __call__(self, g, n, env):
        if n[0] != g.root.id or g.root.body.bbs[n[1]]["t"][0] != "ret":
            return False
        x = env.get((g.root.id, 0))
        return x is None or (x[0] == "v" and x[1] in self.vs)
