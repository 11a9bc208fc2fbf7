"""Program model and the interprocedural graph used by every rule.

Terms (hash-consed tuples) name where a value comes from:
  ("arg", i)                    i-th parameter of the entry function
  ("f", base, "Variant.field")  field of a value (deref, Box, Loc, Some/Ok payload are transparent)
  ("elem", base)                some element of a collection / iterator
  ("at", base, k)               element k of a collection
  ("call", callee, args, site)  result of an opaque call
  ("k", v) / ("s", str)         constants
  ("agg", adt, variant, ((field, term), ...)), ("tup", (...)), ("arr", (...))
  ("clos", path, captures, ctx)
  ("phi", frozenset(terms)), ("err", base), ("fn", path), ("unk", why)
"""
import json, os, re, sys
from collections import defaultdict, deque

sys.setrecursionlimit(100000)

PAYLOAD = {"Some.0", "Ok.0", "Continue.0", "Left.0", "Right.0"}

# ---------------------------------------------------------------- loading


class Body:
    __slots__ = ("path", "crate", "file", "line", "end", "kind", "nargs", "locals", "upv", "bbs", "tys", "_defs", "_preds", "_rel", "_live", "_names", "_rpo", "_accum", "castdefs")

    def __init__(self, j, crate, tys):
        self.path = j["p"]
        self.crate = crate
        f = j["file"]
        i = f.find("/ws/")
        f = f[i + 4:] if i >= 0 else f
        self.file = f
        self.line = j["line"]
        self.end = j["end"]
        self.kind = j["kind"]
        self.nargs = j["nargs"]
        self.locals = j["locals"]
        self.upv = j["upv"]
        self.bbs = j["bbs"]
        self.tys = tys
        self._defs = None
        self._rel = None
        self._rpo = None
        self._live = None
        self._names = None

    def ty(self, local):
        return self.tys[self.locals[local][0]]

    def name(self, local):
        l = self.locals[local]
        return l[1] if len(l) > 1 else None

    def defs(self):
        """local -> list of (proj, kind, payload, bb, line)"""
        if self._defs is None:
            d = defaultdict(list)
            for bi, bb in enumerate(self.bbs):
                if bb["c"]:
                    continue
                for si, s in enumerate(bb["s"]):
                    d[s[0][0]].append((s[0][1:], "rv", s[1], bi, s[2]))
                t = bb["t"]
                if t[0] == "call":
                    d[t[3][0]].append((t[3][1:], "call", t, bi, bb["l"]))
            self._defs = d
        return self._defs

    def rpo(self):
        """block numbers in reverse post-order"""
        if self._rpo is None:
            seen, out = {0}, []
            st = [(0, iter(self.succs(0)))]
            while st:
                b, it = st[-1]
                for n in it:
                    if n not in seen:
                        seen.add(n)
                        st.append((n, iter(self.succs(n))))
                        break
                else:
                    out.append(b)
                    st.pop()
            self._rpo = out[::-1]
        return self._rpo

    def succs(self, bi):
        t = self.bbs[bi]["t"]
        k = t[0]
        if k == "goto":
            return [t[1]]
        if k == "sw":
            return [x[1] for x in t[2]] + [t[3]]
        if k == "drop":
            return [t[3]]
        if k == "call":
            return [t[4]] if t[4] is not None else []
        if k == "assert":
            return [t[3]]
        return []


class Program:
    def __init__(self, facts_dir, crates=None):
        self.fns = {}
        self.adts = {}
        self.impls = []
        self.crates = {}
        self.dir = facts_dir
        self.proms = {}
        for f in sorted(os.listdir(facts_dir)):
            if not f.endswith(".json"):
                continue
            c = f[:-5]
            if crates is not None and c not in crates:
                continue
            self.load(c)
        self._callers = None

    def load(self, c):
        j = json.load(open(os.path.join(self.dir, c + ".json")))
        tys = j["tys"]
        n = 0
        for b in j["bodies"]:
            body = Body(b, c, tys)
            self.fns[body.path] = body
            n += 1
        for a in j["adts"]:
            vs = []
            for v in a["vs"]:
                vs.append((v["n"], v["d"], [(f[0], tys[f[1]], f[2]) for f in v["fs"]]))
            self.adts[a["p"]] = {"path": a["p"], "enum": a["enum"], "vs": vs, "file": a["file"], "line": a["line"], "crate": c}
        for i in j["impls"]:
            self.impls.append({"self": tys[i["self"]], "trait": i["trait"], "derived": i["derived"], "items": i["items"], "crate": c})
        self.crates[c] = {"bodies": n, "derived": j["stats"]["derived"]}

    def fn(self, path):
        b = self.fns.get(path)
        if b is None:
            raise MissingAnchor("function `%s` not found in the program" % path)
        return b

    def find(self, rx):
        r = re.compile(rx)
        return [b for p, b in self.fns.items() if r.search(p)]

    def adt(self, path):
        a = self.adts.get(path)
        if a is None:
            raise MissingAnchor("type `%s` not found in the program" % path)
        return a

    def variants(self, path):
        return [v[0] for v in self.adt(path)["vs"]]


class MissingAnchor(Exception):
    pass


def callee(t):
    """(resolved path, declared path, fn record) of a call terminator's function operand, or None"""
    f = t[1]
    if isinstance(f, dict) and "fn" in f:
        r = f["fn"]
        return r.get("r", r["d"]), r["d"], r
    return None


# ---------------------------------------------------------------- modelled callees

def rx(*alts):
    return re.compile("|".join("(?:%s)" % a for a in alts))


# result == (payload of) first argument
TRANSPARENT = rx(
    r"::clone$", r"::cloned$", r"::copied$", r"::to_owned$", r"::as_ref$", r"::as_mut$", r"::as_deref$", r"::as_deref_mut$",
    r"Deref::deref$", r"DerefMut::deref_mut$", r"::borrow$", r"::borrow_mut$", r"AsRef::as_ref$",
    r"Into::into$", r"From::from$", r"IntoIterator::into_iter$", r"::by_ref$",
    r"(slice|vec|Vec|VecDeque|Option|HashMap|BTreeMap|HashSet|BTreeSet|OrdMap|Result).*::iter(_mut)?$", r"::into_inner$", r"std::slice::<impl \[T\]>::iter(_mut)?$",
    r"::unwrap$", r"::expect$", r"::unwrap_or_default$", r"Option<.*>::ok_or(_else)?$", r"Result<.*>::map_err$", r"Result<.*>::ok$",
    r"Try::branch$", r"Box<.*>::new$", r"boxed::Box<T>::new$", r"Arc<.*>::new$", r"Rc<.*>::new$", r"Iterator::(rev|peekable|fuse|cycle|collect|cloned|copied|by_ref)$",
    r"Iterator>::(rev|peekable|fuse|cycle|collect|cloned|copied|by_ref)$",
    r"Itertools::(collect_vec|sorted|sorted_by|sorted_by_key|unique|dedup)$",
    r"::transpose$", r"::flatten$", r"::to_vec$", r"::as_slice$", r"::into_boxed_slice$", r"::into_vec$", r"::as_mut_slice$",
    r"std::mem::take$", r"std::mem::replace$", r"Option<.*>::take$", r"Option<.*>::insert$", r"std::convert::identity$",
    r"WithLocation::(at|at_loc|nowhere|between_locs|between|near_loc)$", r"::(at|at_loc|nowhere|between_locs|near_loc)$",
    r"Loc<.*>::(new|strip|strip_ref|inner|split_loc_ref)$", r"location_info::Loc<T>>?::(new|strip|strip_ref)$",
    r"RwLock<.*>::(read|write)$", r"RwLock<.*>::(read|write)$", r"Mutex<.*>::lock$", r"Rc<.*>::clone$",
    r"::try_into$", r"TryInto::try_into$", r"TryFrom::try_from$", r"Pin<.*>::new$", r"hint::must_use$", r"::as_str$", r"::to_string$", r"ToString::to_string$",
    r"box_new$", r"::new_uninit$", r"box_assume_init_into_vec_unsafe$", r"iter::once$", r"::get_mut$",
    r"Option<T>::(as_ref|as_mut|cloned|copied|unwrap|expect|ok_or|ok_or_else|take|as_deref|iter)$", r"ops::(control_flow::)?ControlFlow",
)
# result == some element of first argument
ELEM = rx(r"Iterator for .*>::(next|last|nth|next_back)$", r"Iterator::(next|last|nth|find|min|max|min_by_key|max_by_key|next_back|reduce)$", r"Iterator>::(next|last|nth|find|next_back|min_by_key|max_by_key)$", r"::(first|last|pop|pop_front|pop_back|first_mut|last_mut)$", r"DoubleEndedIterator>::next_back$", r"Peekable<.*>::peek$", r"(HashMap|BTreeMap|FxHashMap|Vec|slice).*::get$", r"::get_mut$")
MAPVIEW = re.compile(r"(HashMap|BTreeMap|OrdMap)<.*::((?:into_)?(?:values|keys)(?:_mut)?)$")
# closure receives the payload of arg0 (not an element)
LOSSY = rx(r"Iterator>?::(skip|take|step_by|skip_while|take_while|filter|map_while)$", r"Itertools>?::(dedup|dedup_by|unique|unique_by|dropping|dropping_back)$", r"::(split_at|split_first|split_last|chunks|drain|split_off|truncate)$")
# what is stored under a key or at an index, if anything is
KEYED = re.compile(r"(HashMap|BTreeMap|IndexMap|Vec|slice|\[T\]).*::get(_mut)?$")
LOSSY_ELEM = rx(r"::(first|last|pop|pop_front|pop_back|first_mut|last_mut|get|get_mut|find|nth|min|max|min_by_key|max_by_key)$")
PAYLOAD_CLOSURE = rx(
    r"Option<.*>::", r"Result<.*>::", r"option::Option<T>", r"result::Result<T, E>", r"location_info::Loc<T>", r"Loc<.*>::", r"Tap::tap", r"tap::", r"^std::bool", r"bool>::then", r"LocKey")
# value of the call is the value of the closure (on the payload/element)
MAPS = rx(r"::(map|map_ref|and_then|try_map_ref|flat_map|filter_map|map_or|map_or_else|try_map|then|unwrap_or_else|or_else|find_map|is_some_and|scan|map_while|or_insert_with|get_or_insert_with)$")
FILTERS = rx(r"::(filter|skip_while|take_while|inspect|find|partition|retain|max_by_key|min_by_key|max_by|min_by|sorted_by_key|sorted_by|sort_by|sort_by_key|dedup_by|position|tap_mut|tap|map_err|ok_or_else|unwrap_or_else)$")


def show(t, d=0):
    if d > 8:
        return "…"
    if not isinstance(t, tuple):
        return str(t)
    k = t[0]
    s = lambda x: show(x, d + 1)
    if k == "arg":
        return "arg%d" % t[1]
    if k == "f":
        return "%s.%s" % (s(t[1]), t[2])
    if k == "elem":
        return "%s[*]" % s(t[1])
    if k == "at":
        return "%s[%s]" % (s(t[1]), t[2])
    if k == "part":
        return "part(%s)" % s(t[1])
    if k == "call":
        return "%s(%s)" % (short(t[1]), ", ".join(s(x) for x in t[2]))
    if k == "k":
        return str(t[1])
    if k == "s":
        return repr(t[1])
    if k == "agg":
        return "%s%s{%s}" % (short(t[1]), "::" + t[2] if t[2] else "", ", ".join("%s: %s" % (n, s(x)) for n, x in t[3]))
    if k in ("tup", "arr"):
        return ("(%s)" if k == "tup" else "[%s]") % ", ".join(s(x) for x in t[1])
    if k == "phi":
        return "φ{%s}" % " | ".join(sorted(s(x) for x in t[1]))
    if k == "bin":
        return "(%s %s %s)" % (s(t[2]), t[1], s(t[3]))
    if k == "clos":
        return "closure"
    return "<%s>" % " ".join(str(x)[:60] for x in t)


def short(p):
    p = re.sub(r"<(.*) as .*>::", r"\1::", p)
    return "::".join(p.split("::")[-2:]) if "::" in p else p


def roots(t, seen=None):
    """all sub-terms reachable through field/elem/phi/transparent structure (value's origins)"""
    out = set()
    st = [t]
    while st:
        x = st.pop()
        if x in out or not isinstance(x, tuple):
            continue
        out.add(x)
        k = x[0]
        if k in ("f", "elem", "at", "err", "part"):
            st.append(x[1])
        elif k == "phi":
            st.extend(x[1])
        elif k == "un":
            st.append(x[2])
    return out


def subterms(t):
    """every sub-term, including call arguments and aggregate members"""
    out = set()
    st = [t]
    while st:
        x = st.pop()
        if not isinstance(x, tuple) or x in out:
            continue
        out.add(x)
        k = x[0]
        if k in ("f", "elem", "at", "err", "part"):
            st.append(x[1])
        elif k == "phi":
            st.extend(x[1])
        elif k == "call":
            st.extend(x[2])
        elif k == "agg":
            st.extend(v for _, v in x[3])
        elif k in ("tup", "arr"):
            st.extend(x[1])
        elif k == "bin":
            st.append(x[2]); st.append(x[3])
        elif k == "un":
            st.append(x[2])
        elif k == "clos":
            st.extend(x[2])
    return out


def derives(t, base):
    """t is base, or a projection / element / phi-alternative rooted in base"""
    return base in roots(t)


def contains(t, base):
    return base in subterms(t)


def alts(t):
    if isinstance(t, tuple) and t[0] == "phi":
        return set(t[1])
    return {t}


def mkphi(ts):
    s = set()
    for t in ts:
        if t[0] == "phi":
            s |= t[1]
        else:
            s.add(t)
    if len(s) == 1:
        return next(iter(s))
    if len(s) > 24:
        return ("unk", "phi")
    return ("phi", frozenset(s))


def field(t, name):
    """project `name` (possibly Variant-qualified) out of term t"""
    if name in PAYLOAD and not (t[0] == "agg"):
        if t[0] == "phi":
            return mkphi([field(x, name) for x in t[1] if not (x[0] == "agg" and x[2] in ("None", "Err"))] or [("unk", "payload")])
        return t
    if name in ("inner",) and t[0] not in ("agg", "phi"):
        return t
    if name == "Err.0" or name == "Break.0":
        if t[0] == "agg" and t[2] == "Err":
            return t[3][0][1]
        return ("err", t)
    k = t[0]
    if name == "Continue.0" and k == "agg" and t[2] == "None":
        # only a transposed option goes on
        return t
    if k == "phi":
        if "." in name:
            v = name.split(".")[0]
            xs = [x for x in t[1] if not (x[0] == "agg" and x[2] and x[2] != v)]
        else:
            xs = list(t[1])
        return mkphi([field(x, name) for x in xs] or [("unk", "field")])
    if k == "call" and name in ("0", "1") and t[1].endswith("Iterator::unzip") and t[2][0][0] == "call" and t[2][0][1] == "<mapped>":
        m = t[2][0]
        return ("call", "<mapped>", (field(m[2][0], name),) + m[2][1:], m[3])
    if k == "agg":
        fn = name.split(".")[-1]
        for n, v in t[3]:
            if n == fn:
                return v
        return ("f", t, name)
    if k == "tup":
        fn = name.split(".")[-1]
        if fn.isdigit() and int(fn) < len(t[1]):
            return t[1][int(fn)]
    return ("f", t, name)


def payload(t):
    """the value inside Some / Ok"""
    if t[0] == "agg" and t[2] in ("Some", "Ok") and len(t[3]) == 1:
        return t[3][0][1]
    if t[0] == "phi":
        return mkphi([payload(x) for x in t[1] if not (x[0] == "agg" and x[2] in ("None", "Err"))] or [t])
    return t


def elem(t):
    k = t[0]
    if k == "phi":
        return mkphi([elem(x) for x in t[1]])
    if k == "arr":
        return mkphi(t[1]) if t[1] else ("unk", "empty")
    if k == "agg" and t[2] == "Some" and len(t[3]) == 1:
        return t[3][0][1]
    if k == "call":
        n = t[1]
        if n.endswith("Iterator::unzip") and t[2][0][0] == "call" and t[2][0][1] == "<mapped>":
            return t[2][0][2][0]
        if re.search(r"(Iterator|Iterator>|ParallelIterator|Itertools)::enumerate$", n):
            return ("tup", (("call", "<index>", (t[2][0],), 0), elem(t[2][0])))
        if re.search(r"Iterator>?::(zip|zip_eq)$|Itertools::zip_eq$|::izip$", n) and len(t[2]) == 2:
            return ("tup", (elem(t[2][0]), elem(t[2][1])))
        if re.search(r"Iterator>?::chain$", n) and len(t[2]) == 2:
            return mkphi([elem(t[2][0]), elem(t[2][1])])
        if n == "<mapped>":
            return t[2][0]
    return ("elem", t)


MAXDEPTH = 14


def wrap_elem(t, f):
    """elements of x become elements of f(x)"""
    if not isinstance(t, tuple) or not t:
        return t
    if t[0] == "elem":
        return ("elem", f(t[1]))
    if t[0] == "phi":
        return mkphi([wrap_elem(x, f) for x in t[1]])
    if t[0] in ("f", "at", "err", "part"):
        return (t[0], wrap_elem(t[1], f)) + t[2:]
    if t[0] == "call":
        return ("call", t[1], tuple(wrap_elem(x, f) for x in t[2]), t[3])
    if t[0] in ("tup", "arr"):
        return (t[0], tuple(wrap_elem(x, f) for x in t[1]))
    if t[0] == "agg":
        return t[:3] + (tuple((n, wrap_elem(x, f)) for n, x in t[3]),)
    return t


def tdepth(t, _c={}):
    if not isinstance(t, tuple):
        return 0
    h = _c.get(id(t))
    if h is not None and h[0] is t:
        return h[1]
    m = 0
    if t[0] == "phi":
        for x in t[1]:
            m = max(m, tdepth(x))
    else:
        for x in t[1:]:
            if isinstance(x, tuple):
                if x and isinstance(x[0], str) and x[0] in TAGS:
                    m = max(m, tdepth(x))
                else:
                    for y in x:
                        if isinstance(y, tuple):
                            m = max(m, tdepth(y) if y and y[0] in TAGS else (tdepth(y[1]) if len(y) > 1 else 0))
    if len(_c) > 500000:
        _c.clear()
    _c[id(t)] = (t, m + 1)
    return m + 1


TAGS = {"arg", "f", "elem", "at", "call", "k", "s", "agg", "tup", "arr", "clos", "phi", "err", "fn", "unk", "bin", "un", "const", "part"}


class Ctx:
    __slots__ = ("id", "body", "parent", "callbb", "_args", "_caps", "dirty", "memo", "depth", "subs", "busy", "isclos", "mk")

    def __init__(self, cid, body, parent, callbb, args, caps, depth, isclos=False):
        self.id = cid
        self.body = body
        self.parent = parent
        self.callbb = callbb
        self._args = args
        self._caps = caps
        self.dirty = False
        self.memo = {}
        self.depth = depth
        self.subs = {}  # bb -> list of sub contexts (inlined callee, or closures handed to an opaque callee)
        self.busy = set()
        self.isclos = isclos
        self.mk = None

    def _fresh(self):
        # arguments are read again after a restriction, as if nothing else were being evaluated
        self.dirty = False
        up, x = [], self.parent
        while x is not None:
            up.append((x, x.busy))
            x.busy = set()
            x = x.parent
        try:
            self._args, self._caps = self.mk()
        finally:
            for x, b in up:
                x.busy = b

    @property
    def args(self):
        if self.dirty:
            self._fresh()
        return self._args

    @property
    def caps(self):
        if self.dirty:
            self._fresh()
        return self._caps


def accum_sites(body):
    """local -> [(block, kind, operand)] of the calls that add to it through `&mut`"""
    r = getattr(body, "_accum", None)
    if r is not None:
        return r
    refs = {}
    for m, ds in body.defs().items():
        for dp, k, pay, b, _ in ds:
            if not dp and k == "rv" and pay[0] == "ref" and len(pay[1]) == 1:
                refs.setdefault(m, set()).add(pay[1][0])
    r = {}
    for bi in body.rpo():
        bb = body.bbs[bi]
        t = bb["t"]
        if bb["c"] or t[0] != "call" or len(t[2]) < 2 or t[2][0][0] not in ("c", "m") or t[2][0][1][0] not in refs:
            continue
        ce = callee(t)
        if ce is None:
            continue
        m = re.search(r"ops::(?:arith::)?(Add|Sub|Mul)Assign::", ce[1])
        if m:
            x = (bi, m.group(1).lower(), t[2][1])
        elif re.search(r"(Vec|VecDeque)<.*>::(push|push_back)$", ce[0]):
            x = (bi, "push", t[2][1])
        elif re.search(r"Code::(join|join_indent)$", ce[0]):
            x = (bi, "lines", t[2][-1])
        elif re.search(r"::(extend|append|push_str|extend_from_slice)$", ce[0]):
            x = (bi, "extend", t[2][1])
        else:
            continue
        for l in refs[t[2][0][1][0]]:
            r.setdefault(l, []).append(x)
    body._accum = r
    return r


class Graph:
    """Expanded CFG of `entry`: closures are always inlined at the point where they are handed
    over; functions for which `inline(path)` holds are inlined at the call."""

    def __init__(self, prog, entry, inline=None, args=None, maxdepth=7, budget=60000, precise=False):
        self.prog = prog
        # precise terms keep indices, element order, filter predicates and accumulated sums apart
        self.precise = precise
        self.depthlimit = 80 if precise else MAXDEPTH
        self.entry = prog.fn(entry) if isinstance(entry, str) else entry
        self.inline = inline or (lambda p: False)
        self.ctxs = []
        self.only = None
        self.maxdepth = maxdepth
        self.budget = budget
        self.nblocks = 0
        if args is None:
            args = [("arg", i) for i in range(self.entry.nargs)]
        self.root = self._ctx(self.entry, None, None, args, None, 0)
        self._expand_all()

    def _ctx(self, body, parent, bb, args, caps, depth, isclos=False):
        c = Ctx(len(self.ctxs), body, parent, bb, args, caps, depth, isclos)
        self.ctxs.append(c)
        self.nblocks += len(body.bbs)
        if self.nblocks > self.budget:
            raise RuntimeError("graph of %s exceeds the block budget" % self.entry.path)
        return c

    def restrict(self, nodes):
        """terms from now on ignore definitions made in blocks outside `nodes` (None: no restriction)"""
        self.only = nodes
        for c in self.ctxs:
            c.memo = {}
        if self.precise:
            # arguments of inlined bodies are re-read under the restriction
            for c in self.ctxs:
                c.dirty = c.mk is not None and (nodes is None or (c.parent.id, c.callbb) in nodes)

    def _expand_all(self):
        work = deque([self.root])
        while work:
            c = work.popleft()
            for bi, bb in enumerate(c.body.bbs):
                if bb["c"] or bb["t"][0] != "call":
                    continue
                for s in self._expand(c, bi):
                    work.append(s)

    def _stack_has(self, c, path):
        while c is not None:
            if c.body.path == path:
                return True
            c = c.parent
        return False

    def _expand(self, c, bi):
        if bi in c.subs:
            return []
        t = c.body.bbs[bi]["t"]
        subs = []
        new = []
        ce = callee(t)
        if ce is None:
            # call through a value: maybe a known closure
            ft = self.operand(c, t[1]) if isinstance(t[1], list) else ("unk", "fnval")
            c.subs[bi] = []
            return []
        path, decl, rec = ce
        args = [self.operand(c, a) for a in t[2]]
        target = None
        if re.search(r"ops::(?:function::)?(Fn|FnMut|FnOnce)::(call|call_mut|call_once)$", decl) and args:
            # direct invocation of a closure value
            cl = args[0]
            tupa = args[1] if len(args) > 1 else ("tup", ())
            for x in alts(cl):
                if x[0] == "clos" and c.depth < self.maxdepth and not self._stack_has(c, x[1]):
                    b = self.prog.fns.get(x[1])
                    if b is None:
                        continue
                    a = [x] + [field(tupa, str(i)) for i in range(b.nargs - 1)]
                    s = self._ctx(b, c, bi, a, x[2], c.depth + 1, True)

                    def mk(c=c, t=t, path=x[1], n=b.nargs):
                        y = self._pick(self.operand(c, t[2][0]), path)
                        tp = self.operand(c, t[2][1]) if len(t[2]) > 1 else ("tup", ())
                        return [y] + [field(tp, str(i)) for i in range(n - 1)], y[2]
                    s.mk = mk
                    subs.append(("exact", s))
                elif x[0] == "fn":
                    b = self.prog.fns.get(x[1])
                    if b is not None and self.inline(x[1]) and c.depth < self.maxdepth and not self._stack_has(c, x[1]):
                        a = [field(tupa, str(i)) for i in range(b.nargs)]
                        s = self._ctx(b, c, bi, a, None, c.depth + 1)
                        subs.append(("exact", s))
            c.subs[bi] = subs
            return [s for _, s in subs]
        b = self.prog.fns.get(path)
        if b is not None and self.inline(path) and c.depth < self.maxdepth and not self._stack_has(c, path) and b.nargs == len(args):
            s = self._ctx(b, c, bi, args, None, c.depth + 1)
            s.mk = lambda: ([self.operand(c, a) for a in t[2]], None)
            subs.append(("exact", s))
        else:
            for ai, a in enumerate(args):
                for x in alts(a):
                    if x[0] != "clos" or c.depth >= self.maxdepth or self._stack_has(c, x[1]):
                        continue
                    cb = self.prog.fns.get(x[1])
                    if cb is None:
                        continue
                    n = cb.nargs - 1
                    params = self._cbparams(path, decl, args[0] if ai > 0 else ("unk", "cb"), n)
                    s = self._ctx(cb, c, bi, [x] + params, x[2], c.depth + 1, True)

                    def mk(c=c, t=t, ai=ai, cp=x[1], n=n):
                        y = self._pick(self.operand(c, t[2][ai]), cp)
                        return [y] + self._cbparams(path, decl, self.operand(c, t[2][0]) if ai > 0 else ("unk", "cb"), n), y[2]
                    s.mk = mk
                    subs.append(("loop", s))
        c.subs[bi] = subs
        return [s for _, s in subs]

    def _pick(self, t, path):
        for x in alts(t):
            if x[0] == "clos" and x[1] == path:
                return x
        return ("clos", path, (), -1)

    def _cbparams(self, path, decl, src, n):
        """parameters an opaque callee hands to the closure it is given"""
        if PAYLOAD_CLOSURE.search(path) or PAYLOAD_CLOSURE.search(decl):
            p = src
            if re.search(r"::(map_err|or_else|unwrap_or_else)$", path) and "Result" in path:
                p = ("err", src)
        else:
            p = elem(src)
        if re.search(r"::(fold|try_fold|scan|reduce)$", decl) and n == 2:
            return [("unk", "acc"), p]
        return [p] * n

    # ------------------------------------------------------------ terms
    def operand(self, c, o):
        if o[0] in ("c", "m"):
            return self.place(c, o[1])
        if o[0] == "k":
            return self.const(c, o[1])
        return ("unk", "op")

    def const(self, c, k):
        if "fn" in k:
            return ("fn", k["fn"].get("r", k["fn"]["d"]))
        if "clos" in k:
            return ("clos", k["clos"], (), c.id)
        if "prom" in k:
            base = c.body.path
            pb = self.prog.fns.get("%s#prom%d" % (base, k["prom"]))
            if pb is not None:
                cc = Ctx(-1, pb, None, None, [], None, 0)
                return self.local(cc, 0)
            return ("unk", "prom")
        if "s" in k:
            return ("s", k["s"])
        if "b" in k:
            return ("bytes", tuple(k["b"]))
        if "v" in k:
            return ("k", int(k["v"]))
        if "const" in k:
            return ("const", k["const"])
        ty = c.body.tys[k["t"]]
        if ty == "()":
            return ("tup", ())
        return ("unk", "const " + ty)

    def place(self, c, p):
        t = self.local(c, p[0], p[1:])
        return t

    def _project(self, c, t, proj):
        i = 0
        n = len(proj)
        while i < n:
            e = proj[i]
            if e == "*" or e == "?":
                i += 1
                continue
            if e[0] == "f":
                if e[1] == "<box>":
                    i += 1
                    while i < n and proj[i] != "*" and proj[i][0] == "f" and proj[i][1] == "pointer":
                        i += 1
                    continue
                if e[1].startswith("^"):
                    idx = int(e[1][1:])
                    if t[0] == "clos" and idx < len(t[2]):
                        t = t[2][idx]
                    else:
                        t = ("f", t, e[1])
                    i += 1
                    continue
                t = field(t, e[1])
                i += 1
                continue
            if e[0] == "d":
                v = e[1]
                if i + 1 < n and proj[i + 1] != "*" and proj[i + 1][0] == "f":
                    t = field(t, v + "." + proj[i + 1][1])
                    i += 2
                else:
                    i += 1
                continue
            if e[0] == "i":
                ix = self.local(c, e[1])
                t = self.at(t, ix[1]) if ix[0] == "k" else self.atx(t, ix)
                i += 1
                continue
            if e[0] == "ci":
                t = self.at(t, e[1])
                i += 1
                continue
            i += 1
        return t

    def at(self, t, k):
        if t[0] == "arr" and isinstance(k, int) and k < len(t[1]):
            return t[1][k]
        if t[0] == "phi":
            return mkphi([self.at(x, k) for x in t[1]])
        return ("at", t, k)

    def atx(self, t, ix):
        return ("at", t, ix) if self.precise else elem(t)

    def local(self, c, l, proj=()):
        proj = list(proj)
        body = c.body
        key = (l, json.dumps(proj)) if proj else l
        m = c.memo.get(key)
        if m is not None:
            return m
        if key in c.busy:
            return ("unk", "rec")
        c.busy.add(key)
        try:
            t = self._local(c, l, proj)
        finally:
            c.busy.discard(key)
        if tdepth(t) > self.depthlimit:
            t = ("unk", "deep")
        if not c.busy or t[0] != "unk":
            c.memo[key] = t
        return t

    def _local(self, c, l, proj):
        body = c.body
        outs = []
        if 1 <= l <= body.nargs and c.args:
            a = c.args[l - 1] if l - 1 < len(c.args) else ("unk", "arg")
            outs.append(self._project(c, a, proj))
        defs = body.defs().get(l, [])
        dead = self._dead(c, l) if self.precise and self.only is not None and c.id >= 0 and sum(1 for d in defs if not d[0]) > 1 else ()
        for dproj, kind, pay, bi, line in defs:
            if not dproj and (bi, id(pay)) in dead:
                continue
            if self.only is not None and c.id >= 0 and (c.id, bi) not in self.only:
                continue
            if dproj:
                # partial assignment: relevant only if a prefix of what is read
                if dproj[0] == "*":
                    # write through a pointer: not a definition of the local
                    continue
                if proj[:len(dproj)] == dproj:
                    v = self.rvalue(c, pay, bi) if kind == "rv" else self.callres(c, bi)
                    outs.append(self._project(c, v, proj[len(dproj):]))
                continue
            v = self.rvalue(c, pay, bi) if kind == "rv" else self.callres(c, bi)
            outs.append(self._project(c, v, proj))
        outs = [o for o in outs if o != ("unk", "rec")] or [("unk", "undef")]
        r = mkphi(outs)
        if self.precise and not proj:
            for how, opn, bi in self._accum(c, l):
                y = self.operand(c, opn)
                r = ("call", how, (r, y), 0)
        return r

    def _accum(self, c, l):
        """`x += y`, `x.push(y)` and `x.extend(y)` on local l: [(kind, operand, block)]"""
        out = []
        for bi, kind, opn in accum_sites(c.body).get(l, ()):
            if self.only is not None and c.id >= 0 and (c.id, bi) not in self.only:
                continue
            out.append(("<%s%s>" % (kind, "loop" if self._inloop(c, bi) else ""), opn, bi))
        return out

    def _inloop(self, c, bi):
        if c.isclos and c.parent is not None and any(k == "loop" for k, s in c.parent.subs.get(c.callbb, []) if s is c):
            return True
        seen, st = set(), list(c.body.succs(bi))
        while st:
            b = st.pop()
            if b == bi:
                return True
            if b in seen or (self.only is not None and c.id >= 0 and (c.id, b) not in self.only):
                continue
            seen.add(b)
            st.extend(c.body.succs(b))
        return False

    def _dead(self, c, l):
        """whole definitions of l that never reach a use of it inside the restricted graph"""
        body = c.body
        ev = {}
        mentions = json.dumps

        def uses(x):
            # operands and places mentioning l
            if isinstance(x, list):
                if len(x) == 2 and x[0] in ("c", "m") and isinstance(x[1], list):
                    return uses_place(x[1])
                return any(uses(y) for y in x)
            return False

        def uses_place(p):
            return p[0] == l or any(isinstance(e, list) and e[0] == "i" and e[1] == l for e in p[1:])
        for bi, bb in enumerate(body.bbs):
            if bb["c"] or (c.id, bi) not in self.only:
                continue
            e = []
            for s in bb["s"]:
                r = s[1]
                if (r[0] in ("ref", "disc") and uses_place(r[1])) or uses(r[1:]):
                    e.append(("use", None))
                if s[0] == [l]:
                    e.append(("def", (bi, id(r))))
                elif s[0][0] == l:
                    e.append(("use", None))
            t = bb["t"]
            if t[0] == "ret" and l == 0:
                e.append(("use", None))
            elif t[0] in ("sw", "assert") and uses(t[1:2]):
                e.append(("use", None))
            elif t[0] == "call":
                if uses(t[2]) or (isinstance(t[1], list) and uses(t[1:2])):
                    e.append(("use", None))
                if t[3] == [l]:
                    e.append(("def", (bi, id(t))))
                elif t[3][0] == l:
                    e.append(("use", None))
            if e:
                ev[bi] = e
        dead = set()
        for bi, es in ev.items():
            for i, (k, d) in enumerate(es):
                if k != "def":
                    continue
                nxt = es[i + 1] if i + 1 < len(es) else None
                if nxt is not None:
                    if nxt[0] == "def":
                        dead.add(d)
                    continue
                seen, st, live = set(), list(body.succs(bi)), False
                while st and not live:
                    b = st.pop()
                    if b in seen or (c.id, b) not in self.only:
                        continue
                    seen.add(b)
                    if b in ev:
                        if ev[b][0][0] == "use":
                            live = True
                        continue
                    st.extend(body.succs(b))
                if not live:
                    dead.add(d)
        return dead

    def rvalue(self, c, r, bi):
        k = r[0]
        if k == "use":
            return self.operand(c, r[1])
        if k == "ref":
            return self.place(c, r[1])
        if k == "cast":
            return self.operand(c, r[1])
        if k == "bin":
            op = r[1]
            a, b = self.operand(c, r[2]), self.operand(c, r[3])
            if op.endswith("WithOverflow"):
                return ("tup", (("bin", op[:-12], a, b), ("unk", "overflow")))
            return ("bin", op, a, b)
        if k == "un":
            return ("un", r[1], self.operand(c, r[2]))
        if k == "disc":
            return ("disc", self.place(c, r[1]))
        if k == "agg":
            ops = [self.operand(c, o) for o in r[4]]
            adt = r[1]
            if r[2] in ("Some", "Ok") and len(ops) == 1 and adt.split("::")[-1] in ("Option", "Result"):
                return ("agg", adt, r[2], (("0", ops[0]),))
            return ("agg", adt, r[2], tuple(zip(r[3], ops)))
        if k == "tup":
            return ("tup", tuple(self.operand(c, o) for o in r[1]))
        if k == "arr":
            return ("arr", tuple(self.operand(c, o) for o in r[1]))
        if k == "rep":
            return ("arr", (self.operand(c, r[1]),))
        if k == "clos":
            return ("clos", r[1], tuple(self.operand(c, o) for o in r[2]), c.id)
        return ("unk", k)

    def callres(self, c, bi):
        t = c.body.bbs[bi]["t"]
        if bi not in c.subs and c.id >= 0:
            self._lazy(c, bi)
        ce = callee(t)
        if ce is None:
            return ("call", "<value>", tuple(self.operand(c, a) for a in t[2]), (c.id, bi))
        path, decl, rec = ce
        subs = c.subs.get(bi, [])
        ex = [s for k, s in subs if k == "exact"]
        if ex:
            return mkphi([self.local(s, 0) for s in ex])
        if path.endswith("box_assume_init_into_vec_unsafe") and t[2][0][0] in ("c", "m"):
            v = self._vec_macro(c, t[2][0][1][0])
            if v is not None:
                return v
        args = tuple(self.operand(c, a) for a in t[2])
        if path.endswith("::with_capacity") and path not in self.prog.fns:
            path, args = path[:-len("with_capacity")] + "new", ()
        lp = [s for k, s in subs if k == "loop"]
        if self.precise and args:
            last = path.split("::")[-1]
            if last == "rev" and path not in self.prog.fns:
                a = args[0]
                if a[0] == "call" and a[1] == "<mapped>":
                    return ("call", "<mapped>", (wrap_elem(a[2][0], lambda b: ("call", "<rev>", (b,), 0)),) + a[2][1:], a[3])
                return ("call", "<rev>", (a,), 0)
            if lp and last == "filter" and "Option" in path:
                return ("call", "<optfilter>", (args[0], mkphi([self.local(s, 0) for s in lp])), 0)
            if lp and last == "filter" and "Option" not in path:
                return ("call", "<filter>", (args[0], mkphi([self.local(s, 0) for s in lp])), 0)
            if lp and last in ("any", "all") and len(args) == 2 and "Option" not in path and path not in self.prog.fns:
                return ("call", "<%s>" % last, (args[0], mkphi([self.local(s, 0) for s in lp])), 0)
            if lp and last == "position" and "Option" not in path:
                return ("call", "<position>", (args[0], mkphi([self.local(s, 0) for s in lp])), 0)
            if last in ("max", "min", "last", "first") and len(args) == 1 and path not in self.prog.fns:
                return ("call", "<%s>" % last, args, 0)
            if len(args) == 2 and args[1][0] == "fn" and last == "map" and MAPS.search(path) and not lp:
                isopt = bool(PAYLOAD_CLOSURE.search(path) or PAYLOAD_CLOSURE.search(decl))
                v = ("call", args[1][1], (args[0] if isopt else elem(args[0]),), 0)
                return v if isopt else ("call", "<mapped>", (v, args[0]), (c.id, bi))
            if last == "get" and len(args) == 2 and path not in self.prog.fns and re.search(r"slice|vec", path):
                return self.at(args[0], args[1][1]) if args[1][0] == "k" else self.atx(args[0], args[1])
            if last in ("skip", "take", "step_by", "chain", "zip") and path not in self.prog.fns and "iter" in (path + decl).lower():
                return ("call", path if last in ("chain", "zip") else "<%s>" % last, args, 0)
        if lp and self.precise and args and args[0][0] == "agg" and args[0][2] == "None" and path.split("::")[-1] in ("map", "and_then", "filter") and (PAYLOAD_CLOSURE.search(path) or PAYLOAD_CLOSURE.search(decl)):
            return args[0]
        if lp and self.precise and self.only is not None and not any((s.id, 0) in self.only for s in lp) and (PAYLOAD_CLOSURE.search(path) or PAYLOAD_CLOSURE.search(decl)):
            # the closure is never entered here
            last = path.split("::")[-1]
            if last in ("map", "and_then", "then", "then_some"):
                return ("agg", "std::option::Option", "None", ())
            if last in ("unwrap_or_else", "or_else"):
                return args[0]
        if lp and MAPS.search(path):
            v = mkphi([self.local(s, 0) for s in lp])
            last = path.split("::")[-1]
            if PAYLOAD_CLOSURE.search(path) or PAYLOAD_CLOSURE.search(decl):
                if last in ("unwrap_or_else", "or_else", "map_or", "map_or_else", "get_or_insert_with", "or_insert_with"):
                    return mkphi([v] + [args[0]] + ([args[1]] if last == "map_or" else []))
                return v
            if last in ("find_map",):
                return v
            if last in ("flat_map",):
                return ("call", "<mapped>", (elem(v),), (c.id, bi))
            return ("call", "<mapped>", (v, args[0]) if self.precise else (v,), (c.id, bi))
        if lp and FILTERS.search(path) and args:
            if path.endswith("::find") and "Option" not in path:
                return elem(("part", args[0]))
            if LOSSY.search(path) and "Option" not in path:
                return ("part", args[0])
            return args[0]
        if not args:
            return ("call", path, (), (c.id, bi))
        if TRANSPARENT.search(path) or TRANSPARENT.search(decl):
            if path in self.prog.fns and not re.search(r"location_info|spade_common::id| as std::(convert|clone|ops|borrow)", path):
                return ("call", path, args, (c.id, bi))
            if re.search(r"(Option|Result)<.*>::(unwrap|expect)$", path):
                return payload(args[0])
            return args[0]
        if ELEM.search(path) and path not in self.prog.fns:
            if self.precise and len(args) == 2 and KEYED.search(path):
                return ("at", args[0], args[1])
            if LOSSY_ELEM.search(path):
                return elem(("part", args[0]))
            return elem(args[0])
        if LOSSY.search(path) and path not in self.prog.fns:
            return ("part", args[0])
        m = MAPVIEW.search(path)
        if m and path not in self.prog.fns:
            return ("call", "<mapped>", (field(elem(args[0]), "0" if "keys" in m.group(2) else "1"),), (c.id, bi))
        if decl.endswith("ops::bit::Not::not") and "bool" in path and len(args) == 1:
            return ("un", "Not", args[0])
        if (decl.endswith("Index::index") or decl.endswith("IndexMut::index_mut")) and path not in self.prog.fns:
            if args[1][0] == "k":
                return self.at(args[0], args[1][1])
            return self.atx(args[0], args[1])
        if re.search(r"Option.*::unwrap_or$|Result.*::unwrap_or$|Option.*::or$", path) and len(args) == 2:
            return mkphi([args[0], args[1]])
        return ("call", path, args, (c.id, bi))

    def _vec_macro(self, c, l):
        """`vec![..]`: box allocated, written through its pointer, turned into a Vec"""
        defs = c.body.defs()
        boxes = {l}
        for _ in range(4):
            for x in list(boxes):
                for dp, k, pay, b, _l in defs.get(x, []):
                    if k == "rv" and pay[0] == "use" and pay[1][0] in ("c", "m") and len(pay[1][1]) == 1:
                        boxes.add(pay[1][1][0])
        ct = getattr(c.body, "castdefs", None)
        if ct is None:
            # casts of places, whose target is written through: [(local, places cast)]
            ct = []
            for m, ds in defs.items():
                if any(dp and dp[0] == "*" and k == "rv" for dp, k, pay, b, _l in ds):
                    src = {pay[1][1][0] for dp, k, pay, b, _l in ds if not dp and k == "rv" and pay[0] == "cast" and pay[1][0] in ("c", "m")}
                    if src:
                        ct.append((m, src))
            c.body.castdefs = ct
        for m, src in ct:
            if src & boxes:
                for dp, k, pay, b, _l in defs[m]:
                    if dp and dp[0] == "*" and k == "rv":
                        return self.rvalue(c, pay, b)
        return None

    def _lazy(self, c, bi):
        for s in self._expand(c, bi):
            pass

    # ------------------------------------------------------------ CFG
    def nodes(self):
        for c in self.ctxs:
            for bi, bb in enumerate(c.body.bbs):
                if not bb["c"]:
                    yield (c.id, bi)

    def calls(self, pred=None):
        """(node, resolved, declared, rec) for every call; pred on (resolved, declared)"""
        for c in self.ctxs:
            for bi, bb in enumerate(c.body.bbs):
                if bb["c"] or bb["t"][0] != "call":
                    continue
                ce = callee(bb["t"])
                if ce is None:
                    continue
                if pred is None or pred(ce[0], ce[1]):
                    yield (c.id, bi), ce[0], ce[1], ce[2]

    def stores(self):
        """(node, place, value) of what is written through references: fields of arguments and of what they refer to"""
        for c in self.ctxs:
            for bi, bb in enumerate(c.body.bbs):
                if bb["c"]:
                    continue
                for st in bb["s"]:
                    if "*" in st[0][1:]:
                        yield (c.id, bi), st[0], (lambda c=c, st=st, bi=bi: self.rvalue(c, st[1], bi))
                t = bb["t"]
                if t[0] == "call" and "*" in t[3][1:]:
                    yield (c.id, bi), t[3], (lambda c=c, bi=bi: self.callres(c, bi))

    def args_of(self, node):
        c = self.ctxs[node[0]]
        t = c.body.bbs[node[1]]["t"]
        return [self.operand(c, a) for a in t[2]]

    def loc(self, node, stmt=None):
        c = self.ctxs[node[0]]
        bb = c.body.bbs[node[1]]
        return "%s:%d" % (c.body.file, bb["l"])

    def fnname(self, node):
        return self.ctxs[node[0]].body.path

    def succ_plain(self, node):
        """successors, ignoring values"""
        c = self.ctxs[node[0]]
        bi = node[1]
        bb = c.body.bbs[bi]
        t = bb["t"]
        if t[0] == "ret":
            if c.parent is None:
                return []
            p = c.parent
            kinds = [k for k, s in p.subs.get(c.callbb, []) if s is c]
            if kinds and kinds[0] == "exact":
                tg = p.body.bbs[c.callbb]["t"][4]
                return [(p.id, tg)] if tg is not None else []
            # loop: back to the call head (marked by re-entering) -> continuation or again
            tg = p.body.bbs[c.callbb]["t"][4]
            out = [(s.id, 0) for k, s in p.subs[c.callbb]]
            if tg is not None:
                out.append((p.id, tg))
            return out
        if t[0] == "call":
            subs = c.subs.get(bi, [])
            ex = [(s.id, 0) for k, s in subs if k == "exact"]
            if ex:
                return ex
            out = [(s.id, 0) for k, s in subs if k == "loop"]
            if t[4] is not None:
                out.append((c.id, t[4]))
            return out
        return [(c.id, b) for b in c.body.succs(bi)]
