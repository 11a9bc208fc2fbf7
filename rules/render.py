"""Canonical text of string and number valued terms, and case analysis of a function's result."""
import re
import ir, paths, core

TRANSP = re.compile(r"::(to_string|clone|to_owned|into|as_ref|as_str|borrow|deref|to_biguint|to_bigint|from|to_usize|to_u64|to_u32|unwrap|expect|collect|iter|into_iter|cloned|copied|as_slice|by_ref|into_boxed_str)$")


def poly(d):
    """canonical text of {monomial(tuple of atoms): coefficient}"""
    d = {m: c for m, c in d.items() if c}
    if not d:
        return "0"
    out = []
    for m in sorted(d, key=lambda m: (m == (), m)):
        c = d[m]
        s = "*".join(m)
        out.append(("+" if c > 0 else "-") + (str(abs(c)) if not m else (s if abs(c) == 1 else "%d*%s" % (abs(c), s))))
    r = "".join(out)
    return r[1:] if r[0] == "+" else r


def template(bs):
    """decode a fmt template: list of str | (argindex, flags)"""
    out = []
    i = 0
    nxt = 0
    lit = bytearray()
    while i < len(bs):
        b = bs[i]
        i += 1
        if b == 0:
            break
        if b < 0x80:
            lit += bytes(bs[i:i + b])
            i += b
        elif b == 0x80:
            n = bs[i] | bs[i + 1] << 8
            i += 2
            lit += bytes(bs[i:i + n])
            i += n
        else:
            fl = 0
            if b & 1:
                fl = bs[i] | bs[i + 1] << 8 | bs[i + 2] << 16 | bs[i + 3] << 24
                i += 4
            w = p = None
            if b & 2:
                w = bs[i] | bs[i + 1] << 8
                i += 2
            if b & 4:
                p = bs[i] | bs[i + 1] << 8
                i += 2
            if b & 8:
                nxt = bs[i] | bs[i + 1] << 8
                i += 2
            if lit:
                out.append(lit.decode("utf8", "replace"))
                lit = bytearray()
            out.append((nxt, fl, w, p))
            nxt += 1
    if lit:
        out.append(lit.decode("utf8", "replace"))
    return out


EMPTY = {"new()", "default()", "with_capacity()", "nothing()", "map(Option::None{})", "[]"}


class R:
    """renders terms; `names` maps terms to short names (longest match first)"""

    def __init__(self, names=(), prog=None, special=()):
        self.names = dict(names)
        self.special = [(re.compile(a), b) for a, b in special]
        self.memo = {}
        self.prog = prog

    def s(self, t):
        """string value as text with {..} holes"""
        if t in self.names:
            return "{%s}" % self.names[t]
        k = t[0]
        if k == "s":
            return t[1]
        if k == "k":
            return str(t[1])
        if k == "phi":
            return "<%s>" % " | ".join(sorted({self.s(x) for x in t[1]}))
        if k == "at":
            u = self.push(t)
            if u != t:
                return self.s(u)
        if k == "call":
            n, a = t[1], t[2]
            if n.endswith("fmt::format") or n.endswith("alloc::fmt::format"):
                return self.fmt(a[0])
            if re.search(r"Arguments<'a>::(new|from_str|new_const|from_str_nonconst)", n):
                return self.fmt(t)
            if n.endswith("str>::replace") and len(a) == 3 and a[1][0] == "s" and a[2][0] == "s":
                return self.s(a[0]).replace(a[1][1], a[2][1])
            if re.search(r"::String::new$", n):
                return ""
            if n in ("<lines>", "<extend>", "<linesloop>", "<extendloop>"):
                x, y = self.s(a[0]), self.lines(a[1]) if "lines" in n else self.s(a[1])
                if y == "" or a[1][0] == "agg" and a[1][2] == "None":
                    return x
                y = "{*%s*}" % y if "loop" in n else y
                return x + "\n" + y if x and "lines" in n else x + y
            if re.search(r"Code::new$", n):
                return ""
            if re.search(r"::join$", n) and len(a) == 2:
                x = self.v(a[0])
                return "{join(%s, %s)}" % (x, self.s(a[1])) if x not in EMPTY else ""
            if TRANSP.search(n) and a:
                return self.s(a[0])
        if k == "agg" and t[2] in ("Some", "Ok"):
            return self.s(t[3][0][1])
        return "{%s}" % self.v(t)

    def lines(self, t):
        """a list of lines as text"""
        if t[0] == "arr":
            return "\n".join(self.lines(x) for x in t[1])
        if t[0] == "call" and t[1] in ("<push>", "<pushloop>", "<extend>", "<extendloop>"):
            x, y = self.lines(t[2][0]), self.lines(t[2][1])
            if "loop" in t[1] and y:
                y = "{*%s*}" % y
            return x + "\n" + y if x and y else x or y
        if t[0] == "call" and t[1] == "<mapped>":
            y = self.lines(t[2][0])
            return "{*%s*}" % y if y else ""
        if t[0] == "call" and (re.search(r"Vec<.*>::new$", t[1]) or t == NOTHING) or t[0] == "agg" and t[2] == "None":
            return ""
        if t[0] == "call" and re.search(r"::join$", t[1]) and len(t[2]) == 2 and t[2][1] == ("s", "\n"):
            return self.lines(t[2][0])
        return self.s(t)

    def fmt(self, t):
        if t[0] == "s":
            return t[1]
        if t[0] == "call" and re.search(r"Arguments<'a>::(from_str|new_const|from_str_nonconst)$", t[1]):
            return self.s(t[2][0]) if t[2][0][0] == "s" else "{%s}" % self.v(t[2][0])
        if t[0] == "call" and len(t[2]) >= 1 and t[2][0][0] == "bytes":
            args = t[2][1][1] if len(t[2]) > 1 and t[2][1][0] == "arr" else ()
            out = []
            for x in template(t[2][0][1]):
                if isinstance(x, str):
                    out.append(x)
                    continue
                i, fl, w, p = x
                if i >= len(args):
                    out.append("{?%d}" % i)
                    continue
                a = args[i]
                how = ""
                if a[0] == "call":
                    m = re.search(r"::new_(\w+)$", a[1])
                    how = "" if m and m.group(1) == "display" else ":" + (m.group(1) if m else "?")
                    a = a[2][0]
                r = self.s(a)
                out.append(r if not how else "{%s%s}" % (r, how))
            return "".join(out)
        return "{%s}" % self.v(t)

    def push(self, t):
        """element k of a mapped sequence: the mapping applied to element k"""
        if t[0] == "at" and t[1][0] == "call" and t[1][1] == "<mapped>":
            return subst_elem(t[1][2][0], t[2])
        return t

    # ---- values
    def v(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self._v(t)
            self.memo[t] = r
        return r

    def _v(self, t):
        if t in self.names:
            return self.names[t]
        p = self.p(t)
        if p is not None:
            return poly(p)
        k = t[0]
        if k == "s":
            return repr(t[1])
        if k == "f" and t[2] in ("0", "1") and t[1][0] == "call" and t[1][1].endswith("Iterator::unzip") and t[1][2][0][0] == "call" and t[1][2][0][1] == "<mapped>":
            m = t[1][2][0]
            return self.v(("call", "<mapped>", (ir.field(m[2][0], t[2]),) + m[2][1:], m[3]))
        if k == "f":
            return "%s.%s" % (self.v(t[1]), t[2])
        if k == "elem":
            if t[1][0] == "agg" and t[1][1].endswith("::Range"):
                return "i(%s)" % self.v(t[1])
            if t[1][0] == "agg" and t[1][1].endswith("::RangeFull"):
                return self.v(t[1])
            return "%s[*]" % self.v(t[1])
        if k == "at":
            if isinstance(t[2], tuple) and t[2][0] == "agg" and t[2][1].endswith("::RangeFull"):
                return self.v(t[1])
            u = self.push(t)
            if u != t:
                return self.v(u)
            return "%s[%s]" % (self.v(t[1]), self.v(t[2]) if isinstance(t[2], tuple) else t[2])
        if k == "part":
            return "part(%s)" % self.v(t[1])
        if k == "phi":
            xs = {self.v(x) for x in t[1] if not is_nothing(x)}
            return "<%s>" % " | ".join(sorted(xs)) if len(xs) != 1 else xs.pop()
        if k == "agg":
            if t[1].endswith("::Range") and len(t[3]) == 2:
                return "%s..%s" % tuple(self.v(x) for _, x in t[3])
            if t[1].endswith("::RangeFull"):
                return ".."
            if t[1].endswith("::RangeFrom"):
                return "%s.." % self.v(t[3][0][1])
            if t[2] in ("Some", "Ok") and len(t[3]) == 1:
                return self.v(t[3][0][1])
            return "%s%s{%s}" % (t[1].split("::")[-1], "::" + t[2] if t[2] and t[2] != t[1].split("::")[-1] else "", ", ".join("%s: %s" % (n, self.v(x)) for n, x in t[3]))
        if k in ("tup", "arr"):
            return ("(%s)" if k == "tup" else "[%s]") % ", ".join(self.v(x) for x in t[1])
        if k == "call":
            n, a = t[1], t[2]
            if n in ("<any>", "<all>"):
                x, pol = self.pred(t)
                return x if pol else "!" + x
            if n in ("<push>", "<pushloop>", "<extend>", "<extendloop>", "<lines>", "<linesloop>"):
                if "lines" in n:
                    return '"%s"' % self.s(t)
                x, y = self.v(a[0]), self.v(a[1])
                if n == "<pushloop>" and x in ("new()", "default()", "with_capacity()"):
                    return "map(%s)" % y
                x = x[1:-1] if x[:1] == "[" else "" if x in ("new()", "default()", "with_capacity()") else "*" + x
                y = ("*" if "extend" in n else "") + y
                y = "{*%s*}" % y if "loop" in n else y
                return "[%s]" % (x + ", " + y if x else y)
            if re.search(r"::(len|count)$", n) and len(a) == 1 and a[0][0] == "call" and a[0][1] == "<mapped>" and len(a[0][2]) > 1:
                return "len(%s)" % self.v(a[0][2][1])
            if n == "<nothing>":
                return "nothing()"
            if re.search(r"Iterator(>| for .*>)?::chain$", n) and len(a) == 2:
                x, y = (w[1:-1] if w[:1] == "[" else "*" + w for w in (self.v(a[0]), self.v(a[1])))
                return "[%s, %s]" % (x, y)
            if re.search(r"(Option|Result)(<.*>)?::(Some|Ok)$", n) and len(a) == 1:
                return self.v(a[0])
            if n == "<take>":
                return "%s[0..%s]" % (self.v(a[0]), self.v(a[1]))
            if n == "<skip>":
                return "%s[%s..]" % (self.v(a[0]), self.v(a[1]))
            if n == "<mapped>":
                r = self.v(a[0])
                if a[0][0] == "agg" and a[0][2] == "None" or a[0][0] == "elem" and self.v(a[0][1]) in EMPTY:
                    return "nothing()"
                if a[0][0] == "elem":
                    return self.v(a[0][1])
                if len(a) > 1 and not ir.contains(a[0], ir.elem(a[1])) and "[*]" not in r:
                    r += " for %s" % self.v(a[1])
                return "map(%s)" % r
            if re.search(r"fmt::format$", n):
                return '"%s"' % self.s(t)
            if re.search(r"PartialEq|PartialOrd", n) and re.search(r"::(eq|ne|lt|gt|le|ge)$", n):
                k, pol = self.pred(t)
                return k if pol else "!(%s)" % k
            for rx, f in self.special:
                if rx.search(n):
                    return f(self, a)
            if TRANSP.search(n) and a and not (self.prog and n in self.prog.fns):
                return self.v(a[0])
            return "%s(%s)" % (shortfn(n), ", ".join(self.v(x) for x in a))
        if k == "bin":
            return "(%s %s %s)" % (self.v(t[2]), t[1], self.v(t[3]))
        if k == "un":
            return "%s(%s)" % (t[1], self.v(t[2]))
        if k == "disc":
            return "disc(%s)" % self.v(t[1])
        if k == "clos":
            return "closure"
        return "<%s>" % " ".join(str(x)[:40] for x in t)

    def atom(self, t):
        return {(self.v(t),): 1}

    def p(self, t):
        """polynomial over opaque atoms, or None if t is not built by arithmetic"""
        k = t[0]
        if k == "k" and isinstance(t[1], int):
            return {(): t[1]} if t[1] else {}
        if k == "un" and t[1] == "Neg":
            x = self.pa(t[2])
            return {m: -c for m, c in x.items()}
        if k == "bin" and t[1] in ("Add", "Sub", "Mul"):
            return self.arith(t[1], t[2], t[3])
        if k == "call":
            n, a = t[1], t[2]
            if re.search(r"(Zero>?::zero|BigUint::ZERO|BigInt::ZERO)$", n) and not a:
                return {}
            if re.search(r"One>?::one$", n) and not a:
                return {(): 1}
            m = re.search(r"(?:^|[: ])(Add|Sub|Mul|add|sub|mul)(?:<.*>)?>?::(add|sub|mul)$", n) or re.search(r"ops::.*(add|sub|mul)$", n) or re.search(r"(?:BigUint|BigInt|u64|usize|u32|u128|i64).*>::(add|sub|mul)$", n)
            if m and len(a) == 2:
                return self.arith(n.split("::")[-1].capitalize(), a[0], a[1])
            if re.search(r"::(saturating_sub|checked_sub|wrapping_sub)$", n):
                return None
            if len(a) == 1 and TRANSP.search(n) and (n.endswith("int") or not (self.prog and n in self.prog.fns)):
                return self.p(a[0])
            if n in ("<add>", "<sub>", "<mul>"):
                return self.arith(n[1:-1].capitalize(), a[0], a[1])
            if n == "<addloop>":
                x = dict(self.pa(a[0]))
                y = "sum(%s)" % self.v(hoist(a[1]))
                x[(y,)] = x.get((y,), 0) + 1
                return x
            if re.search(r"Iterator>?::sum$", n) or n.endswith("::Sum::sum"):
                return {("sum(%s)" % self.v(ir.elem(a[0])),): 1}
        if k == "const" and re.search(r"::ZERO$", str(t[1])):
            return {}
        return None

    def pa(self, t):
        if t in self.names:
            return {(self.names[t],): 1}
        r = self.p(t)
        if r is None:
            r = self.atom(t)
        return r

    def arith(self, op, a, b):
        x, y = self.pa(a), self.pa(b)
        if op in ("Add", "Sub"):
            r = dict(x)
            for m, c in y.items():
                r[m] = r.get(m, 0) + (c if op == "Add" else -c)
            return {m: c for m, c in r.items() if c}
        r = {}
        for m, c in x.items():
            for m2, c2 in y.items():
                mm = tuple(sorted(m + m2))
                r[mm] = r.get(mm, 0) + c * c2
        return {m: c for m, c in r.items() if c}

    def emptiness(self, t):
        """truth of an is_empty test whose answer the built text or list settles"""
        if t[0] == "un" and t[1] == "Not":
            r = self.emptiness(t[2])
            return None if r is None else not r
        if t[0] != "call" or not re.search(r"::is_empty$", t[1]) or len(t[2]) != 1:
            return None
        x = t[2][0]
        if re.search(r"str>::is_empty$|String::is_empty$|String>::is_empty$", t[1]):
            if x[0] == "phi":
                return None
            s = self.s(x)
            if s == "":
                return True
            depth = 0
            for ch in s:
                if ch == "{":
                    depth += 1
                elif ch == "}":
                    depth -= 1
                elif depth == 0:
                    return False
            return None
        if x[0] != "phi" and self.v(x) in EMPTY:
            return True
        if x[0] == "arr":
            return not x[1]
        return None

    # ---- predicates: (canonical text, value when the term is 1) so that equivalent tests coincide
    def pred(self, t):
        """(key, polarity) of a boolean term, or None"""
        if t[0] == "un" and t[1] == "Not":
            r = self.pred(t[2])
            return r and (r[0], not r[1])
        if t[0] == "call" and t[1] in ("<any>", "<all>"):
            # not any x: not p is all x: p
            pr = self.pred(t[2][1]) if t[2][1][0] != "phi" else None
            k, pol = pr or (self.v(t[2][1]), True)
            n = t[1][1:4]
            return ("%s(%s: %s)" % (n if pol else {"any": "all", "all": "any"}[n], self.v(t[2][0]), k), pol)
        op = a = b = None
        if t[0] == "bin" and t[1] in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            op, a, b = t[1].lower(), t[2], t[3]
        elif t[0] == "call":
            m = re.search(r"Partial(?:Eq|Ord).*::(eq|ne|lt|le|gt|ge)$", t[1]) or re.search(r"(?:Eq|Ord|cmp|impls?).*::(eq|ne|lt|le|gt|ge)$", t[1])
            if m and len(t[2]) == 2:
                op, a, b = m.group(1), t[2][0], t[2][1]
            elif re.search(r"Option<.*>::is_(some|none)$", t[1]) and len(t[2]) == 1:
                return ("is_some(%s)" % self.v(t[2][0]), t[1].endswith("some"))
            elif re.search(r"::is_zero$", t[1]):
                op, a, b = "eq", t[2][0], ("k", 0)
            elif re.search(r"::is_one$", t[1]):
                op, a, b = "eq", t[2][0], ("k", 1)
            elif re.search(r"::is_empty$", t[1]):
                op, a, b = "eq", ("call", "Vec::len", t[2], 0), ("k", 0)
        if op is None:
            return (self.v(t), True)
        if op in ("eq", "ne"):
            if self.p(a) is None and self.p(b) is None and not self.numeric(a, b, t):
                x, y = sorted((self.v(a), self.v(b)))
                return ("%s == %s" % (x, y), op == "eq")
            d = self.arith("Sub", a, b)
            return ("%s == 0" % norm(d)[0], op == "eq")
        # a < b  <=>  b - a > 0 ; a <= b <=> not (a - b > 0)
        if op == "lt":
            return ("%s > 0" % poly(self.arith("Sub", b, a)), True)
        if op == "gt":
            return ("%s > 0" % poly(self.arith("Sub", a, b)), True)
        if op == "le":
            return ("%s > 0" % poly(self.arith("Sub", a, b)), False)
        return ("%s > 0" % poly(self.arith("Sub", b, a)), False)

    def variant_test(self, t):
        """x == Enum::Variant without members: (key of the variant of x, Variant, all variants, polarity)"""
        pol = True
        while t[0] == "un" and t[1] == "Not":
            t, pol = t[2], not pol
        if t[0] != "call" or len(t[2]) != 2 or self.prog is None:
            return None
        m = re.search(r"(?:Eq|cmp|impls?).*::(eq|ne)$", t[1])
        if not m:
            return None
        for a, b in (t[2], t[2][::-1]):
            if b[0] == "agg" and not b[3] and b[1] in self.prog.adts and a[0] != "agg":
                vs = list(self.prog.variants(b[1]))
                if len(vs) > 1 and b[2] in vs:
                    return ("variant of " + self.v(a), b[2], vs, pol == (m.group(1) == "eq"))
        return None

    def numeric(self, a, b, t):
        return t[0] == "bin" or "BigUint" in t[1] or "BigInt" in t[1]


def norm(d):
    """sign-normalised polynomial text (for equality tests)"""
    p, n = poly(d), poly({m: -c for m, c in d.items()})
    return (p, n) if p <= n else (n, p)


def hoist(t):
    """x[i] for i in a..b  ->  an element of x[a..b]"""
    if isinstance(t, tuple) and t and t[0] == "at" and isinstance(t[2], tuple) and t[2][0] == "elem":
        return ("elem", ("at", hoist(t[1]), t[2][1]))
    if isinstance(t, tuple) and t and t[0] == "call":
        return ("call", t[1], tuple(hoist(x) for x in t[2]), t[3])
    if isinstance(t, tuple) and t and t[0] == "f":
        return ("f", hoist(t[1]), t[2])
    return t


def shortfn(n):
    m = re.search(r"([A-Za-z_0-9]+)(?:<[^:]*>)?>?::([a-z_0-9A-Z]+)$", n)
    return n.split("::")[-1] if not m else n.split("::")[-1]


def subst_elem(t, k):
    """replace the outermost ("elem", base) by ("at", base, k)"""
    if not isinstance(t, tuple) or not t:
        return t
    if t[0] == "elem":
        return ("at", t[1], k)
    if t[0] == "phi":
        return ir.mkphi([subst_elem(x, k) for x in t[1]])
    if t[0] == "f":
        return ir.field(subst_elem(t[1], k), t[2])
    if t[0] == "call":
        return ("call", t[1], tuple(subst_elem(x, k) for x in t[2]), t[3])
    if t[0] in ("tup", "arr"):
        return (t[0], tuple(subst_elem(x, k) for x in t[1]))
    return t


class CaseSearch(paths.Search):
    """records the undecided tests met; `fixed` maps predicate key -> bool / variant / integer"""

    call_truth = False

    def __init__(self, g, fixed, rend, decide, interesting, seen):
        self.fixed, self.rend, self.inter, self.seen = fixed, rend, interesting, seen
        self.cur = None
        super().__init__(g, decide=self.dec, decide_bool=self.decb)
        self.base = decide

    def switch_term(self, c, bi):
        self.cur = (c, bi)
        return super().switch_term(c, bi)

    def loop_next(self):
        """the switch tests what an iterator's next returned: whether a loop goes on is no condition"""
        if self.cur is None:
            return False
        c, bi = self.cur
        o = c.body.bbs[bi]["t"][1]
        if o[0] not in ("c", "m") or len(o[1]) != 1:
            return False
        ds = [x for x in c.body.defs().get(o[1][0], []) if not x[0]]
        if len(ds) != 1 or ds[0][1] != "rv" or ds[0][2][0] != "disc" or len(ds[0][2][1]) != 1:
            return False
        return any(x[1] == "call" and re.search(r"Iterator(>| for .*>)?::next$", (ir.callee(x[2]) or ("",))[0]) for x in c.body.defs().get(ds[0][2][1][0], []))

    def dec(self, term, ty):
        d = self.base(term, ty)
        if d is not None:
            return d
        if not self.inter(term):
            return None
        if paths.head_ty(ty).split("::")[-1] == "Option" and (term[0] in ("elem", "tup") or self.loop_next()):
            return None
        if term[0] == "call" and re.search(r"::to_(u|i)(8|16|32|64|128|size)$", term[1]) and term[1] not in self.rend_fns():
            return "Some"
        vs = self.variants.of(ty)
        if vs and {n for _, n in vs} == {"None", "Some"}:
            key = "is_some(%s)" % self.rend.v(term)
            if key in self.fixed:
                return "Some" if self.fixed[key] else "None"
            self.seen.setdefault(key, [True, False])
            return None
        if vs and {n for _, n in vs} == {"Continue", "Break"}:
            return None
        key = "variant of " + self.rend.v(term)
        if vs and {n for _, n in vs} == {"Ok", "Err"}:
            key = "result of " + self.rend.v(term)
        if key in self.fixed:
            return self.fixed[key]
        if vs:
            self.seen.setdefault(key, [n for _, n in vs])
        return None

    def decb(self, term):
        if term[0] == "k" and isinstance(term[1], int):
            return int(term[1])
        if not self.inter(term):
            return None
        if self.cur is None:
            return self.decpred(term)
        c, bi = self.cur
        tg = c.body.bbs[bi]["t"]
        vals = [int(v) for v, _ in tg[2]]
        if vals == [0] and c.body.tys[tg[4]] == "bool":
            return self.decpred(term)
        if len(vals) == 1:
            k1 = "%s == 0" % norm(self.rend.arith("Sub", term, ("k", vals[0])))[0]
            if k1 in self.fixed:
                return vals[0] if self.fixed[k1] else -1
            self.seen.setdefault(k1, [True, False])
            return None
        key = "value of " + self.rend.v(term)
        if key in self.fixed:
            x = self.fixed[key]
            return -1 if x == "other" else x
        self.seen.setdefault(key, vals + ["other"])
        return None

    def rend_fns(self):
        return self.rend.prog.fns if self.rend.prog else ()

    def decpred(self, term):
        e = self.rend.emptiness(term)
        if e is not None:
            return int(e)
        v = self.rend.variant_test(term)
        if v is not None:
            key, name, names, pol = v
            if key in self.fixed:
                return int((self.fixed[key] == name) == pol)
            self.seen.setdefault(key, names)
            return None
        pr = self.rend.pred(term)
        if pr is None:
            return None
        key, pol = pr
        if key in self.fixed:
            return int(self.fixed[key] == pol)
        self.seen.setdefault(key, [True, False])
        return None

    def recv_variant(self, c, o, isresult):
        term = self.g.operand(c, o)
        if isresult or term[0] not in ("f", "arg") or not self.inter(term):
            return None
        key = "is_some(%s)" % self.rend.v(term)
        if key in self.fixed:
            return "Some" if self.fixed[key] else "None"
        self.seen.setdefault(key, [True, False])
        return None

    def test_bool(self, c, bi, o):
        term = self.g.operand(c, o)
        return self.decpred(term) if self.inter(term) else None


def cases(ck, g, rend, assume=(), interesting=lambda t: True, result=None, limit=400, extra=None, fixed=None):
    """[(conditions, set of rendered results)]: the results of g's entry function split by every test the result depends on"""
    out = []
    base = core.decider(assume)
    if extra:
        base = paths.combine(base, extra)
    result = result or (lambda t: rend.s(t))

    def go(fixed, reach=None):
        for _ in range(6):
            # each round evaluates the tests with the definitions the last one found reachable
            seen = {}
            g.restrict(reach)
            s = CaseSearch(g, fixed, rend, base, interesting, seen)
            r2 = s.reachable()
            rets = {n for n in r2 if n[0] == 0 and g.root.body.bbs[n[1]]["t"][0] == "ret"}
            if not rets:
                g.restrict(None)
                return
            if r2 == reach:
                break
            reach = r2
        g.restrict(reach)
        t = g.local(g.root, 0)
        g.restrict(None)
        ck.paths += 1
        t = split_filters(t, rend, fixed, seen, interesting)
        todo = [k for k in seen if k not in fixed]
        if not todo:
            out.append((dict(fixed), {result(x) for x in ir.alts(t)}))
            if len(out) > limit:
                raise RuntimeError("too many cases in %s" % g.entry.path)
            return
        k = min(todo, key=lambda k: (" | " in k, todo.index(k)))
        for v in seen[k]:
            f = dict(fixed)
            f[k] = v
            if consistent(f):
                go(f, reach)
    go(dict(fixed or {}))
    # merge cases with the same results that differ only in one irrelevant test
    return simplify(forced(single_values(out)))


def event_cases(ck, g, rend, assume, pred, fmt, goal=None, interesting=lambda t: True, limit=300, extra=None, fixed=None, decide_bool=None, stores=None):
    """[(conditions, set of texts)]: the calls matching pred made on paths of g's entry function that reach the goal
    (by default: a successful return), rendered by fmt(resolved, args), split by every test that changes them.
    A call that such a path can avoid is marked with `?`, unless it is made for the elements of a collection.
    With `stores`, what is written to the places whose text matches it is included as `place := value`."""
    out = []
    base = core.decider(assume)
    if extra:
        base = paths.combine(base, extra)
    goal = goal or paths.OkReturn()

    def go(fixed, reach=None):
        for _ in range(6):
            seen = {}
            g.restrict(reach)
            s = CaseSearch(g, fixed, rend, base, interesting, seen)
            r2 = paths.live_nodes(s, goal)
            if not r2:
                g.restrict(None)
                return
            if r2 == reach:
                break
            reach = r2
        g.restrict(reach)
        ev, loops = {}, set()
        for n, r, d, rec in g.calls():
            if n in reach and pred(r, d):
                al = each_elem(g.args_of(n))
                for args in al:
                    x = fmt(r, args)
                    if x is not None:
                        for y in (x if isinstance(x, (list, set, tuple)) else [x]):
                            ev.setdefault(y, set()).add(n)
                            if al[0] is not al[-1]:
                                loops.add(y)
        if stores:
            for n, pl, val in g.stores():
                if n in reach:
                    x = rend.v(g.place(g.ctxs[n[0]], pl))
                    if stores.search(x):
                        ev.setdefault("%s := %s" % (x, rend.v(val())), set()).add(n)
        todo = [k for k in seen if k not in fixed]
        res = set()
        if not todo:
            for x, ns in ev.items():
                av = "[*]" not in x and "<index>(" not in x and x not in loops and CaseSearch(g, fixed, rend, base, interesting, {}).find(goal, avoid=ns) is not None
                res.add("?" + x if av else x)
        g.restrict(None)
        ck.paths += 1
        if not todo:
            out.append((dict(fixed), res))
            if len(out) > limit:
                raise RuntimeError("too many cases in %s" % g.entry.path)
            return
        k = min(todo, key=lambda k: (" | " in k, todo.index(k)))
        for v in seen[k]:
            f = dict(fixed)
            f[k] = v
            if consistent(f):
                go(f, reach)
    go(dict(fixed or {}))
    return simplify(forced(single_values(out), every=True))


def finite(t):
    """the elements of a list made by pushing them one by one, or None"""
    if t[0] == "arr":
        return list(t[1])
    if t[0] == "call":
        if t[1] == "<push>":
            x = finite(t[2][0])
            return None if x is None else x + [t[2][1]]
        if t[1] == "<extend>":
            x = finite(t[2][0])
            y = [dict(t[2][1][3])["0"]] if t[2][1][0] == "agg" and t[2][1][2] == "Some" else [] if t[2][1][0] == "agg" and t[2][1][2] == "None" else finite(t[2][1])
            return None if x is None or y is None else x + y
        if re.search(r"Vec(<.*>)?::new$", t[1]):
            return []
        if TRANSP.search(t[1]) and len(t[2]) == 1:
            return finite(t[2][0])
    return None


def each_elem(args):
    """a call made for each element of such a list, as one call per element"""
    def first(t):
        if isinstance(t, tuple) and t:
            if t[0] == "elem":
                x = finite(t[1])
                if x is not None:
                    return t, x
            for y in t:
                if isinstance(y, tuple):
                    r = first(y)
                    if r:
                        return r
        return None

    def sub(t, a, b):
        if t == a:
            return b
        return tuple(sub(x, a, b) for x in t) if isinstance(t, tuple) else t
    args = tuple(args)
    r = first(args)
    if r is None:
        return [args]
    return [z for x in r[1] for z in each_elem(sub(args, r[0], x))]


def rejects(ck, rule, key, g, rend, assume, fixed, detail, goal=None, start=None):
    """no path (after start) on which these conditions hold succeeds"""
    seen = {}
    r = CaseSearch(g, fixed, rend, core.decider(assume), lambda t: True, seen).find(goal or paths.OkReturn(), start=start and [(start, {})])
    ck.paths += 1
    return ck.ob(rule, key, r is None, "" if r is None else "%s although %s; path: %s" % (detail, ", ".join("%s is %s" % x for x in fixed.items()), paths.path_str(g, r)), "%s:%d" % (g.entry.file, g.entry.line))


def split_filters(t, rend, fixed, seen, interesting):
    """x.filter(p): a case where p holds of the elements and one where it does not, like a test inside a loop"""
    memo = {}

    def go(t):
        if not isinstance(t, tuple) or not t:
            return t
        r = memo.get(t)
        if r is not None:
            return r
        if t[0] == "call" and t[1] == "<filter>" and len(t[2]) == 2 and t[2][1][0] == "un" and t[2][1][2][0] == "call" and re.search(r"tr(ing)?>?::is_empty$", t[2][1][2][1]):
            xs = [x for x in ir.alts(go(t[2][1][2][2][0])) if rend.s(x) != "" and not is_nothing(x)]
            r = ("call", "<mapped>", (ir.mkphi(xs),), 0) if xs else NOTHING
            memo[t] = r
            return r
        if t[0] == "call" and t[1] == "<filter>" and len(t[2]) == 2 and truthval(t[2][1]) is not None:
            r = go(t[2][0]) if truthval(t[2][1]) else NOTHING
            memo[t] = r
            return r
        if t[0] == "call" and t[1] == "<filter>" and len(t[2]) == 2:
            pr = rend.pred(t[2][1]) if t[2][1][0] != "phi" and interesting(t[2][1]) else None
            if pr is not None:
                if pr[0] in fixed:
                    r = go(t[2][0]) if fixed[pr[0]] == pr[1] else NOTHING
                    memo[t] = r
                    return r
                seen.setdefault(pr[0], [True, False])
        r = tuple(go(x) if isinstance(x, tuple) else x for x in t) if t[0] != "phi" else ir.mkphi([go(x) for x in t[1]])
        if r[0] in ("elem", "at", "f") and r[1] == NOTHING:
            r = NOTHING
        elif r[0] == "call" and r[1] == "<mapped>" and (r[2][0] == NOTHING or len(r[2]) > 1 and r[2][1] == NOTHING or derived_nothing(r[2][0])):
            r = NOTHING
        memo[t] = r
        return r
    return go(t)


NOTHING = ("call", "<nothing>", (), 0)


def truthval(t):
    """the value of a constant test"""
    if t[0] == "un" and t[1] == "Not":
        x = truthval(t[2])
        return None if x is None else not x
    return bool(t[1]) if t[0] == "k" and isinstance(t[1], int) else None


def is_nothing(t):
    return t == NOTHING or t[0] in ("elem", "f", "at") and is_nothing(t[1]) or t[0] == "agg" and t[2] == "None"


def derived_nothing(t):
    return isinstance(t, tuple) and NOTHING in ir.subterms(t)


def single_values(cs):
    """a switch with one live integer is an equality test"""
    vals = {}
    for c, _ in cs:
        for k, v in c.items():
            vals.setdefault(k, set()).add(v)
    out = []
    for c, r in cs:
        d = {}
        for k, v in c.items():
            if k.startswith("value of ") and len(vals[k]) == 2 and "other" in vals[k]:
                n = [x for x in vals[k] if x != "other"][0]
                p = unpoly(k[len("value of "):])
                p[()] = p.get((), 0) - n
                d["%s == 0" % norm({m: x for m, x in p.items() if x})[0]] = v == n
            else:
                d[k] = v
        out.append((d, r))
    return out


def forced(cs, every=False):
    """tests that only ever go one way (the other diverges) are no conditions"""
    vals = {}
    for c, _ in cs:
        for k, v in c.items():
            vals.setdefault(k, set()).add(v)
    return [({k: v for k, v in c.items() if len(vals[k]) > 1 or not (every or isinstance(v, bool))}, r) for c, r in cs]


def consistent(f):
    """no two tests of the conjunction contradict: X == 0 with X + c == 0; X > 0 with X == 0"""
    eqs = {}
    for k, v in f.items():
        m = re.match(r"(.*?)([+-]\d+)? == 0$", k)
        if m and v is True:
            b = m.group(1)
            if b in eqs and eqs[b] != (m.group(2) or "0"):
                return False
            eqs[b] = m.group(2) or "0"
            if f.get(k.replace(" == 0", " > 0")) is True:
                return False
    return True


def simplify(cs):
    cs = [(dict(c), frozenset(r)) for c, r in cs]
    ch = True
    while ch:
        ch = False
        for i in range(len(cs)):
            for j in range(i + 1, len(cs)):
                a, b = cs[i], cs[j]
                if a[1] != b[1] or set(a[0]) != set(b[0]):
                    continue
                d = [k for k in a[0] if a[0][k] != b[0][k]]
                if len(d) == 1 and isinstance(a[0][d[0]], bool):
                    c = {k: v for k, v in a[0].items() if k != d[0]}
                    cs[i] = (c, a[1])
                    del cs[j]
                    ch = True
                    break
            if ch:
                break
    # a variant test none of whose outcomes matters
    keys = {k for c, _ in cs for k in c}
    for k in sorted(keys):
        groups = {}
        for c, r in cs:
            if k in c:
                groups.setdefault((frozenset((a, b) for a, b in c.items() if a != k), r), []).append(c[k])
        vals = {c[k] for c, _ in cs if k in c}
        for (rest, r), vs in groups.items():
            if len(vals) > 2 and set(vs) == vals:
                cs = [(c, r2) for c, r2 in cs if not (k in c and r2 == r and frozenset((a, b) for a, b in c.items() if a != k) == rest)]
                cs.append((dict(rest), r))
    return cs


def squash(s):
    return re.sub(r"\s+", " ", s).strip()


def compatible(a, b):
    """two conjunctions of tests can hold together"""
    for k, v in a.items():
        if k in b and b[k] != v:
            return False
    c = dict(a)
    c.update(b)
    return consistent(c)


def compare(ck, rule, key, actual, expected, where=""):
    """actual: [(conds, results)], expected: [(conds, text)].  Whenever a case of the code and a case of the
    specification can hold together, the code yields exactly the specified text."""
    bad = []
    if not actual:
        bad.append("the code yields nothing")
    for c, res in actual:
        hit = False
        for ec, txt, *weak in expected:
            if not compatible(c, ec) or weak and any(k not in c for k in ec):
                continue
            hit = True
            got = {squash(x) for x in res}
            want = {squash(x) for x in (txt if isinstance(txt, (set, frozenset, list, tuple)) else [txt])}
            # a tuple lists equivalent texts
            if got != want and not (isinstance(txt, tuple) and got and got <= want):
                bad.append("when %s the code yields `%s`, the rule says `%s`" % (", ".join("%s is %s" % kv for kv in sorted(c.items())) or "called", " | ".join(sorted(got))[:300], " | ".join(sorted(want))[:300]))
        if not hit:
            bad.append("the specification has no case for %s" % c)
    for ec, txt, *weak in expected:
        if not weak and not any(compatible(c, ec) for c, _ in actual):
            bad.append("no path of the code handles the case %s" % ec)
    return ck.ob(rule, key, not bad, "; ".join(bad[:2]), where)


def spec(txt, al=None):
    """specification text: «expr» is an arithmetic expression over atoms (aliases from `al`), «=name» a plain name"""
    al = al or {}

    def ev(e):
        toks = re.findall(r"\s*([A-Za-z_$][\w$']*|\d+|[-+*()])", e)
        pos = [0]

        def mul(x, y):
            r = {}
            for m, c in x.items():
                for m2, c2 in y.items():
                    mm = tuple(sorted(m + m2))
                    r[mm] = r.get(mm, 0) + c * c2
            return r

        def add(x, y, k):
            r = dict(x)
            for m, c in y.items():
                r[m] = r.get(m, 0) + k * c
            return {m: c for m, c in r.items() if c}

        def prim():
            t = toks[pos[0]]
            pos[0] += 1
            if t == "(":
                r = sm()
                assert toks[pos[0]] == ")"
                pos[0] += 1
                return r
            if t.isdigit():
                return {(): int(t)} if int(t) else {}
            return {(al.get(t, t),): 1}

        def pr():
            r = prim()
            while pos[0] < len(toks) and toks[pos[0]] == "*":
                pos[0] += 1
                r = mul(r, prim())
            return r

        def sm():
            r = pr()
            while pos[0] < len(toks) and toks[pos[0]] in "+-":
                o = toks[pos[0]]
                pos[0] += 1
                r = add(r, pr(), 1 if o == "+" else -1)
            return r
        r = sm()
        assert pos[0] == len(toks), e
        return r
    spec.ev = ev
    return re.sub("«(=?)(.*?)»", lambda m: "{%s}" % (al.get(m.group(2), m.group(2)) if m.group(1) else poly(ev(m.group(2)))), txt)


def unpoly(s):
    """inverse of poly(): split at top level + and -"""
    out, depth, cur, sign = {}, 0, "", 1
    parts = []
    for i, ch in enumerate(s):
        if ch in "([{":
            depth += 1
        if ch in ")]}":
            depth -= 1
        if depth == 0 and ch in "+-":
            if cur:
                parts.append((sign, cur))
            cur, sign = "", 1 if ch == "+" else -1
            continue
        cur += ch
    if cur:
        parts.append((sign, cur))
    for sg, p in parts:
        if p.isdigit():
            out[()] = out.get((), 0) + sg * int(p)
            continue
        m = re.match(r"(\d+)\*(.*)$", p)
        c, p = (int(m.group(1)), m.group(2)) if m else (1, p)
        atoms, depth, cur = [], 0, ""
        for ch in p + "*":
            if ch in "([{":
                depth += 1
            if ch in ")]}":
                depth -= 1
            if depth == 0 and ch == "*":
                atoms.append(cur)
                cur = ""
            else:
                cur += ch
        k = tuple(sorted(atoms))
        out[k] = out.get(k, 0) + sg * c
    return out


def eq0(e, al=None, v=True):
    """the test `e == 0` as a condition"""
    spec("", al)
    return {"%s == 0" % norm(spec.ev(e))[0]: v}


def gt0(e, al=None, v=True):
    spec("", al)
    return {"%s > 0" % poly(spec.ev(e)): v}
