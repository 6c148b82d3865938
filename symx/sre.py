"""A small backtracking regular-expression matcher over symbolic text, used as
the `re` module by the rewritten source when the subject is symbolic."""
import re as _re
import types
try:
    import re._parser as sre_parse
    import re._constants as sc
except ImportError:
    import sre_parse
    import sre_constants as sc
from .engine import Unsupported
from .values import (SStr, SLazyStr, SBytes, mkstr, mkbytes, stritems, byteitems, sand, sor,
                     snot, sbool, SYMTYPES, concretize, mkbool)


def lit_eq(ch, code, icase):
    if not icase:
        return ch == code
    alts = {code}
    c = chr(code)
    for d in (c.lower(), c.upper()):
        if len(d) == 1:
            alts.add(ord(d))
    return sor(*[ch == a for a in sorted(alts)])


def category(ch, cat, isbytes):
    if cat in (sc.CATEGORY_DIGIT, sc.CATEGORY_NOT_DIGIT):
        if not isbytes and not (type(ch) is int or ch.hi < 128):
            if not bool(ch < 128):
                raise Unsupported('unicode digit class')
        r = sand(ch >= 48, ch <= 57)
        return r if cat == sc.CATEGORY_DIGIT else snot(r)
    if cat in (sc.CATEGORY_SPACE, sc.CATEGORY_NOT_SPACE):
        ws = [9, 10, 11, 12, 13, 32]
        if not isbytes:
            ws += [0x1c, 0x1d, 0x1e, 0x1f, 0x85, 0xa0, 0x1680, 0x2028, 0x2029, 0x202f, 0x205f,
                   0x3000] + list(range(0x2000, 0x200b))
        r = sor(*[ch == w for w in ws])
        return r if cat == sc.CATEGORY_SPACE else snot(r)
    if cat in (sc.CATEGORY_WORD, sc.CATEGORY_NOT_WORD):
        if not isbytes and not (type(ch) is int or ch.hi < 128):
            if not bool(ch < 128):
                c = ch.concrete('\\w')
                r = chr(c).isalnum() or c == 95
                return r if cat == sc.CATEGORY_WORD else (not r)
        r = sor(sand(ch >= 48, ch <= 57), sand(ch >= 65, ch <= 90), sand(ch >= 97, ch <= 122),
                ch == 95)
        return r if cat == sc.CATEGORY_WORD else snot(r)
    raise Unsupported('regex category')


class Matcher(object):
    def __init__(self, pat, items, isbytes):
        self.items = items
        self.isbytes = isbytes
        self.flags = pat.flags
        self.icase = bool(pat.flags & _re.I)
        self.tree = sre_parse.parse(pat.pattern, pat.flags & ~_re.UNICODE
                                    if not isinstance(pat.pattern, str) else pat.flags)

    def match_at(self, pos, full=False):
        """(end, groups) of the first match at pos by backtracking order."""
        for end, groups in self.seq(list(self.tree), 0, pos, {}):
            if full and end != len(self.items):
                continue
            return end, groups
        return None

    def seq(self, ops, k, pos, groups):
        if k == len(ops):
            yield pos, groups
            return
        op, av = ops[k]
        for p2, g2 in self.one(op, av, pos, groups):
            for r in self.seq(ops, k + 1, p2, g2):
                yield r

    def in_set(self, ch, av):
        neg = False
        conds = []
        for op, a in av:
            if op is sc.NEGATE:
                neg = True
            elif op is sc.LITERAL:
                conds.append(lit_eq(ch, a, self.icase))
            elif op is sc.RANGE:
                conds.append(sand(ch >= a[0], ch <= a[1]))
                if self.icase:
                    for c in range(a[0], min(a[1], 127) + 1):
                        for d in (chr(c).lower(), chr(c).upper()):
                            if len(d) == 1 and ord(d) != c:
                                conds.append(ch == ord(d))
            elif op is sc.CATEGORY:
                conds.append(category(ch, a, self.isbytes))
            else:
                raise Unsupported('regex set %s' % op)
        r = sor(*conds)
        return snot(r) if neg else r

    def one(self, op, av, pos, groups):
        its = self.items
        n = len(its)
        if op is sc.LITERAL:
            if pos < n and bool(sbool(lit_eq(its[pos], av, self.icase))):
                yield pos + 1, groups
        elif op is sc.NOT_LITERAL:
            if pos < n and not bool(sbool(lit_eq(its[pos], av, self.icase))):
                yield pos + 1, groups
        elif op is sc.ANY:
            if pos < n and (self.flags & _re.S or bool(sbool(its[pos] != 10))):
                yield pos + 1, groups
        elif op is sc.IN:
            if pos < n and bool(sbool(self.in_set(its[pos], av))):
                yield pos + 1, groups
        elif op is sc.BRANCH:
            for alt in av[1]:
                for r in self.seq(list(alt), 0, pos, groups):
                    yield r
        elif op is sc.SUBPATTERN:
            gid, add, rem, p = av
            if add or rem:
                raise Unsupported('inline regex flags')
            for e, g in self.seq(list(p), 0, pos, groups):
                if gid is not None:
                    g = dict(g)
                    g[gid] = (pos, e)
                yield e, g
        elif op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
            lo, hi, p = av
            for r in self.repeat(op is sc.MAX_REPEAT, lo, hi, list(p), pos, groups, 0):
                yield r
        elif op is sc.AT:
            if av in (sc.AT_BEGINNING, sc.AT_BEGINNING_STRING):
                ok = pos == 0
                if av is sc.AT_BEGINNING and self.flags & _re.M and pos > 0:
                    ok = bool(sbool(its[pos - 1] == 10))
            elif av is sc.AT_END_STRING:
                ok = pos == n
            elif av is sc.AT_END:
                ok = pos == n or (pos == n - 1 and bool(sbool(its[pos] == 10)))
                if not ok and self.flags & _re.M:
                    ok = bool(sbool(its[pos] == 10))
            else:
                raise Unsupported('regex anchor')
            if ok:
                yield pos, groups
        elif op is sc.ASSERT or op is sc.ASSERT_NOT:
            direction, p = av
            if direction < 0:
                raise Unsupported('regex look-behind')
            hit = None
            for r in self.seq(list(p), 0, pos, groups):
                hit = r
                break
            if (hit is not None) == (op is sc.ASSERT):
                yield pos, (hit[1] if hit else groups)
        else:
            raise Unsupported('regex op %s' % op)

    def repeat(self, greedy, lo, hi, p, pos, groups, cnt):
        if not greedy and cnt >= lo:
            yield pos, groups
        if hi is sc.MAXREPEAT or cnt < hi:
            for e, g in self.seq(p, 0, pos, groups):
                if e == pos and cnt >= lo:
                    continue
                for r in self.repeat(greedy, lo, hi, p, e, g, cnt + 1):
                    yield r
        if greedy and cnt >= lo:
            yield pos, groups


class SMatch(object):
    def __init__(self, pat, subject, mk, items, start, end, groups):
        self.re = pat
        self.string = subject
        self._mk, self._items = mk, items
        self._span = (start, end)
        self._g = groups

    def _idx(self, g):
        return self.re.groupindex[g] if isinstance(g, str) else g

    def span(self, g=0):
        g = self._idx(g)
        if g == 0:
            return self._span
        return self._g.get(g, (-1, -1))

    def start(self, g=0):
        return self.span(g)[0]

    def end(self, g=0):
        return self.span(g)[1]

    def group(self, *gs):
        def one(g):
            a, b = self.span(g)
            return None if a < 0 else self._mk(self._items[a:b])
        if not gs:
            return one(0)
        if len(gs) == 1:
            return one(gs[0])
        return tuple(one(g) for g in gs)

    __getitem__ = group

    def groups(self, default=None):
        return tuple(default if self.span(i)[0] < 0 else self.group(i)
                     for i in range(1, self.re.groups + 1))

    def groupdict(self, default=None):
        return {k: self.group(k) for k in self.re.groupindex}

    def __bool__(self):
        return True


class SPattern(object):
    def __init__(self, pat):
        self.pat = pat
        self.pattern, self.flags = pat.pattern, pat.flags
        self.groups, self.groupindex = pat.groups, pat.groupindex

    def _prep(self, s):
        if type(s) in SYMTYPES:
            isb = isinstance(s, bytes)
            its = byteitems(s) if isb else stritems(s)
            return Matcher(self.pat, list(its), isb), (mkbytes if isb else mkstr)
        return None, None

    def match(self, s, *a):
        m, mk = self._prep(s)
        if m is None:
            return self.pat.match(s, *a)
        pos = a[0] if a else 0
        r = m.match_at(pos)
        return r and SMatch(self, s, mk, m.items, pos, r[0], r[1])

    def fullmatch(self, s, *a):
        m, mk = self._prep(s)
        if m is None:
            return self.pat.fullmatch(s, *a)
        r = m.match_at(0, True)
        return r and SMatch(self, s, mk, m.items, 0, r[0], r[1])

    def finditer_sym(self, s, m, mk, start=0):
        pos = start
        n = len(m.items)
        while pos <= n:
            r = m.match_at(pos)
            if r is None:
                pos += 1
                continue
            yield SMatch(self, s, mk, m.items, pos, r[0], r[1])
            pos = r[0] if r[0] > pos else pos + 1

    def search(self, s, *a):
        m, mk = self._prep(s)
        if m is None:
            return self.pat.search(s, *a)
        for x in self.finditer_sym(s, m, mk, a[0] if a else 0):
            return x
        return None

    def finditer(self, s, *a):
        m, mk = self._prep(s)
        if m is None:
            return self.pat.finditer(s, *a)
        return self.finditer_sym(s, m, mk)

    def findall(self, s, *a):
        m, mk = self._prep(s)
        if m is None:
            return self.pat.findall(s, *a)
        out = []
        for x in self.finditer_sym(s, m, mk):
            if self.groups == 0:
                out.append(x.group())
            elif self.groups == 1:
                out.append(x.group(1))
            else:
                out.append(x.groups())
        return out

    def subn(self, repl, s, count=0):
        m, mk = self._prep(s)
        if m is None:
            if type(repl) in SYMTYPES:
                raise Unsupported('symbolic replacement')
            return self.pat.subn(repl, s, count)
        out = []
        last = 0
        k = 0
        for x in self.finditer_sym(s, m, mk):
            if count and k >= count:
                break
            out.extend(m.items[last:x.start()])
            rep = repl(x) if callable(repl) else repl
            if not callable(repl) and '\\' in (rep if isinstance(rep, str) else rep.decode('latin1')):
                raise Unsupported('backreference in replacement')
            out.extend(stritems(rep) if isinstance(rep, str) else byteitems(rep))
            last = x.end()
            k += 1
        out.extend(m.items[last:])
        return mk(out), k

    def sub(self, repl, s, count=0):
        return self.subn(repl, s, count)[0]

    def split(self, s, maxsplit=0):
        m, mk = self._prep(s)
        if m is None:
            return self.pat.split(s, maxsplit)
        out = []
        last = 0
        for x in self.finditer_sym(s, m, mk):
            if maxsplit and len(out) >= maxsplit:
                break
            out.append(mk(m.items[last:x.start()]))
            out.extend(x.groups())
            last = x.end()
        out.append(mk(m.items[last:]))
        return out


def compile(p, flags=0):
    if isinstance(p, SPattern):
        return p
    return SPattern(_re.compile(concretize(p), flags))


shim = types.ModuleType('re')
for _n in dir(_re):
    if not _n.startswith('__'):
        setattr(shim, _n, getattr(_re, _n))
shim.compile = compile
for _n in ('match', 'fullmatch', 'search', 'finditer', 'findall', 'sub', 'subn', 'split'):
    def _mk(n):
        def f(p, *a, **k):
            flags = k.pop('flags', 0)
            return getattr(compile(p, flags), n)(*a, **k)
        return f
    setattr(shim, _n, _mk(_n))
