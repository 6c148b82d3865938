"""Bit-vector constraints as linear integer arithmetic, decided by cvc5.

Every bit-vector term t of width w becomes an integer term E with an interval such that
E = t modulo 2**w; a reduction modulo 2**w is emitted only where an unsigned or signed
reading is needed and the interval does not already fit.  Used for arithmetic with
multiplications and divisions by constants (calendar computations), which bit-blasting
handles badly.  Terms outside this fragment (floats, general bit operations) are refused."""
import subprocess
import z3


class No(Exception):
    pass


K = {getattr(z3, n): n for n in dir(z3) if n.startswith('Z3_OP_')}


class Blaster(object):
    def __init__(self, ranges):
        self.ranges = ranges        # name -> (lo, hi, signed)
        self.memo = {}
        self.bmemo = {}
        self.keep = []
        self.defs = []              # (name, sort, text)
        self.inputs = {}            # z3 name -> (smt name, width)
        self.n = 0

    def define(self, text, sort='Int'):
        if len(text) < 24:
            return text
        self.n += 1
        nm = 't%d' % self.n
        self.defs.append('(define-fun %s () %s %s)' % (nm, sort, text))
        return nm

    def divmod(self, e, lo, hi, d):
        """(quotient, remainder) texts with intervals for e in [lo, hi], d > 0."""
        if lo >= 0 and hi < d:
            return ('0', 0, 0), (e, lo, hi)
        q = self.define('(div %s %d)' % (e, d))
        r = self.define('(mod %s %d)' % (e, d))
        ql, qh = lo // d, hi // d
        if ql == qh:
            r = self.define('(+ %s %s)' % (e, num(-ql * d)))
            return (num(ql), ql, qh), (r, lo - ql * d, hi - ql * d)
        return (q, ql, qh), (r, 0, d - 1)

    def unsigned(self, t):
        e, lo, hi = self.term(t)
        m = 1 << t.size()
        if lo >= 0 and hi < m:
            return e, lo, hi
        return self.divmod(e, lo, hi, m)[1]

    def signed(self, t):
        e, lo, hi = self.term(t)
        h = 1 << (t.size() - 1)
        if lo >= -h and hi < h:
            return e, lo, hi
        e2 = self.define('(+ %s %d)' % (e, h))
        r, l, u = self.divmod(e2, lo + h, hi + h, 2 * h)[1]
        return self.define('(- %s %d)' % (r, h)), l - h, u - h

    def term(self, t):
        k = t.get_id()
        r = self.memo.get(k)
        if r is None:
            r = self.term2(t)
            e, lo, hi = r
            if lo == hi:
                e = num(lo)
            r = self.memo[k] = (self.define(e), lo, hi)
            self.keep.append(t)
        return r

    def term2(self, t):
        w = t.size()
        if z3.is_bv_value(t):
            v = t.as_long()
            if v >= 1 << (w - 1) and w > 1:
                v -= 1 << w
            return num(v), v, v
        k = t.decl().kind()
        ch = t.children()
        if k == z3.Z3_OP_UNINTERPRETED and not ch:
            nm = t.decl().name()
            lo, hi = self.ranges.get(nm, (0, (1 << w) - 1))
            s = 'v%d' % len(self.inputs)
            self.inputs[nm] = (s, w, lo, hi, t)
            return s, lo, hi
        if k == z3.Z3_OP_BADD:
            ps = [self.term(c) for c in ch]
            return '(+ %s)' % ' '.join(p[0] for p in ps), sum(p[1] for p in ps), sum(p[2] for p in ps)
        if k == z3.Z3_OP_BSUB:
            a, b = self.term(ch[0]), self.term(ch[1])
            if len(ch) != 2:
                raise No('sub')
            return '(- %s %s)' % (a[0], b[0]), a[1] - b[2], a[2] - b[1]
        if k == z3.Z3_OP_BNEG:
            a = self.term(ch[0])
            return '(- %s)' % a[0], -a[2], -a[1]
        if k == z3.Z3_OP_BMUL:
            acc = ('1', 1, 1)
            for c in ch:
                b = self.term(c)
                if acc[1] != acc[2] and b[1] != b[2]:
                    raise No('product')
                vs = [x * y for x in acc[1:] for y in b[1:]]
                acc = (self.define('(* %s %s)' % (acc[0], b[0])) if acc[0] != '1' else b[0], min(vs), max(vs))
            return acc
        if k in (z3.Z3_OP_BUDIV, z3.Z3_OP_BUDIV_I, z3.Z3_OP_BUREM, z3.Z3_OP_BUREM_I):
            a, b = self.unsigned(ch[0]), self.unsigned(ch[1])
            if b[1] != b[2] or b[1] == 0:
                raise No('division')
            q, r = self.divmod(a[0], a[1], a[2], b[1])
            return q if k in (z3.Z3_OP_BUDIV, z3.Z3_OP_BUDIV_I) else r
        if k in (z3.Z3_OP_BSDIV, z3.Z3_OP_BSDIV_I, z3.Z3_OP_BSREM, z3.Z3_OP_BSREM_I, z3.Z3_OP_BSMOD,
                 z3.Z3_OP_BSMOD_I):
            a, b = self.signed(ch[0]), self.signed(ch[1])
            if b[1] != b[2] or b[1] <= 0:
                raise No('division')
            d = b[1]
            if k in (z3.Z3_OP_BSMOD, z3.Z3_OP_BSMOD_I) or a[1] >= 0:
                q, r = self.divmod(a[0], a[1], a[2], d)
                return q if k in (z3.Z3_OP_BSDIV, z3.Z3_OP_BSDIV_I) else r
            m = max(abs(a[1]), abs(a[2]))
            ab = self.define('(ite (>= %s 0) %s (- %s))' % (a[0], a[0], a[0]))
            q, r = self.divmod(ab, 0, m, d)
            x = q if k in (z3.Z3_OP_BSDIV, z3.Z3_OP_BSDIV_I) else r
            return '(ite (>= %s 0) %s (- %s))' % (a[0], x[0], x[0]), -x[2], x[2]
        if k == z3.Z3_OP_ZERO_EXT:
            return self.unsigned(ch[0])
        if k == z3.Z3_OP_SIGN_EXT:
            return self.signed(ch[0])
        if k == z3.Z3_OP_CONCAT:
            acc = self.term(ch[0])
            for c in ch[1:]:
                b = self.unsigned(c)
                m = 1 << c.size()
                if b[1] == b[2] == 0:
                    e = '(* %d %s)' % (m, acc[0])
                else:
                    e = '(+ (* %d %s) %s)' % (m, acc[0], b[0])
                acc = (self.define(e), acc[1] * m + b[1], acc[2] * m + b[2])
            return acc
        if k == z3.Z3_OP_EXTRACT:
            h, l = t.params()
            if l == 0:
                return self.term(ch[0])
            a = self.unsigned(ch[0]) if h == ch[0].size() - 1 else self.term(ch[0])
            return self.divmod(a[0], a[1], a[2], 1 << l)[0]
        if k in (z3.Z3_OP_BSHL, z3.Z3_OP_BLSHR, z3.Z3_OP_BASHR):
            b = self.unsigned(ch[1])
            if b[1] != b[2]:
                raise No('shift')
            n = b[1]
            if k == z3.Z3_OP_BSHL:
                a = self.term(ch[0])
                return ('0', 0, 0) if n >= w else ('(* %d %s)' % (1 << n, a[0]), a[1] << n, a[2] << n)
            a = self.unsigned(ch[0]) if k == z3.Z3_OP_BLSHR else self.signed(ch[0])
            return self.divmod(a[0], a[1], a[2], 1 << min(n, w))[0]
        if k == z3.Z3_OP_BNOT:
            a = self.term(ch[0])
            return '(- (- %s) 1)' % a[0], -a[2] - 1, -a[1] - 1
        if k == z3.Z3_OP_BAND and len(ch) == 2:
            for x, y in (ch, ch[::-1]):
                if z3.is_bv_value(x):
                    v = x.as_long()
                    n = v.bit_length()
                    low = (v & -v).bit_length() - 1
                    if v and v == (1 << n) - (1 << low):
                        a = self.unsigned(y)
                        if low:
                            q = self.divmod(a[0], a[1], a[2], 1 << low)[0]
                            r = self.divmod(q[0], q[1], q[2], 1 << (n - low))[1]
                            return '(* %d %s)' % (1 << low, r[0]), r[1] << low, r[2] << low
                        return self.divmod(a[0], a[1], a[2], 1 << n)[1]
            raise No('and')
        if k == z3.Z3_OP_ITE:
            c = self.bool(ch[0])
            a, b = self.term(ch[1]), self.term(ch[2])
            return '(ite %s %s %s)' % (c, a[0], b[0]), min(a[1], b[1]), max(a[2], b[2])
        raise No(K.get(k, str(k)))

    def bool(self, t):
        k = t.get_id()
        r = self.bmemo.get(k)
        if r is None:
            r = self.bmemo[k] = self.define(self.bool2(t), 'Bool')
            self.keep.append(t)
        return r

    def bool2(self, t):
        k = t.decl().kind()
        ch = t.children()
        if k == z3.Z3_OP_TRUE:
            return 'true'
        if k == z3.Z3_OP_FALSE:
            return 'false'
        if k == z3.Z3_OP_NOT:
            return '(not %s)' % self.bool(ch[0])
        if k in (z3.Z3_OP_AND, z3.Z3_OP_OR):
            if len(ch) == 1:
                return self.bool(ch[0])
            return '(%s %s)' % ('and' if k == z3.Z3_OP_AND else 'or', ' '.join(self.bool(c) for c in ch))
        if k == z3.Z3_OP_IMPLIES:
            return '(=> %s %s)' % (self.bool(ch[0]), self.bool(ch[1]))
        if k == z3.Z3_OP_XOR:
            return '(xor %s %s)' % (self.bool(ch[0]), self.bool(ch[1]))
        if k == z3.Z3_OP_ITE:
            return '(ite %s)' % ' '.join(self.bool(c) for c in ch)
        if k == z3.Z3_OP_EQ:
            if z3.is_bool(ch[0]):
                return '(= %s %s)' % (self.bool(ch[0]), self.bool(ch[1]))
            if z3.is_bv(ch[0]):
                (a, al, ah), (b, bl, bh) = self.term(ch[0]), self.term(ch[1])
                m = 1 << ch[0].size()
                if ah - bl < m and bh - al < m:     # congruent and close: equal
                    return '(= %s %s)' % (a, b)
                (a, al, ah), (b, bl, bh) = self.unsigned(ch[0]), self.unsigned(ch[1])
                return '(= %s %s)' % (a, b)
            raise No('eq')
        if k == z3.Z3_OP_DISTINCT and len(ch) == 2:
            return '(not %s)' % self.bool(ch[0] == ch[1])
        for ks, rd in ((('ULEQ', 'ULT', 'UGEQ', 'UGT'), self.unsigned), (('SLEQ', 'SLT', 'SGEQ', 'SGT'), self.signed)):
            for n, op in zip(ks, ('<=', '<', '>=', '>')):
                if k == getattr(z3, 'Z3_OP_' + n):
                    return '(%s %s %s)' % (op, rd(ch[0])[0], rd(ch[1])[0])
        raise No(K.get(k, str(k)))


def num(v):
    return str(v) if v >= 0 else '(- %d)' % -v


def solve(constraints, ranges, timeout):
    """('sat', {name: value mod 2**w}) / ('unsat', None) / ('unknown', None)."""
    b = Blaster(ranges)
    try:
        asserts = [b.bool(c) for c in constraints]
    except No:
        return 'unknown', None
    except RecursionError:
        return 'unknown', None
    lines = ['(set-logic QF_NIA)' if False else '(set-logic QF_LIA)']
    for nm, (s, w, lo, hi, t) in b.inputs.items():
        lines.append('(declare-const %s Int)' % s)
    lines += b.defs
    for nm, (s, w, lo, hi, t) in b.inputs.items():
        lines.append('(assert (and (<= %s %s) (<= %s %s)))' % (num(lo), s, s, num(hi)))
    lines += ['(assert %s)' % a for a in asserts]
    lines.append('(check-sat)')
    ins = list(b.inputs.items())
    if ins:
        lines.append('(get-value (%s))' % ' '.join(s for _, (s, w, lo, hi, t) in ins))
    try:
        p = subprocess.run(['cvc5', '--lang=smt2', '--produce-models'], input='\n'.join(lines).encode(),
                           stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=timeout)
    except (subprocess.TimeoutExpired, OSError):
        return 'unknown', None
    out = p.stdout.decode().split('\n', 1)
    if out[0] == 'unsat':
        return 'unsat', None
    if out[0] != 'sat':
        return 'unknown', None
    import re
    vals = dict((a, int(v.replace('(', '').replace(')', '').replace(' ', '')))
                for a, v in re.findall(r'\((v\d+) (\d+|\(- \d+\))\)', out[1] if len(out) > 1 else ''))
    return 'sat', [(t, vals[s] % (1 << w)) for nm, (s, w, lo, hi, t) in ins]
