"""Bit-provenance domain: where each bit of a value comes from.

The value terms computed by the analysis are interpreted over an abstract domain in which an integer is a vector
of bits, each a constant, a named input bit, or unknown.  Loops whose control does not depend on the input are
unrolled to the (fixed) length of the input.  Nothing is executed: every result holds for all inputs of that length.
"""
from terms import *
import terms as TM


class Giveup(Exception):
    pass


class Wrong(Giveup):
    """Not a gap of the analysis: whatever the input, the program cannot go on like this."""


TOP = '?'
WIDTH = 72


class Bits:
    __slots__ = ('b',)

    def __init__(self, b):
        b = list(b)
        while b and b[-1] == 0:
            b.pop()
        if len(b) > 600:
            raise Giveup('a value of more than 600 bits')
        self.b = tuple(b)

    def __eq__(self, o):
        return isinstance(o, Bits) and self.b == o.b

    def __hash__(self):
        return hash(self.b)


def bv(x):
    if isinstance(x, bool):
        raise Giveup('a boolean used as a number')
    if isinstance(x, int):
        if x < 0:
            raise Giveup('a negative number')
        return Bits([(x >> i) & 1 for i in range(x.bit_length())])
    if isinstance(x, Bits):
        return x
    raise Giveup('not a number: %r' % (x,))


def norm(x):
    if isinstance(x, Bits) and all(y in (0, 1) for y in x.b):
        return sum(y << i for i, y in enumerate(x.b))
    return x


def zipb(f, x, y):
    a, b = bv(x).b, bv(y).b
    n = max(len(a), len(b))
    return norm(Bits(f(a[i] if i < len(a) else 0, b[i] if i < len(b) else 0) for i in range(n)))


def b_or(p, q):
    if p == 0 or q == 0:
        return q if p == 0 else p
    if p == 1 or q == 1:
        return 1
    if TOP in (p, q):
        return TOP
    # the disjunction of several input bits, which is none of them
    u = frozenset().union(*(x[1] if x[0] == 'or' else (x,) for x in (p, q)))
    return next(iter(u)) if len(u) == 1 else ('or', u)


def b_and(p, q):
    return 0 if p == 0 or q == 0 else q if p == 1 else p if q == 1 else p if p == q and p != TOP else TOP


def b_xor(p, q):
    if p == q and p != TOP:
        return 0
    return q if p == 0 else p if q == 0 else TOP


def plus(x, y):
    if isinstance(x, int) and isinstance(y, int):
        return x + y
    a, b = bv(x).b, bv(y).b
    if all(p == 0 or q == 0 for p, q in zip(a, b)):
        return zipb(b_or, x, y)
    raise Giveup('a sum of overlapping bits')


def shl(x, k):
    if isinstance(k, int) and k < 0:
        raise Wrong('it shifts by a negative number of bits')
    if not isinstance(k, int):
        raise Giveup('a shift by an input-dependent amount')
    return x << k if isinstance(x, int) else norm(Bits([0] * k + list(x.b)))


def shr(x, k):
    if isinstance(k, int) and k < 0:
        raise Wrong('it shifts by a negative number of bits')
    if not isinstance(k, int):
        raise Giveup('a shift by an input-dependent amount')
    return x >> k if isinstance(x, int) else norm(Bits(x.b[k:]))


def low(x, k):
    return x % (1 << k) if isinstance(x, int) else norm(Bits(x.b[:k]))


def log2(x):
    if not isinstance(x, int) or x <= 0 or x & (x - 1):
        raise Giveup('not a power of two')
    return x.bit_length() - 1


def trunc(t, v):
    """The value is one of the type the term has."""
    if t in RNG and isinstance(v, (Bits, int)) and not isinstance(v, bool):
        lo, hi = RNG[t]
        if lo == 0 and hi and (hi + 1) & hi == 0:
            return low(v, hi.bit_length())
    return v


class Eval:
    def __init__(self, inputs):
        """inputs: {term: list of Bits}"""
        self.inp = inputs
        self.memo = {}
        self.fuel = 2000000

    def term(self, t, env):
        if t in self.inp:
            return self.inp[t]
        key = (t, tuple((x, env.get(x)) for x in sorted(t.bv, key=lambda y: y.id)) if t.bv else ())
        try:
            r = self.memo.get(key)
        except TypeError:
            key, r = None, None
        if r is None:
            self.fuel -= 1
            if self.fuel < 0:
                raise Giveup('too long')
            r = self.term1(t, env)
            if isinstance(r, list):
                r = tuple(r)
            if key is not None:
                self.memo[key] = r
        return r

    def diagram(self, n, env):
        while n.var is not None:
            n = n.hi if self.atom(VARS[n.var], env) else n.lo
        return n.hi[1]

    def truth(self, n, env):
        return self.diagram(n, env) is True

    def atom(self, a, env):
        if a.op == 'le':
            v = self.term(a.args[0], env)
            if isinstance(v, int):
                return v <= a.args[1]
            if isinstance(v, Bits) and TOP not in v.b:
                lo = sum(1 << i for i, y in enumerate(v.b) if y == 1)
                hi = sum(1 << i for i, y in enumerate(v.b) if y != 0)
                if hi <= a.args[1]:
                    return True
                if lo > a.args[1]:
                    return False
            raise Giveup('a test on input bits')
        if a.op == 'b':
            v = self.term(a.args[0], env)
            if isinstance(v, bool):
                return v
            raise Giveup('a test on input bits')
        if a.op == 'eq':
            x, y = (self.term(z, env) for z in a.args)
            if isinstance(x, int) and isinstance(y, int):
                return x == y
        raise Giveup('a test that depends on the input: ' + a.op)

    def value(self, n, env):
        """A diagram, term or tuple."""
        if isinstance(n, Node):
            x = self.diagram(n, env)
            return self.value(x, env)
        if isinstance(n, Term):
            return self.term(n, env)
        if isinstance(n, tuple):
            return tuple(self.value(y, env) for y in n)
        return n

    def bind(self, t, lo, hi, k, env, extra=()):
        e = dict(env)
        e[mk('idx', t.args[0], t.args[1], t.args[2])] = k
        e.update(extra)
        return e

    def span(self, t, env):
        lo, hi = self.term(t.args[1], env), self.term(t.args[2], env)
        if not isinstance(lo, int) or not isinstance(hi, int) or hi - lo > 4096:
            raise Giveup('a loop of unknown length')
        return lo, hi

    def term1(self, t, env):
        o, a = t.op, t.args
        if t in env:
            return env[t]
        if o == 'lin':
            v = a[0]
            for x, k in a[1]:
                y = self.term(x, env)
                if isinstance(y, int):
                    v = plus(v, y * k) if not isinstance(v, Bits) else plus(v, y * k)
                else:
                    v = plus(v, shl(y, log2(k)))
            return v
        if o == 'k':
            if a[0] == 'bool':
                return a[1]
            if a[0] == 'bytes':
                return tuple(a[1])
            if a[0] == 'zst':
                return None
            raise Giveup('a constant')
        if o == 'gate':
            return self.value(a[0], env)
        if o == 'bdd':
            return self.truth(a[0], env)
        if o == 'len':
            v = self.term(a[0], env)
            if not isinstance(v, tuple):
                raise Giveup('the length of an unknown sequence')
            return len(v)
        if o == 'index':
            v, i = self.term(a[0], env), self.term(a[1], env)
            if not isinstance(v, tuple) or not isinstance(i, int) or not 0 <= i < len(v):
                raise Giveup('an element of an unknown sequence')
            return v[i]
        if o == 'slice':
            v, lo, hi = (self.term(x, env) for x in a)
            if not isinstance(v, tuple) or not isinstance(lo, int) or not isinstance(hi, int):
                raise Giveup('part of an unknown sequence')
            return v[lo:hi]
        if o == 'arr':
            return tuple(self.term(x, env) for x in a[0])
        if o == 'rep':
            n = self.term(a[1], env)
            return (self.term(a[0], env),) * n
        if o == 'concat':
            r = ()
            for x in a[0]:
                y = self.term(x, env)
                if not isinstance(y, tuple):
                    raise Giveup('an unknown part of a sequence')
                r += y
            return r
        if o == 'store':
            v, i, x = self.term(a[0], env), self.term(a[1], env), self.term(a[2], env)
            if not isinstance(v, tuple) or not isinstance(i, int):
                raise Giveup('an unknown store')
            return v[:i] + (x,) + v[i + 1:]
        if o == 'app' and a[0] in ('rem', 'div', 'mul'):
            o, a = a[0], a[1]
        if o == 'rem':
            return low(self.term(a[0], env), log2(self.term(a[1], env)))
        if o == 'div':
            return shr(self.term(a[0], env), log2(self.term(a[1], env)))
        if o == 'mul':
            x, y = self.term(a[0], env), self.term(a[1], env)
            if isinstance(x, int) and isinstance(y, int):
                return x * y
            return shl(x, log2(y)) if isinstance(y, int) else shl(y, log2(x))
        if o == 'app' and a[0].startswith('bin:'):
            x, y = (self.term(z, env) for z in a[1])
            k = a[0][4:]
            r = zipb(b_or, x, y) if k == 'BitOr' else zipb(b_and, x, y) if k == 'BitAnd' else zipb(b_xor, x, y) if k == 'BitXor' else shl(x, y) if k.startswith('Shl') else \
                shr(x, y) if k.startswith('Shr') else None
            if r is None:
                raise Giveup(a[0])
            return trunc(t, r)
        if o == 'app' and a[0] == 'wrap':
            return low(self.term(a[1][0], env), log2(self.term(a[1][1], env)))
        if o == 'coll':
            lo, hi = self.span(t, env)
            r = ()
            for k in range(lo, hi):
                x = self.diagram(a[3], self.bind(t, lo, hi, k, env)) if isinstance(a[3], Node) else a[3]
                e = self.bind(t, lo, hi, k, env)
                if not isinstance(x, tuple):
                    raise Giveup('a collected value')
                for y in x:
                    if isinstance(y, Term) and y.op == 'splice':
                        z = self.term(y.args[0], e)
                        if not isinstance(z, tuple):
                            raise Giveup('a collected value')
                        r += z
                    else:
                        r += (self.value(y, e),)
            return r
        if o == 'fold':
            lo, hi = self.span(t, env)
            acc = self.value(a[3], env)
            for k in range(lo, hi):
                # earlier iterations are shared between the prefixes of the same fold
                acc = self.value(a[4], self.bind(t, lo, hi, k, env, {mk('lv', a[0], 'acc'): acc}))
            return acc
        if o == 'sum':
            lo, hi = self.span(t, env)
            v = 0
            for k in range(lo, hi):
                v = plus(v, self.value(a[3], self.bind(t, lo, hi, k, env)))
            return v
        if o == 'whl':
            inits, back, nexts, j = a[3], a[4], a[5], a[6]
            vs = [self.value(x, env) for x in inits]
            names = [mk('lv', a[0], 'w%d' % i) for i in range(len(vs))]
            for _ in range(4096):
                e = dict(env)
                e.update(zip(names, vs))
                if not self.truth(back if isinstance(back, Node) else v2b(leaf(back)), e):
                    return vs[j if isinstance(j, int) else numval(j)]
                vs = [self.value(x, e) for x in nexts]
            if any(isinstance(x, tuple) and len(x) > 1000 for x in vs):
                raise Wrong('its loop collects elements without end')
            raise Giveup('a loop that does not end')
        raise Giveup('%s %s' % (o, a[0] if a and isinstance(a[0], str) else ''))


def named(n, width, used, tag='x'):
    """A sequence of n integers whose low `used` bits are distinct named bits."""
    return tuple(Bits([(tag, i, j) for j in range(used)]) for i in range(n))


def evaluate(n, inputs):
    return Eval(inputs).value(n, {})
