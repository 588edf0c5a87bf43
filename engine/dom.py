"""Abstract values, linear forms and the fact store (interval facts on linear combinations)."""
from math import gcd

INF = float("inf")


class Atoms:
    """Interned opaque integer/float quantities. Names are structural, so equal names mean equal quantities."""

    def __init__(self):
        self.by_name = {}
        self.name = []
        self.lo = []
        self.hi = []
        self.origin = []
        self.parts = []
        self.nz = []      # the quantity may have wrapped in a type narrower than 64 bits

    def get(self, name, lo=-INF, hi=INF, origin=None, parts=(), wrap=False):
        i = self.by_name.get(name)
        if i is None:
            i = len(self.name)
            self.by_name[name] = i
            self.name.append(name)
            self.lo.append(lo)
            self.hi.append(hi)
            self.origin.append(origin)
            self.parts.append(tuple(parts))
            self.nz.append(wrap)
        return i


AT = Atoms()


def reset_atoms():
    global AT
    AT.__init__()


# ---- linear forms: (const, ((atom, coef), ...)) -----------------------------------------------
def lin(c, terms=()):
    return (c, tuple(terms))


def l_add(a, b, k=1):
    if not b[1]:
        return (a[0] + k * b[0], a[1])
    if not a[1] and k == 1:
        return (a[0] + b[0], b[1])
    d = dict(a[1])
    for at, co in b[1]:
        n = d.get(at, 0) + k * co
        if n:
            d[at] = n
        else:
            d.pop(at, None)
    return (a[0] + k * b[0], tuple(sorted(d.items())))


def l_sub(a, b):
    return l_add(a, b, -1)


def l_scale(a, k):
    if k == 0:
        return (0, ())
    return (a[0] * k, tuple((at, co * k) for at, co in a[1]))


def l_is_const(a):
    return not a[1]


def l_key(a):
    """(key, sign, g): a = g*sign*key + const, key normalised"""
    t = a[1]
    g = 0
    for _, co in t:
        g = gcd(g, abs(co))
    s = 1 if t[0][1] > 0 else -1
    if g == 1 and s == 1:
        return t, 1, 1
    return tuple((at, co // (g * s)) for at, co in t), s, g


def l_subst(a, m):
    """replace atoms by linear forms"""
    for at, _ in a[1]:
        if at in m:
            break
    else:
        return a
    r = (a[0], ())
    for at, co in a[1]:
        if at in m:
            r = l_add(r, l_scale(m[at], co))
        else:
            r = l_add(r, (0, ((at, co),)))
    return r


def l_atoms(a):
    return [x for x, _ in a[1]]


# ---- facts ------------------------------------------------------------------------------------
class Facts:
    __slots__ = ("d", "idx")

    def __init__(self, d=None, idx=None):
        self.d = d if d is not None else {}      # key -> (lo, hi, frozenset(ne))
        self.idx = idx if idx is not None else {}  # atom -> tuple(keys)

    def copy(self):
        return Facts(dict(self.d), dict(self.idx))

    def set(self, key, lo, hi, ne=frozenset()):
        if key not in self.d:
            for at, _ in key:
                self.idx[at] = self.idx.get(at, ()) + (key,)
        self.d[key] = (lo, hi, ne)

    def drop_if(self, pred):
        dead = [k for k in self.d if pred(k)]
        if dead:
            ds = set(dead)
            for k in dead:
                del self.d[k]
            for at in list(self.idx):
                ks = tuple(k for k in self.idx[at] if k not in ds)
                if ks:
                    self.idx[at] = ks
                else:
                    del self.idx[at]

    def _base(self, terms):
        lo = hi = 0
        for at, co in terms:
            l, h = AT.lo[at], AT.hi[at]
            f = self.d.get(((at, 1),))
            if f:
                if f[0] > l:
                    l = f[0]
                if f[1] < h:
                    h = f[1]
            if co > 0:
                lo += co * l
                hi += co * h
            else:
                lo += co * h
                hi += co * l
        return lo, hi

    def range(self, a, depth=2):
        if not a[1]:
            return a[0], a[0]
        key, s, g = l_key(a)
        lo, hi = self._range_key(key, depth)
        if s < 0:
            lo, hi = -hi, -lo
        return a[0] + g * lo, a[0] + g * hi

    def _range_key(self, key, depth):
        lo, hi = self._base(key)
        f = self.d.get(key)
        if f:
            if f[0] > lo:
                lo = f[0]
            if f[1] < hi:
                hi = f[1]
        if depth > 0 and (lo == -INF or hi == INF or len(key) > 1):
            seen = set()
            for at, co in key:
                for k in self.idx.get(at, ()):
                    if k in seen or k == key or len(k) < 2:
                        continue
                    seen.add(k)
                    kco = dict(k)[at]
                    # m*key - r*k must cancel `at`
                    m = 1
                    if co % kco:
                        g = gcd(co, kco)
                        m = abs(kco) // g
                        r = m * co // kco
                        rest = l_sub((0, tuple((x, c * m) for x, c in key)), l_scale((0, k), r))
                    else:
                        r = co // kco
                        rest = l_sub((0, key), l_scale((0, k), r))
                    if len(rest[1]) > len(key):
                        continue
                    kl, kh, _ = self.d[k]
                    if r < 0:
                        kl, kh = r * kh, r * kl
                    else:
                        kl, kh = r * kl, r * kh
                    if kl == -INF and kh == INF:
                        continue
                    if not rest[1]:
                        rl = rh = rest[0]
                    else:
                        rk, rs, rg = l_key(rest)
                        rl, rh = self._range_key(rk, depth - 1)
                        if rs < 0:
                            rl, rh = -rh, -rl
                        rl, rh = rest[0] + rg * rl, rest[0] + rg * rh
                    nl, nh = rl + kl, rh + kh
                    if m != 1:
                        if nl != -INF:
                            nl = -(-nl // m)
                        if nh != INF:
                            nh = nh // m
                    if nl > lo:
                        lo = nl
                    if nh < hi:
                        hi = nh
        return lo, hi

    def ne_has(self, a):
        """is a == 0 excluded by a disequality fact?"""
        if not a[1]:
            return a[0] != 0
        key, s, g = l_key(a)
        if a[0] % g:
            return True
        v = -a[0] // g * s if True else 0
        # g*s*key + c == 0  <=> key == -c/(g*s)
        f = self.d.get(key)
        if f and v in f[2]:
            return True
        return False

    def excl(self, key, x):
        """is key == x impossible?"""
        f = self.d.get(key)
        if f and (x in f[2] or x < f[0] or x > f[1]):
            return True
        lo, hi = self._range_key(key, 1)
        return x < lo or x > hi

    def assume_le(self, a):
        """a <= 0; returns False when contradictory"""
        if not a[1]:
            return a[0] <= 0
        key, s, g = l_key(a)
        lo, hi, ne = self.d.get(key, (-INF, INF, frozenset()))
        bl, bh = self._range_key(key, 2)
        lo = max(lo, bl) if bl > lo else lo
        hi = min(hi, bh) if bh < hi else hi
        # g*s*key <= -c
        if s > 0:
            b = (-a[0]) // g
            if b < hi:
                hi = b
        else:
            b = -((-a[0]) // g)
            if b > lo:
                lo = b
        return self._store(key, lo, hi, ne)

    def _store(self, key, lo, hi, ne):
        while ne and lo in ne:
            lo += 1
        while ne and hi in ne:
            hi -= 1
        if lo > hi:
            return False
        self.set(key, lo, hi, ne)
        return len(key) > 1 or self._consistent(key)

    def _consistent(self, key):
        """does a new bound on one atom contradict a relation it takes part in?"""
        for k in self.idx.get(key[0][0], ()):
            if len(k) > 1:
                lo, hi = self._base(k)
                f = self.d[k]
                if lo > f[1] or hi < f[0]:
                    return False
        return True

    def assume_eq(self, a):
        if not a[1]:
            return a[0] == 0
        key, s, g = l_key(a)
        if a[0] % g:
            return False
        v = -a[0] // g * s
        lo, hi, ne = self.d.get(key, (-INF, INF, frozenset()))
        bl, bh = self._range_key(key, 2)
        lo, hi = max(lo, bl), min(hi, bh)
        if v < lo or v > hi or v in ne:
            return False
        self.set(key, v, v, frozenset())
        return len(key) > 1 or self._consistent(key)

    def assume_ne(self, a):
        if not a[1]:
            return a[0] != 0
        key, s, g = l_key(a)
        if a[0] % g:
            return True
        v = -a[0] // g * s
        lo, hi, ne = self.d.get(key, (-INF, INF, frozenset()))
        bl, bh = self._range_key(key, 2)
        lo, hi = max(lo, bl), min(hi, bh)
        if v < lo or v > hi:
            return True
        if len(ne) < 16:
            ne = ne | {v}
        return self._store(key, lo, hi, ne)

    def test_le(self, a):
        lo, hi = self.range(a)
        if hi <= 0:
            return True
        if lo > 0:
            return False
        return None

    def test_eq(self, a):
        lo, hi = self.range(a)
        if lo == hi == 0:
            return True
        if lo > 0 or hi < 0 or self.ne_has(a):
            return False
        return None


# ---- values -----------------------------------------------------------------------------------
# ('i', lin) integer or null pointer; ('p', region, lin) pointer; ('f', x) float (python float or atom id)
# ('c', kind, ...) undecided truth value; ('fn', name); ('u',) never written; ('?',) anything
U = ("u",)
ANY = ("?",)


def I(c):
    return ("i", (c, ()))


ZERO = I(0)
ONE = I(1)


def atom_val(i):
    return ("i", (0, ((i, 1),)))
