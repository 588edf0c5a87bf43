"""Can an inequality over the caller's own quantities really fail? Looks for values that agree with everything known about them."""
from itertools import product
from .dom import *

BASE = ("arg", "spi")
TRY = (1, 2, 3, 4, 7, 10, 100, 1000, 10 ** 6)


def free_atoms(l, more=()):
    """the quantities l is computed from, or None when some are not the caller's"""
    out, todo = set(), [a for a, _ in l[1]]
    seen = set()
    while todo:
        a = todo.pop()
        if a in seen:
            continue
        seen.add(a)
        n = AT.name[a]
        if not isinstance(n, tuple) or not n:
            return None
        if n[0] in BASE or n[0] in more:
            out.add(a)
        elif n[0] == "prod":
            todo += n[1]
        elif n[0] in ("div", "rem"):
            for x in n[1:]:
                if isinstance(x, tuple):
                    todo += [b for b, _ in x[1]]
        else:
            return None
    return out


def value(a, env):
    if a in env:
        return env[a]
    n = AT.name[a]
    if not isinstance(n, tuple):
        return None
    if n[0] == "prod":
        r = 1
        for x in n[1]:
            v = value(x, env)
            if v is None:
                return None
            r *= v
        return r
    if n[0] in ("div", "rem"):
        x, y = (lval(z, env) if isinstance(z, tuple) else z for z in n[1:3])
        if x is None or not y or x < 0 or y < 0:
            return None
        return x // y if n[0] == "div" else x % y
    return None


def lval(l, env):
    r = l[0]
    for a, c in l[1]:
        v = value(a, env)
        if v is None:
            return None
        r += c * v
    return r


def fails(st, l, more=(), limit=20000):
    """values of the caller's quantities for which l < 0, or None"""
    base = free_atoms(l, more)
    if base is None or len(base) > 4:
        return None
    # quantities tied to these by what is known
    known = [(K, f) for K, f in st.facts.d.items()]
    for _ in range(3):
        grow = set()
        for K, f in known:
            if len(K) < 2:
                continue
            fr = free_atoms((0, K), more)
            if fr and fr & base and not fr <= base and not any(AT.name[a][0] == "tau" for a in fr - base):
                grow |= fr
        if not grow - base or len(base | grow) > 5:
            break
        base |= grow
    base = sorted(base)
    rel = []
    for K, f in known:
        fr = free_atoms((0, K), more)
        if fr is not None and fr <= set(base):
            rel.append((K, f))
    for a in base:
        # a loop counter has to be bounded by one of the other quantities
        if AT.name[a][0] == "tau" and not any(len(K) == 2 and (a, 1) in K and f[1] != INF or len(K) == 2 and (a, -1) in K and f[0] != -INF
                                              for K, f in rel):
            return None
    cands = []
    for a in base:
        lo, hi = st.facts._range_key(((a, 1),), 1)
        lo = max(lo, 0) if lo != -INF else 0
        vs = {v for v in TRY if lo <= v <= hi} | {lo, lo + 1}
        if hi != INF and hi < 10 ** 9:
            vs |= {hi, hi - 1}
        cands.append(sorted(v for v in vs if lo <= v <= hi))
    # a loop counter close to its end
    near = sorted({v - d for a, c in zip(base, cands) if AT.name[a][0] != "tau" for v in c for d in (1, 2)})
    for i, a in enumerate(base):
        if AT.name[a][0] == "tau":
            lo, hi = st.facts._range_key(((a, 1),), 1)
            cands[i] = sorted(set(cands[i]) | {v for v in near if max(lo, 0) <= v <= hi})
    n = tries = 0
    for vals in product(*cands):
        n += 1
        if n > limit:
            return None
        env = dict(zip(base, vals))
        v = lval(l, env)
        if v is None or v >= 0:
            continue
        for K, (lo, hi, ne) in rel:
            x = lval((0, K), env)
            if x is None:
                continue
            if x < lo or x > hi or x in ne:
                break
        else:
            tries += 1
            if tries > 600:
                return None
            if not consistent(st, known, env):
                continue
            return {AT.name[a][1] if isinstance(AT.name[a][1], str) else str(AT.name[a][0]): x for a, x in env.items()}
    return None


def consistent(st, known, env, rounds=6):
    """do the values leave room for the quantities that are not the caller's?"""
    rng = {a: [v, v] for a, v in env.items()}

    def get(a):
        r = rng.get(a)
        if r is None:
            v = value(a, env)
            if v is not None:
                r = [v, v]
            else:
                f = st.facts.d.get(((a, 1),))
                r = [AT.lo[a], AT.hi[a]]
                if f:
                    r = [max(r[0], f[0]), min(r[1], f[1])]
            rng[a] = r
        return r
    for _ in range(rounds):
        change = False
        for K, (lo, hi, ne) in known:
            ts = [(a, c, get(a)) for a, c in K]
            mins = [c * r[0] if c > 0 else c * r[1] for a, c, r in ts]
            maxs = [c * r[1] if c > 0 else c * r[0] for a, c, r in ts]
            sl, sh = sum(mins), sum(maxs)
            if sl > hi or sh < lo:
                return False
            for i, (a, c, r) in enumerate(ts):
                if r[0] == r[1]:
                    continue
                rest_lo, rest_hi = sum(mins[:i] + mins[i + 1:]), sum(maxs[:i] + maxs[i + 1:])
                up, dn = hi - rest_lo, lo - rest_hi       # dn <= c*a <= up
                if c < 0:
                    up, dn = -dn, -up
                k = abs(c)
                if up == up and up not in (INF, -INF) and up // k < r[1]:
                    r[1] = up // k
                    change = True
                if dn == dn and dn not in (INF, -INF) and -(-dn // k) > r[0]:
                    r[0] = -(-dn // k)
                    change = True
                if r[0] > r[1]:
                    return False
        if not change:
            break
    return True
