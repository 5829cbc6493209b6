"""History units: the same property on a second object after concrete calls on other ones in the same process, so that state
kept between calls (module caches, default arguments, attributes) is part of what the solver decides about"""
import random

import numpy as np

import harness as H
import hlib


def concrete(x, rng, first):
    """a value of input x; the same list of sites for every determinant when first"""
    if isinstance(x, H.Det):
        s = list(x.sites)
        if first:
            return s
        rng.shuffle(s)
        return sorted(s[:x.nh]) + sorted(s[x.nh:x.nh + x.nb]) + sorted(s[x.nh + x.nb:])
    if isinstance(x, H.Bool):
        return rng.random() < .8
    if isinstance(x, H.Choice):
        return rng.choice(x.vals)
    if isinstance(x, H.Real):
        lo, hi = x.lo, x.hi
        lo = (hi - 4 if hi is not None else -3) if lo is None else lo
        hi = lo + 4 if hi is None else hi
        return lo + (hi - lo) * rng.choice([.25, .5, .75])
    if isinstance(x, H.Vec):
        a = np.array([rng.choice([-2., -1., .5, 1., 3.]) for _ in range(int(np.prod(x.shape)))])
        if x.lo is not None or x.hi is not None:
            lo = x.hi - 4 if x.lo is None else x.lo
            hi = lo + 4 if x.hi is None else x.hi
            a = lo + (hi - lo) * (a + 2) / 5
        a = a.reshape(x.shape)
        if x.symmetric:
            a = np.tril(a) + np.tril(a, -1).T
        return a.tolist() if x.aslist else a
    if isinstance(x, H.Graph):
        a = np.zeros((x.n, x.n))
        for i in range(x.n):
            for j in range(i):
                a[i, j] = a[j, i] = float(rng.random() < .6)
        return a
    if isinstance(x, H.Subset):
        return sorted(x.elems[i] for i in x.draw(rng))
    if isinstance(x, H.Perm):
        return [x.elems[i] for i in x.draw(rng)]
    if isinstance(x, H.Seq):
        r = [concrete(y, rng, first) if isinstance(y, H.Inp) else y for y in x.items]
        return tuple(r) if x.tup else r
    return x.draw(rng)


def size(u):
    n = 1
    for x in u.inputs.values():
        n *= x.count() if isinstance(x, (H.Det, H.Bool, H.Choice, H.Subset, H.Graph, H.Perm)) else 1
    return n


def reals(u):
    return sum(int(np.prod(x.shape)) for x in u.inputs.values() if isinstance(x, H.Vec))


def draws(u):
    return 1 if reals(u) or any(isinstance(x, H.Real) for x in u.inputs.values()) else min(size(u), 12)


def key(u):
    """number of sites, as far as it can be read off"""
    f = u.fixed
    if 'nbh' in f and 'nbv' in f:
        w, h, s = f['nbh'], f['nbv'], f.get('side', 1)
        return w * h * s * s + (2 * (w + h) * s if f.get('kind') == 'peripheral' else w * h * s * s if f.get('kind') == 'clusters' else 0)
    return f.get('n')


def history(units, listed=(), most=None, cap=300):
    """up to `most` units per function, each after one other unit with as many sites and after itself on other values"""
    out, groups, most = [], {}, most or 10
    for u in units:
        if u.tier == 'quick' and u.name not in listed and not u.setup:
            groups.setdefault(u.fn, []).append(u)
    for fn, us in groups.items():
        us.sort(key=lambda u: (size(u), reals(u), key(u) or 0))
        fit = [u for u in us if size(u) <= cap and (key(u) or 3) > 2] or us[:4]
        step = max(1, len(fit) // most)
        for u in fit[::step][:most]:
            rng = random.Random(u.name)
            same = [v for v in us if v is not u and key(v) == key(u) and set(v.inputs) == set(u.inputs)
                    and size(v) <= 4 * cap and same_stubs(u, v)]
            rng.shuffle(same)
            # lattices of another kind or shape first, then other particle numbers
            same.sort(key=lambda v: [v.fixed.get(x) for x in ('kind', 'nbh', 'nbv', 'side')] ==
                      [u.fixed.get(x) for x in ('kind', 'nbh', 'nbv', 'side')])
            other = [v for v in same[::-1] if v not in same[:1]]
            earlier = [(v.fn, dict({k: concrete(x, rng, not i) for k, x in v.inputs.items()}, **v.fixed))
                       for v in same[:1] + other[:1] for i in range(draws(v))]
            earlier += [(u.fn, dict({k: concrete(x, rng, False) for k, x in u.inputs.items()}, **u.fixed))
                        for i in range(draws(u))]
            w = H.Unit('after others, ' + u.name, hlib.after, u.inputs, dict(u.fixed, earlier=earlier, main=u.fn), u.stubs,
                       bounds='after %d concrete calls on others: %s' % (len(earlier), u.bounds), tier=u.tier, nsamples=2,
                       limit=u.limit, validate=u.validate, native_never=u.native_never, retval=u.retval)
            out.append(w)
    return out


def same_stubs(u, v):
    return set(u.stubs) == set(v.stubs) and all(u.stubs[k] is v.stubs[k] for k in u.stubs)
