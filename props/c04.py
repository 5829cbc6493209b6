"""C04 neighbour, second-neighbour and bond queries"""
from common import *
from harness import Unit, Graph, Subset, Int


def distinct(xs):
    return len(set(xs)) == len(xs)


def neighbours(g, site, sub, n):
    ns = lF.get_neighbors(site, g, sub)
    allowed = sub if len(sub) > 0 else list(range(n))
    check(distinct(ns), 'repeated neighbour')
    for j in range(n):
        check((j in ns) == (g[site, j] == 1 and j in allowed), 'neighbour list')
    return set(ns)


def neighbours_pair(g, site, a, b, n):
    ns = lF.get_neighbors(site, g, (a, b))
    check(distinct(ns), 'repeated neighbour')
    for j in range(n):
        check((j in ns) == (g[site, j] == 1 and j in b), 'neighbour list')
    return set(ns)


def second(g, site, sub, n):
    ns = lF.get_second_neighbors(site, g, sub)
    allowed = sub if len(sub) > 0 else list(range(n))
    check_second(g, site, ns, allowed, n)
    return set(ns)


def second_pair(g, site, a, b, n):
    ns = lF.get_second_neighbors(site, g, (a, b))
    check_second(g, site, ns, b, n)
    return set(ns)


def check_second(g, site, ns, allowed, n):
    check(distinct(ns), 'repeated second neighbour')
    for j in range(n):
        two = False
        for k in range(n):
            if g[site, k] == 1 and g[k, j] == 1:
                two = True
        want = two and j != site and g[site, j] == 0 and j in allowed
        check((j in ns) == want, 'second neighbour list')


def bonds(g, n):
    bl = lF.build_bond_list(g)
    check_bonds(g, bl, list(range(n)), list(range(n)), n)
    return len(bl)


def bonds_pair(g, a, b, n):
    bl = lF.build_bond_list(g, (a, b))
    check_bonds(g, bl, a, b, n)
    return len(bl)


def check_bonds(g, bl, a, b, n):
    for i in range(n):
        for j in range(i + 1, n):
            c = 0
            for p in bl:
                if (p[0] == i and p[1] == j) or (p[0] == j and p[1] == i):
                    c = c + 1
            want = g[i, j] == 1 and ((i in a and j in b) or (j in a and i in b))
            check(c == (1 if want else 0), 'bond listed once if allowed')
    for p in bl:
        check(p[0] != p[1] and g[p[0], p[1]] == 1, 'not a bond')


def units():
    out = []
    for tier, n in [('quick', 3), ('quick', 4), ('thorough', 5), ('thorough', 6)]:
        bd = 'all graphs on %d sites, all restrictions' % n
        k = dict(n=n)
        s = Int(0, n - 1)
        out.append(Unit('neighbours n=%d' % n, neighbours, dict(g=Graph(n), site=Int(0, n - 1), sub=Subset(n)), k,
                        bounds=bd, tier=tier))
        out.append(Unit('neighbours_pair n=%d' % n, neighbours_pair, dict(
            g=Graph(n), site=Int(0, n - 1), a=Subset(n, nonempty=True), b=Subset(n, nonempty=True)), k, bounds=bd,
            tier=tier))
        out.append(Unit('second n=%d' % n, second, dict(g=Graph(n), site=Int(0, n - 1), sub=Subset(n)), k,
                        bounds=bd, tier=tier))
        out.append(Unit('second_pair n=%d' % n, second_pair, dict(
            g=Graph(n), site=Int(0, n - 1), a=Subset(n, nonempty=True), b=Subset(n, nonempty=True)), k, bounds=bd,
            tier=tier))
        out.append(Unit('bonds n=%d' % n, bonds, dict(g=Graph(n)), k, bounds=bd, tier=tier))
        out.append(Unit('bonds_pair n=%d' % n, bonds_pair, dict(
            g=Graph(n), a=Subset(n, nonempty=True), b=Subset(n, nonempty=True)), k, bounds=bd, tier=tier))
    return out
