"""Random grids as parameter file text, for checks that run the real program."""
BAS = ["ChebExtrema", "Fourier", "ChebZeros", "fd2_onesided", "fd2_periodic"]
def box(rnd, b, lo=None, hi=None, ns=None, bases=None, coords=None):
    L = []
    for d in (1, 2, 3):
        bs = bases[d-1] if bases else rnd.choice(BAS[:3] if rnd.random() < .8 else BAS)
        n = ns[d-1] if ns else rnd.randint(3, 7)
        if bs.startswith("fd2"): n = max(n, 4)
        a = rnd.uniform(-3, 3); w = rnd.uniform(.5, 4)
        if lo: a = lo[d-1]
        e = hi[d-1] if hi else a+w
        L += ["box%d_n%d = %d" % (b, d, n), "box%d_basis%d = %s" % (b, d, bs), "box%d_min%d = %.17g" % (b, d, a), "box%d_max%d = %.17g" % (b, d, e)]
    if coords: L.append("box%d_Coordinates = %s" % (b, coords))
    return L
def curved(rnd, b):
    """one box with some curved coordinates in their natural range"""
    t = rnd.choice(["Cartesian", "Polar", "PolarCE", "SphericalDF", "Spherical", "Spherical2", "Spherical3"])
    n = rnd.randint(4, 6); ne = 2*rnd.randint(2, 3); pi = 3.14159265358979323846
    if t == "Cartesian": return box(rnd, b, coords=t)
    r0 = rnd.uniform(.5, 1.5); r1 = r0+rnd.uniform(.5, 2)
    if t == "Polar": return box(rnd, b, (r0, 0, -1), (r1, 2*pi, 1), (n, ne, n), ("ChebExtrema", "Fourier", "ChebExtrema"), t)
    if t == "PolarCE": return box(rnd, b, (0, 0, -1), (r1, 2*pi, 1), (n, ne, n), ("ChebExtrema", "Fourier", "ChebExtrema"), t)
    if t == "SphericalDF": return box(rnd, b, (r0, 0, 0), (r1, 2*pi, 2*pi), (n, ne, ne+2), ("ChebExtrema", "Fourier", "Fourier"), t)
    return box(rnd, b, (r0, .1, 0), (r1, 3, 2*pi), (n, n, ne), ("ChebExtrema", "ChebExtrema", "Fourier"), t)
def grid(rnd, coords=False, nmax=4):
    nb = rnd.randint(1, nmax); L = ["nboxes = %d" % nb]
    for b in range(nb): L += curved(rnd, b) if coords else box(rnd, b)
    return L
