"""reference tridiagonalization: Lanczos with reorthogonalization-free recurrence in
fixed-point integers of so many bits that the result is exact in double precision"""
from fractions import Fraction
import math


def tofix(x, B):
    """double -> fixed point with B fractional bits, exact"""
    m, e = math.frexp(x)
    m = int(m * (1 << 53))
    s = e - 53 + B
    return m << s if s >= 0 else m >> -s


def todouble(v, B):
    return float(Fraction(v, 1 << B)) if v else 0.0


class Exhausted(Exception):
    pass


def lanczos(e, u, N, B):
    """first N+1 coefficients (xi, zeta) of the chain of the star with energies e and
    weights u (doubles); also the orthogonality defects.  e may have any sign."""
    E = [tofix(x, B) for x in e]
    q = [tofix(x, B) for x in u]
    n2 = sum(x * x for x in q)
    nr = math.isqrt(n2)
    q = [(x << B) // nr for x in q]
    q0 = q
    p = None
    bprev = 0
    xi, ze, worst = [], [], 0.0
    b0 = None
    for n in range(N + 1):
        w = [(x * y) >> B for x, y in zip(E, q)]
        a = sum(x * y for x, y in zip(w, q)) >> B
        r = [x - ((a * y) >> B) - (((bprev * z) >> B) if p is not None else 0) for x, y, z in zip(w, q, p or q)]
        r2 = sum(x * x for x in r)
        b = math.isqrt(r2)
        if b >> max(0, B - 1000) == 0 or b < (1 << (B // 4)):
            raise Exhausted(n)
        ze.append(todouble(a, B))
        xi.append(todouble(b, B))
        if b0 is None:
            b0 = b
        p, q = q, [(x << B) // b for x in r]
        bprev = b
        ov = abs(sum(x * y for x, y in zip(q, q0)) >> B)
        worst = max(worst, todouble(ov, B) * (b0 / b))
    return xi, ze, worst


def chain(e, u, N):
    """exact coefficients, or None if the star has too few levels for N"""
    lev = {}
    for x, y in zip(e, u):
        if y != 0.0:
            lev[x] = lev.get(x, 0.0) + y * y
    if len(lev) < N + 2:
        return None
    B = 3000
    while True:
        try:
            xi, ze, w = lanczos(e, u, N, B)
            if w < 1e-40:
                return xi, ze, B
        except (Exhausted, ZeroDivisionError):
            pass
        B *= 2
        if B > 60000:
            raise RuntimeError("reference tridiagonalization did not converge")


def enough(e, u, N, bits, xi, ze):
    """would arithmetic of clearly less precision than bits give the same doubles?"""
    if bits < 500:
        return False
    try:
        x2, z2, w = lanczos(e, u, N, int(bits * 0.9) - 300)
    except (Exhausted, ZeroDivisionError):
        return False
    return w < 1e-20 and all(abs(a - b) <= 1e-17 * a for a, b in zip(xi, x2)) and all(abs(a - b) <= 1e-17 * x for a, b, x in zip(ze, z2, xi))
