"""Number-theoretic transform over Z_q[x]/(x^n+1), q prime, reference version."""

_PSI = {}
_TAB = {}


def brv(i, bits):
    r = 0
    for _ in range(bits):
        r = (r << 1) | (i & 1)
        i >>= 1
    return r


def psi_for(q, n):
    """A primitive 2n-th root of unity; 7 generates the order-2048 group for q=12289."""
    k = (q, n)
    if k not in _PSI:
        if q == 12289:
            _PSI[k] = pow(7, 2048 // (2 * n), q)
        else:
            for g in range(2, q):
                p = pow(g, (q - 1) // (2 * n), q)
                if pow(p, n, q) == q - 1:
                    _PSI[k] = p
                    break
        assert pow(_PSI[k], n, q) == q - 1
    return _PSI[k]


def tables(q, n):
    k = (q, n)
    if k not in _TAB:
        psi = psi_for(q, n)
        ipsi = pow(psi, -1, q)
        bits = n.bit_length() - 1
        _TAB[k] = ([pow(psi, brv(i, bits), q) for i in range(n)],
                   [pow(ipsi, brv(i, bits), q) for i in range(n)],
                   pow(n, -1, q))
    return _TAB[k]


def ntt(f, q):
    a = list(f)
    n = len(a)
    w, _, _ = tables(q, n)
    t, m = n, 1
    while m < n:
        t >>= 1
        for i in range(m):
            j1 = 2 * i * t
            s = w[m + i]
            for j in range(j1, j1 + t):
                u, v = a[j], a[j + t] * s
                a[j] = (u + v) % q
                a[j + t] = (u - v) % q
        m <<= 1
    return [x % q for x in a]


def intt(f, q):
    a = list(f)
    n = len(a)
    _, iw, ni = tables(q, n)
    t, m = 1, n
    while m > 1:
        h = m >> 1
        j1 = 0
        for i in range(h):
            s = iw[h + i]
            for j in range(j1, j1 + t):
                u, v = a[j], a[j + t]
                a[j] = (u + v) % q
                a[j + t] = (u - v) * s % q
            j1 += 2 * t
        t <<= 1
        m = h
    return [x * ni % q for x in a]
