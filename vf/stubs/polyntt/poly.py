from .ntt_iterative import NTTIterative


class Poly:
    def __init__(self, coeffs, q, ntt=NTTIterative):
        self.coeffs = coeffs
        self.q = q
        self._ntt_cls = ntt
        self.NTT = ntt(q)

    def _new(self, c):
        return Poly(c, self.q, ntt=self._ntt_cls)

    def __eq__(self, o):
        return self.coeffs == o.coeffs and self.q == o.q

    __hash__ = None

    def __add__(self, o):
        return self._new([(a + b) % self.q for a, b in zip(self.coeffs, o.coeffs)])

    def __sub__(self, o):
        return self._new([(a - b) % self.q for a, b in zip(self.coeffs, o.coeffs)])

    def __neg__(self):
        return self._new([-a % self.q for a in self.coeffs])

    def __mul__(self, o):
        T = self.NTT
        return self._new(T.intt(T.vec_mul(T.ntt(self.coeffs), T.ntt(o.coeffs))))

    def __truediv__(self, o):
        T = self.NTT
        return self._new(T.intt(T.vec_div(T.ntt(self.coeffs), T.ntt(o.coeffs))))

    div = __truediv__

    def ntt(self):
        return self.NTT.ntt(self.coeffs)

    def inverse(self):
        T = self.NTT
        return self._new(T.intt(T.vec_div([1] * len(self.coeffs), T.ntt(self.coeffs))))
