from . import core


class NTTRecursive:
    def __init__(self, q):
        self.q = q

    def ntt(self, f):
        return core.ntt(f, self.q)

    def intt(self, f):
        return core.intt(f, self.q)

    def vec_mul(self, f, g):
        assert len(f) == len(g)
        return [x * y % self.q for x, y in zip(f, g)]

    def vec_add(self, f, g):
        return [(x + y) % self.q for x, y in zip(f, g)]

    def vec_sub(self, f, g):
        return [(x - y) % self.q for x, y in zip(f, g)]

    def vec_div(self, f, g):
        if any(x % self.q == 0 for x in g):
            raise ZeroDivisionError
        return [x * pow(y, -1, self.q) % self.q for x, y in zip(f, g)]
