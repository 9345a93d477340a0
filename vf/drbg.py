"""Reference AES-256 CTR_DRBG (no derivation function), from NIST SP 800-90A 10.2.1, over pycryptodome's AES."""
from Crypto.Cipher import AES


class Drbg:
    def __init__(self, seed, pers=b""):
        self.k, self.v = bytes(32), 0
        self.update(bytes(a ^ b for a, b in zip(seed, pers + bytes(48 - len(pers)))))

    def blocks(self, n):
        c = AES.new(self.k, AES.MODE_ECB)
        out = b""
        for _ in range(n):
            self.v = (self.v + 1) % 2 ** 128
            out += c.encrypt(self.v.to_bytes(16, "big"))
        return out

    def update(self, data):
        t = bytes(a ^ b for a, b in zip(self.blocks(3), data))
        self.k, self.v = t[:32], int.from_bytes(t[32:], "big")

    def read(self, n, add=None):
        a = bytes(48) if add is None else add + bytes(48 - len(add))
        if add is not None:
            self.update(a)
        out = self.blocks((n + 15) // 16)[:n]
        self.update(a)
        return out
