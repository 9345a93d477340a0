"""Helpers of polyntt that the reference uses."""


def inv_mod(elt, q):
    return pow(elt, -1, q)
