"""Stand-in for the `polyntt` package (not installable offline).

Only the interface /repo/pythonref uses.  The transform order is that of the
project's Solidity and C code (Longa-Naehrig, bit-reversed powers of psi).
"""
