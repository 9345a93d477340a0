SOL_DIR = "src/"
NAT = [SRC + "nist.c", SRC + "nist16.c", SRC + "epervier16.c"]
EXH = "stateless bounded model checking of the real code: exhaustive enumeration of a stated input/behaviour space, each execution judged by an independent reference model"

prop("C01", "Native signatures always verify and return the message",
     "For every key pair, message (any length, including empty and longer than any internal buffer) and randomness, a signature made by the native signer is accepted "
     "by the native verifier of the same variant with the matching public key, which returns exactly the signed message and its length. "
     "This holds for the standard, the 16-bit and the public-key-recovery formats, with both hash variants, whether or not the output buffer overlaps the message, "
     "and the verdict agrees with an independent reading of the specification.",
     ["inputs", "configurations"], "all message lengths, key pairs, randomness, in-place or separate buffers, five variant/hash combinations",
     "The KAT programs sign 100 messages of lengths 33*k with one buffer layout; other lengths, overlap and most key pairs never run.",
     NAT + [SRC + "sign.c", SRC + "vrfy.c", SRC + "common.c", SRC + "keccak_prng.c"],
     [("signing loop, norm bound and hint", SRC + "sign.c"), ("open functions", SRC + "nist.c"), ("hash-to-point", SRC + "common.c")],
     EXH, "exploration",
     "Every message length in a dense range plus all block-boundary lengths, several keys and randomness values per variant; the independent verifier in harness/ref.c is trusted. Key and randomness values outside the enumerated seeds are not explored.")

prop("C02", "Native verifier accepts exactly what the specification accepts",
     "The native verifier accepts a (signed message, public key) pair exactly when an independent reading of the specification accepts it. "
     "In particular no change to a nonce, message, declared length, header, signature body or key turns it into an acceptance of something not signed, and no truncation or extension is accepted. "
     "On rejection no message bytes or length are released as if valid.",
     ["inputs", "fault_sequences"], "every single-bit change of signed messages and keys, every declared length, every truncation and extension, all values of structural bytes",
     "The tests open untouched signatures only, plus a handful of corruptions; rejection paths are never run.",
     NAT + [SRC + "codec.c", SRC + "vrfy.c"],
     [("length and header checks", SRC + "nist.c"), ("canonical decoding", SRC + "codec.c"), ("norm check", SRC + "vrfy.c")],
     EXH, "exploration",
     "Exhaustive over single-bit faults, structural bytes, declared lengths and resizes of honest signatures; multi-bit malicious changes outside those shapes are covered by C03 and C05 instead.")

prop("C03", "Native encodings are canonical and invertible",
     "Every native encoder/decoder pair (compressed, fixed-width and modular coefficients, 16-bit coefficients, whole private keys) is a bijection between representable values and the accepted byte strings: "
     "what is encoded decodes to the same values and consumes the same length, and every accepted byte string is exactly the encoding of what it decodes to. "
     "Values that are not representable and buffers that are too short are refused with nothing written past the given size.",
     ["inputs"], "all byte strings up to a length for small degrees; all values of one and two coefficients; all buffer sizes and single faults for degree 512",
     "KATs decode only honestly encoded data; no test feeds a non-canonical or out-of-range encoding.",
     [SRC + "codec.c", SRC + "nist.c", SRC + "nist16.c"], [("range, sign and padding checks", SRC + "codec.c")],
     EXH, "exploration", "Complete for the small-degree spaces; for degree 512 complete for one/two-coefficient variation and all faults of sampled encodings.")

prop("C05", "Acceptance is exactly the norm bound, at every degree",
     "A decoded signature is accepted by the native verifier if and only if the squared Euclidean norm of both its halves, taken over centred representatives, is at most the published bound for that degree. "
     "No coefficient value, sign, position or integer width makes the computed norm wrap, saturate wrongly or skip a coefficient. "
     "The same bound decides at the public verification functions.",
     ["inputs"], "all values at each coefficient, norm = bound-1, bound, bound+1 reached in every arrangement class, all degrees 2..1024",
     "Honest signatures sit far from the bound; no test gets within thousands of it.",
     [SRC + "common.c", SRC + "vrfy.c", SRC + "nist.c", SRC + "nist16.c", SRC + "epervier16.c"],
     [("squared norm with saturation and bound table", SRC + "common.c"), ("centred s1 recomputation", SRC + "vrfy.c")],
     EXH, "exploration", "Exhaustive per coefficient and at the exact boundary; forged key/signature pairs carry the boundary cases through the public functions.")

prop("C06", "Native ring arithmetic is exact",
     "The native number-theoretic transform, its inverse, ring products, quotients, inverses and the recomputation of public and secret polynomials give exactly the ring values modulo 12289 and X^n+1, for every degree and every operand. "
     "Operands that have no inverse are reported as such and never produce a result.",
     ["inputs"], "all residues at basis positions, all monomial products, small degrees exhaustively, structured dense operands at large degrees",
     "KAT operands are random dense polynomials; extreme residues, zero divisors and other degrees are never used.",
     [SRC + "vrfy.c"], [("Montgomery reduction and NTT", SRC + "vrfy.c"), ("invertibility checks", SRC + "vrfy.c")],
     EXH, "exploration", "Bilinearity plus exhaustive basis/residue coverage bounds what is left unexplored; the schoolbook reference in harness/ref.c is trusted.")

prop("C07", "Hash-to-point is the specified rejection sampling",
     "For every answer of the extendable-output function, native hash-to-point returns the first n accepted 16-bit big-endian words reduced modulo 12289, accepting exactly words below 61445, in order, whatever the pattern of rejections. "
     "The constant-time variant returns the same whenever its over-sampling suffices. "
     "The digest depends on nonce then message, with all message bytes included.",
     ["inputs", "schedules"], "all 16-bit words at each position, all accept/reject patterns of a window, all degrees, message lengths across block boundaries",
     "Random hashes meet only typical rejection patterns; boundary words 61444/61445 essentially never occur.",
     [SRC + "common.c", SRC + "nist.c", SRC + "nist16.c"], [("rejection loop", SRC + "common.c")],
     EXH, "exploration", "The hash is replaced by an enumerated answer tape, then the real hash is used for the binding sections.")

prop("C08", "Native streaming hashes do not depend on chunking",
     "Absorbing a message in any sequence of pieces and squeezing in any sequence of pieces gives the same stream as one call with the whole message, equal to SHAKE256 and to the Keccak counter generator of the specification, for every length. "
     "One-shot Keccak-256 likewise.",
     ["inputs", "histories"], "all sequences of absorb/squeeze sizes up to a depth over block-boundary sizes; every total length across several blocks",
     "Tests use a few fixed chunkings; the space of call histories is unbounded.",
     [SRC + "shake.c", SRC + "keccak_prng.c", SRC + "keccak256.c"], [("partial-block pointer handling", SRC + "shake.c"), ("buffer refill and counter", SRC + "keccak_prng.c")],
     "explicit-state model checking of the streaming state machine (absorbed length, output position), every model transition replayed on the real code", "model_checking",
     "All reachable (length, position) states within the bound; contents are pseudo-random bytes; hashlib and harness/ref.c are the oracles.")

prop("C10", "Native DRBG and seed expander are the specified generators",
     "For every seed, personalisation string and history of requests of any sizes, the native randombytes generator returns exactly the bytes of AES-256 CTR_DRBG, and the seed expander those of the specified expander, "
     "with the counter carrying through every byte. "
     "Requests beyond the declared maximum are refused with the state unchanged.",
     ["histories", "inputs"], "all sequences of request sizes up to a depth over block-boundary sizes, counters next to every carry",
     "KATs draw a few fixed sizes from one seed family; counter carries beyond the low byte and most histories never run.",
     [SRC + "rng.c", SRC + "katrng.c"], [("counter carry and state update", SRC + "katrng.c")],
     "explicit-state model checking of the generator (model = SP 800-90A state machine), every model trace replayed on the real code", "model_checking",
     "All histories within the depth and size set; AES itself is checked only through these outputs against pycryptodome.")

prop("P01", "Python streaming hashes do not depend on chunking",
     "Every Python extendable-output function (SHAKE256, the Keccak counter generator, the Keccak and BLAKE2s generators' other modes) gives, for any sequence of updates, flip and reads, exactly the stream its definition gives for the concatenated input, at every length. "
     "The two counter generators refuse use in the wrong order instead of returning other bytes. Whatever kind of byte string the input is, later changes to it have no effect; copies are independent, and one object never disturbs another.",
     ["histories", "inputs"], "all sequences of update/read sizes up to a depth over block-boundary sizes; every total length across several blocks",
     "Tests use a few fixed strings and chunkings.",
     [PY + x for x in ("shake.py", "keccak.py", "keccak_prng.py", "keccaxof.py", "blake2s_prng.py", "blake2s/blake2s.py")],
     [("sponge position handling", PY + "shake.py"), ("block counter and buffer", PY + "keccak_prng.py")],
     "explicit-state model checking of the streaming state machines, every model transition replayed on the real code", "model_checking",
     "All reachable states within the bound; the permutation is checked separately on all single-bit states, then replaced by an equivalent fast one.")

prop("P02", "Python signature compression is canonical and invertible",
     "The Python compressor and decompressor form a bijection between the coefficient vectors that fit the signature length and the accepted byte strings: every vector that fits decodes back, every accepted string is exactly the encoding of its value. "
     "Minus zero, over-long unary parts, nonzero padding, truncated or over-long strings give a clean refusal (False), never an exception or another vector.",
     ["inputs"], "all byte strings up to a length for small degrees, all coefficient values, all single-bit faults and truncations of full-size encodings",
     "Tests decode only what they encoded; malformed strings never run.",
     [PY + "encoding.py"], [("decompress checks", PY + "encoding.py")],
     EXH, "exploration", "Complete over short strings; full-size strings are covered by single faults, truncations and extensions.")

prop("P03", "Python verifier accepts exactly what the specification accepts",
     "For every message, signature bytes and public key, Python verification answers True exactly when an independent reading of the specification (header, nonce, compressed body, norm bound, chosen hash) accepts, and False otherwise, without raising. "
     "The decision does not depend on which NTT implementation or hash object class is chosen, and the norm test is exact at the bound.",
     ["inputs", "fault_sequences", "configurations"], "all single-bit changes of honest signatures, all truncations, all short bodies, forged signatures at norm bound-1/bound/bound+1, every degree and hash",
     "Tests verify honest signatures only; boundary norms and malformed inputs never run.",
     [PY + "falcon.py", PY + "encoding.py", PY + "common.py"], [("verify", PY + "falcon.py")],
     EXH, "exploration", "Exhaustive over the fault shapes listed; polyntt (a git dependency absent here) is replaced by a stand-in of the same interface.")

prop("P04", "Every Python signature verifies, whatever the randomness",
     "Every signature the Python signer returns has the fixed length and header of its degree, is accepted by the verifier and by an independent reading of the specification for its message, key and hash, and fails for another message. "
     "This holds for every degree, key, message length, hash function and source of randomness, over any history of calls on one key object, including signing retries after a too-long or too-large candidate. "
     "The nonce is taken fresh from the randomness for each signature.",
     ["inputs", "histories", "configurations"], "all combinations of degree, key, hash, randomness source; message lengths across block boundaries; every call sequence of depth 3; every retry pattern",
     "Tests sign a few random messages per degree; the retry path almost never runs.",
     [PY + "falcon.py", PY + "ffsampling.py", PY + "samplerz.py"], [("sign loop", PY + "falcon.py"), ("preimage sampling", PY + "falcon.py")],
     EXH, "exploration", "All combinations within the lists; randomness beyond the enumerated sources is not explored.")

prop("P05", "Python recovery verifiers recover exactly the signer's address",
     "For the recovery and Epervier modes, a signature made with a key recovers that key's address and verifies under it, for every degree, message and hash. "
     "Any signature an independent reading of the scheme rejects (header, length, body, inverse hint not canonical or wrong, norm too large) is rejected under every address, zero included, without raising, and no altered signature recovers the signer's address.",
     ["inputs", "fault_sequences"], "all single-bit changes, truncations, hint alterations, forged signatures at norm bound-1/bound/bound+1",
     "Tests verify honest signatures; the rejection paths never run.",
     [PY + "falcon_recovery.py", PY + "falcon_epervier.py"], [("recover and verify", PY + "falcon_recovery.py")],
     EXH, "exploration", "Exhaustive over the fault shapes; an independent recovery in spec.py is trusted.")

prop("P06", "Python key encodings are canonical and invertible",
     "Python public- and secret-key encodings and decodings are inverse to each other at every degree and agree byte for byte with the NIST format. "
     "Every accepted byte string is exactly the encoding of what it decodes to; wrong headers, lengths, out-of-range values, reserved values and nonzero padding are refused with ValueError.",
     ["inputs"], "all values of single coefficients, all short strings, all single-bit faults, all lengths, headers",
     "Tests encode two fixed keys.",
     [PY + "falcon_codec.py", PY + "falcon.py"], [("bit packing and checks", PY + "falcon_codec.py")],
     EXH, "exploration", "Complete per coefficient and for small degrees; full-size keys by single faults and truncations.")

prop("P07", "The command line signer signs, verifies and never reuses randomness",
     "For each of the four versions, keys written by the command line tool can be read back, what it signs it verifies, and it accepts nothing else: another message, another key, a changed signature or a missing file is reported as such. "
     "The randomness of a signature depends on the message and the private key, so different messages or keys never share a salt or sampler stream. "
     "Transactions are signed over the hash of exactly their fields, with the version of the key file.",
     ["inputs", "histories"], "all versions, all sequences of commands up to a depth, every argument missing in turn, all single-character changes of files and arguments",
     "No test runs the command line; its branches were never executed together.",
     [PY + "sign_cli.py", PY + "drbg/aes256_ctr_drbg.py"], [("cli dispatch", PY + "sign_cli.py"), ("signing randomness", PY + "sign_cli.py")],
     EXH, "exploration", "cli() runs in process in a scratch directory; keys come from fixed seeds. The network and `cast` are replaced by recorders.")

prop("P08", "What the tools send on chain is accepted by the contracts",
     "The calldata the command line and the vector generators produce (function signature, argument types, order, encoding and values) is exactly what the contracts take: the call succeeds for an honest signature and fails or recovers another address after any change. "
     "Answers of the chain are reported faithfully: only a true result or a matching address counts as valid.",
     ["inputs"], "all versions and commands, messages of all lengths in a range, every answer of the chain in a stated set",
     "The tools need a node; no test looks at their calldata.",
     [PY + "sign_cli.py", SOL_DIR + "ZKNOX_falcon.sol", SOL_DIR + "ZKNOX_ethepervier.sol"], [("onchain commands", PY + "sign_cli.py")],
     EXH, "exploration", "`cast` is a recording script; the recorded arguments are executed on the translated contracts (vf/sol.py).")

prop("P09", "Native, Python and on-chain implementations are one scheme",
     "The same seed gives the same key natively and in Python; the same key, message and randomness give the same signature, byte for byte. "
     "What one implementation signs the other implementations of the same variant accept, and those of the other variant reject; native recovery signatures recover the same address in Python and on chain. "
     "The published vectors, and those that generate_kat_rsp.py writes for any request, are accepted by all three.",
     ["inputs", "configurations"], "key seeds, all message lengths in a range, both hash variants, every pair of implementations, all published vectors",
     "Each implementation is tested with its own vectors only.",
     [PY + "falcon.py", PY + "ntrugen.py", PY + "samplerz.py", PY + "scripts/generate_kat_rsp.py", SRC + "sign.c", SRC + "keygen.c", SOL_DIR + "ZKNOX_falcon.sol"],
     [("key generation order of draws", PY + "ntrugen.py"), ("signing loop", PY + "falcon.py"), ("native signing loop", SRC + "sign.c")],
     EXH, "exploration", "Keys and randomness are enumerated from fixed seeds; Python refuses Keccak messages over 4056 bytes, which is not compared.")

prop("P10", "Python Fourier arithmetic and Fourier sampling are exact for the lattice",
     "Python FFT, inverse, split, merge and ring operations compute the ring operations modulo X^n+1 to floating-point accuracy at every degree. "
     "LDL decomposition, Falcon trees and their normalisation match the Gram-Schmidt orthogonalisation of the basis, and Fourier sampling with any answers of the integer sampler asks it for exactly the centres and widths of nearest-plane sampling, returning the corresponding lattice point.",
     ["inputs", "schedules"], "all basis elements and pairs, all degrees, real keys; all sampler-answer patterns up to a number of deviations",
     "Tests check random round trips; wrong centres or widths still give signatures that verify.",
     [PY + "fft.py", PY + "ffsampling.py", PY + "common.py"], [("ffLDL and ffsampling", PY + "ffsampling.py")],
     "stateless model checking of the sampler recursion: the integer sampler is replaced by an enumerated oracle and every answer pattern within the bound is executed", "exploration",
     "Complete over answer patterns within the bound; tolerance is relative 1e-9 style.")

prop("P12", "Python integer sampler has exactly the specified distribution",
     "The base sampler's probabilities are exactly the specified 72-bit half-Gaussian table, the acceptance test equals the specified Bernoulli with exponent computed to the specified precision, and each round consumes randomness in the specified order, for every centre and width in range. "
     "The ChaCha20 generator gives the reference byte stream for every seed and every history of request sizes. "
     "Key coefficients are drawn with exactly the specified table.",
     ["inputs", "histories"], "every decision threshold located exactly; every (base value, sign, comparison byte) path; request-size histories up to a depth",
     "Statistical tests cannot see a wrong low-order table entry or a bias of 2^-40.",
     [PY + "samplerz.py", PY + "rng.py", PY + "mkgauss.py"], [("basesampler, approxexp, berexp", PY + "samplerz.py"), ("block layout", PY + "rng.py")],
     "model checking of the sampler's decision graph: every branch threshold is located on the code by exhaustive bisection and compared with the exact model; generator histories replayed", "model_checking",
     "Bisection assumes each single decision is monotone in its random input, which is spot-checked exhaustively on coarse grids.")

prop("P13", "Python DRBG is the SP 800-90A generator for every history",
     "For every seed, personalisation and history of requests with or without additional input, the Python AES-256 CTR_DRBG returns exactly the specified bytes, with the counter carrying through all 128 bits, and refuses malformed seeds, personalisations and sizes.",
     ["histories", "inputs"], "all request sequences up to a depth over block-boundary sizes and additional inputs; counters next to every carry",
     "The KAT test draws fixed sizes without additional input.",
     [PY + "drbg/aes256_ctr_drbg.py"], [("increment and update", PY + "drbg/aes256_ctr_drbg.py")],
     "explicit-state model checking of the generator, every model trace replayed on the real code", "model_checking",
     "All histories within the depth; AES from pycryptodome is trusted.")

prop("P15", "Python hash-to-point is the specified rejection sampling",
     "For every answer of the hash, Python hash-to-point returns the first n accepted 16-bit big-endian words reduced modulo 12289, accepting exactly words below 61445, in order, for every degree and hash class; the hash is fed nonce then message and closed before reading.",
     ["inputs", "schedules"], "all 16-bit words, all accept/reject patterns of a window, all degrees, real-hash message lengths across block boundaries",
     "Random hashes meet only typical rejection patterns.",
     [PY + "falcon.py", PY + "common.py"], [("hash_to_point", PY + "falcon.py")],
     "explicit-state model checking: the hash is an enumerated answer tape, every transition of the rejection machine is executed on the code", "model_checking",
     "Complete over single words and windows of rejections within the bound.")

SOL = "src/"
TRANS = ("The Solidity sources are translated to C on every run by vf/sol.py (no EVM or solc is available offline); the shipped Solidity tests run through it as conformance traces. Gas is not modelled. ")

prop("S01", "On-chain verification accepts exactly what the specification accepts",
     "The Falcon and ETHFalcon verifier contracts accept a (message, salt, s2, public key) exactly when an independent reading of the specification accepts it: both halves of the signature are counted in the norm, the bound itself is accepted and the next value rejected, "
     "every coefficient is canonical, lengths are exact. "
     "Both entry points (arrays and byte strings) agree; nothing that is not a valid signature is accepted, and malformed input gives false or a revert, never acceptance.",
     ["inputs", "fault_sequences"], "norm at bound-1/bound/bound+1 through every coefficient, boundary values of every lane, every bit of a packed signature, message and salt, every length",
     "The shipped tests verify a few honest vectors; no test forges, so a verifier that counts half the signature passes them.",
     [SOL + "ZKNOX_falcon.sol", SOL + "ZKNOX_ethfalcon.sol", SOL + "ZKNOX_falcon_core.sol", SOL + "ZKNOX_falcon_utils.sol"],
     [("falcon_core norm", SOL + "ZKNOX_falcon_core.sol"), ("verify entry points", SOL + "ZKNOX_falcon.sol")],
     EXH, "exploration", TRANS + "Keys and points are built so that the norm is exactly the chosen value; the reference is vf/chain.py (numpy, checked against the schoolbook product).")

prop("S02", "On-chain recovery returns the signer's address for one encoding only",
     "The Epervier contracts return the address of the key for every signature the specification accepts, and revert or return another address otherwise. "
     "The norm counts every coefficient of both halves, the bound is exact, coefficients and the inverse hint are canonical, an s2 without inverse never recovers an address, "
     "and no second (s1, s2, hint) encoding of one signature recovers the same address.",
     ["inputs", "fault_sequences"], "norm boundary through every coefficient, every lane value at the edges, every hint below 2q, zero in every NTT slot, all lengths, all single-bit changes of message and salt",
     "The shipped tests recover from one or two honest vectors.",
     [SOL + "ZKNOX_epervier.sol", SOL + "ZKNOX_ethepervier.sol", SOL + "ZKNOX_falcon_core.sol", SOL + "ZKNOX_falcon_utils.sol"],
     [("recover", SOL + "ZKNOX_epervier.sol"), ("hint check", SOL + "ZKNOX_ethepervier.sol")],
     EXH, "exploration", TRANS + "Independent recovery in vf/chain.py.")

prop("S03", "On-chain hashing equals SHAKE256, Keccak generator and hash-to-point",
     "The contracts' SHAKE256, for any split of input and of output and any total length, gives the standard stream; two contexts never disturb each other; the permutation is Keccak-f[1600]. "
     "Both hash-to-point functions return the first 512 accepted 16-bit big-endian words reduced modulo 12289, accepting exactly words below 61445, for every message length and any number of rejections.",
     ["inputs", "histories"], "all lengths over several blocks, all pairs of splits at block boundaries, every single-bit state, digests holding the boundary words 61444..61446, points with unusually many rejections",
     "The shipped tests hash a few strings.",
     [SOL + "ZKNOX_shake.sol", SOL + "ZKNOX_HashToPoint.sol"], [("sponge position", SOL + "ZKNOX_shake.sol"), ("rejection loop", SOL + "ZKNOX_HashToPoint.sol")],
     EXH, "exploration", TRANS + "hashlib and the C reference are the oracles; boundary words are found by search over salts.")

prop("S04", "On-chain ring arithmetic is exact and its tables cannot be swapped",
     "Every on-chain transform (unrolled, compact, table-driven and stateless, forward and inverse) is evaluation at the odd powers of psi in bit-reversed order, and every product built on it is exact in Z_12289[X]/(X^n+1) for each supported size. "
     "Deployed tables hold exactly those powers. After make_immutable no history of calls changes the tables in use, before it the last update does.",
     ["inputs", "histories"], "all basis vectors at extreme values, all products of monomials (sampled rows in quick), dense extremes, sizes 2..512, all update/freeze sequences to a depth",
     "The shipped tests multiply a few fixed vectors; the freeze is never tested.",
     [SOL + "ZKNOX_NTT.sol", SOL + "ZKNOX_NTT_falcon.sol", SOL + "ZKNOX_falcon_deploy.sol"], [("butterflies", SOL + "ZKNOX_NTT_falcon.sol"), ("update and make_immutable", SOL + "ZKNOX_NTT.sol")],
     EXH, "exploration", TRANS + "Linearity plus the basis bounds what is left; carries of lazy reduction are driven by dense extreme vectors.",
     state=[("o_psirev, o_psi_inv_rev, immutability flag", "tables in use", SOL + "ZKNOX_NTT.sol")])

prop("S05", "On-chain encodings are canonical and invertible",
     "On-chain packing, expanding and reversing of polynomials are inverse to each other for every lane and value. "
     "Signature decompression accepts exactly the canonical compressed encodings (no minus zero, no over-long unary part, zero padding bits, within the size limit), from any offset; key decompression accepts exactly 14-bit coefficients below q; "
     "NIST vectors are split into salt, message of any length, signature and key exactly; range checks are exact in both formats.",
     ["inputs"], "all coefficient values, every bit flip, truncation and offset of an encoding, -0 at every place, all 14-bit key values, all message lengths in a range",
     "The shipped tests decode honest vectors only.",
     [SOL + "ZKNOX_falcon_encodings.sol", SOL + "ZKNOX_falcon_utils.sol", SOL + "ZKNOX_common.sol", SOL + "ZKNOX_falcon_core.sol"],
     [("_decompress_sig", SOL + "ZKNOX_falcon_encodings.sol"), ("_ZKNOX_NTT_Decompress", SOL + "ZKNOX_falcon_utils.sol")],
     EXH, "exploration", TRANS + "Encodings come from an independent encoder in vf/spec.py.")

prop("C12", "Native integer sampler has exactly the specified distribution",
     "The native base sampler draws from exactly the specified 72-bit half-Gaussian table, its acceptance step is exactly the specified Bernoulli trial, and randomness is consumed in the specified order, for every centre and every width in range, so that the returned integer follows the specified discrete Gaussian. "
     "The generator feeding it (ChaCha20, interleaved layout) returns the reference stream for every seed, counter and history of reads of one byte, eight bytes or a block of bytes, so that no random byte is used twice.",
     ["inputs", "histories"], "every decision threshold located exactly on the real code; every (base value, sign, comparison byte) path; all read histories up to a depth including buffer ends and counter carries",
     "KATs fix a few signatures; a wrong low-order table entry, a bias of 2^-40 or a re-used random byte at a buffer end cannot show.",
     [SRC + "sign.c", SRC + "rng.c", SRC + "fpr.c"], [("gaussian0_sampler, BerExp, sampler", SRC + "sign.c"), ("prng_refill and prng_get_bytes", SRC + "rng.c")],
     "model checking of the sampler's decision graph: every branch threshold is located on the code by exhaustive bisection and compared with the exact model; generator histories replayed", "model_checking",
     "Bisection assumes each single decision is monotone in its random input, which is spot-checked exhaustively on coarse grids.",
     state=[("prng buffer position and block counter", "stream position", SRC + "rng.c")])

prop("C13", "Native floating-point emulation is exact, and so is the Fourier arithmetic",
     "Each operation of the native floating-point emulation (addition, subtraction, multiplication, division, square root, comparison, conversions, halving, doubling, rounding and truncation) gives, for every pair of operands in the emulation's range, the correctly rounded IEEE result. "
     "Constant tables hold the correctly rounded values, the exponential has its specified precision, and the Fourier transform, its inverse, split, merge and each pointwise operation compute the mathematical function for every degree.",
     ["inputs"], "all pairs over boundary mantissas and all exponent differences, all halves and eighths with their neighbours, every basis vector at every degree, operands close to cancellation",
     "KAT signatures use typical magnitudes; carries, ties, cancellation and sticky bits at the edges of the emulation are hardly ever met.",
     [SRC + "fpr.c", SRC + "fft.c"], [("normalisation, rounding and sticky bits", SRC + "fpr.c"), ("butterflies and pointwise operations", SRC + "fft.c")],
     EXH, "exploration", "The emulation does not support subnormals, infinities or NaN (nor does the signer produce any); these are outside the property. The IEEE hardware of the sandbox and long double / quad arithmetic are trusted.")

prop("C15", "Native signing samples the lattice of the key and returns only short vectors",
     "For every key, target point and pattern of integers returned by the sampler, native signing visits the coordinates of the key's NTRU lattice in order, asking for the nearest-plane centre and the deviation sigma over Gram-Schmidt norm with the minimum deviation of the degree, "
     "and returns exactly target minus the lattice point so selected. "
     "The attempt is returned if and only if its squared norm, however large, is within the published bound; the expanded-key and dynamic paths agree, at every degree 2..1024.",
     ["inputs", "histories"], "all patterns of sampler answers at small degrees, sets of one or two deviating answers at every coordinate at larger ones, answers that put the norm around the bound or past 2^32",
     "With real randomness signatures verify even when the distribution leaks the key; rejected and overflowing attempts almost never occur.",
     [SRC + "sign.c", SRC + "fft.c", SRC + "common.c"], [("ffSampling_fft and ffSampling_fft_dyntree", SRC + "sign.c"), ("do_sign acceptance", SRC + "sign.c")],
     EXH, "exploration", "The sampler is replaced at link time by an enumerated answer tape; the lattice is taken from the private key with integer and double-precision linear algebra (numpy QR).")

prop("C14", "Native signers release exactly the sampled candidate, never an unusable one",
     "For every private key, message, randomness and sequence of candidates given by the lattice sampler, the native signing functions draw a fresh 40-byte nonce and 48-byte seed, sign the hash of nonce then message under exactly the key's basis, and release exactly the encoding of the candidate, with its length, within the advertised size; a candidate that does not fit the format is refused. The recovery signer tries again until s2 is invertible, and its hint is the inverse of the product of the transform of s2. Private keys with a wrong header, reserved values, no inverse or an out-of-range G are refused.",
     ["inputs", "histories"], "all patterns of unusable candidates to a depth, zero in every transform slot, all coefficient values, encoded sizes around the limit, all single-bit faults of a private key, message lengths",
     "The lattice sampler practically never returns a candidate without inverse or one that does not fit, so the branches that handle them are not executed by any test, and a defect there shows only in rare signatures.",
     [SRC + "nist.c", SRC + "nist16.c", SRC + "epervier16.c", SRC + "vrfy.c"],
     [("signing and retry loop", SRC + "epervier16.c:zknox_crypto_sign_epervier"), ("signing", SRC + "nist.c:crypto_sign"), ("signing, 16-bit", SRC + "nist16.c:zknox_crypto_sign"), ("hint and invertibility", SRC + "vrfy.c:hint_epervier, is_invertible, count_nttzero"), ("private key completion", SRC + "vrfy.c:complete_private")],
     EXH, "exploration", "The lattice sampler and randombytes are replaced at link time by enumerated answers; the oracle is the format of the README read independently (checks/c14.py) and numpy ring arithmetic.")

GO = "falcon/falcon.go"
prop("G01", "The Go binding is the native scheme for every input, with fresh randomness",
     "For every message (nil, empty or of any length), key and signature byte slice, GenerateKeypair, SignMessage and VerifySignature give exactly what the native functions give: what is signed verifies for that message only, and VerifySignature is true exactly when the native verifier accepts and returns the given message. "
     "Slices of any other length are answered with an error or false, never a panic or an access outside the buffers, and no argument is modified. Every process draws its own randomness, and concurrent calls never share generator output.",
     ["inputs", "schedules"], "message, key and signature lengths across all buffer sizes, all declared lengths, single-bit faults, all combinations of concurrent calls up to a size",
     "The Go test signs one short message in one goroutine and prints the verdict; buffer sizes, empty slices, unseeded randomness and overlapping calls are all outside it.",
     [GO, SRC + "api.h", SRC + "nist.c", SRC + "katrng.c"], [("cgo wrappers", GO), ("global generator", SRC + "katrng.c")],
     EXH, "exploration", "Built with AddressSanitizer on both sides of cgo; overlap is observed with a stand-in native library whose calls wait for one another.")

prop("G02", "The geth precompile answers one exactly for valid signatures, on any calldata",
     "For every calldata, the Falcon precompile answers the 32-byte word one exactly when the calldata decodes to (signature, message, public key) that the native verifier accepts with that message, and otherwise the word zero or an error. It never crashes the node, reads or writes outside its buffers, or changes its input. Its gas is the constant 3000 for every input, and it is active at address 0x13 exactly from Prague on, in the contract map and the address list.",
     ["inputs", "configurations"], "message lengths, every truncation, every offset and length word, single-bit faults, argument lengths and orders, all forks and low addresses",
     "contracts.go is only parsed by the build and never run by a test; it takes calldata that anyone can send to a node.",
     ["geth/contracts.go", GO], [("falconvrfy", "geth/contracts.go:falconvrfy.Run, RequiredGas"), ("activation", "geth/contracts.go:PrecompiledContractsPrague, ActivePrecompiles")],
     EXH, "exploration", "falconvrfy and the fork tables are cut out of the file by its syntax tree and compiled with stand-ins for the go-ethereum packages, which are not available offline.")

prop("J01", "The JavaScript module is the native 16-bit scheme for every input",
     "For every seed, message, signed message and public key of any length, the functions exported by falcon.js give exactly what the native 16-bit functions give from the same generator state: the same key pair, the same signature bytes, the same verdict and message, up to the exact norm bound and for every coefficient value. Nothing outside the given buffers is written, and every process draws its own randomness.",
     ["inputs", "histories"], "seed and message lengths, sequences of calls, single-bit faults, declared lengths, truncations, headers, forged signatures at norm bound-1/bound/bound+1, second encodings",
     "The module is a compiled binary committed to the repository: its only test signs one message, and nothing ties it to the current C sources.",
     ["falcon/falcon.js", SRC + "nist16.c"], [("exported functions", "falcon/falcon.js"), ("native counterpart", SRC + "nist16.c")],
     EXH, "exploration", "The shipped binary is executed under node and cannot be rebuilt offline (no emscripten), so its defects are recorded as known findings.")

prop("C04", "Native code stays within its buffers on any input",
     "For every signed message, key, seed, message, encoding and requested length, however short, long or malformed, the native functions read and write only inside the buffers of the documented sizes, use only initialised values, and execute no undefined operation; "
     "this includes the scratch areas of every internal step at every degree 2..1024.",
     ["inputs"], "all message, signed-message, seed and buffer lengths in a range, all declared lengths, byte faults of keys, all degrees, both hash variants",
     "Tests use comfortable buffers and well-formed data; an overrun or a read of uninitialised memory usually changes no output.",
     [SRC + "nist.c", SRC + "nist16.c", SRC + "epervier16.c", SRC + "codec.c", SRC + "vrfy.c", SRC + "sign.c", SRC + "keygen.c", SRC + "shake.c", SRC + "rng.c", SRC + "katrng.c"],
     [("length checks", SRC + "nist.c:crypto_sign_open"), ("decoders", SRC + "codec.c"), ("scratch layouts", SRC + "sign.c, keygen.c")],
     EXH, "exploration", "Every buffer is an exactly sized heap block; builds with AddressSanitizer+UBSan (gcc, and clang -O2 in thorough) and MemorySanitizer (clang) run the same enumeration.")

prop("C11", "Native calls are independent of earlier and interleaved calls",
     "The outcome of every native call (return code, every output byte, generator state) depends only on its arguments and the state of the deterministic generator: not on the calls before it, on what the stack or static memory holds, or on another call, of any operation and scheme, that runs in the middle of it.",
     ["histories", "schedules"], "all sequences of operations up to a depth; a second operation at every basic block of the first (one preemption)",
     "KAT programs run one operation at a time in one fixed order; a result left in memory by an earlier call, or a shared buffer, is never exposed.",
     [SRC + "nist.c", SRC + "nist16.c", SRC + "epervier16.c", SRC + "vrfy.c", SRC + "keygen.c", SRC + "shake.c", SRC + "keccak_prng.c", SRC + "katrng.c"],
     [("buffers of the signing and verifying functions", SRC + "nist.c, nist16.c, epervier16.c"), ("generator state", SRC + "katrng.c")],
     "stateless model checking of the real code under a controlled scheduler: all operation sequences to a depth, and all single preemptions at basic-block boundaries", "exploration",
     "Basic-block hooks (-fsanitize-coverage=trace-pc) run the second operation inside the first; one preemption, the second operation is atomic.",
     state=[("DRBG_ctx", "deterministic generator", SRC + "katrng.c")])

prop("C09", "Native key generation returns the first acceptable candidate, complete",
     "For every randomness and every degree 2..1024, native key generation draws (f, g) from exactly the specified distribution and returns a candidate only if it meets every condition of the specification "
     "(coefficient ranges, odd resultants, both norm bounds, f invertible modulo q, coprime resultants); no candidate meeting them is passed over unless the fixed-size solver gives up. "
     "The key then satisfies f*G - g*F = q exactly, F and G are reduced and fit the key format, h*f = g, and the result does not depend on which outputs are asked for. "
     "The public key-pair functions encode exactly that key for each seed, and refuse seeds shorter than 32 bytes.",
     ["inputs", "histories"], "hash-output streams, scripted candidates on both sides of every condition, all edges of the sampling table, redrawn coefficients at every position, all seed lengths in a range",
     "KATs fix 100 keys of one degree; none is near a bound, has a non-invertible f or an over-long F, or meets a table edge.",
     [SRC + "keygen.c", SRC + "nist.c", SRC + "nist16.c", SRC + "epervier16.c"], [("keygen rejection loop", SRC + "keygen.c"), ("mkgauss", SRC + "keygen.c"), ("solve_NTRU", SRC + "keygen.c")],
     EXH, "exploration", "The hash output is replaced at link time by an enumerated tape; the oracle is exact integer arithmetic (vf/ntru.py). At degrees 8, 32, 512 and 1024, and for resultants equal to 1, the reference solver itself gives up on some solvable candidates, so passing over is not judged there.")

prop("P14", "Python key generation is exact and agrees with the specification",
     "For every pair (f, g) the Python NTRU solver ends, returns integer F, G with f*G - g*F = q exactly, reduced with respect to (f, g), when the resultants are coprime, and refuses otherwise; its ring helpers (product, conjugate, norm, lift, extended gcd) are exact for integers of any size. "
     "Key generation from a randomness stream returns the first candidate that meets the specification's conditions, the same draw as the native generator, with F and G that fit the key format.",
     ["inputs", "histories"], "all small (f, g) of degrees 1, 2 and 4, all monomial products, all integer pairs in a square, candidates on both sides of each condition, all redrawn coefficients",
     "Tests generate a few random keys; ties in rounding, common factors and over-long keys are hardly ever met.",
     [PY + "ntrugen.py", PY + "mkgauss.py"], [("ntru_solve and reduce", PY + "ntrugen.py"), ("ntru_gen", PY + "ntrugen.py"), ("poly_small_mkgauss", PY + "mkgauss.py")],
     EXH, "exploration", "Exhaustive for the small-degree spaces; the oracle is vf/ntru.py.")
