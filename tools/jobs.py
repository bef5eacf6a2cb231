"""The contracts that decide each property: entry points of /verif/contracts with their
concrete parameters (lengths and choices; everything else is symbolic)."""

META = {}
_J = {}

def prop(pid, level="proof", **kw):
    META[pid] = dict(level=level, **kw)
    def deco(f):
        _J[pid] = f
        return f
    return deco

def j(entry, *params, **kw):
    return dict(entry=entry, params=list(params), **kw)

def jobs(pid, tier):
    return list(_J[pid](tier))

def nat(entry, *params, trials=1, time=60, **kw):
    """a bounded stand-in: the contract executed on given or pseudo-random inputs"""
    return j(entry, *params, native=True, trials=trials, time=time, **kw)

@prop("H01", level="other", bounds="message contents: none; every length 0..130 bytes (all residues of the block, one and two padding blocks). Bounded, executed and not proved: messages of 2^29+3 and 2^32+5 bytes (digests computed with OpenSSL), pseudo-random messages of up to 100000 bytes")
def _h01(tier):
    for h in ("md5", "sha1", "sha224", "sha256", "sm3"):
        for n in range(0, 131):
            yield j("h_" + h, n)
    for i, h in enumerate(("md5", "sha1", "sha224", "sha256", "sm3")):
        yield nat("n_long", i, 1, cost=30, time=200)
        for k in (1000, 5000, 65537, 100000):
            yield nat("h_" + h, k, trials=3)

AESNI = ["the Intel AES instructions (aesenc, aesenclast, aesdec, aesdeclast, aesimc, aeskeygenassist) behave as modelled in irv/src/aesni.rs (assumed contracts; agreement with the CPU is exercised by the native replays)"]

@prop("C01", trust=AESNI, bounds="none on keys and blocks: every key of each length and every block symbolically; invalid lengths up to 64 bytes")
def _c01(tier):
    for kl in (16, 24, 32):
        for d in (0, 1):
            yield j("c_aes", kl, d, cost=5)
            yield j("c_aes_fixed", kl, d, cost=5)
            yield j("c_aes_portable", kl, d, cost=5)
    for e in ("c_aes_bad", "c_aes_portable_bad"):
        for kl in range(0, 65):
            if kl not in (16, 24, 32):
                yield j(e, kl, 16)
        for kl in (16, 24, 32):
            for bl in range(0, 65):
                if bl != 16:
                    yield j(e, kl, bl)

@prop("C02", bounds="none on keys and blocks; invalid block lengths up to 64 bytes (key lengths are fixed by the type)")
def _c02(tier):
    for d in (0, 1):
        yield j("c_des", d, cost=5)
        yield j("c_tdes", d, cost=5)
    for bl in range(0, 65):
        if bl != 8:
            yield j("c_des_bad", bl)

@prop("C03", bounds="none on keys and blocks; invalid lengths up to 64 bytes")
def _c03(tier):
    for d in (0, 1):
        yield j("c_sm4", d, cost=5)
    for kl in range(0, 65):
        if kl != 16:
            yield j("c_sm4_bad", kl, 16)
    for bl in range(0, 65):
        if bl != 16:
            yield j("c_sm4_bad", 16, bl)

@prop("H02", level="other", bounds="message contents: none; message lengths 0..258 bytes for SHA-384/512 and the named truncations (every residue of the block, one and two padding blocks); every admissible t at lengths 0, 3 and 112, selected t at more lengths. Bounded, executed and not proved: messages of 2^29+3 and 2^32+5 bytes (digests computed with OpenSSL), pseudo-random messages of up to 100000 bytes")
def _h02(tier):
    for h in ("sha384", "sha512"):
        for n in range(0, 259):
            yield j("h_" + h, n)
    for t in (224, 256):
        for via in (0, 1, 2, 3):
            for n in list(range(0, 4)) + [55, 64, 110, 111, 112, 113, 119, 120, 127, 128, 129, 239, 240, 255, 256, 257]:
                yield j("h_sha512t", t, n, via)
    for t in range(1, 512):
        if t != 384:
            yield j("h_sha512t", t, 3, t & 2)
            if tier == "thorough" or t % 8 == 0 or t % 16 == 5:
                yield j("h_sha512t", t, 0, 0)
                yield j("h_sha512t", t, 112, 2)
    yield j("h_sha512t_bad")
    for i in (5, 6, 7, 8):
        yield nat("n_long", i, 1, cost=30, time=200)
    for h in ("sha384", "sha512"):
        for k in (1000, 5000, 65537, 100000):
            yield nat("h_" + h, k, trials=3)

WIDTHS = (25, 50, 100, 200, 400, 800, 1600)

@prop("H03", level="other", bounds="states, message contents: none; all seven widths with the standard number of rounds and with 1 and more than 12+2l rounds; SHA-3/SHAKE messages of every length up to one block plus 2 and around two blocks; output lengths listed in tools/jobs.py up to two squeezed blocks. Bounded, executed and not proved: pseudo-random messages of up to 4099 bytes, outputs of up to 20000 bits")
def _h03(tier):
    for b in WIDTHS:
        l = (b // 25).bit_length() - 1
        for nr in (12 + 2 * l, 1, 24, 10, 12 + 2 * l + 3):
            yield j("k_permutation", b, nr, nr & 1, cost=b * nr // 4000)
        yield j("k_rates", b, cost=2)
        n = (b + 7) // 8
        for k in (0, 1, n - 1):
            if k < n:
                yield j("k_short", b, k)
    yield j("k_params")
    for b, r in ((25, 1), (25, 24), (50, 8), (100, 64), (200, 136), (200, 199), (400, 144), (800, 544)):
        for bits in (0, 1, 7, 8, r - 2, r - 1, r, r + 1, 2 * r - 1):
            if bits >= 0:
                yield j("k_sponge", b, 12, r, bits, 2 * r + 3 if bits & 1 else r)
    for bits in (0, 5, 1025, 1026, 1027):
        yield j("k_sponge", 1600, 24, 1027, bits, 100 if bits else 1100, cost=6)
    for t in (224, 256, 384, 512):
        r = 200 - t // 4
        ns = set(range(0, r + 3)) | {2 * r - 1, 2 * r, 2 * r + 1}
        if tier == "thorough":
            ns |= set(range(0, 2 * r + 3))
        for n in sorted(ns):
            yield j("k_sha3", t, n, n & 1, cost=3 + n // r)
        for n in (0, 1, r - 1, r):
            yield j("k_sha3", t, n, 1 - (n & 1), cost=3 + n // r)
    for t in (128, 256):
        r = 200 - t // 4
        ns = {0, 1, 2, 3, 8, 31, r - 3, r - 2, r - 1, r, r + 1, 2 * r - 1, 2 * r}
        if tier == "thorough":
            ns |= set(range(0, r + 3))
        for n in sorted(ns):
            for kind in (0, 1):
                yield j("k_shake", t, kind, n, 2 * t, cost=3 + n // r)
        for w in (0, 1, 7, 8, 9, 63, 100, 8 * r - 1, 8 * r, 8 * r + 1, 16 * r + 5):
            for kind in (0, 1):
                yield j("k_shake", t, kind, 5, w, cost=4 + w // (8 * r))
    for t in (224, 256, 384, 512):
        for k in (300, 577, 1000, 4099):
            yield nat("k_sha3", t, k, k & 1)
    for t in (128, 256):
        for kind in (0, 1):
            for k, w in ((0, 20000), (7, 4001), (1000, 8192), (4099, 512)):
                yield nat("k_shake", t, kind, k, w)

H04B = {0: 64, 1: 64, 2: 64, 3: 64, 4: 128, 5: 128, 6: 128, 7: 128, 8: 128, 9: 64, 20: 64, 21: 64, 22: 64, 23: 128, 24: 128, 25: 128, 26: 128, 27: 128}

@prop("H04", level="other", bounds="contents: none; histories: every pair of writes with the first up to one block plus one and the second up to one block plus two bytes (MD5, SHA-1, SHA-224/256, SHA-512, SM3), four writes of lengths around the block boundaries, two digests, a reset at either point and a further message; no input between a digest and the next reset. Bounded, executed and not proved: pseudo-random histories with writes of up to 300 blocks")
def _h04(tier):
    for i in (0, 1, 2, 3, 9):
        for lo in range(0, 66, 6):
            yield j("h_split2", i, lo, min(lo + 5, 65), 66, 1, cost=3)
    for lo in range(0, 130, 5):
        yield j("h_split2", 5, lo, min(lo + 4, 129), 130, 1 if tier == "thorough" else 3, cost=5)
        yield j("h_split2", 4, lo, min(lo + 4, 129), 130, 13, cost=2)
    for i, b in H04B.items():
        p = b - b // 8
        vs = [(0, 0, 0, 0), (1, b - 1, 0, 1), (0, b, 0, b), (b, b, 1, 0), (b - 1, 2, b - 1, b + 1), (3, 0, p - 4, 0), (p, 0, 0, 0), (p - 1, 1, b, 0), (2 * b, 1, 0, b - 1), (b + 1, b - 1, 0, 5), (1, 2 * b, 1, 2 * b + 3), (b // 2, b // 2, b // 2, b // 2), (5, b - 6, 1, p)]
        for k, v in enumerate(vs):
            for mid in (0, 1):
                yield j("h_history", i, *v, (0, 3, p, b, b + 1)[(k + mid) % 5], mid)
    for i in (10, 11, 12, 13, 14, 15, 16, 17, 30, 31, 32, 33):
        r = {10: 144, 11: 136, 12: 104, 13: 72, 14: 168, 15: 136, 16: 168, 17: 136, 30: 144, 31: 136, 32: 104, 33: 72}[i]
        yield j("h_history", i, 0, 1, 0, 2, 3, 0, cost=6)
        yield j("h_history", i, r - 3, 0, 2, 1, 4, 0, cost=8)
        yield j("h_history", i, 3, 4, 0, 0, 5, 1, cost=5)
        if tier == "thorough":
            yield j("h_history", i, r, r, 1, 0, 0, 0, cost=15)
            yield j("h_history", i, 1, r - 1, r - 1, 0, r, 1, cost=15)
    for i in (14, 15, 16, 17):
        yield j("h_xof_len", i, 256, 64, 3, cost=5)
        yield j("h_xof_len", i, 31, 1500, 3, cost=9)
    for i, b in H04B.items():
        for v in ((1000, 3000, 17, 4096, 700, 1), (b * 16, b * 5, 1, b * 33 - 1, b * 7, 0), (b * 300 + 1, 0, b * 4, 5, 1, 1)):
            yield nat("h_history", i, *v, trials=3)

@prop("M01", level="other", bounds="keys, messages: none on contents; hash: any (uninterpreted function of its input); key lengths 0..B+3 and 2B for B = 64 and B = 128, selected lengths for other B; messages up to B+1 bytes. Bounded, executed and not proved: pseudo-random keys and messages of up to 5000 bytes", assume=["the underlying hash object follows the Digest contract (checked for the crate's hashes by H01-H04)"])
def _m01(tier):
    for b, l in ((64, 32), (128, 64), (64, 16), (144, 28), (5, 5), (1, 1)):
        kls = set(range(0, b + 4)) | {2 * b, 2 * b + 1}
        for kl in sorted(kls):
            yield j("m_hmac", b, l, kl, kl % 3, (kl * 7) % 5, (kl * 5 + 1) % (b + 3), 15)
        for kl in (0, 1, b - 1, b, b + 1):
            for k2 in (0, b - 1, b, b + 1, l, b + 9):
                for how in (1, 2, 4, 6, 12, 10):
                    yield j("m_hmac", b, l, kl, 2, 3, k2, how)
            for a, c in ((0, 0), (0, 1), (b - 1, 0), (b, 0), (b, 1), (1, b)):
                yield j("m_hmac", b, l, kl, a, c, 3, 15)
            yield j("m_hmac_empty", b, l, kl)
    for b, l in ((64, 32), (128, 64)):
        for kl in (3 * b, 1000, 5000):
            yield nat("m_hmac", b, l, kl, 3000, 700, kl + 1, 15, trials=5)
            yield nat("m_hmac", b, l, 5, kl, 0, kl, 15, trials=5)

@prop("M02", level="other", bounds="messages: none on contents; cipher: any permutation of the block (uninterpreted); all message lengths up to 3 blocks plus 1 in every split into two writes, and selected three-way splits. Bounded, executed and not proved: pseudo-random messages of up to 780 blocks", assume=["the underlying cipher follows the Cipher contract (checked for the crate's ciphers by C01-C03)"])
def _m02(tier):
    for b in (8, 16):
        for n in range(0, 3 * b + 2):
            for x in range(0, n + 1):
                if b == 8 or x % 4 == n % 4 or x % b in (0, 1, b - 1) or tier == "thorough":
                    yield j("m_cmac", b, x, n - x, 0, (n + x) % (2 * b + 2))
        for x in (0, 1, b - 1, b, b + 1):
            for y in (0, 1, b - 1, b, b + 1, 2 * b):
                for z in (1, b - 1, b, b + 1):
                    yield j("m_cmac", b, x, y, z, (x + y + z) % (b + 2))
    for b in list(range(1, 20)) + [30, 33, 127, 129, 255, 257]:
        if b not in (4, 6, 8, 12, 16, 20, 24, 28, 32, 40, 48, 56, 64, 96, 128, 256):
            yield j("m_cmac_bad", b)
    for b in (8, 16):
        for x, y, z in ((1000, 24, 0), (1024, 0, 7), (300 * b, 1, b), (17, 4096, 33), (260 * b, 260 * b, 260 * b)):
            yield nat("m_cmac", b, x, y, z, 1000, trials=5)

ZUCT = ["the ZUC S-box tables of the specification (contracts/src/spec/tables.rs)"]

@prop("Z01", level="other", trust=ZUCT, bounds="keys, vectors, data: none on contents; keystream of 64 words (thorough 400); data up to 24 bytes in every split into three calls of up to 8 bytes. Bounded, executed and not proved: pseudo-random data of up to 8000 bytes, 5000 words of key stream")
def _z01(tier):
    yield j("z_addm")
    for via in (0, 1, 2):
        yield j("z_stream", 64 if tier == "quick" else 400, via, cost=5)
    for kl in range(0, 33):
        for il in (0, 15, 16, 17, 32):
            if (kl, il) != (16, 16):
                yield j("z_bad", kl, il)
    for a in range(0, 9):
        for b in range(0, 9):
            for c in (0, 1, 2, 3, 4, 5, 8):
                yield j("z_cipher", a, b, c, (a + b + c) & 3)
    yield j("z_cipher", 61, 3, 64, 0)
    yield j("z_cipher", 64, 3, 1, 3)
    for v in ((1000, 3, 4096), (1023, 1, 5), (4097, 4097, 2), (1, 8000, 3)):
        for how in range(4):
            yield nat("z_cipher", *v, how, trials=5)
    for via in (0, 1, 2):
        yield nat("z_stream", 5000, via, trials=5)

@prop("Z02", level="other", trust=ZUCT, bounds="keys, vectors, messages: none on contents; message lengths up to 34 bytes in splits into three writes of up to 9 bytes, with and without a preceding message and reset. Bounded, executed and not proved: pseudo-random messages of up to 8000 bytes")
def _z02(tier):
    yield j("z_addm")
    for n in range(0, 35):
        yield j("z_mac", n, 0, 0, n & 7)
        yield j("z_mac", 0, n, 0, (n + 1) & 7)
    for a in range(0, 10):
        for b in range(0, 10):
            for c in (0, 1, 2, 3, 4, 5):
                yield j("z_mac", a, b, c, (a + 3 * b + c) & 7)
    yield j("z_mac", 61, 3, 64, 0)
    for v in ((1000, 3, 4096), (1023, 1, 5), (4097, 4095, 2), (1, 8000, 3)):
        for how in range(8):
            yield nat("z_mac", *v, how, trials=5)

ANYC = ["the underlying cipher follows the Cipher contract (checked for the crate's ciphers by C01-C03); it is otherwise arbitrary: an uninterpreted permutation of its blocks"]

def _modes(b, pads=(0, 1, 2)):
    """(mode, s, padding): ECB, CBC, CFB with every segment size, OFB, CTR with counters of several widths"""
    for m in (0, 1):
        for pk in pads:
            yield m, 1, pk
    for s in range(1, b + 1):
        if b % s == 0:
            for pk in pads:
                yield 2, s, pk
        elif 0 in pads:
            yield 2, s, 0
    yield 3, 1, 0
    for w in (b, b + 1, 2 * b + 1):
        yield 4, w, 0

@prop("B01", level="other", assume=ANYC, bounds="cipher, keys, vectors, counters, message contents: none; block sizes 16, 8, 4, 3 and 1; every message length up to three blocks plus one; every segment size; no padding, the crate's padding and a foreign padding of more than a block. Bounded, executed and not proved: pseudo-random messages of 20 and 300 blocks")
def _b01(tier):
    for b in (16, 8, 4, 3, 1):
        yield j("b_new", b)
        for m, s, pk in _modes(b):
            for n in range(0, 3 * b + 2):
                if b < 16 or tier == "thorough" or m != 2 or s in (1, 4, 16) or n % 5 == s % 5:
                    yield j("b_enc", m, b, s, pk, n)
    for b in (16, 8):
        for m, s, pk in _modes(b):
            for k in (20 * b, 20 * b + b - 1, 300 * b, 300 * b + 1):
                yield nat("b_enc", m, b, s, pk, k, trials=3)

@prop("B02", level="other", assume=ANYC, bounds="cipher, vectors, contents: none; block size 4: every message of up to three pieces with the first two up to five bytes, all modes and paddings, output drawn off at different points; block sizes 8 and 16: pieces around the block boundaries; each followed by further messages on the same object, with and without a reset. Bounded, executed and not proved: pseudo-random streams of up to 300 blocks")
def _b02(tier):
    for m, s, pk in _modes(4):
        for x in range(0, 6):
            for y in range(0, 6):
                for z in (0, 1, 4, 5) if tier == "quick" else range(0, 10):
                    yield j("b_enc_stream", m, 4, s, pk, x, y, z, (x + 3 * y + z) & 7)
                    if pk != 2 and (m != 4 or s == 4):
                        if pk == 0 or (x + y + z) % s == 0 or z == 1:
                            yield j("b_dec_stream", m, 4, s, pk, x, y, z, (x + y + 3 * z) & 7)
    for b in (8, 16):
        for m, s, pk in _modes(b):
            if m == 2 and s not in (1, b // 2, b, 3):
                continue
            for k, (x, y, z) in enumerate(((0, 0, 0), (1, 0, 0), (b, 0, 0), (b - 1, 1, 0), (b - 1, 2, b - 1), (b, b, b), (1, b, b - 1), (b + 1, b - 1, 1), (2 * b, 0, 3), (3, 2 * b, 0), (b // 2, b // 2, b // 2), (0, 2 * b - 1, 1))):
                yield j("b_enc_stream", m, b, s, pk, x, y, z, k & 7)
                if pk != 2:
                    yield j("b_dec_stream", m, b, s, pk, x, y, z, k & 7)
    for b in (16, 8):
        for m, s, pk in _modes(b):
            for v in ((20 * b, 3, 30 * b - 3), (1, 300 * b, 5), (17 * b + 1, 0, 19 * b - 1), (5 * b, 5 * b, 260 * b)):
                yield nat("b_enc_stream", m, b, s, pk, *v, v[0] & 7, trials=3)
                if pk != 2 and (m != 4 or s == b):
                    yield nat("b_dec_stream", m, b, s, pk, *v, v[0] & 7, trials=3)

@prop("B03", level="other", assume=ANYC, bounds="cipher, vectors, messages, ciphertexts: none on contents; block sizes 16, 8, 4, 3 and 1; every message and ciphertext length up to three blocks plus one; every segment size; no padding and the crate's padding. Bounded, executed and not proved: pseudo-random messages and ciphertexts of 20 and 300 blocks")
def _b03(tier):
    for b in (16, 8, 4, 3, 1):
        for m, s, pk in _modes(b, (0, 1)):
            for n in range(0, 3 * b + 2):
                if b < 16 or tier == "thorough" or m != 2 or s in (1, 4, 16) or n % 5 == s % 5:
                    yield j("b_inv", m, b, s, pk, n)
                    yield j("b_dec", m, b, s, pk, n)
    for b in (16, 8):
        for m, s, pk in _modes(b, (0, 1)):
            for k in (20 * b, 20 * b + b - 1, 300 * b, 300 * b + 1):
                yield nat("b_inv", m, b, s, pk, k, trials=3)
                yield nat("b_dec", m, b, s, pk, k, trials=3)

@prop("B04", level="other", bounds="data: none on contents; block sizes 1 to 20 and 32; every length up to three blocks plus one (unpadding: up to two blocks plus one). Bounded, executed and not proved: pseudo-random data for block sizes up to 255")
def _b04(tier):
    for b in list(range(1, 21)) + [32]:
        for n in range(0, 3 * b + 2):
            yield j("b_pad", b, n)
        for n in range(0, 2 * b + 2):
            yield j("b_unpad", b, n)
    for b in (64, 100, 128, 200, 254, 255):
        for k in (0, 1, b - 1, b, b + 1, 5 * b + 3):
            yield nat("b_pad", b, k, trials=5)
            yield nat("b_unpad", b, k, trials=20)

@prop("B05", level="other", assume=ANYC, bounds="counter values: none; widths of 1 to 20 bytes, up to four steps from an arbitrary value (every value is reached as an initial one); CTR over up to three blocks, block sizes 1, 3, 4, 8, 16, counters up to 2B+1 bytes. Widths that are not whole bytes are not covered. Bounded, executed and not proved: key streams of 300 blocks")
def _b05(tier):
    for w in range(1, 17):
        yield j("b_inc", w, cost=3)
    for w in range(1, 21):
        for n in range(0, w + 3):
            yield j("b_counter", w, n, 4 if w < 9 else 2)
    for b in (1, 3, 4, 8, 16):
        for w in (b, b + 1, 2 * b + 1):
            for n in range(0, 3 * b + 2):
                yield j("b_ctr_any", b, w, n)
                yield j("b_enc", 4, b, w, 0, n)
                if n % 3 == 0:
                    yield j("b_enc_stream", 4, b, w, 0, n // 3, n // 2, n - n // 3 - n // 2, n & 7)
    for b in (8, 16):
        for w in (b, b + 1, 2 * b + 1):
            for k in (260 * b, 300 * b + 5):
                yield nat("b_ctr_any", b, w, k, trials=5)

RSA = ["the hash is an arbitrary function (uninterpreted) with the Digest interface; the RSA functions with e and d are an arbitrary pair of inverse permutations of the numbers below the modulus: calls of rmath's modular exponentiation with the key's exponents are answered by ghost state (property R05 covers what decides the real values); integer conversion, comparison and everything else of rmath is the real code",
       "private keys come from the guarded constructor verif_key (cfg rcrypto_verif); blinding is off (its effect on the value is R05's subject)"]

def _lens(k):
    return [8 * k - i for i in range(8)]

@prop("R01", level="other", assume=RSA, bounds="hash, labels, messages, seeds, ciphertexts, decrypted blocks: none on contents. Hash lengths 1, 2 (all combinations) and 4; modulus lengths of 2l+3 to 2l+6 bytes, every modulus bit length within the byte, three shapes of modulus values; every message length up to one too long; labels of 0 to 3 bytes; every number of leading zeros of RSA values; ciphertexts of every length up to k+2")
def _r01(tier):
    for l, ks in ((1, (5, 6, 8)), (2, (7, 8, 10)), (4, (11,))):
        for k in ks:
            for i, bits in enumerate(_lens(k)):
                if l == 4 and i > 1:
                    continue
                for ml in range(0, k - 2 * l):
                    if i < 2 or ml % 3 == i % 3 or tier == "thorough":
                        yield j("r_oaep_enc", bits, i % 3, l, (ml + i) % 4, ml, (ml + i) % k if i else 0, (ml + i) & 3)
            for z in range(0, k + 1):
                for i in ((0, 1, 3, 7) if z < 3 else (z % 8,)) if l < 4 else (0,):
                    if not (i == 7 and z == 0) or True:
                        yield j("r_oaep_dec", 8 * k - i, (z + i) % 3, l, (z + i) % 4, z, k, cost=5 if l == 4 else 2)
            for cl in range(0, k + 3):
                if cl != k:
                    yield j("r_oaep_dec", 8 * k - cl % 8, cl % 3, l, 1, cl % 2, cl)
            yield j("r_oaep_enc", 8 * k, 0, l, 0, 0, k - 1, 0)
            yield j("r_oaep_enc", 8 * k, 0, l, 0, 0, k, 0)
        yield j("r_oaep_enc", 8 * (2 * l + 2), 0, l, 0, 0, 0, 0)
    yield j("r_oaep_twice", 56, 1, 1, 1, 2, cost=5)
    yield j("r_oaep_twice", 72, 2, 0, 2, 1, cost=5)
    yield j("r_public_only", 0, 200)

@prop("R02", level="other", assume=RSA[:1] + RSA[1:], bounds="messages, random streams, ciphertexts, decrypted blocks: none on contents. Modulus lengths 11 to 17 bytes, every bit length within the byte, three shapes of modulus values; every message length up to one too long; zero random bytes: none, each single position, pairs and longer runs; every number of leading zeros of RSA values; ciphertexts of every length up to k+2")
def _r02(tier):
    for k in (11, 12, 13, 14, 16, 17):
        for ml in range(0, k - 9):
            for i in (0, (ml + k) % 7 + 1):
                w = (k + 3) // 4 + 2
                pats = [0, 1, 1 << (k - ml - 4), 3, 0xf, 0xf0, 0xff, 0x1111, 1 << (ml % 8), 0x3fc]
                for n, p in enumerate(pats):
                    if i == 0 or n % 3 == ml % 3:
                        yield j("r_pkcs1_enc", 8 * k - i, (ml + i) % 3, ml, (ml + n) % (k + 1) if n % 2 else 0, w, p)
        for n in range(0, k):
            yield j("r_pkcs1_enc", 8 * k, 0, 1, 0, (k + 3) // 4 + 1, 1 << n)
            if tier == "thorough":
                for q in range(0, n):
                    yield j("r_pkcs1_enc", 8 * k, 0, 1, 0, (k + 3) // 4 + 2, (1 << n) | (1 << q))
        for w in range(0, 3):
            yield j("r_pkcs1_enc", 8 * k, 0, 0, 0, w, 0)
        if k > 11:
            for z in range(0, k + 1):
                for i in (0, 1, 7) if z < 3 else (z % 8,):
                    yield j("r_pkcs1_dec", 8 * k - i, (z + i) % 3, z, k, cost=3)
            for cl in range(0, k + 3):
                if cl != k:
                    yield j("r_pkcs1_dec", 8 * k - cl % 8, cl % 3, 1, cl)
    yield j("r_public_only", 1, 200)

@prop("R03", level="other", assume=RSA[:1] + RSA[1:], bounds="signatures, recovered blocks, messages: none on contents. All six supported hashes; message lengths 0, 3 and (signing) 64, 119; modulus lengths from one byte too short to three bytes more than the shortest, several bit lengths and modulus values; leading zeros of RSA values: 0 to 3, k-1 and k; signature lengths k-2 to k+2 and 0. Recovered blocks that share the first two bytes with the modulus are left out (their first byte is not zero)")
def _r03(tier):
    t = (34, 35, 47, 51, 67, 83)
    for h in range(6):
        k0 = t[h] + 11
        for k in (k0 - 1, k0, k0 + 1, k0 + 2):
            for i, ml in enumerate((0, 3, 64, 119)):
                if h < 2 or k == k0 or i == k % 4 or tier == "thorough":
                    yield j("r_pkcs1_sign", h, 8 * k - (i + k) % 8, i % 3, ml, (i * 5) % 4 if i else 0, i & 1, cost=2)
            for z in (0, 1, 2, 3, k - 1, k):
                if z == 1 or k == k0 or tier == "thorough":
                    yield j("r_pkcs1_verify", h, 8 * k - (z + k) % 8 if z < 3 else 8 * k, z % 3, 3 if h % 2 else 0, z, k, 0 if z < 2 else 99, cost=20 + h)
            if k == k0:
                for sl in (0, k - 2, k - 1, k + 1, k + 2):
                    yield j("r_pkcs1_verify", h, 8 * k, 0, 3, 1, sl, 0, cost=4)
                for zs in (1, 2, 5, k - 1, k):
                    if h < 2:
                        yield j("r_pkcs1_verify", h, 8 * k - 1, 2, 0, 1, k, zs, cost=20)
    yield j("r_pkcs1_other_hash", 3)
    yield j("r_public_only", 2, 400)

@prop("R04", level="other", assume=RSA, bounds="hash, messages, salts, signatures, recovered blocks: none on contents. Hash lengths 1, 2 and 4; modulus lengths of l+2 to l+7 bytes, every bit length within the byte, three shapes of modulus values; default, longest and every fitting salt length; messages of 0 to 3 bytes; every number of leading zeros of RSA values; signatures of every length up to k+2")
def _r04(tier):
    for l, ks in ((1, (4, 5, 7)), (2, (5, 6, 7, 9)), (4, (10, 11))):
        for k in ks:
            for i, bits in enumerate(_lens(k)):
                el = (bits - 1 + 7) // 8
                opts = [99, 0] + list(range(1, el - l))
                for n, s in enumerate(opts):
                    if l == 4 and (i + n) % 4:
                        continue
                    if i > 1 and (n + i) % 3 and tier != "thorough":
                        continue
                    yield j("r_pss_sign", bits, (i + n) % 3, l, s, (i + n) % 4, n % 3 if i else 0, n & 1, cost=2)
                    sl = l if s == 99 else max(0, el - l - 2) if s == 0 else s
                    if el >= l + sl + 2:
                        for z in range(0, k + 1):
                            if (l < 4 and (z + n + i) % 4 == 0 or z < 2 and i in (0, 1, 7)) or tier == "thorough":
                                yield j("r_pss_verify", bits, (z + n) % 3, l, s, (i + z) % 4, z, k, 99 if k < 7 else 0, cost=4)
                        if sl > 0 and n == 1:
                            yield j("r_pss_sign", bits, 0, l, s, 1, 0, 2)
                if i in (0, 1):
                    for gl in range(0, k + 3):
                        if gl != k:
                            if el >= 2 * l + 2:
                                yield j("r_pss_verify", bits, gl % 3, l, 99, 1, gl % 2, gl, 99)
    yield j("r_public_only", 3, 200)

RING = ["rmath's arithmetic is executed, not specified: the crate's code is judged by the results it gives with it"]

n = nat

@prop("R05", level="other", assume=RING, technique="bounded: contracts executed exhaustively over small keys, sampled over generated ones", bounds="bounded, nothing proved: every residue under small keys of 2 to 4 primes (listed in tools/jobs.py) with private exponents modulo the least common multiple and modulo the product, with and without precomputed values, blinding (blinding values without inverse and zero included) and copying; key validation with every exponent; generated keys of 2 to 5 primes, 64 to 512 bits, with pseudo-random values")
def _r05(tier):
    sets = ((3, (5, 11)), (3, (11, 5)), (3, (5, 17)), (3, (17, 11)), (3, (23, 5)), (3, (5, 11, 17)), (3, (17, 11, 5)), (3, (11, 17, 5)), (3, (5, 23, 11)), (3, (47, 5, 11)), (3, (5, 11, 47)),
            (3, (5, 11, 17, 23)), (3, (23, 17, 11, 5)), (3, (11, 23, 5, 17)), (5, (3, 7)), (5, (7, 3)), (5, (13, 7)), (5, (3, 13, 7)), (5, (7, 13, 3)), (5, (3, 7, 13, 17)), (7, (11, 13)), (7, (3, 5, 11)), (7, (37, 3, 5)),
            (17, (3, 29)), (11, (13, 19)), (3, (29, 41)), (13, (19, 7, 5)), (3, (251, 5)), (3, (5, 251)), (65537, (257, 271)), (257, (263, 11)))
    for e, ps in sets:
        pr = 1
        for p in ps:
            pr *= p
        for how in range(16):
            if pr > 3000 and tier == "quick" and how not in (1, 3, 6):
                continue
            yield n("n_rsa", *(list(ps) + [0] * (4 - len(ps))), e, how, trials=2 if pr < 9999 else 1, time=120, cost=3 if pr > 3000 else 1)
    for e, ps in sets:
        if len(ps) < 4 and max(ps) < 60:
            yield n("n_rsa_valid", *(list(ps) + [0] * (3 - len(ps))), e)
    for k in (2, 3, 4, 5):
        for bits in (64, 65, 96, 127, 128, 129, 200, 255, 256, 384, 512):
            yield n("n_rsa_gen", k, bits, trials=20 if bits < 300 else 4, time=10, cost=3)
    for k in (0, 1):
        yield n("n_rsa_gen", k, 128)

@prop("D01", level="other", assume=RING, technique="bounded: contracts executed exhaustively over small domains", bounds="bounded, nothing proved: every pair (r,s) up to q+2 for domains with 8-bit q, one in 61 for 16-bit q (thorough); pseudo-random messages, keys and nonces; hash lengths 1, 2, 3 and 20 bytes; generated domains of 1024 and 160 bits")
def _d01(tier):
    def prime(x):
        return x > 1 and all(x % i for i in range(2, int(x ** .5) + 1))
    def domains(q, count):
        k = 2
        while count:
            p = k * q + 1
            if prime(p):
                yield p, q, next(g for g in (pow(h, k, p) for h in range(2, 50)) if g != 1)
                count -= 1
            k += 2
    doms = [d for q in (131, 139, 151, 173, 191, 199, 227, 239, 251) for d in domains(q, 2)]
    for i, (p, q, g) in enumerate(doms):
        for x in (1, 2, q - 1, q // 2 + i, 3 * i + 5):
            for l in (1, 2, 3, 20) if x > 2 else (1, 3):
                yield n("n_dsa", p, q, g, x, l, trials=4 if tier == "quick" else 40, time=30)
    if tier == "thorough":
        for q in (32771, 65521):
            for p, q, g in domains(q, 1):
                for l in (1, 2, 3):
                    yield n("n_dsa", p, q, g, 12345, l, time=600, cost=9)
    for l in (16, 20, 21, 32, 64):
        yield n("n_dsa_gen", l, trials=3, time=10, cost=3)

@prop("E01", level="other", assume=RING, technique="bounded: contracts executed exhaustively over small curves, sampled over the four FIPS curves", bounds="bounded, nothing proved: every pair (r,s) up to n+2 on the curves of prime order over fields of 7 to 31 elements; on P-224, P-256, P-384 and P-521 (generic and specialised code) pseudo-random keys, nonces and messages with hash lengths of 16 to 70 bytes, and altered signatures")
def _e01(tier):
    for p in (7, 11, 13, 17, 19, 23, 29, 31):
        for b in range(1, p):
            for l in (1, 2, 3):
                yield n("n_ecdsa_small", p, b, l, trials=3, time=20)
    for c in range(6):
        for l in (16, 20, 28, 32, 33, 64, 65, 66, 67, 70):
            if tier == "quick" and (c == 2 and l not in (20, 64, 70) or c == 3 and l not in (32, 66, 70)):
                continue
            yield n("n_ecdsa", c, l, trials=1 if c in (2, 3) else 2, time=60, cost=20 if c == 3 else 10 if c == 2 else 3)
        for zeros in (0, 1, 2):
            yield n("n_ec_key", c, zeros, trials=3, time=6, cost=2)

POLY = ["the polynomial back end of irv (irv/src/poly.rs): exact integer polynomials of limbs with z3's linear integer arithmetic for their bounds, congruences by comparing coefficients",
        "that the Jacobian formulas checked against (functions sum and twice in contracts/src/fields.rs) are the chord and tangent law of y^2 = x^3 - 3x + b"]

@prop("E02", level="other", assume=RING, trust=POLY, technique="deductive verification of the P-224 and P-256 field and point functions over the compiler's IR (modular: point formulas behind the proved contracts of products and squares); bounded: the rest of curve arithmetic executed exhaustively over small curves, sampled over the four FIPS curves", bounds="proved, for all limbs within the stated bounds: P-256 product, square, sum, difference, multiples by 3, 4 and 8, sum of points, sum with an affine point, double; P-224 product, square, sum, difference, reduction, unique form, zero test, sum of points (every combination of infinity, equal abscissas, equal ordinates) and double. Bounded, not proved: conversions, inversion, scalar multiplication, generic curves - every point, pair of points and scalar up to twice the order on all curves over fields of 5 to 23 elements, every projective representation up to 13; on the four FIPS curves pseudo-random and special points and scalars (generic and specialised code); domain parameters compared completely")
def _e02(tier):
    for k in range(7):
        yield j("f_p256", k)
    for k in range(6):
        yield j("f_p224", k)
    for k in range(3):
        yield j("f_p224_zero", k, cost=4)
        yield j("f_p256_point", k)
    yield j("f_p224_point", 1, 0)
    for k in range(16):
        yield j("f_p224_point", 0, k)
    for p in (5, 7, 11, 13, 17, 19, 23):
        for b in range(1, p):
            yield n("n_curve", p, b, cost=p // 8)
    for c in range(6):
        yield n("n_params", c)
        yield n("n_group", c, trials=6, time=6, cost=3)
        for w in range(9):
            yield n("n_scalar", c, w, trials=1000, time=4 if tier == "quick" else 100, cost=3)
