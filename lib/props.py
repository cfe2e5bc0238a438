"""The jobs of every property: which harness, with which parameters, under which bounds."""
def J(h, *p, **k):
    d = {'h': h, 'p': list(p)}; d.update(k); return d
PROPS = {}
NOT_APPLICABLE = {}
def prop(pid, bounds, assumptions=(), **kw):
    def deco(f):
        PROPS[pid] = dict(jobs=f, bounds=bounds, assumptions=list(assumptions), **kw)
        return f
    return deco

@prop('C11', 'encode/decode of every byte string of up to 16 bytes (thorough: 70); decoding of every character string of up to 8 (thorough: 12) characters, and of every encoding of up to 4 bytes with white space inserted anywhere')
def c11(tier):
    q = tier == 'quick'
    for n in list(range(0, 13 if q else 40)) + ([16, 33] if q else [48, 49, 50, 64, 70, 96]): yield J('h_base64', 0, n, must=['done'])
    for n in range(0, 9 if q else 13): yield J('h_base64', 1, n, must=['decoded'] if n % 4 == 0 else [], w=n)
    for n in range(0, 4 if q else 7): yield J('h_base64', 2, n, must=['done'], w=n)

@prop('C10', 'one Salsa20 block for every key, nonce and block counter position 0..2 (thorough: 5); the masking of symbolic data under a symbolic key for listed sequences of value lengths that cross the 64-byte key stream blocks')
def c10(tier):
    q = tier == 'quick'
    yield J('h_salsa', 0, 3 if q else 6, must=['done'])
    for s in ([0], [1], [63, 1, 1], [64, 64], [65, 0, 63], [1, 130], [10, 20, 30, 40, 50], [128, 1]): yield J('h_salsa', 1, *(s + [999]), must=['done'])
@prop('C09', 'every 256-bit key and every 128-bit block, all rounds unrolled, for Twofish against an independent definition and for the AES wrapper against the ideal AES permutation')
def c09(tier):
    yield J('h_cipher', 0, 0, must=['done'])
    yield J('h_cipher', 0, 1, must=['done'])
    for w in (0, 1):
        yield J('h_cipher', 3, w, must=['done'])
@prop('C08', 'messages of every length 0..49 for AES (every key, IV and content), of lengths 0..32 for Twofish; ciphertexts of every length up to 48 with arbitrary content')
def c08(tier):
    q = tier == 'quick'
    for n in range(0, 50): yield J('h_cipher', 1, 0, n, must=['done'])
    for n in (0,1,15,16,17,31,32,33,48): yield J('h_cipher', 2, 0, n)
    for n in (0,1,15,16,17,31,32): yield J('h_cipher', 1, 1, n, 1, must=['done'])
    for n in (0,1,16,17,32): yield J('h_cipher', 2, 1, n, 1)

@prop('C01', 'every group tree of up to 6 groups (every position, up to 4 entries anywhere in up to 4 groups), chains of 700 and rows of 1100 groups, 300 entries in a group (thorough: 4000 groups, 1000 entries); every value of every field for text lengths 0..17, 255..257, 1000 and 70000 (long texts symbolic at their ends and middle), every attachment size 0..34 and around 1024, 2048 and 70000, with and without an attachment name; AES with every key, seed and initialisation vector, Twofish with one key and symbolic content; passwords of 0..10 bytes, key file, both in either order; 0..3 rounds; up to 3 save/load cycles. Time zone UTC',
      assumptions=['times from 1970-01-01 00:00:01 to 2105; texts without NUL, which the format uses as terminator'])
def c01(tier):
    q = tier == 'quick'
    D = dict(must=['exported', 'done'])
    h = 'h_kdb'
    yield J(h, 0, 0, 1, 0, 0, 0, **D)
    for kk in (1, 2, 3, 7): yield J(h, 0, 0, kk, kk % 4, 2, 2, **D)
    yield J(h, 0, 0, 3, 3, 1, 3, **D); yield J(h, 0, 0, 1, 0, 3, 3, w=3, **D); yield J(h, 0, 0, 1, 1, 4, 2, w=5, **D); yield J(h, 0, 0, 2, 0, 5, 1, w=9, **D)
    yield J(h, 0, 0, 1, 0, 6, 0, w=9, **D)
    if not q:
        yield J(h, 0, 0, 1, 0, 4, 4, w=30, **D); yield J(h, 0, 0, 1, 0, 5, 3, w=90, **D); yield J(h, 0, 0, 1, 0, 7, 0, w=90, **D)
        for p in range(6): yield J(h, 0, 0, 1, 0, 6, 2, 4, 0, 1, 2, p % 4, w=40, **D)
    lens = [0, 1, 2, 7, 15, 16, 17, 255, 256, 257]
    for i, n in enumerate(lens):
        v = [n, lens[(i + 3) % 10], lens[(i + 5) % 10], lens[(i + 1) % 10], lens[(i + 7) % 10], lens[(i + 9) % 10]]
        yield J(h, 1, 0, (1, 2, 3, 7)[i % 4], i % 4, *(v + [lens[i % 7] + 1, n, 0]), w=2, **D)
    for n in range(0, 35): yield J(h, 1, 0, 1, 1, 1, 2, 0, 3, 4, 1, 3, n, 0, w=2, **D)
    for n in (1, 2, 17, 1024): yield J(h, 1, 0, 1, 0, 1, 1, 0, 0, 1, 0, 0, n, n & 1, w=2, **D)      # an attachment without a name
    for n in (700, 1000, 1023, 1024, 1025, 2047, 2048, 2049): yield J(h, 1, 0, 1, 0, 2, 2, 2, 2, 2, n, 4, 2048 - n % 1000, 0, w=2, **D)
    yield J(h, 1, 0, 3, 1, 1, 2, 3, 4, 5, 6, 99, 0, 2, w=3, **D)       # no attachment, three cycles
    yield J(h, 1, 0, 1, 1, 0, 0, 0, 0, 0, 0, 1, 1, 1, w=3, **D)
    yield J(h, 1, 0, 1, 1, 5, 1, 1, 1, 1, 70000, 1, 70000, 0, w=6, **D)
    yield J(h, 1, 0, 1, 1, 70000, 65535, 1, 1, 65536, 1, 1, 65537, 0, w=6, **D)
    for n, e in ((40, 3), (300, 7)): yield J(h, 2, 0, 1, 0, n, e, w=5, **D)
    yield J(h, 3, 0, 1, 0, 5, 3, **D); yield J(h, 3, 0, 1, 0, 300, 300, w=8, **D); yield J(h, 2, 0, 1, 0, 700, 7, w=9, **D); yield J(h, 3, 0, 1, 0, 1100, 3, w=9, **D)
    if not q: yield J(h, 3, 0, 1, 0, 4000, 3, w=400, **D); yield J(h, 3, 0, 1, 0, 5, 1000, w=40, **D); yield J(h, 2, 0, 1, 0, 1300, 3, w=90, **D)
    for t in range(0, 34, 1 if not q else 3): yield J(h, 4, 1, (1, 2, 3)[t % 3], t % 3, 6, t, **D)

@prop('C03', 'KDB (AES; Twofish for exchanged, removed, repeated and cut parts and the content hash) and KDBX (compressed or not; written by the library, and by an independent codec in blocks of 64 bytes): every value of one byte at every position of the encrypted part and of the content hash (KDB) and at every position of the header, block headers and every 43rd (thorough: every) position of the content (KDBX); every content of each KDBX header field; any 16 bytes at such positions; the whole content hash; truncation to every length; 1 to 17 bytes appended; one byte inserted or removed at the listed positions; every exchange of near cipher blocks, removal and repetition of cipher blocks; a decrypted window of 1..32 bytes changed with its block hash kept',
      assumptions=['SHA-256 is an ideal hash: different data have hashes that differ in each 8-byte word; AES an ideal permutation, and one block under two different keys gives different blocks', 'an altered transform round count is at most 255', 'a block length that becomes garbled is 0..3, 80, 65535 or 2^32 - 1', 'at most 16 consecutive bytes of the encrypted part are altered: with more, an ideal model allows to forge a block and its hash together'])
def c03(tier):
    q = tier == 'quick'; h = 'h_tamper'; R = dict(must=['imported', 'refused'])
    yield J(h, 0, 0, 0, 0, 56, 32, **R); yield J(h, 0, 0, 1, 0, 56, 32, **R)
    for i in range(32): yield J(h, 0, 0, 0, 0, 56 + i, 1, **R)
    st = 60
    for lo in range(124, 1050, st): yield J(h, 0, 0, 0, 0, lo, 1, 1, st, w=5)
    for lo in range(124, 1090, 16 * 8): yield J(h, 0, 0, 0, 0, lo, 16, 16, 8, w=4); yield J(h, 0, 0, 0, 0, lo + 5, 12, 16, 8, w=4)
    for t in (0, 1): yield J(h, 0, 0, t, 1, 0, 0, 1, 2000, w=4, **R); yield J(h, 0, 0, t, 3, 80, w=3, **R); yield J(h, 0, 0, t, 4, 3, **R); yield J(h, 0, 0, t, 5, 0, **R); yield J(h, 0, 0, t, 5, 2, 0, 99 if not q else 25, w=6, **R); yield J(h, 0, 0, t, 7, 124, 1, 7, 200, w=2, **R)
    for n in (1, 2, 15, 16, 17): yield J(h, 0, 0, 0, 2, n, w=5); yield J(h, 1, 0, n & 1, 2, n, w=9); yield J(h, 1, 64, n & 1, 2, n, w=9)
    for p, n in ((124, 8), (140, 8), (300, 4)) if q else ((124, 8), (140, 16), (300, 16), (508, 32)): yield J(h, 0, 0, 0, 8, p - 124, n, w=2)
    for c in (0, 1):
        for s in (0, 64) if c == 0 else (0,):
            yield J(h, 1, s, c, 0, 0, 1, 1, 12, **R)
            for f, (p, n) in enumerate(((12, 16), (31, 4), (38, 32), (73, 32), (108, 8), (119, 16), (138, 32), (173, 32), (208, 4))):
                yield J(h, 1, s, c, 9, f, 32, **R)
                yield J(h, 1, s, c, 0, p, 1, w=2)
                if not q or (f + c + (s > 0)) % 4 == 0: yield J(h, 1, s, c, 0, p + 1, 1, w=40); yield J(h, 1, s, c, 0, p + 2, 1, w=12)
            yield J(h, 1, s, c, 0, 215, 1, 1, 3, w=20)
            if not s: yield J(h, 1, s, c, 9, 9, 4)      # the contents of the last field
            for lo in range(218, 320, 8): yield J(h, 1, s, c, 0, lo, 1, 1, 8, w=6)
            for lo in range(218, 250 if s else 320, 32): yield J(h, 1, s, c, 0, lo, 16, 16, 2, w=6)
            for k in range(8 if q else 40): yield J(h, 1, s, c, 0, 320 + 43 * k if q else 320 + k, 1, 344 if q else 40, 20 if q else 120, w=15)
            if not q:
                for k in range(16): yield J(h, 1, s, c, 0, 320 + 16 * k, 16, 256, 20, w=15)
            yield J(h, 1, s, c, 1, 0, 0, 1, 300, w=3); yield J(h, 1, s, c, 1, 300, 0, 7, 2000, w=8); yield J(h, 1, s, c, 1, 4000, 0, 1, 2000, w=12)
            yield J(h, 1, s, c, 3, 2, w=8); yield J(h, 1, s, c, 4, 2, w=6); yield J(h, 1, s, c, 5, 0, w=3); yield J(h, 1, s, c, 5, 1, w=3); yield J(h, 1, s, c, 5, 2, 3 + c, 3 if q else 20, w=10)
            yield J(h, 1, s, c, 6, 218, 1, 31, 40); yield J(h, 1, s, c, 7, 218, 1, 13, 100, w=3); yield J(h, 1, s, c, 7, 12, 1, 1, 200, w=9)
            if not c:
                for p, n in ((4, 16), (40, 32), (80, 10), (200, 8)) if s or not q else ((4, 16), (80, 4)): yield J(h, 1, s, c, 8, p, n, w=20)
@prop('C04', 'files of 0..172 arbitrary bytes (with arbitrary header, cipher AES for the body); correctly encrypted and hashed files whose decrypted content is 0..24 arbitrary bytes, alone or after well-formed groups; records of up to 3 fields of every type, sizes 0..5 and every content; every announced field size, group and entry count; every time stamp encoding; 3 groups with every id and level of a set with the extreme values, entries in any group; 1 and 2 groups with all ids and levels',
      assumptions=['key transformation rounds of the arbitrary file fixed to 1', 'the raw file body (mode 0) announces no records'])
def c04(tier):
    q = tier == 'quick'; h = 'h_kdbraw'
    for n in (0, 1, 4, 8, 12, 123, 124): yield J(h, 0, n, must=['done'])
    for n in (125, 139, 140, 141, 156, 172): yield J(h, 0, n, 1, 2, must=['done'])
    yield J(h, 0, 124, 1, 8)
    for n in list(range(0, 17)) + ([20] if q else [20, 22, 24, 26]): yield J(h, 1, n, 1, 0, 0, w=n, must=['done'])
    for n in (0, 5, 6, 7, 12): yield J(h, 1, n, 1, 1, 1, w=n, must=['done'])
    for n in (0, 6, 12): yield J(h, 1, n, 2, 0, 1, w=n)
    yield J(h, 1, 3, 0, 0, 0)
    for e in (0, 1):
        yield J(h, 2, e, 0, 0); yield J(h, 2, e, 1, 5, w=10); yield J(h, 2, e, 1, 20 if not q else 17, w=12); yield J(h, 2, e, 2, 4, w=10)
        if not q: yield J(h, 2, e, 2, 6, w=60)
    yield J(h, 2, 0, 3, 2, w=4); yield J(h, 2, 1, 3, 1, w=4)
    yield J(h, 2, 1, 2, 4, 2, 13, 14); yield J(h, 2, 1, 3, 4, 2, 13, 14, w=8); yield J(h, 2, 1, 2, 4, 2, 14, 14); yield J(h, 2, 1, 3, 2, 3, 14, 13, 14)
    for p in ([3, 1, 0, 0], [3, 1, 1, 0], [3, 1, 0, 1], [3, 2, 0, 0], [3, 2, 0, 1], [3, 3, 0, 0, 1], [3, 2, 2, 0, 1], [3, 0, 0, 1], [3, 0, 1, 0]): yield J(h, *p, w=8)
    if not q: yield J(h, 3, 3, 1, 0, 1, w=50); yield J(h, 3, 2, 1, w=60)
    for e in (0, 1):
        for f in range(4): yield J(h, 4, e, f, w=10, must=['imported', 'format error'])
    for e, t, n in ((0, 2, 3), (0, 1, 6), (0, 9, 2), (1, 14, 3), (1, 1, 20), (1, 4, 3), (1, 0, 3)): yield J(h, 5, e, t, n)

def SHAPES(q):
    """Structures of h_kdbx/h_interop (gen::shape): which, variants."""
    return ((0, (0, 6, 9, 15) if q else range(16)), (1, (3, 5, 10, 12) if q else (3, 5, 6, 9, 10, 12, 15)), (2, (0, 1)), (3, (0, 7, 9, 14) if q else range(16)),
            (4, (0, 1)), (5, (1, 2, 4) if q else (1, 2, 3, 4, 5)), (6, (1, 3, 5) if q else (1, 2, 3, 4, 5, 6)), (7, (60,) if q else (60, 300)), (8, (1, 60) if q else (1, 60, 300)), (9, range(16)))
@prop('C02', 'a database with 4 nested groups, 4 entries, 2 history entries, custom fields, auto-type associations, shared and inline attachments, 2 icons, 3 binaries and every reference set, in which one field at a time - each of its 120 texts, 56 time stamps, 31 numbers, groups of 4 flags, 12 ids and 8 binary contents - takes every value: texts of 0..2 (quick: 2 for one text in three; thorough: all up to 3) arbitrary non-NUL bytes, protected or not; times from 1970 to 2105; numbers 0..999 and windows of 256 values next to 2^31, 2^32, 2^63 and below 10^9 (thorough: 0..99999); binary data of 0..20 bytes; ten families of structures (positions of groups, entries and history, references between them, shared, inline and missing attachments and icons, chains and rows of 60, absent metadata; thorough: all variants and sizes of 300); every seed, initialisation vector and key file; passwords of 0..8 bytes; compression on and off; up to 3 cycles',
      assumptions=['unprotected texts do not begin or end with white space (the library trims them)', 'unique ids, non-empty icon data, custom data keys and custom field keys that are not standard names'])
def c02(tier):
    q = tier == 'quick'; h = 'h_kdbx'; D = dict(must=['exported', 'done'])
    for c in (0, 1):
        for kk in (1, 2, 3, 7): yield J(h, 7, 0, 0, 0, c, kk, 2 if kk == 3 else 0, **D)
    for w, ns in SHAPES(q):
        for n in ns: yield J(h, 8, w, n, 0, n & 1, 1, 1 if w in (0, 9) else 0, w=4, **D)
    for i in range(120):
        if i not in (5, 7): yield J(h, 0, i, 0, i & 1, (i >> 1) & 1, 1 + i % 3, **D)
        if not q or i % 2 == 0: yield J(h, 0, i, 1, (i ^ 1) & 1, (i >> 2) & 1, 1, 1, w=2, **D)
        if not q or i % 3 == 1: yield J(h, 0, i, 2, (i >> 1) & 1, i & 1, 1, w=4, **D)
        if not q: yield J(h, 0, i, 2, ((i >> 1) & 1) ^ 1, (i & 1) ^ 1, 1, w=4, **D); yield J(h, 0, i, 3, i & 1, 0, 1, w=12, **D)
    for i in (40,) if q else (): yield J(h, 0, i, 3, 1, 0, 1, w=12, **D)
    for i in range(56):
        if not q or i % 3 == 0 or i < 9: yield J(h, 1, i, 0, 0, i & 1, 1, i % 2, **D)
    for i in range(31):
        yield J(h, 2, i, 1000, 0, 0, 1, **D)
        for b in (1, 2, 3):
            if not q or b == 1 + i % 3: yield J(h, 2, i, 256, b, 1, 1, **D)
        if not q: yield J(h, 2, i, 100000, 0, 0, 1, w=8, **D)
    for i in (1, 2, 4):       # the 64-bit numbers of the metadata
        for b in (4, 5, 6): yield J(h, 2, i, 256, b, 0, 1, **D)
    for i in range(9): yield J(h, 3, i, 0, 0, i & 1, 1, w=3, **D)
    for i in range(12): yield J(h, 4, i, 0, 0, i & 1, 1, **D)
    for i in range(8):
        for n in (1, 3, 20): yield J(h, 5, i, n, 0, (n + i) & 1, 1, **D)
        if i > 1: yield J(h, 5, i, 0, 0, i & 1, 1, **D)
    for n in (0, 1, 32, 70): yield J(h, 6, n, 1 + n % 3, 0, n & 1, 3, **D)
    for kk in (1, 2, 3, 7): yield J(h, 6, 32, kk % 3, 1, kk & 1, kk, 1, **D)

@prop('C05', 'files of 0..15 arbitrary bytes behind or without the signature; headers with 1 (thorough: 2) arbitrary fields of any id and content, of sizes 0,1,4,8,16,32,33, before, instead of or after the regular ones, with up to 48 arbitrary bytes of body; 0..80 arbitrary bytes behind the start bytes, also behind a good block and compressed; in a document with every kind of element: each of the 136 texts and attributes replaced by 1..3 (thorough: 4) arbitrary bytes or with 2 arbitrary bytes at every fourth (thorough: every) position, each of the 162 elements removed, repeated, emptied, renamed or misplaced, and one arbitrary byte at every 40th (thorough: every) position of the XML',
      assumptions=['at most one key transformation round in an arbitrary header field'])
def c05(tier):
    q = tier == 'quick'; h = 'h_kdbxraw'
    for n in (0, 1, 11, 12, 13, 14, 15): yield J(h, 0, n, must=['done']); yield J(h, 0, n, 1, must=['done'])
    for pos in (0, 1, 2):
        yield J(h, 1, 1, pos, 0, 0, w=9, must=['done'])
        for m in ((16, 48) if pos == 2 else (16,)): yield J(h, 1, 1, pos, m, 6 if pos != 2 else 0, w=6)
    yield J(h, 1, 0, 0, 32, 0, 1, must=['password error', 'format error'])
    for a in (range(1, 8) if not q else (3, 5, 6)): 
        yield J(h, 1, 2, 2, 0, a, w=2)
        if not q or a == 3: yield J(h, 1, 2, 1, 0, a, w=15)
    for n in (0, 1, 10, 39, 40, 41, 44, 72, 80): yield J(h, 4, n, 0, 0, 1, w=2, must=['done']); yield J(h, 4, n, 0, 1, 1, w=2); 
    for n in (0, 1, 5, 40, 44): yield J(h, 4, n, 1, 0, 1); yield J(h, 4, n, 1, 1, 1)
    for i in range(0, 136, 4):
        for n in (1, 2, 3) if q else (0, 1, 2, 3): yield J(h, 2, i, n, 0, 4, w=1 << n if n > 1 else 1)
    for i in range(0, 136, 34): yield J(h, 2, i, 0, 0, 34, w=3)
    for i in range(0, 136, 8):
        yield J(h, 2, i, 2, 1, 8, 6 if q else 24, 4 if q else 1, w=6)
        if not q: yield J(h, 2, i, 3, 1, 8, 6, 4, w=30)
    if not q:
        for i in range(136): yield J(h, 2, i, 4, w=9)
    for lo in range(0, 162, 9): yield J(h, 3, lo, lo + 9, w=4, must=['done'])
    if q:
        for lo in range(8): yield J(h, 5, 5 * lo, 40, 156, w=8)
    else:
        for lo in range(40): yield J(h, 5, lo, 40, 156, w=8); yield J(h, 5, lo, 40, 156, 2, w=60)

@prop('C06', 'every data of 0..64 bytes in every split into three writes, block sizes 0, 1, 2, 3, 5, 8, 100 and the default of 1 MiB, sizes around those and 1 MiB (symbolic around the block boundaries), all ways of reading; every content of block stream files of 0..85 bytes; every alteration of one byte, every truncation, exchange, repetition and omission of blocks of a stream of up to 4 blocks, two altered bytes in a block',
      assumptions=['SHA-256 is an ideal hash: different data have different hashes, none is zero'])
def c06(tier):
    q = tier == 'quick'; h = 'h_stream'; D = dict(must=['done'])
    for n in (0, 1, 2, 3, 4, 5, 6, 8) + (() if q else (10, 12)):
        for bs in (0, 1, 2, 3, 5): yield J(h, 0, n, bs, 2, (n + bs) % 6, **D); yield J(h, 0, n, bs, (n + bs) % 5, 2 if n < 6 else 1, **D)
    for i, n in enumerate((16, 33, 63, 64)):
        for bs in (1, 8, 16, 64): yield J(h, 0, n, bs, i if i != 2 else 4, (i + bs) % 6, **D)
    for n in (99, 100, 101, 199, 200, 300, 1000, 4096): yield J(h, 0, n, 100, n % 5, n % 6, **D)
    yield J(h, 0, 300, 4294967295, 0, 5, **D); yield J(h, 0, 1048577, 4294967295, 1, 5, w=50, **D)
    if not q: yield J(h, 0, 1048576, 4294967295, 0, 3, w=50, **D); yield J(h, 0, 1200000, 524288, 1, 1, w=50, **D)
    for n in list(range(0, 46)) + [60, 79, 80, 81]: yield J(h, 1, n, n % 6 if n < 70 or n % 6 != 2 or not q else 3, w=2, **D)
    for n in (41, 81) if q else (41, 42, 81, 82, 83, 84, 85):
        for r in range(6):
            if r != 2 or n < 80 or not q: yield J(h, 1, n, r, w=5, **D)
    for n, bs in ((0, 1), (1, 1), (3, 1), (4, 2), (5, 2), (6, 3), (20, 20)) + (() if q else ((30, 8), (50, 50))):
        yield J(h, 2, n, bs, 0, n % 6, 1, w=4, **D); yield J(h, 2, n, bs, 1, (n + bs) % 6, w=2, **D)
        if n: yield J(h, 2, n, bs, 3, (n + 3) % 6, **D); yield J(h, 2, n, bs, 4, (n + 2) % 6, **D); yield J(h, 2, n, bs, 2, (n + 1) % 6, **D)
        if n >= 4: yield J(h, 2, n, bs, 5, n % 6, **D)
@prop('C07', 'every data of 0..10 bytes in every split into three writes with every way in which the compressor and the decompressor of a zlib contract model may take and give their input and output; sizes up to 300000 (around every multiple of the 16 KiB buffers, expanding and not), with at most seven arbitrary splits; every truncation of streams of up to 30 bytes and every 3rd of longer ones; every stream of up to 8 arbitrary bytes (thorough: 12) with and without the right magic; a failure of every zlib call',
      assumptions=['the compressed format is that of a contract model of zlib (models/zmodel.h), which has a run-length code and a checksum of one byte; zlib itself is not executed symbolically'])
def c07(tier):
    q = tier == 'quick'; h = 'h_stream'; D = dict(must=['done'])
    for n in list(range(0, 11)) + [33, 64]:
        yield J(h, 10, n, 2 if n < 11 else 0, n % 6, 0, **D); yield J(h, 10, n, (n + 1) % 5, 2 if n < 11 else 1, 0, **D)
        if n <= (5 if q else 8): yield J(h, 10, n, n % 2, n % 2, 1, z=1, w=3, **D); yield J(h, 10, n, 2 if n < 4 else 3, (n + 2) % 6, 1, z=1, w=8, **D)
        yield J(h, 10, n, n % 2, n % 6 if n % 6 != 2 else 0, 9, z=1, w=3, **D)
    for i, n in enumerate((1000, 16381, 16383, 16384, 16385, 32766, 32767, 32768, 32769, 40000, 65536, 100000)):
        yield J(h, 10, n, i % 2, (0, 1, 3, 4, 5)[i % 5], 0, 0, w=3, **D); yield J(h, 10, n, (i + 1) % 2, (0, 1, 3, 4, 5)[(i + 2) % 5], 0, 1, w=3, **D)
        if not q or i % 4 == 3: yield J(h, 10, n, 1, 5, 9, i & 1, z=1, w=12, **D)
    yield J(h, 10, 300000, 3, 5, 0, 1, w=6, **D); yield J(h, 10, 1200000 if not q else 400000, 1, 5, 0, 1, w=20, **D)
    for n in (0, 1, 2, 5, 10, 30): yield J(h, 11, n, n % 6 if n % 6 != 2 else 0, 0, 0, 1, 0, **D); yield J(h, 11, n, 5, 9, 0, 1, 0, z=1, w=4, **D)
    for lo, st in ((0, 53), (16300, 3), (16377, 1)): yield J(h, 11, 16500, 5, 0, lo, st, w=6, **D)
    for lo, st in ((0, 601), (32700, 20)): yield J(h, 11, 40000 if q else 60000, 1, 0, lo, st, w=6, **D)
    yield J(h, 11, 40000, 0, 0, 0, 13 if q else 1, 1, w=9, **D)
    for n in range(0, 9 if q else 13): yield J(h, 12, n, (0, 1, 3, 4, 5)[n % 5], 0, 2, z=1, w=n, **D); yield J(h, 12, n, (0, 1, 3, 4, 5)[(n + 2) % 5], 0, 1, z=1, **D); yield J(h, 12, n, 0, 0, 0, z=1, **D)
    for n in range(2, 7 if q else 9): yield J(h, 12, n, 0, 1, 2, z=1, w=n, **D)
    for n, w, bs in ((0, 0, 5), (10, 2, 7), (64, 1, 1), (20000, 1, 10000), (40000, 3, 100)): yield J(h, 13, n, w, 0, bs, w=5, **D)
    yield J(h, 13, 20000, 1, 9, 1000, z=1, w=12, **D); yield J(h, 13, 100000, 3, 0, 4294967295, 1, w=3, **D)
    for n in (0, 1, 5, 40): yield J(h, 14, n, n % 2, (0, 1, 3, 5)[n % 4], 9 if n < 20 else 0, z=1, w=3, must=['read', 'read failed', 'write failed', 'done'])
    for n in (16384, 20000, 40000): yield J(h, 14, n, 1, 5, 0, 0, z=1, w=3, must=['read', 'read failed', 'write failed', 'done'])
@prop('C16', 'values of 1..32 bytes from streams of 0 to size+2 arbitrary bytes; values and strings into arrays of every relation of size; strings and vectors of 0..9 arbitrary bytes; bounded output of 0..34 arbitrary values into 1, 4 and 32 places and every sequence of 6 steps; every sequence of 2 (thorough: 3) reads, writes and seeks (every 64-bit offset, origin and direction) on an array of 6 bytes, starting anywhere')
def c16(tier):
    q = tier == 'quick'; h = 'h_io'
    for t, n in enumerate((1, 2, 4, 8, 16, 32, 9, 4)):
        for L in sorted({0, 1, n // 2, n - 1, n, n + 1, n + 2}): yield J(h, 0, t, L, must=['read'] if L - (L & 1) >= n else ['refused'])
        for r in range(4): yield J(h, 1, t, r, must=['refused'] if r == 0 and n > 1 else ['written'] if r == 3 else [])
    for k in range(3):
        for L in range(0, 7 if q else 12): yield J(h, 2, k, L, must=['refused'] if k == 0 and not L else ['read'])
        for L in (0, 1, 3, 4, 5, 8, 9, 10):
            for r in range(4): yield J(h, 3, k, L, r)
    for k in range(5):
        for i, N in enumerate((1, 4, 32)):
            for m in (0, 1, N - 1, N, N + 1, N + 2): yield J(h, 4, k, i, m, must=['refused'] if m > N else ['written'])
    for m in range(1, 7): yield J(h, 4, 5, m % 2, m, must=['done'])
    for k in (1, 2): yield J(h, 5, k, w=8 * k, must=['done'])
    if not q: yield J(h, 5, 3, 0, 1, w=100, must=['done'])
@prop('C14', 'entries and groups whose fields are all arbitrary on both sides (numbers and times of full width, ids with two arbitrary bytes, texts of 1 character, each text in turn of 0..2 characters), 0..3 attachments, associations, custom fields, history entries, sub-groups or entries on either side with arbitrary content; trees with every kind of object in which one field at a time, of all those of C02, is arbitrary on both sides')
def c14(tier):
    q = tier == 'quick'; h = 'h_equal'; D = dict(must=['equal', 'different'])
    for f in range(0, 10): yield J(h, 0, f, w=5, **D)
    for k in range(4):
        for m in (1, 2, 3) if q else (3, 4): yield J(h, 1, k, m, w=m, **D)
    for f in range(0, 3): yield J(h, 2, f, w=5, **D)
    for k in range(2):
        for m in (1, 2, 3) if q else (3, 4): yield J(h, 3, k, m, w=m, **D)
    for lo in range(0, 100, 10): yield J(h, 4, 0, lo, lo + 10, w=2, **D)
    for lo in range(0, 50, 10): yield J(h, 4, 1, lo, lo + 10, w=2, **D)
    for lo in range(0, 22, 11): yield J(h, 4, 2, lo, lo + 11, w=2, **D)
    yield J(h, 4, 3, 0, 6, **D); yield J(h, 4, 4, 0, 10, w=2, **D); yield J(h, 4, 5, 0, 3, **D)
@prop('C15', 'every second of 1970..2105 and "never" in each of 16 time stamps of groups and entries of a KDB file and each of 56 of a KDBX file, up to 3 saves; every valid packed time in a KDB file made by an independent codec, every time text of a KDBX file; local time zone UTC, one hour east, five hours west, and with daylight saving time',
      assumptions=['the calendar functions of the C library are modelled (models/rt.cc)', 'with a local time zone other than UTC, times a day after the beginning and before the end of the range, and outside the hour that occurs twice in autumn'])
def c15(tier):
    q = tier == 'quick'; h = 'h_time'; D = dict(must=['written', 'done'])
    for i in range(16):
        for z in (0, 1, 2):
            if not q or z == i % 3 or i in (0, 9): yield J(h, 0, i, z, 2 if i % 4 == 0 else 1, w=2, **D)
        if not q or i in (3, 8, 13): yield J(h, 0, i, 3, 1, w=40, **D)
        for z in (0, 1, 2):
            if not q or z == (i + 1) % 3: yield J(h, 2, i, z, 1, w=8, **D)
        if not q or i in (2, 12): yield J(h, 2, i, 3, 1, w=50, **D)
    for i in range(56):
        yield J(h, 1, i, i % 4, 2 if not q or i % 8 == 0 else 1, w=4, **D)
        if not q:
            for z in range(4): yield J(h, 1, i, z, 1, w=4, **D)
        if not q or i % 3 == 0: yield J(h, 3, i, (i + i // 4) % 4, 1, w=4, **D)
@prop('C12', 'passwords of 0..70 arbitrary bytes, key file content of 32 arbitrary bytes, both, in either order, set again or copied; every transformation seed; 0..6 rounds (thorough: 40); pairs of different passwords of 0..20 bytes and of different key files, alone or against each other',
      assumptions=['SHA-256 is an ideal hash and AES an ideal permutation for each key; the symbolic number of rounds is not covered, only the listed ones'])
def c12(tier):
    q = tier == 'quick'; h = 'h_key'; D = dict(must=['done'])
    for k in (1, 2, 3, 7, 9, 10, 11, 15):
        for r in (0, 1, 2, 3, 6) + (() if q else (4, 5, 17, 40)): yield J(h, 0, k, (0, 1, 5, 16, 33, 64, 70)[(k + r) % 7], r, **D)
    for n in range(0, 36): yield J(h, 0, 1, n, 1, **D)
    for a, b in ((1, 1), (1, 2), (0, 1), (8, 8), (20, 20), (20, 19), (16, 32)): yield J(h, 1, 0, a, b, w=3, **D)
    yield J(h, 1, 1, w=3, **D)
    for n in (0, 1, 5, 20): yield J(h, 1, 2, n, w=3, **D); yield J(h, 1, 3, n, w=2, **D)
@prop('C13', 'XML key files of five forms with every 32-byte content; 64 hexadecimal digits with any one (thorough: any three neighbouring) of them arbitrary; 64 characters with any one of them, and two neighbouring ones, any byte; other lengths 0..130 of hexadecimal text, 0..6 arbitrary bytes, 32 bytes; XML with 0..70 bytes of data, with any two neighbouring characters of the data or one byte of the whole file arbitrary; other XML; a missing file; each with a key that had nothing, a password, another key file or both before',
      assumptions=['a key file that begins with < is XML'])
def c13(tier):
    q = tier == 'quick'; h = 'h_key'; A = dict(must=['accepted']); R = dict(must=['refused'])
    for v in range(5):
        for p in range(4): yield J(h, 10, v, p, **A)
    for i in range(64): yield J(h, 12, i, 1, i % 4, w=2, must=['accepted', 'refused'])
    for i in range(0, 63, 8 if q else 1): yield J(h, 12, i, 2, (i + 1) % 4, w=5, must=['accepted', 'refused'])
    for i in range(0, 61, 30 if q else 5): yield J(h, 11, i, 3, i % 4, w=18, **A)
    for i in range(3, 63, 20 if q else 1): yield J(h, 11, i, 2, (i + 2) % 4, w=8, **A)
    for n in (0, 1, 2, 16, 31, 32, 33, 62, 63, 65, 66, 127, 128, 130): yield J(h, 13, n, 0, n % 4, **R)
    for n in range(0, 4 if q else 6): yield J(h, 13, n, 1, n % 4, w=1 + 4 * n, **R)
    yield J(h, 13, 32, 2, 1, **R); yield J(h, 13, 63, 2, 3, **R)
    for n in (1, 2): yield J(h, 13, n, 3, 2 + n % 2, w=2, **R)
    for n in (0, 1, 2, 3, 16, 30, 31, 32, 33, 34, 48, 64, 70): yield J(h, 14, n, (n + n // 4) % 4, must=['accepted'] if n == 32 else ['refused'])
    for i in range(0, 43): yield J(h, 15, i, 1, i % 4, w=2)
    for i in range(0, 42, 7 if q else 1): yield J(h, 15, i, 2, (i + 1) % 4, w=18)
    for i in range(0, 226, 15): yield J(h, 16, i, i + 15, i // 15 % 4, w=1, must=['refused'] if i < 180 else [])
    for i in list(range(12)) + [20, 21, 22]: yield J(h, 17, i, i % 4); yield J(h, 17, i, (i + 2) % 4)
@prop('C17', 'a fault at every byte of the file: writing fails from there on, or one write call fails and later ones succeed, or closing fails, or the destination cannot be opened; KDB (AES, Twofish) and KDBX (compressed or not), small files and files with texts, attachments or headers of up to 70000 bytes, over an existing longer or shorter file or none',
      assumptions=['the buffering of file streams is that of libstdc++ (models/include/fstream)', 'a single failing write call writes nothing'])
def c17(tier):
    q = tier == 'quick'; h = 'h_fault'
    for f in (0, 1):
        for v in range(4):
            D = dict(must=['reported', 'done'] + ([] if v == 2 else ['written']) if v < 3 else ['reported'])
            yield J(h, f, v, 0, 0, 0, 0, **D); yield J(h, f, v, 0, 0, 1, 0, 100, **D); yield J(h, f, v, 0, 0, f, 1 - f, 100000, **D)
            if v < 3:
                for n in (7000, 8000, 8190, 16384, 20000) + ((70000,) if not q else ()): yield J(h, f, v, 1, n, 0, 0, 30000 * (n & 1), w=5, **D)
                yield J(h, f, v, 1, 70000, 1, 0, 7, w=9, **D)
                if f:
                    for n in (0, 1, 1000, 7900, 7980, 8191, 20000, 65535): yield J(h, f, v, 2, n, n & 1, 0, n % 3, w=3, **D)
@prop('C18', 'every sequence of 3 (thorough: 4) of 11 operations on one KdbFile or KdbxFile object - import of two files with clashing ids, of a file with references to objects that another file has, of a file that fails late, with a wrong key, of a truncated, missing and foreign file, export of two databases, export to an impossible place - with arbitrary texts, compressed and not; all databases compared at the end with those of fresh objects',
      assumptions=['files and databases are those of the harness, with two arbitrary texts'])
def c18(tier):
    q = tier == 'quick'; h = 'h_reuse'; D = dict(must=['done'])
    for f in (0, 1):
        for op in range(11):
            if q: yield J(h, f, op, 2, op & 1, w=40 if f else 6, **D)
            else:
                for op2 in range(11): yield J(h, f, op, 3, (op + op2) & 1, op2 + 1, w=40 if f else 6, **D)
@prop('C19', 'the database of C02 with one field at a time taking every value (texts of 0..2 arbitrary bytes, all time stamps, numbers in windows, flags, ids, binary data), in both directions, compressed and not, split in blocks of 1 MiB or of 100 bytes; the structures of C02; files whose writer orders header fields and elements otherwise, adds comments, CDATA, character references, unknown elements and attributes or leaves out empty elements, in 12 combinations (thorough: 21); KDB databases of 3 groups and 3 entries with every text, number, time stamp, id, seed, key file (AES) or fixed contents (Twofish), text lengths 0..300 and 70000, contents of every interesting size modulo 1024, in both directions; files whose writer orders fields, groups and entries otherwise, adds comment fields or leaves out optional fields',
      assumptions=['calendar arithmetic of the C library is shared by both codecs', 'unprotected texts do not begin or end with white space'])
def c19(tier):
    q = tier == 'quick'; h = 'h_interop'
    for d in (0, 1):
        D = dict(must=['done'])
        for kk in (1, 2, 3, 7): yield J(h, d, 7, 0, 0, 0, kk & 1, kk, 100 if d else 0, **D)
        for i in range(120):
            if i in (5, 7): continue
            if not q or i % 4 == d: yield J(h, d, 0, i, 1, i & 1, (i >> 1) & 1, 1, w=2, **D)
            if not q or i % 8 == 2 + d: yield J(h, d, 0, i, 2, (i >> 2) & 1, 0, 1, w=5, **D)
        for i in range(d if q else 0, 56, 4 if q else 1): yield J(h, d, 1, i, 0, 0, 0, 1, **D)
        for i in range(d if q else 0, 31, 3 if q else 1): yield J(h, d, 2, i, 0, 0, 0, 1, w=2, **D)
        for i in range(9): yield J(h, d, 3, i, 0, 0, 0, 1, w=3, **D)
        for i in range(12): yield J(h, d, 4, i, 0, 0, i & 1, 1, **D)
        for i in range(8): yield J(h, d, 5, i, 1 + i, 0, i & 1, 1, **D)
        for n in (0, 1, 2): yield J(h, d, 6, 0, n, 0, n & 1, (1, 3, 7)[n], w=6, **D)
        for w, ns in SHAPES(q):
            for n in ns:
                if not q or n in (ns[0], ns[-1]): yield J(h, d, 8, w, n, 0, n & 1 if w else 0, 1, 100 if d and w else 0, w=3, **D)
    D = dict(must=['done'])
    for st in [1, 2, 4, 8, 16, 32, 64, 3, 66, 18, 6, 127] + ([] if q else [5, 9, 10, 20, 24, 34, 48, 63, 96]):
        yield J(h, 1, 7, 0, 0, 0, 0, 1, 0, st, **D); yield J(h, 1, 7, 0, 0, 0, 1, 3, 100, st, **D)
        for i in range(6):
            if not q or (i + st) % 2: yield J(h, 1, 0, i, 2, 1, 0, 1, 0, st, **D)
        for w, n in ((0, 1), (3, 4), (2, 1)): yield J(h, 1, 8, w, n, 0, 0, 1, 0, st, w=3, **D)
    h = 'h_interopk'
    for d in (0, 1):
        for i, v in enumerate(([0, 0, 0, 0, 0, 0, 0, 99999], [3, 4, 5, 0, 2, 1, 3, 5], [16, 1, 0, 17, 2, 33, 0, 16], [0, 300, 1, 70000, 15, 14, 9, 3000])):
            yield J(h, d, 0, (1, 2, 3, 7)[i], (0, 1, 2, 1)[i], *v, w=2, **D); yield J(h, d, 1, (1, 2, 3, 7)[i], (0, 1, 2, 1)[i], *v, **D)
            if d:
                for st in (1, 2, 4, 8, 16, 32, 63) if not q else ((1, 8), (2, 4), (16, 63), (32, 1))[i]: yield J(h, d, 0, (1, 2, 3, 7)[i], (0, 1, 2, 1)[i], *v, st, w=3, **D)
        for r in (0, 1, 2, 15, 16, 1023, 512) if q else list(range(0, 40)) + list(range(1000, 1024)) + [512]:
            yield J(h, d, 0, 1, 0, 3, 4, 5, 0, 2, 1, 3, 0, 0, r + 1, w=2, **D)
            if r in (0, 1, 1023): yield J(h, d, 1, 1, 0, 3, 4, 5, 0, 2, 1, 3, 0, 0, r + 1, w=2, **D)

@prop('C20', 'files saved with any password of 0..12 arbitrary bytes, any key file or both, opened with any other one of these; KDB and KDBX, compressed and not; files whose signature, version, cipher, compression method or protected stream is arbitrary; arbitrary files of 0..300 bytes without the signature; files of the other format; missing files',
      assumptions=['SHA-256 is an ideal hash, AES an ideal permutation per key; decrypting one block under two different keys gives different blocks', 'a key file does not hold the hash of the password it is exchanged for'])
def c20(tier):
    q = tier == 'quick'; h = 'h_wrong'; R = dict(must=['refused'])
    for f in (0, 1):
        for n in ((0, 3, 12) if q else (0, 1, 2, 3, 8, 12, 20, 33)):
            for a in (1, 2, 3):
                for b in (1, 2, 3):
                    if n == 0 and (a == b == 1 or a != b): continue
                    if n != 3 and q and not (a & b & 1): continue
                    if n or a != 3 or b != 3: yield J(h, 0, f, a, b, n, (a + b + n) & 1, w=4, **R)
                    if a == b == 3: yield J(h, 0, f, a, b, n, n & 1, 1, w=4, **R)
        for a, b in ((7, 3), (3, 7)): yield J(h, 0, f, a, b, 2, 1, w=4, **R)
        for i in range(7):
            if f or i < 4 or i == 6: yield J(h, 1, f, i, must=['accepted', 'refused'])
        for n in list(range(0, 14)) + [100, 123, 124, 125, 140, 300]: yield J(h, 2, f, n, **R)
        yield J(h, 3, f, **R)
@prop('C21', 'a database with 6 entries, 2 of them history entries, in which every text that can be protected is protected and unknown, of lengths 0..n with n up to 70 in varying combinations; compressed and not; also after being imported and exported again')
def c21(tier):
    q = tier == 'quick'
    for n in (1, 3, 5, 8, 20) + ((2, 33, 70) if not q else ()):
        for salt in (0, 1, 2, 3): yield J('h_prot', n, salt, 0, salt & 1, 1, must=['exported', 'done'])
    for n in (1, 5): yield J('h_prot', n, 2, 1, n == 1, 3, w=6, must=['exported', 'done'])
@prop('C22', 'the database of C02 with one field at a time taking every value (each of its 31 listed texts of 0..2, for some 3, arbitrary bytes; all time stamps and 0, in three time zones; numbers in windows of 256 and 65536 around the changes of length; binary contents of 0..3 arbitrary bytes); an entry that looks like a KDB meta entry with any two neighbouring characters of one part arbitrary, or a part of 0..2 arbitrary bytes, before and after other entries; every structure of one sub-group, one of its sub-groups and one entry (thorough: two) with empty texts, unset times, attachments without name, data or binary; chains of 300 groups',
      assumptions=['times from 1970 to 2105, whole-hour time zones without daylight saving time'])
def c22(tier):
    q = tier == 'quick'; h = 'h_json'; D = dict(must=['parsed', 'done'])
    T = [i for b in (9, 26, 46, 68) for i in range(b, b + 9)]
    for i in T:
        for n in (0, 1, 2): yield J(h, 0, i, n, (i + n) & 1, **D)
        if not q or i % 4 == 0: yield J(h, 0, i, 3, 0, w=2, **D)
    for i in range(6, 45):
        yield J(h, 1, i, 0, **D)
        for z in (1, 2):
            if not q or i % 6 == z: yield J(h, 1, i, z, w=2, **D)
    for k, i in enumerate((5, 7, 10, 12, 15, 17, 20, 22)):
        for b in (0, 255, 9900, 99900, 4294967040):
            if not q or k < 2 or b == (0, 255, 9900)[k % 3]: yield J(h, 2, i, 256, b, **D)
        if not q or k in (1, 4): yield J(h, 2, i, 65536, 0, w=9, **D)
    for i in range(2, 7):
        for n in (0, 1, 2, 3) + (() if q else (4,)): yield J(h, 3, i, n, w=n + 1, **D)
    for k, m in enumerate((9, 1, 6, 1, 10)):
        for i in range(0, m, 1 if not q else 2): yield J(h, 4, k, i, w=3, **D)
        for n in (0, 1, 2): yield J(h, 4, k, 100 + n, w=3, **D)
    yield J(h, 4, 5, 0, **D)
    yield J(h, 5, 1, w=9, **D)
    if not q: yield J(h, 5, 2, w=90, **D)
    for n in (0, 1, 2, 40, 300): yield J(h, 6, n, w=1 + n // 40, **D)
