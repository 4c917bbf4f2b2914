#!/usr/bin/env python3
"""mkdb.py FILE HASHBYTES SPEC...: writes a binary database. SPEC: HEX:COUNT (HEX is padded with zeroes) or rand:N:SEED or every:BITS:PER"""
import sys, struct, random
f, n = sys.argv[1], int(sys.argv[2])
recs = []
for s in sys.argv[3:]:
    if s.startswith("rand:"):
        _, k, seed = s.split(":"); r = random.Random(int(seed))
        recs += [(r.randbytes(n), r.randrange(1, 50)) for _ in range(int(k))]
    elif s.startswith("every:"):  # PER records for each prefix of BITS bits
        _, bits, per = s.split(":"); bits = int(bits); r = random.Random(1)
        for p in range(1 << bits):
            for j in range(int(per)):
                recs.append((((p << (8 * n - bits)) | (j << (8 * n - bits - 8)) | r.getrandbits(16)).to_bytes(n, "big"), r.randrange(1, 10**6)))
    elif s == "sort": recs.sort(key=lambda x: x[0])
    else:
        h, c = s.split(":"); recs.append((bytes.fromhex(h.ljust(2 * n, "0")), int(c)))
open(f, "wb").write(b"".join(h + struct.pack("<i", c) for h, c in recs))
