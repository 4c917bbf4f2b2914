#!/usr/bin/env python3
"""web.py PORT up | get PATH | hammer DB HASHBYTES FORMAT CLIENTS REQUESTS: small client for hibp-server"""
import sys, socket, http.client, threading, random, struct
port, cmd = int(sys.argv[1]), sys.argv[2]
if cmd == "up":
    try: socket.create_connection(("127.0.0.1", port), 1).close()
    except OSError: sys.exit(1)
elif cmd == "at": # is anything listening at this address
    try: socket.create_connection((sys.argv[3], port), 2).close()
    except OSError: sys.exit(1)
elif cmd == "get":
    try:
        c = http.client.HTTPConnection("127.0.0.1", port, timeout=8); c.request("GET", "/check/" + sys.argv[3]); r = c.getresponse()
        print(r.status, r.read().decode().strip())
    except OSError as e: print("failed", e)
else:
    n = int(sys.argv[4]); raw = open(sys.argv[3], "rb").read(); fmt = sys.argv[5]
    recs = [(raw[i:i + n].hex().upper(), struct.unpack("<i", raw[i + n:i + n + 4])[0]) for i in range(0, len(raw), n + 4)]
    bad = []
    def work(seed):
        r = random.Random(seed); c = http.client.HTTPConnection("127.0.0.1", port, timeout=20)
        for _ in range(int(sys.argv[7])):
            if bad: return
            h, k = r.choice(recs)
            try: c.request("GET", f"/check/{fmt}/{h}"); p = c.getresponse(); b = p.read().decode().strip()
            except (OSError, http.client.HTTPException) as e: bad.append((h, repr(e))); return
            if p.status != 200 or b != str(k): bad.append((h, k, p.status, b))
    t = [threading.Thread(target=work, args=(i,)) for i in range(int(sys.argv[6]))]
    [x.start() for x in t]; [x.join() for x in t]
    if bad: print(bad[:3]); sys.exit(1)
