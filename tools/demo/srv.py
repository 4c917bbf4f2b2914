#!/usr/bin/env python3
# Range server for the demonstrations: srv.py PORTFILE CONFIG.json LOG   (listens on 127.0.0.1:8090)
# config: {"n": records per range, "faults": {"00002": ["503", "ok", ...]}, "per": {"00001": 5000}, "order": "reverse"|null, "delay": {"00000": 0.5}}
import sys, json, socket, threading, time, hashlib, struct
cfg = json.load(open(sys.argv[2])); log = open(sys.argv[3], "a", buffering=1)
N = cfg.get("n", 20); lock = threading.Lock(); tries = {}; cur = 0; peak = 0
def recs(p):
    n = cfg.get("per", {}).get(p, N); out = []
    for i in range(n):
        h = hashlib.sha1(f"{p}-{i}-{cfg.get('salt','')}".encode()).hexdigest().upper()
        out.append((h[5:], 209972844 if cfg.get('big') and i == 3 else int(h[:4], 16) % 1000 + 1))
    return sorted(out)
def body(p): return "\r\n".join(f"{h}:{c}" for h, c in recs(p)).encode()
def serve(c):
    global cur, peak
    buf = b""
    try:
        while True:
            while b"\r\n\r\n" not in buf:
                d = c.recv(65536)
                if not d: return
                buf += d
            head, buf = buf.split(b"\r\n\r\n", 1)
            path = head.split(b" ")[1].decode(); p = path.strip("/").split("?")[0]
            with lock:
                t = tries[p] = tries.get(p, 0) + 1; cur += 1; peak = max(peak, cur); log.write(f"{p} {t} {cur}\n")
            try:
                f = cfg.get("faults", {}).get(p, cfg.get("all", [])); a = f[t - 1] if t <= len(f) else (f[-1][:-1] if f and f[-1].endswith("*") else "ok")
                a = a.rstrip("*")
                d = cfg.get("delay", {}).get(p, 0)
                if d: time.sleep(d)
                if a == "ok": c.sendall(b"HTTP/1.1 200 OK\r\nContent-Type: text/plain\r\nContent-Length: %d\r\n\r\n" % len(body(p)) + body(p))
                elif a == "503": c.sendall(b"HTTP/1.1 503 Service Unavailable\r\nContent-Length: 42\r\n\r\n" + b"0" * 35 + b":77777\n")
                elif a.startswith("to:"): c.sendall(b"HTTP/1.1 302 Found\r\nLocation: http://127.0.0.1:%s/%s\r\nContent-Length: 0\r\n\r\n" % (a[3:].encode(), p.encode()))
                elif a == "204": c.sendall(b"HTTP/1.1 204 No Content\r\n\r\n")
                elif a == "trunc": b = body(p); c.sendall(b"HTTP/1.1 200 OK\r\nContent-Length: %d\r\n\r\n" % len(b) + b[: len(b) // 2]); return
                elif a == "rst": c.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0)); return
                elif a == "stall": time.sleep(3600)
                elif a.startswith("slow"): # a reply in two pieces, with a pause
                    b = body(p); r = b"HTTP/1.1 200 OK\r\nContent-Length: %d\r\n\r\n" % len(b) + b
                    c.sendall(r[: len(r) // 2]); time.sleep(float(a[4:])); c.sendall(r[len(r) // 2:])
            finally:
                with lock: cur -= 1
    except OSError: pass
    finally: c.close()
s = socket.socket(); s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
for _ in range(100):
    try: s.bind(("127.0.0.1", 8090)); break
    except OSError: time.sleep(0.2)
s.listen(512); open(sys.argv[1], "w").write("up")
while True:
    c, _ = s.accept(); c.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
    threading.Thread(target=serve, args=(c,), daemon=True).start()
