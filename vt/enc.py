"""Encoding of numbers and problems for the TLA+ side: a double is [hi, lo] (signed 32 bit)."""
import struct, json
import numpy as np

def d(x):
    x = float(x)
    if x != x: return [0x7ff80000, 0]
    return list(struct.unpack(">ii", struct.pack(">d", x)))
def undo(p): return struct.unpack(">d", struct.pack(">ii", *p))[0]
def v(a):
    a = np.ascontiguousarray(a, dtype=np.float64).ravel().copy()
    a[np.isnan(a)] = np.nan
    b = a.view(np.int64)
    hi = (b >> 32).astype(np.int64); lo = (b & 0xffffffff); lo = np.where(lo >= 2**31, lo - 2**32, lo)
    nan = np.isnan(a); hi[nan] = 0x7ff80000; lo[nan] = 0
    return np.stack([hi, lo], 1).tolist() if len(a) else []
def trip(M):
    """dense -> 1-based triples, column by column"""
    r = []
    m, n = M.shape
    for j in range(n):
        for i in np.nonzero(M[:, j])[0]: r.append([int(i) + 1, j + 1, d(M[i, j])])
    return r
def prob(q, c=None, h=None, b=None):
    return dict(n=q.n, m=q.m, p=q.p, P=trip(q.P), A=trip(q.A), G=trip(q.G), c=v(q.c if c is None else c), h=v(q.h if h is None else h), b=v(q.b if b is None else b))
def w(x, y, z, s): return dict(x=v(x), y=v(y), z=v(z), s=v(s))
class Out:
    def __init__(self, path): self.f = open(path, "w"); self.n = 0; self.path = path
    def put(self, rec): self.f.write(json.dumps(rec, separators=(",", ":")) + "\n"); self.f.flush(); self.n += 1
    def close(self): self.f.close()
