"""Checks the simulator's reference arithmetic (sim nat) with Python's integers."""
import math, struct, sys
n = 0
def V(s):
    return int(s, 16)
def radix(x, r):
    if x == 0: return "0"
    s = ""
    while x:
        x, d = divmod(x, r)
        s = "0123456789abcdefghijklmnopqrstuvwxyz"[d] + s
    return s
def fl(x, man, emax):
    """x rounded to nearest even with man bits, as float; inf above"""
    if x == 0: return 0.0
    e = x.bit_length() - man
    if e > 0:
        q, r = x >> e, x & ((1 << e) - 1)
        h = 1 << (e - 1)
        if r > h or (r == h and q & 1): q += 1
        x = q << e
    if x.bit_length() > emax: return math.inf
    return float(x)
def tdiv(a, b):
    q = abs(a) // abs(b)
    if (a < 0) != (b < 0): q = -q
    return q, a - q * b
def ediv(a, b):
    r = a % abs(b)
    return (a - r) // b, r
for line in sys.stdin:
    p = line.split()
    o, a = p[0], p[1:]
    if o in ("add", "iadd"): ok = V(a[0]) + V(a[1]) == V(a[2])
    elif o in ("mul", "imul"): ok = V(a[0]) * V(a[1]) == V(a[2])
    elif o == "sub": ok = V(a[0]) - V(a[1]) == V(a[2])
    elif o == "div": ok = divmod(V(a[0]), V(a[1])) == (V(a[2]), V(a[3]))
    elif o == "shl": ok = V(a[0]) << V(a[1]) == V(a[2])
    elif o in ("shr", "ishr"): ok = V(a[0]) >> V(a[1]) == V(a[2])
    elif o == "gcd": ok = math.gcd(V(a[0]), V(a[1])) == V(a[2])
    elif o == "powm": ok = pow(V(a[0]), V(a[1]), V(a[2])) == V(a[3])
    elif o == "inv":
        x, m = V(a[0]), V(a[1])
        if math.gcd(x, m) != 1: ok = a[2] == "none"
        else: ok = a[2] != "none" and pow(x, -1, m) == V(a[2])
    elif o == "radix": ok = radix(V(a[0]), V(a[1])) == a[2]
    elif o == "parse": ok = int(a[0], V(a[1])) == V(a[2])
    elif o == "f64": ok = struct.unpack("<d", struct.pack("<Q", V(a[1])))[0] == fl(V(a[0]), 53, 1024)
    elif o == "f32": ok = struct.unpack("<f", struct.pack("<I", V(a[1])))[0] == fl(V(a[0]), 24, 128)
    elif o == "and": ok = V(a[0]) & V(a[1]) == V(a[2])
    elif o == "or": ok = V(a[0]) | V(a[1]) == V(a[2])
    elif o == "xor": ok = V(a[0]) ^ V(a[1]) == V(a[2])
    elif o == "andnot": ok = V(a[0]) & ~V(a[1]) == V(a[2])
    elif o == "inot": ok = ~V(a[0]) == V(a[1])
    elif o == "idiv": ok = tdiv(V(a[0]), V(a[1])) == (V(a[2]), V(a[3]))
    elif o == "ieuc": ok = ediv(V(a[0]), V(a[1])) == (V(a[2]), V(a[3]))
    else: ok = False
    n += 1
    if not ok:
        print("WRONG", line[:300]); sys.exit(1)
print("natcheck:", n, "computations agree")
