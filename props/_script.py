"""Reference parsing of scripts, written independently of the library."""
from props._tx import le

def push(d):
    "the push form Bitcoin prescribes for data of this length"
    n = len(d)
    if n <= 75: return bytes([n]) + d
    if n <= 255: return b'\x4c' + bytes([n]) + d
    if n <= 65535: return b'\x4d' + le(n, 2) + d
    return b'\x4e' + le(n, 4) + d

def parse(b):
    """([(opcode, data or None, start)], the partial data of a truncated push or None, well-formed?)"""
    b = bytes(b); out = []; i = 0
    while i < len(b):
        start = i; op = b[i]; i += 1
        if op > 0x4e: out.append((op, None, start)); continue
        k = 0 if op < 0x4c else 1 if op == 0x4c else 2 if op == 0x4d else 4
        if k:
            if len(b) - i < k: return out, None, False
            n = 0
            for j in range(k): n = n + b[i + j] * (1 << (8 * j))
            i += k
        else: n = op
        if n > len(b) - i: return out, b[i:], False
        out.append((op, b[i:i + n], start)); i += n
    return out, None, True

def num(n):
    "a script number: little endian, sign in the top bit, as short as possible"
    a = n if n >= 0 else -n
    if a == 0: return b''
    k = 1
    while a >= 1 << (8 * k - 1): k += 1
    r = [(a >> (8 * j)) & 0xff for j in range(k)]
    if n < 0: r[-1] = r[-1] | 0x80
    return bytes(r)

def unnum(b):
    "the number a byte string stands for"
    if len(b) == 0: return 0
    n = 0
    for j in range(len(b)): n = n + (b[j] if j < len(b) - 1 else b[j] & 0x7f) * (1 << (8 * j))
    return -n if b[-1] >= 0x80 else n
