"""A small copy of the codec specification (Codec.tla) in Python, used to recognise frames in recorded streams.
The codec checks compare it with the specification (see codec.py)."""
import struct

SIZES = {1: 8, 2: 8, 3: 4, 4: 4, 5: 2, 6: 2, 7: 1, 8: 1}


def le4(n):
    return struct.pack('<I', n & 0xffffffff)


def le2(n):
    return struct.pack('<H', n & 0xffff)


def v_int(n, t=4):
    return bytes([t]) + le4(SIZES[t]) + (n & ((1 << 8 * SIZES[t]) - 1)).to_bytes(SIZES[t], 'little')


def v_str(b):
    return b'\x09' + le4(4 + len(b)) + le4(len(b)) + b


def v_raw(b):
    return b'\x00' + le4(len(b)) + b


def datum(name, v):
    return le4(6 + len(name) + len(v)) + le2(len(name)) + name + v


def request(name, ident=0, args=()):
    body = b''.join(datum(n, v) for n, v in args)
    return le4(10 + len(name) + len(body)) + le4(ident) + le2(len(name)) + name + body


KA = request(b'_')


def dec_value(d, p, n):
    """canonical encoding of the value at p (n bytes left) and the bytes used, or None"""
    if n < 5:
        return None
    t = d[p]
    ln = struct.unpack_from('<I', d, p + 1)[0]
    q = p + 5
    if t > 10 or ln > n - 5:
        return None
    if t == 0:
        return bytes(d[p:q + ln]), 5 + ln
    if t == 9:
        if ln < 4 or struct.unpack_from('<I', d, q)[0] != ln - 4:
            return None
        return bytes(d[p:q + ln]), 5 + ln
    if t == 10:
        if ln < 4:
            return None
        k = struct.unpack_from('<I', d, q)[0]
        if k > (ln - 4) // 5:
            return None
        used, out = 4, b''
        for _ in range(k):
            r = dec_value(d, q + used, ln - used)
            if r is None:
                return None
            used += r[1]
            out += r[0]
        return bytes([10]) + le4(4 + len(out)) + le4(k) + out, 5 + used
    if ln < SIZES[t]:
        return None
    return bytes([t]) + le4(SIZES[t]) + bytes(d[q:q + SIZES[t]]), 5 + SIZES[t]


def dec_request(d):
    """(name, id, canonical encoding) of the request in d, or None"""
    if len(d) < 10:
        return None
    total = struct.unpack_from('<I', d, 0)[0]
    nl = struct.unpack_from('<H', d, 8)[0]
    if total > len(d) or total < 10 + nl:
        return None
    name = bytes(d[10:10 + nl])
    p, left, args = 10 + nl, total - 10 - nl, b''
    while left >= 6:
        t = struct.unpack_from('<I', d, p)[0]
        n = struct.unpack_from('<H', d, p + 4)[0]
        if t > left or t < 6 + n + 5:
            break
        r = dec_value(d, p + 6 + n, t - 6 - n)
        if r is None:
            break
        args += datum(bytes(d[p + 6:p + 6 + n]), r[0])
        p += t
        left -= t
    ident = struct.unpack_from('<I', d, 4)[0]
    return name, ident, le4(10 + nl + len(args)) + le4(ident) + le2(nl) + name + args


def hexname(x):
    """a name as the scenarios write it (-: the empty one)"""
    return b'' if x == '-' else bytes.fromhex(x)
