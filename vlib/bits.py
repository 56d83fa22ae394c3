"""Bit strings as Python '0'/'1' strings."""


def ub(v, n):
    """v as n bits, big endian."""
    assert 0 <= v < (1 << n) or n == 0 and v == 0, (v, n)
    return format(v, "0%db" % n) if n else ""


def sb(v, n):
    return ub(v & ((1 << n) - 1), n) if n else ""


def hexbits(h):
    return "" if h in ("", "-") else format(int(h, 16), "0%db" % (len(h) * 4))


def bytesbits(b):
    return "".join(format(x, "08b") for x in b)


def tobytes(bits):
    bits = bits + "0" * (-len(bits) % 8)
    return bytes(int(bits[i:i + 8], 2) for i in range(0, len(bits), 8))


def tohex(bits):
    return tobytes(bits).hex() or "-"


def hx(b):
    return bytes(b).hex() or "-"


def uint(bits):
    return int(bits, 2) if bits else 0


def sint(bits):
    v = uint(bits)
    return v - (1 << len(bits)) if bits and bits[0] == "1" else v


def swap(bits):
    return "".join(bits[i:i + 8] for i in range(len(bits) - 8, -1, -8))
