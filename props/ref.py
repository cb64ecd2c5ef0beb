"""Independent reference definitions used as oracles by the harnesses (written from the specifications)."""
import hashlib

CHARSET = 'qpzry9x8gf2tvdw0s3jn54khce6mua7l'
GEN = (0x3b6a57b2, 0x26508e6d, 0x1ea119fa, 0x3d4233dd, 0x2a1462b3)
B58 = '123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz'
P = 2 ** 256 - 2 ** 32 - 977
N = 0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141


def sha256(b):
    return hashlib.sha256(b).digest()


def dsha256(b):
    return sha256(sha256(b))


def hash160(b):
    return hashlib.new('ripemd160', sha256(b)).digest()


def b58(data):
    n = int.from_bytes(data, 'big')
    out = ''
    while n > 0:
        out = B58[n % 58] + out
        n = n // 58
    for byte in data:
        if byte != 0:
            break
        out = '1' + out
    return out


def b58check(data):
    return b58(data + dsha256(data)[:4])


def polymod(values):
    c = 1
    for v in values:
        c0 = c >> 25
        c = ((c & 0x1ffffff) << 5) ^ v
        for i in range(5):
            c = c ^ (GEN[i] * ((c0 >> i) & 1))
    return c


def bech32_text(hrp, values, diff=None):
    """the encoding; with diff, the checksum is changed by XOR with these six values"""
    exp = [ord(x) >> 5 for x in hrp] + [0] + [ord(x) & 31 for x in hrp]
    chk = polymod(exp + values + [0] * 6) ^ 1
    tail = [(chk >> 5 * (5 - i)) & 31 for i in range(6)]
    if diff is not None:
        tail = [a ^ b for a, b in zip(tail, diff)]
    data = values + tail
    return hrp + '1' + ''.join([CHARSET[d] for d in data])


def to5(prog):
    """regroup bytes into 5-bit values, zero padded"""
    bits = []
    for b in prog:
        for i in range(8):
            bits.append((b >> (7 - i)) & 1)
    while len(bits) % 5:
        bits.append(0)
    out = []
    for i in range(0, len(bits), 5):
        out.append(bits[i] * 16 + bits[i + 1] * 8 + bits[i + 2] * 4 + bits[i + 3] * 2 + bits[i + 4])
    return out


def varint(n):
    if n < 253:
        return n.to_bytes(1, 'little')
    if n <= 0xffff:
        return b'\xfd' + n.to_bytes(2, 'little')
    if n <= 0xffffffff:
        return b'\xfe' + n.to_bytes(4, 'little')
    return b'\xff' + n.to_bytes(8, 'little')


def push(n):
    """opcode prefix that pushes n bytes"""
    if n <= 75:
        return n.to_bytes(1, 'little')
    if n <= 0xff:
        return b'\x4c' + n.to_bytes(1, 'little')
    if n <= 0xffff:
        return b'\x4d' + n.to_bytes(2, 'little')
    return b'\x4e' + n.to_bytes(4, 'little')


def p2pkh(h):
    return b'\x76\xa9\x14' + h + b'\x88\xac'


def p2sh(h):
    return b'\xa9\x14' + h + b'\x87'


def wscript(ver, prog):
    return (b'\x00' if ver == 0 else bytes([0x50 + ver])) + bytes([len(prog)]) + prog
