"""C08: variable-length integers and script push prefixes."""
from symbit.common import Case


def ref_varint(n):
    if n < 253:
        return n.to_bytes(1, 'little')
    if n <= 0xffff:
        return b'\xfd' + n.to_bytes(2, 'little')
    if n <= 0xffffffff:
        return b'\xfe' + n.to_bytes(4, 'little')
    return b'\xff' + n.to_bytes(8, 'little')


def ref_push(n):
    if n <= 75:
        return n.to_bytes(1, 'little')
    if n <= 0xff:
        return b'\x4c' + n.to_bytes(1, 'little')
    if n <= 0xffff:
        return b'\x4d' + n.to_bytes(2, 'little')
    return b'\x4e' + n.to_bytes(4, 'little')


def varint(h):
    from bit.utils import int_to_varint, read_var_int
    n = h.int('n', 0, 2 ** 64 - 1)
    enc = int_to_varint(n)
    h.check_eq('canonical', enc, ref_varint(n))
    rest = h.blob('rest', 0, 100)
    v, left = read_var_int(enc + rest)
    h.check_eq('roundtrip', v, n)
    h.check_eq('rest', left, rest)
    h.observe('enc', enc)
    h.reach('ok')


def push(h):
    from bit.utils import script_push
    n = h.int('n', 0, 2 ** 32 - 1)
    h.check_eq('canonical', script_push(n), ref_push(n))
    h.observe('e', script_push(n))


def cases(tier):
    return [Case('varint', varint, 'n in [0, 2^64-1], 0..100 trailing bytes', must=['ok']),
            Case('push', push, 'n in [0, 2^32-1]')]
