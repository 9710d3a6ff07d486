"""Encoding of frames, only used to make inputs."""


def checksum(b):
    c = 0xff
    for x in b:
        c ^= x
    return c


def frame(payload, typ=0):
    body = [len(payload) + 2, typ] + list(payload)
    return [1] + body + [checksum(body)]


def hx(b):
    return ''.join('%02x' % x for x in b)


def report(node, data, status=0, tail=(), ln=None):
    """An ApplicationCommandHandler frame."""
    return frame([4, status, node, len(data) if ln is None else ln] + list(data) + list(tail))


def bitmap(nodes, n=29):
    m = [0] * n
    for x in nodes:
        m[(x - 1) // 8] |= 1 << ((x - 1) % 8)
    return m


def discovery(nodes, n=29):
    return frame([2, 5, 0, n] + bitmap(nodes, n) + [5, 0], typ=1)


def protoinfo(info):
    return frame([0x41] + list(info), typ=1)


DISCOVER = hx(frame([2]))
