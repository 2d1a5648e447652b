"""DER pieces, to make certificates and keys that no toolkit would make."""


def tlv(tag, *parts):
    body = b''.join(parts)
    n = len(body)
    if n < 128:
        return bytes([tag, n]) + body
    size = n.to_bytes((n.bit_length() + 7) // 8, 'big')
    return bytes([tag, 0x80 | len(size)]) + size + body


def seq(*parts):
    return tlv(0x30, *parts)


def integer(i):
    return tlv(2, i.to_bytes(i.bit_length() // 8 + 1, 'big', signed=True))


def bits(data, unused=0):
    return tlv(3, bytes([unused]), data)


def octets(data):
    return tlv(4, data)


NULL = b'\5\0'


def oid(dotted):
    first, second, *rest = (int(i) for i in dotted.split('.'))
    out = b''
    for i in [first * 40 + second, *rest]:
        part = [i & 127]
        while i := i >> 7:
            part.append(128 | i & 127)
        out += bytes(reversed(part))
    return tlv(6, out)


class Node:
    """ a value and what it is made of, if it is constructed """
    def __init__(self, tag, value):
        self.tag, self.value = tag, value   # bytes or a list of nodes

    def encode(self):
        if isinstance(self.value, list):
            return tlv(self.tag, *(n.encode() for n in self.value))
        return tlv(self.tag, self.value)

    def walk(self):
        yield self
        if isinstance(self.value, list):
            for n in self.value:
                yield from n.walk()


def parse(data, depth=0):
    """ a list of nodes; raises ValueError """
    nodes = []
    i = 0
    while i < len(data):
        if i + 2 > len(data):
            raise ValueError('short')
        tag, n = data[i], data[i + 1]
        i += 2
        if n & 128:
            k = n & 127
            n = int.from_bytes(data[i:i + k], 'big')
            i += k
        if i + n > len(data):
            raise ValueError('short')
        body = data[i:i + n]
        i += n
        if tag & 0x20:
            nodes.append(Node(tag, parse(body, depth + 1)))
        elif tag in (3, 4) and depth < 12 and len(body) > 2:
            # what strings hold is often again DER
            skip = 1 if tag == 3 else 0
            try:
                inner = parse(body[skip:], depth + 1)
            except (ValueError, IndexError):
                inner = None
            if inner and not skip and b''.join(x.encode() for x in inner) == body:
                nodes.append(Node(tag, inner))
            else:
                nodes.append(Node(tag, body))
        else:
            nodes.append(Node(tag, body))
    return nodes
