"""Strict, independent readers of the two object formats.

parse(bytes) -> Obj with .fmt ('S' or 'H'), .runs [(addr, bytes)] in file order.
Any deviation from the formats raises FormatError.
"""
import re


class FormatError(Exception):
    pass


class Obj:
    def __init__(self):
        self.fmt = None
        self.runs = []
        self.kinds = []
        self.straddle = False

    def image(self):
        """address -> byte; the last write wins, as it does in a programmer"""
        m = {}
        for a, d in self.runs:
            for i, b in enumerate(d):
                m[(a + i) & 0xffffffff] = b
        return m

    def stream(self):
        """the emitted bytes, in file order, as (address, byte)"""
        return [((a + i) & 0xffffffff, b) for a, d in self.runs for i, b in enumerate(d)]


S_LINE = re.compile(rb'S[0-9][0-9A-F]+\Z')
H_LINE = re.compile(rb':[0-9A-F]+\Z')


def parse(data, maxdata=16):
    o = Obj()
    if not data:
        raise FormatError('empty file')
    if data[-1:] != b'\n':
        raise FormatError('last line has no newline')
    lines = data[:-1].split(b'\n')
    ended = False
    upper = 0
    for n, l in enumerate(lines, 1):
        def bad(msg):
            raise FormatError('line %d: %s: %r' % (n, msg, l[:80]))
        if ended:
            bad('record after the terminator')
        fmt = 'S' if l[:1] == b'S' else 'H' if l[:1] == b':' else None
        if fmt is None:
            bad('neither an S record nor a HEX record')
        if o.fmt is None:
            o.fmt = fmt
        elif o.fmt != fmt:
            bad('records of two formats in one file')
        if fmt == 'S':
            if not S_LINE.match(l):
                bad('bad characters')
            body = l[2:]
            if len(body) % 2:
                bad('odd number of digits')
            b = bytes.fromhex(body.decode())
            if len(b) < 1 or b[0] != len(b) - 1:
                bad('wrong count')
            if (sum(b) & 0xff) != 0xff:
                bad('wrong checksum')
            t = l[1:2]
            o.kinds.append('S' + t.decode())
            if t in b'123':
                al = int(t) + 1
                if len(b) < 1 + al + 1:
                    bad('record too short')
                a = int.from_bytes(b[1:1 + al], 'big')
                d = b[1 + al:-1]
                if not d:
                    bad('data record without data')
                if len(d) > maxdata:
                    bad('more than %d data bytes' % maxdata)
                if a + len(d) > 1 << (8 * al) and al < 4:
                    # a consumer wraps or refuses such a record: the address width
                    # does not suffice for its data
                    o.straddle = True
                o.runs.append((a, d))
            elif t == b'9':
                if len(b) != 4:
                    bad('wrong terminator length')
                if b[1:3] != b'\0\0':
                    bad('terminator with a start address')
                ended = True
            else:
                bad('unexpected record type')
        else:
            if not H_LINE.match(l):
                bad('bad characters')
            body = l[1:]
            if len(body) % 2:
                bad('odd number of digits')
            b = bytes.fromhex(body.decode())
            if len(b) < 5 or b[0] != len(b) - 5:
                bad('wrong count')
            if sum(b) & 0xff:
                bad('wrong checksum')
            a = int.from_bytes(b[1:3], 'big')
            d = b[4:-1]
            o.kinds.append('H%02d' % b[3])
            if b[3] == 0:
                if not d:
                    bad('data record without data')
                if len(d) > maxdata:
                    bad('more than %d data bytes' % maxdata)
                if a + len(d) > 0x10000:
                    o.straddle = True
                o.runs.append((upper + a, d))
            elif b[3] == 4:
                if len(d) != 2 or a != 0:
                    bad('malformed extended address record')
                upper = int.from_bytes(d, 'big') << 16
            elif b[3] == 1:
                if d or a:
                    bad('malformed end record')
                ended = True
            else:
                bad('unexpected record type')
    if not ended:
        raise FormatError('no terminator record')
    return o
