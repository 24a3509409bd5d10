"""Readers of the assembler's standard output."""
import re

ERR = re.compile(r'^(>*)\s*(\d+) (ERROR|WARNING): (.*)$')
SUM_E = re.compile(r'^ERRORS:\s+(\d+)\s*$')
SUM_W = re.compile(r'^WARNINGS:\s+(\d+)\s*$')
LAST = re.compile(r'^ Last address\s+([0-9a-f]+) \((-?\d+)\)\s*$')
CLEN = re.compile(r'^ Code length\s+([0-9a-f]+) \((-?\d+)\)\s*$')


class Out:
    """what one run said"""

    def __init__(self, text):
        if isinstance(text, bytes):
            text = text.decode('latin-1')
        self.text = text
        self.errors = []      # (line number, message)
        self.warnings = []
        self.diags = []       # (kind, line number, message) in order
        self.nerr = self.nwarn = None
        self.success = self.nocode = 0
        self.last = self.length = None
        self.fatal = None
        self.usage = False
        self.nsummaries = 0
        self.summary_at = None
        lines = text.split('\n')
        self.lines = lines
        for i, l in enumerate(lines):
            m = ERR.match(l)
            if m:
                k = (m.group(3), int(m.group(2)), m.group(4))
                self.diags.append(k)
                (self.errors if k[0] == 'ERROR' else self.warnings).append(k[1:])
                continue
            m = SUM_E.match(l)
            if m:
                self.nerr = int(m.group(1))
                self.nsummaries += 1
                self.summary_at = i
                continue
            m = SUM_W.match(l)
            if m:
                self.nwarn = int(m.group(1))
                continue
            if l.rstrip() == 'Successful assembly...':
                self.success += 1
            elif l.rstrip() == 'No code generated...':
                self.nocode += 1
            elif l.startswith('FATAL ERROR: '):
                self.fatal = l[13:]
            elif l.startswith('Syntax:  crasm'):
                self.usage = True
            m = LAST.match(l)
            if m:
                self.last = (int(m.group(1), 16), int(m.group(2)))
            m = CLEN.match(l)
            if m:
                self.length = (int(m.group(1), 16), int(m.group(2)))

    def ok(self):
        return self.success == 1 and self.nerr == 0 and self.fatal is None

    def errlines(self):
        return [n for n, _ in self.errors]

    def warnlines(self):
        return [n for n, _ in self.warnings]


CELL = 61
SYM = re.compile(r'^([? ^])(?:([0-9A-F]{4}|[0-9A-F]{6}|[0-9A-F]{8}) )?\s*'
                 r'(Undefined|Mnemonic|Macro|Abs|Rel|Register\(s\)|Bit-?\d+) ([^\s?^]+)')


def symtab(out, strip_pages=True):
    """entries (mark, value or None, kind, name) of the table after the summary;
    wants a page width of at least 62"""
    res = []
    junk = []
    lines = out.lines[out.summary_at or 0:]
    seen = False
    for l in lines:
        if l.startswith('Crasm ') and 'page' in l:
            seen = True
            continue
        if l.startswith(('Successful', ' Last address', ' Code length', 'ERRORS:', 'WARNINGS:', 'No code')):
            continue
        i = 0
        while l[i:].strip():
            # a name of 47 or 48 characters behind a value of 8 digits fills its cell, or passes it
            m = SYM.match(l[i:i + CELL + 2])
            if not m or l[i + m.end():i + CELL].strip():
                junk.append(l)
                break
            res.append((m.group(1), int(m.group(2), 16) if m.group(2) else None, m.group(3), m.group(4)))
            i += max(CELL, m.end())
    return res, junk


ROW = re.compile(r'^(.{21})(?:(.{5})  |(\d{6}) |(\d{7}))(.*)$', re.S)
CODE = re.compile(r'^([0-9A-F]{4}|[0-9A-F]{8}) ((?:[0-9A-F]{2})*)(\.\.\.)?\s*$')
VAL = re.compile(r'^  ([0-9A-F]{4}|[0-9A-F]{8}) \s*$')


class Row:
    __slots__ = ('kind', 'num', 'prefix', 'text', 'addr', 'data', 'dots', 'value', 'raw', 'extra')

    def __repr__(self):
        return 'Row(%s)' % ', '.join('%s=%r' % (k, getattr(self, k)) for k in self.__slots__)


def rows(out, upto_summary=True):
    """Rows of a listing printed with 'PAGE 0,w' and w large enough for no line to
    wrap.  kind: 'line' (a source line), 'code' (bytes only), 'diag', 'head',
    'blank' or 'junk'."""
    res = []
    end = out.summary_at if upto_summary and out.summary_at is not None else len(out.lines)
    for l in out.lines[:end]:
        r = Row()
        r.kind = 'junk'
        r.num = r.prefix = r.text = r.addr = r.data = r.value = None
        r.dots = False
        r.raw = l
        r.extra = None
        res.append(r)
        if not l:
            r.kind = 'blank'
            continue
        if l.startswith('Crasm ') and 'page' in l:
            r.kind = 'head'
            continue
        m = ERR.match(l)
        if m:
            r.kind = 'diag'
            r.extra = (m.group(3), int(m.group(2)), m.group(4))
            continue
        m = ROW.match(l)
        left = m.group(1) if m else l
        if left.strip():
            c = CODE.match(left)
            if c:
                r.addr = int(c.group(1), 16)
                r.data = bytes.fromhex(c.group(2))
                r.dots = bool(c.group(3))
            else:
                c = VAL.match(left)
                if not c:
                    continue
                r.value = int(c.group(1), 16)
        if m:
            mid = m.group(2) or m.group(3) or m.group(4)
            if mid.strip().isdigit():
                r.num = int(mid)
                r.prefix = ''
            elif mid.strip() in ('M', 'C'):
                r.prefix = mid.strip()
            else:
                continue
            r.text = m.group(5)
            r.kind = 'line'
        else:
            r.kind = 'code'
    return res
