"""The same source text in another layout."""
import re

TOKEN = re.compile(r'''(?P<quote>'(?:\\.|[^'\\])*'|"(?:\\.|[^"\\])*")|(?P<comment>;.*)|(?P<blank>[ \t]+)|(?P<word>(?:\\\*|[A-Za-z0-9_.$%#\\@:])+)'''
                   r'''|(?P<op><<|>>|<=|>=|<>|==|!=|[-+*/|&^=<>,])|(?P<other>.)''', re.S)
COMMENTS = ['', ' note', 'x', ' a "quoted; one', " it's", ' (unbalanced', '; ;', ' lda #5', ' db 1,2', ' endc', ' endm', ' * = 5', ' "\\', ')',
            '\t tab', ' \\1', 'include x', ' "', " '\\'", ' label = 7']
VERBATIM = re.compile(r'^\s*(\S+\s+)?(include|fail|nam)\b', re.I)
BODY = re.compile(r'\\[1-9#*]')


def cased(rng, w, style):
    if style == 'upper':
        return w.upper()
    if style == 'lower':
        return w.lower()
    if style == 'mix':
        return ''.join(rng.choice([c.lower(), c.upper()]) for c in w)
    return w


def blanks(rng, least, style):
    if style == 'tab':
        return '\t' * max(least, rng.choice([0, 1, 1, 2]))
    if style == 'none':
        return ' ' * least
    if style == 'wide':
        return ' ' * rng.choice([1, 7, 20])
    n = max(least, rng.choice([0, 1, 1, 2, 3]))
    return ''.join(rng.choice(' \t') for _ in range(n))


def line(rng, t, case, blank, comments, limit=235):
    """one line, respelled"""
    if not t.strip():
        return rng.choice(['', ' ', '\t', ' \t ', ';', ' ; empty']) if comments else t
    m = VERBATIM.match(t)
    if m:
        # its text means itself
        s = t[:m.end()]
        return cased(rng, s, case).replace(' ', ' \t'[rng.randrange(2)]) + t[m.end():] if '"' not in s else t
    toks = []
    for m in TOKEN.finditer(t):
        k = m.lastgroup
        if k == 'other' and m.group() in '\'"':
            return t            # a faulty quote: left alone
        toks.append((k, m.group()))
    depth = [w for k, w in toks if k == 'other' and w in '()']
    if depth.count('(') != depth.count(')') or depth[:1] == [')']:
        return t                # a faulty line: where its comment begins is not specified
    had = toks and toks[-1][0] == 'comment'
    if had:
        toks.pop()
    while toks and toks[-1][0] == 'blank':
        toks.pop()
    words = [i for i, (k, _) in enumerate(toks) if k != 'blank']
    out = []
    if not toks:
        out.append(blanks(rng, 0, blank))
    else:
        start = 0
        lone = len(words) == 1 and toks[0][0] != 'blank'
        if toks[0][0] == 'blank':
            start = 1
        # the column means something for lone labels only (a lone mnemonic may go anywhere,
        # but which of both this is only the assembler knows)
        if lone:
            pass
        elif len(words) == 1:
            out.append(blanks(rng, 1, blank))
        else:
            out.append(blanks(rng, 0, blank))
        for i in range(start, len(toks)):
            k, w = toks[i]
            if k == 'blank':
                out.append(blanks(rng, 1, blank))
            elif k == 'word':
                out.append(cased(rng, w, case))
            elif k == 'op':
                out.append(blanks(rng, 0, blank) + w + blanks(rng, 0, blank))
            else:
                out.append(w)
    s = ''.join(out)
    tail = blanks(rng, 0, blank)
    if comments and rng.random() < .4:
        # a comment needs no blank before it
        tail += ';' + rng.choice(COMMENTS)
    if len(s.expandtabs(8)) + len(tail) > limit:
        return t
    return s + tail


def text(rng, src, case=None, blank=None, comments=True, lines=True, limit=235):
    """a whole file"""
    case = case or rng.choice(['upper', 'lower', 'mix', 'mix', 'keep'])
    blank = blank or rng.choice(['tab', 'none', 'mix', 'mix', 'wide'])
    out = []
    parts = src.split('\n')
    last = parts.pop()
    for t in parts:
        while lines and rng.random() < .08:
            out.append(rng.choice(['', ' ', '\t\t', '; ' + rng.choice(COMMENTS), ' ;' + rng.choice(COMMENTS), ';']))
        out.append(line(rng, t, case, blank, comments, limit))
    return '\n'.join(out) + '\n' + (line(rng, last, case, blank, comments) if last else '')
