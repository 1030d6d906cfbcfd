"""Boundary families: documents that sit at the limits the standard names.
Each function returns a list of texts (deterministic)."""
import html.entities
import itertools
import os
import re

from gen import BLOCK_TAGS

REPO = os.environ.get('VERIF_REPO', '/repo')
ASCII_PUNCT = '!"#$%&\'()*+,-./:;<=>?@[\\]^_`{|}~'
_ex = []


def examples():
    """the examples of the standard's own text (inputs only); from the copy
    kept in /verif, the repository's file when that is missing"""
    if not _ex:
        with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'examples.txt'), encoding='utf-8') as f:
            _ex.extend(f.read().split('\x1e'))
    return _ex


def heads():
    out = []
    for n in range(0, 9):
        for sep in ['', ' ', '  ', '\t', '\u00a0', ' \t ']:
            for c in ['foo', '', '#', 'foo #', 'foo ##  ', 'foo#', 'foo \\#', 'foo #\\##', '# foo', 'foo # b', ' ', 'foo\t#', '\\# foo']:
                out.append('#' * n + sep + c)
    for i in range(0, 6):
        out += [' ' * i + '# foo', 'para\n' + ' ' * i + '# foo', ' ' * i + '## foo ##\nbar']
    for u in ['=', '==', '-', '--', '---', '====  ', '=\t', '= =', '- -', '---x', '=-', '   ===', '    ===', '\t---', '   -  ', '--- -']:
        for p in ['foo', 'foo\nbar', '  foo', '> foo', '- foo', '    foo', '# foo', '```\nfoo', '[f]: /u', '[f]: /u\nfoo', '<div>', 'foo\\', '`a\nb`',
                  'foo  ', 'foo\n', '***', '> - foo', '<!-- x -->']:
            out.append(p + '\n' + u)
            out.append(p + '\n' + u + '\nbaz')
    return out


def thematics():
    out = []
    for c in '*-_+=':
        for n in range(1, 6):
            for sep in ['', ' ', '  ', '\t']:
                for pre in ['', '   ', '    ', '\t', 'foo\n', '- foo\n', '> ', '- ', '1. ', '* ']:
                    out.append(pre + sep.join([c] * n) + '\nbar')
        out += [c * 2 + 'a' + c, 'a' + c * 3, c * 3 + 'a', c * 3 + '\t ', c * 3 + '\u00a0', c + c + '_' + c, c * 40]
    return out


def html_blocks():
    out = []
    for t in BLOCK_TAGS + ['span', 'a', 'em', 'h7', 'h0', 'h', 'divx', 'tabl', 'tables', 'script', 'pre', 'style', 'textarea', 'search', 'template']:
        for f in ['<%s>', '</%s>', '<%s', '<%s/>', '<%s x', '</%s', '<%s\tx>', '<%sx>', '<%s-', '</%s x>', '< %s>', '<%s/ >']:
            out.append((f % t) + '\n*a*\n\n*b*')
        out.append('<%s>\n*a*\n\n*b*' % t.upper())
        out.append('<%s>\n*a*\n\n*b*' % t.capitalize())
        out.append('p\n<%s>\n*a*\n\n*b*' % t)
        out.append('p\n</%s >\n*a*\n\n*b*' % t)
    starts = ['<script>', '<pre>', '<style>', '<SCRIPT', '<Pre x="y">', '<style\t', '<script', '<scripts>', '<!-- a', '<!--', '<!-->', '<!--->', '<? a', '<?', '<?>', '<!A', '<!Z b',
              '<!a', '<!DOCTYPE', '<!1', '<! A', '<![CDATA[', '<![CDATA[a', '<![cdata[', '<![CDATA', '<div', '</p', '<a>', '</a>', '<a b>', '<a b="c"', '<b/>', '<i/ >',
              '<a><b>', '<a> x', '<x-y z=1 />', '</a b>', '<a b=`>`>', '<_a>', '<a\n>']
    ends = ['</script>', '</pre>', '</STYLE>', '</style >', '-->', '--', '->', '?>', '>', ']]>', ']]', 'x ]]> y', '', 'x > y', 'x --> y', 'x ?> y', 'x </pre> y']
    for s in starts:
        for e in ends:
            out.append(s + '\n\n*m*\n' + e + '\n*n*\n\n*o*')
            out.append(s + e + '\n*n*')
        for i in range(0, 5):
            out.append(' ' * i + s + '\n*n*')
        for pre in ['p\n', '> ', '- ', '1. ', '> p\n', '- p\n  ', '    ', '\t']:
            out.append(pre + s + '\n*n*\n\n*o*')
    return out


def fences():
    out = []
    infos = ['', ' ruby', 'ruby', '  a b ', ' x`y', ' x~y', ' \\*a', ' &amp;', '\tz', ' &copy;&#35;', '\u00a0a', ' a\\', ' ```', ' ~~~', '-', ' \\`']
    for c in '`~':
        for n in range(2, 7):
            for info in infos:
                out.append(c * n + info + '\n  a\n\n*b*\n' + c * n + '\nafter')
            for m in range(1, 9):
                out.append(c * n + '\na\n' + c * m + '\nb')
        for i in range(0, 6):
            for j in range(0, 6):
                out.append(' ' * i + c * 3 + '\n' + ' ' * j + 'a\n' + ' ' * j + c * 3 + '\nb')
        for tail in [' ', '  ', '   ', ' ' * 6, '\t', ' \t', '  \t', 'x', ' x', '  x', c, '\u00a0', ' ' + c, '\\', '\x0c', ' \x0b']:
            out.append(c * 3 + '\na\n' + c * 3 + tail + '\nb')
            out.append(c * 3 + tail + '\na\n' + c * 3 + '\nb')
        other = '~' if c == '`' else '`'
        out += [c * 3 + '\n' + other * 3 + '\n' + c * 3, c * 3, c * 3 + '\n', c * 3 + '\n\n', c * 3 + '\n\n\n' + c * 3, c * 3 + '\na\n\n\n', '> ' + c * 3 + '\n> a\nb', '- ' + c * 3 + '\n  a\n\n  b\n c',
                'p\n' + c * 3 + '\na', c * 3 + '\n\ta\n    b\n\t\tc', ' ' + c * 3 + '\n\ta\n \tb', '  ' + c * 3 + '\n \ta', '   ' + c * 3 + '\n\ta\n   \tb',
                '> ' + c * 3 + '\n>a\n>  b\n>\n> ' + c * 3, '> ' + c * 3 + '\n>\ta\n>\t\tb', c * 3 + '\n&amp; \\* <b>\n' + c * 3, c * 3 + ' a\n' + c * 3 + ' b\n' + c * 3,
                '- a\n\n  ' + c * 3 + '\n  x\n\n\n  y\n  ' + c * 3, c * 2 + ' ' + c + '\nfoo', c * 3 + '\n' + c * 2 + ' ' + c, c * 4 + '\n' + c * 3 + '\n' + c * 5 + '\nx']
    return out


def indented():
    out = []
    for a in ['    a', '\ta', '  \ta', '     a', '   a', ' \t a', '\t\ta', '    \ta', '\t  a']:
        for mid in ['', '\n', '\n\n\n', '\n  \n', '\n      \n', '\n\t\t\n']:
            for b in ['    b', '\tb', '   b', 'b', '      b', '\t\tb', '    ']:
                out.append(a + '\n' + mid + b)
        for pre in ['p\n', '# h\n', '> ', '- ', '1. ', '-\n\n', '> p\n', '- p\n\n', '- p\n', '***\n', '\n\n', '```\n```\n', '<!-- -->\n', '[f]: /u\n']:
            out.append(pre + a)
            out.append(pre + '  ' + a)
    out += ['    a\n    *b* `c` &amp; \\* <d>\n', '    a\n\n\n    \n', '    \n    a', '      \n    a\n      \n']
    return out


def list_markers():
    out = []
    nums = ['0', '1', '2', '9', '10', '01', '007', '99999999', '123456789', '999999999', '000000001', '0000000001', '1234567890', '9999999999', '-1', '', '٣', '1a', '²', '1٣', '12１', '1²', '٣1', '1\u0967\u0968']
    for n in nums:
        for d in ['.', ')', ':', '', '. .']:
            for g in [' ', '', '  ', '     ', '\t']:
                out.append(n + d + g + 'a')
        out.append('p\n' + n + '. a')
        out.append('p\n' + n + '.')
        out.append('> p\n> ' + n + ') a')
        out.append('- p\n  ' + n + ') a')
        out.append('p\n\n' + n + ') a\n' + n + ') b\n8) c\n7. d')
    for b in '-+*':
        for g in ['', ' ', '  ', '   ', '    ', '     ', '      ', '\t', ' \t', '\t\t', '  \t', '   \t']:
            for c in ['a', '    a', '', '- b', '1. b', '> b', '```', '# h', '***', '<div>', '[f]: /u']:
                out.append(b + g + c + '\n' + ' ' * (1 + min(4, max(1, len(g)))) + 'z')
                out.append(b + g + c + '\n\n' + '  z')
        for i in range(0, 6):
            out.append(' ' * i + b + ' a\n' + ' ' * i + '  b\n\n' + ' ' * i + '  c')
            out.append(b + ' a\n' + ' ' * i + b + ' b\n' + ' ' * (i + 1) + b + ' c')
            out.append(b + '   a\n\n' + ' ' * i + 'c')
        out += ['p\n' + b + ' a', 'p\n' + b, 'p\n' + b + '   ', b + '\n', b + '\n' + b, b + '\n\n  a', b + '\n  a', b + ' \n  a', b + '\n   a', b + '\n      a', b + '\n a', b + '\n\n\n a', b + '\na']
    for a, b in itertools.product(['-', '+', '*', '1.', '1)', '2.', '3)'], repeat=2):
        out += [a + ' x\n' + b + ' y', a + ' x\n\n' + b + ' y', a + ' x\n   ' + b + ' y', a + ' ' + b + ' y', a + '\n' + b, a + ' x\n\n\n' + b + ' y\n\n' + a + ' z']
    return out


def looseness():
    """every way to put blank lines among the children of two items"""
    out = []
    kids = ['a', 'b', '> q', '- s\n  - t', '- s\n\n  - t', '```\nc\n\nd\n```', '```\n\n', '    i', '# h', '<!-- \n\n -->', '[r]: /u', '', '***', '> q\n>', '> q\n>\n> r', '```\nx\n```']
    for x in kids:
        for y in kids:
            for g1 in ['\n', '\n\n']:
                for g2 in ['\n', '\n\n']:
                    body = ('- ' + x.replace('\n', '\n  ') + g1 + '  ' + y.replace('\n', '\n  ') + g2 + '- z')
                    out.append(body)
        out += ['- ' + x.replace('\n', '\n  ') + '\n\n- z\n\n', '- ' + x.replace('\n', '\n  ') + '\n\n', '- ' + x.replace('\n', '\n  ') + '\n\np', '- ' + x.replace('\n', '\n  ') + '\n\n> p',
                '1. ' + x.replace('\n', '\n   ') + '\n\n2. z', '> - ' + x.replace('\n', '\n>   ') + '\n>\n> - z', '- - ' + x.replace('\n', '\n    ') + '\n\n  - z\n- w', '- - ' + x.replace('\n', '\n    ') + '\n\n- w',
                '- a\n  - ' + x.replace('\n', '\n    ') + '\n\n\n  b', '- a\n- ' + x.replace('\n', '\n  ') + '\n\n  c\n- d']
    return out


PRE = ['', '> ', '>', '- ', '1. ', '  ', '    ', '\t', '> > ', '> - ', '- > ', '- - ', '   ', '>\t', '-\t', '+ ', '2. ', '>     ', '-     ', '      ']
CON = ['foo', '', '# h', '---', '===', '```', '<div>', '    c', '- i', '> q', '* * *', '[f]: /u', '2. n', '<b>', '~~~ x', '<!-- c -->', '1) k']


def pairs():
    """two lines: container prefixes and contents"""
    return [p + c + '\n' + q + d for p in PRE for c in CON for q in PRE for d in CON]


def line_ends():
    out = []
    bases = ['a\nb', 'a\n\nb', '# h\np', '```\nx\n\ny\n```\n', '- a\n- b\n\n- c', '> a\nb\n', 'a\n===\n', '<div>\nx\n\ny', '    c\n\n    d\n', 'a  \nb\\\nc', '[f]: /u\n\n[f]', '\n\na\n\n',
             'a', '', '\n', '\n\n', '[f]:\n/u\n"t\nu"\n\n[f]', '`a\nb`', '[a\nb](\n/u\n"t"\n)', '<!-- a\nb -->', '***', '- a\n\n  b\n', '```', '~~~\n', 'a<b\nc>', '| \t x\n\ty']
    for b in bases:
        for e in ['\n', '\r\n', '\r']:
            t = b.replace('\n', e)
            out += [t, t + e, t + e + e]
        out.append(b.replace('\n', '\r\n', 1))
        out.append(b.replace('\n', '\n\r'))
        out.append(b + '\r')
        out.append('\r' + b)
    for c in ['\x0b', '\x0c', '\x1c', '\x1d', '\x1e', '\x85', '\u2028', '\u2029', '\x00', '\x1f', '\ufeff', '\u00a0']:
        out += ['a' + c + 'b', c + 'a', 'a' + c, '# h' + c + 'i', '```\na' + c + 'b\n```', '    x' + c + 'y', '> a' + c + '> b', '- a' + c + '- b', 'a' + c + c + 'b', 'a\n' + c + '\nb', '<div' + c + '>\nx',
                '<div>' + c + 'x\n\ny', '```' + c + 'z\nx', '- a\n' + c + '\n- b', c, 'a' + c + '\n===', '[f]: /u' + c + '\n\n[f]', '***' + c, '```\nx\n' + c + '```\ny', '#' + c + 'h']
    return out


def tabs():
    """every mixture of spaces and tabs up to width 9 before a few contents"""
    out = []
    ws = [''.join(p) for n in range(0, 4) for p in itertools.product([' ', '\t'], repeat=n)] + ['    ', '     ', '   \t', '    \t', '  \t\t', '\t   ', '\t    ', '      ', '       ', '        ']
    for w in ws:
        for c in ['a', '- a', '> a', '# a', '```', '***', '1. a', '<div>', '[f]: /u']:
            out.append(w + c)
            out.append('p\n' + w + c)
            for m in ['-', '>', '1.', '- -', '> >', '>-', '- >', '10)']:
                out.append(m + w + c)
        for m in ['-', '>', '1.', '10.', '> -', '- -', '-\t', '>\t', ' -', '  >', '   1)']:
            out.append(m + w + 'a\n' + w + 'b')
            out.append(m + ' a\n\n' + w + 'b')
            out.append(m + w + 'a\n\n' + w + 'b\n' + w + w + 'c')
            out.append('```\n' + m + w + 'a\n' + w + 'b\n```')
        for a in ['- a\n\n', '1. a\n\n', '> ', '- - a\n\n', '>\t', '> - a\n>\n>', '>\ta\n>']:
            for v in [' ', '\t', '  ', '\t\t']:
                out.append(a + w + v + 'b')
    return out


# ---- definitions ------------------------------------------------------------
def refdefs():
    out = []
    labels = ['foo', 'Foo', 'a b', 'a  b', 'a\nb', ' foo ', '\tfoo', '\nfoo', 'foo\n', '', ' ', '\n', '\\]', 'a\\]b', 'a\\[b', 'a[b', 'a]b', '\\', 'a\\', '*f*', '`x`', '<b>', '&amp;', '!', '^1', '  \\  ', 'é', '[a]', 'ẞ', 'ΑΓΩ', 'Толпой', 'ﬁ']
    dests = ['/u', '<>', '<a b>', '<a', 'a b', '', '\\(', 'a(b)c', 'a(b', 'a)b', '((a))', '<\\>>', '<a\nb>', '\n/u', '\n\n/u', ' /u', '\t/u', '/u\\*', '&auml;', 'é', '%20', '<b>c', '<a>"t"', '/é?a=b&c', 'a\\b', '"t"', "a'b", '<<>', '/a"b"', '#', '\x7f']
    titles = ['', ' "t"', " 't'", ' (t)', '"t"', '\n"t"', '\n\n"t"', ' "t', ' "a\nb"', ' "a\n\nb"', ' "a"b', ' "a" b', ' "a"b"', ' "\\""', " 'a\\''", ' (a\\)b)', ' (a(b))', ' ()', ' ""', "\n 't'", '\n"t" x', '\n"t', '\n(t)  ', '\t"t"\t', '  "t"  ', ' "&quot;"', ' "*"', '  \n  "t"', " 't\"u'", ' "é"', ' x', ' (t\nu)']
    for lab in labels:
        out += ['[%s]: /u\n\n[%s]' % (lab, lab), '[%s]: /u\n\n[x][%s]' % (lab, lab), '[%s]: /u' % lab, '[%s]\n\n[%s]: /u "t"' % (lab.lower(), lab), '[%s]\n\n[%s]: /u "t"' % (lab.upper(), lab), '[%s][]\n\n[%s]: /u' % (lab, lab.replace(' ', ' \n'))]
    for d in dests:
        out += ['[f]: %s\n\n[f]' % d, '[f]:%s\n\n[f]' % d, '[f]: %s "t"\n\n[f]' % d, '[f]: %s\nbar [f]' % d, '[f]: %s' % d]
    for t in titles:
        out += ['[f]: /u%s\n\n[f]' % t, '[f]: /u%s\n[g]: /v\n\n[f][g]' % t, '[f]: /u%s\nbar\n\n[f]' % t, '> [f]: /u%s\n\n[f]' % t.replace('\n', '\n> '), '- [f]: /u%s\n\n[f]' % t.replace('\n', '\n  '), '[f]: /u%s' % t, '[f]: <>%s\n\n[f]' % t]
    seps = ['', ' ', '\t', '\n', ' \n ', '\n\n', '  ', '\u00a0', '\x0b', '\x0c']
    for s in seps:
        for q in seps:
            out.append('[f]:%s/u%s"t"\n\n[f]' % (s, q))
    for i in range(0, 5):
        out += [' ' * i + '[f]: /u\n\n[f]', 'p\n' + ' ' * i + '[f]: /u\n\n[f]', '[f]: /u\n' + ' ' * i + '[g]: /v\n\n[f][g]', '# h\n' + ' ' * i + '[f]: /u\n[f]', '[f]:\n' + ' ' * i + '/u\n' + ' ' * i + '"t"\n\n[f]']
    for n in [2, 900, 996, 997, 998, 999, 1000, 1005]:
        # as text, longer than the label it is equivalent to
        t = '[a' + ' ' * n + 'b]'
        out += [w % t + '\n\n[a b]: /u' for w in ('%s', '%s[]', '[x]%s', '!%s', '%s(', '*%s*')] + ['[a' + ' ' * (n // 2) + '\n' + ' ' * (n - n // 2) + 'b]\n\n[a b]: /u']
    for n in [1, 10, 500, 996, 997, 998, 999, 1000, 1001, 1005]:
        for lab in ['a' * n, ('a' * (n - 1)) + 'b', ' ' + 'a' * (n - 2) + ' ', 'a\\]' * (n // 3) + 'c' * (n % 3), 'a' * (n // 2) + ' ' * (n - 2 * (n // 2) + 0) + 'b' * (n // 2)]:
            if n > 2 and lab.strip():
                out.append('[%s]: /u\n\n[%s]' % (lab, lab))
                out.append('[%s]: /u\n\n[x][%s] [%s][]' % (lab, lab, lab))
    containers = ['> %s', '- %s', '1. %s', '> - %s', '- > %s', '> > %s', '%s', '* a\n\n  %s', '> a\n>\n> %s']
    for c in containers:
        for d in ['[f]: /u', '[f]: /u\n[g]: /v', '[f]: /u\ntext', '[f]: /u "t"', '[f]: /u "t" x', 'p\n[f]: /u']:
            ind = {'>': '> ', '-': '  ', '1': '   ', '%': '', '*': '  '}[c[0]]
            if c in ('> - %s',):
                ind = '>   '
            if c in ('- > %s',):
                ind = '  > '
            if c == '> > %s':
                ind = '> > '
            out.append((c % d.replace('\n', '\n' + ind)) + '\n\n[f] [g]')
            out.append('[f] [g]\n\n' + (c % d.replace('\n', '\n' + ind)))
    out += ['[f]: /1\n[f]: /2\n\n[f]', '[f]\n\n[f]: /1\n\n> [F]: /2', '> [f]: /1\n\n[f]: /2\n\n[f]', '[f]: /1\n===\n[f]', '[f]: /1\nx\n===\n[f]', '[f]: /1\n"t"\n===\n\n[f]', '[f]: /u\n***\n[f]', '[f]: /u\n> [f]',
            '[f]: /u "t\n\n[f]', '[f]\n: /u\n\n[f]', '[f] : /u\n\n[f]', '[[f]: /u\n\n[f]', '[f]]: /u\n\n[f]', '\\[f]: /u\n\n[f]', '[f\\]: /u\n\n[f]', '![f]: /u\n\n[f]', '`[f]: /u`\n\n[f]', '[f]: /u\n[f]: /v\n[g]: /w\n[f][g]',
            '[f]: /u\n\n[F] [f ] [ f] [\nf]', '[f]: /u `a`\n\n[f]', '[a]: b\nc\n[d]: e\n\n[a][d]', '[ẞ]: /u\n\n[SS] [ss] [ß]', '[ss]: /u\n\n[ẞ] [ß]', '[ﬁ]: /u\n\n[fi] [FI]', '[İ]: /u\n\n[i̇]', '[ǅ]: /u\n\n[ǆ] [Ǆ]', '[ΑΣ]: /u\n\n[ας] [ασ]',
            '[f]: /u\n# [f]', '[f]: /u\n- [f]', '[f]: /u\n```\n[f]', '[f]: /u\n<div>\n[f]', '[f]: /u\n    [f]', '[f]: /u \\\n[f]', '    [f]: /u\n\n[f]', '```\n[f]: /u\n```\n\n[f]', '<div>\n[f]: /u\n</div>\n\n[f]', '# [f]: /u\n\n[f]', '[f]: /u\n  "t"\n  "t2"\n\n[f]',
            '[toString]\n\n[a]', '[__proto__]\n\n[x]: /u', '[constructor]', '[f]: /a&b "c&d<e>\\\\"\n\n[f]', '[f]: javascript:x\n\n[f]', '[f\n\n g]: /u\n\n[f g]', '[f\n  g]: /u\n\n[f g]']
    for w in ['\u00a0', '\x0b', '\x0c', '\u2003', '\x1f', '\u3000', '\u200b', '\t', '\n']:
        out += ['[%sf]: /u\n\n[f]' % w, '[f%s]: /u\n\n[f]' % w, '[f%sg]: /u\n\n[f g]' % w, '[f g]: /u\n\n[f%sg] [%sf g]' % (w, w), '[%s]: /u\n\n[%s]' % (w, w), '[f]: /u%s\n\n[f]' % w, '[f]:%s/u\n\n[f]' % w, '[f%s%sg]: /u\n\n[f%sg]' % (w, w, w),
                '[f]: /u%s"t"\n\n[f]' % w, '[f]: /u "t"%s\n\n[f]' % w, '[f%s][f]\n\n[f]: /u' % w, '[x][f%s]\n\n[f]: /u' % w]
    return out


# ---- inlines -------------------------------------------------------------------
def code_spans():
    out = []
    for n in range(1, 6):
        for m in range(1, 6):
            out += ['`' * n + 'a' + '`' * m, 'x`' + '`' * n + ' a ' + '`' * m + ' b `' * 2, '`' * n + 'a' + '`' * m + 'b' + '`' * n]
    for c in ['', ' ', '  ', '   ', ' a', 'a ', ' a ', '  a  ', ' a  b ', '\na\n', 'a\nb', '\n', ' \n ', '\n \n', 'a\n b', 'a \nb', ' `` ', '``', ' ` ', '\u00a0a\u00a0', '\u00a0', '\ta\t', '\t', '\\', 'a\\', '&amp;', '<b>', '*a*', '[a](b)', '\\`', 'a  \nb',
              'a\n\n', ' \ta\t ', '\x0ca\x0c', '\u2003a\u2003', ' a\u00a0', 'é', '\n a \n', '  ', '\u00a0 \u00a0']:
        for n in (1, 2, 3):
            t = '`' * n
            out += [t + c + t, 'x' + t + c + t + 'y', '*' + t + c + '*' + t, '[' + t + c + '](u)' + t, '\\' + t + c + t, t + c + t + c + t, '<a ' + t + '>' + c + t, '> ' + t + (c + t).replace('\n', '\n> ')]
    out += ['`' * n + ' ' + '`' * (n - 1) + ' ' + '`' * n for n in range(2, 40)] + ['`' * n + 'a' for n in range(1, 60, 7)]
    out += [' '.join('`' * k for k in p) for p in itertools.permutations([1, 2, 3, 1, 2])][:60]
    return out


def autolinks():
    out = []
    for n in list(range(0, 5)) + [31, 32, 33, 34]:
        out += ['<' + 'a' * n + ':b>', '<A' + '1' * n + ':b>', '<a' + '+' * n + ':>', '<1' + 'a' * n + ':b>']
    for c in map(chr, range(0x20, 0x7f)):
        out += ['<http://a%sb>' % c, '<a%sb:c>' % c, '<x%sy@z.w>' % c, '<x@y%sz.w>' % c, '<x@y.z%sw>' % c, '<ab:%s>' % c]
    for c in ['é', '\u00a0', '€', '𝒳', '\u2003', '\n', '\t', '\x01', '\x7f', '\x0c', '\u0080', '\u202e']:
        out += ['<http://a%sb>' % c, '<x%sy@z.w>' % c, '<ab:%s>' % c]
    for c in map(chr, range(0x21, 0x7f)):
        # each place of an address and of a scheme
        out += [w % c for w in ('<%s@z>', '<x@%s>', '<x@%sz>', '<x@z%s>', '<x@z.%s>', '<x@z.%sw>', '<x@z.w%s>', '<x@z.w.%s>', '<%sb:c>', '<a%s:c>')]
    for n in [1, 2, 60, 61, 62, 63, 64, 65]:
        out += ['<x@b.' + 'A' * n + '>', '<x@b.c.' + '0' * n + '>', '<x@b.c' + '-' * (n - 1) + 'd>', '<x@B' + '9' * (n - 1) + '.c>', '<x@a.b.' + 'c' * n + '.d>',
                '<x@' + 'a' * n + '>', '<x@' + 'a' * n + '.' + 'b' * n + '>', '<' + 'x' * n + '@y.z>', '<x@a' + '-' * (n - 1) + 'b>']
    out += ['<x@y.>', '<x@.y>', '<x@y-.z>', '<x@-y.z>', '<x@y.-z>', '<x@y.z->', '<@y>', '<x@>', '<>', '< a:b>', '<a:b >', '<ab:c', 'ab:c>', '<mailto:x@y.z>', '<MAILTO:a@b>', '<http://a.b/%20%zz%2>', '<http://a?b=c&d="e"#f>', '<ab:\\*>',
            '<ab:&amp;>', '*<ab:*c>*', '[<ab:](c)>', '`<ab:`>', '\\<ab:c>', '<ab\\:c>', '<x+special@Bar.baz-bar0.com>', '<a.b+c!#$%&\'*/=?^_`{|}~-@d>', '<ab:[x]>', '[<ab:c>](d)', '![<ab:c>](d)', '<ab:c><x@y>', '<ab:%>', '<ab:%4>', '<ab:%41>', '<x%41@y.z>', '<x%@y>']
    return out


def raw_html():
    out = []
    names = ['a', 'A', 'ab1', 'a-b', '1a', 'a_b', 'é', 'a.b', 'a:b', '-a', 'a-']
    attrs = ['', ' b', ' b=c', ' b="c"', " b='c'", ' b = c', '\tb', '\nb', ' b\n=\n"c\nd"', ' b=', ' b=""', ' b="c"d', ' b="c" d', ' b="c', " b='c", ' _:.-=x', ' :a', ' .a', ' -a', ' 1a', ' b=c"d', ' b=c\'d', ' b=c<d', ' b=c=d', ' b=`c`', ' b=c>d',
             ' b="&amp;"', ' b="\\""', ' b="*x*"', '  ', ' b c d="e"  f', '/b', ' b"c"', ' b=c/d', ' é', ' b="é"', ' b="\n\n"', " b=''", ' b  =  c', ' b\t =\t "c"', " b   =\n 'c'", ' b= \tc', ' b\n =c', " b=''c", " b='' c=''", ' b="a>b"', " b='a>b'", ' b="<"', '\x0cb', '\x0bb', ' "b"', " 'b'", ' b=c\\', '=b']
    for n in names:
        for e in ['>', '/>', ' />', ' / >', ' >', '', '//>', '/ >', '\n>', '\n/>']:
            out += ['x<' + n + e + 'y', 'x</' + n + e + 'y']
    for a in attrs:
        for e in ['>', '/>', ' />', '\n>', '']:
            out += ['x<a' + a + e + '*y*', 'x</a' + a + e + 'y']
        out += ['x<a' + a + a + '>y', '*<a' + a + '>*', '`<a' + a + '>`', '[<a' + a + '](b)>']
    for b in ['', '-', '--', '>', '->', ' a ', ' a-', ' a--b ', '-a', '--a', ' -> ', '>a', ' >a', '->a', ' a --', '\na\nb\n', ' <b> ', ' *a* ', '--->', ' - - ', ' a -- b ', '---', 'a->b', '-->', 'a-->b', ' --!>', '!', ' é ', '- a -']:
        out += ['x<!--' + b + '-->y', 'x<!--' + b + '-- >y', 'x<!-' + b + '->y', 'x<!--' + b]
    for b in ['', 'a', '?', '??', '>', 'a?b', 'a>b', '\na\n', ' php echo $a; ', '?a', 'a?', '*a*']:
        out += ['x<?' + b + '?>y', 'x<?' + b + '>y', 'x<?' + b]
    for b in ['A', 'A b', 'DOCTYPE html', 'A\nb', 'A>', '1', 'A"b"', 'ELEMENT br EMPTY', 'A <b', 'Aé b', 'A  ', 'A\tb']:
        out += ['x<!' + b + '>y', 'x<! ' + b + '>y', 'x<!' + b]
    for b in ['', 'a', ']', ']]', ']]]', ']>', 'a]b', '>', '&<', '\na\n', 'a]]b', '*a*', '[', '<![CDATA[']:
        out += ['x<![CDATA[' + b + ']]>y', 'x<![CDATA[' + b + ']>y', 'x<![cdata[' + b + ']]>y', 'x<![CDATA' + b]
    out += ['<', '<<', '<>', '< a>', '<a', '<a<b>', '<a b<c>', 'a < b > c', '<a href="x">b</a>', '&lt;a>', '\\<a>', '<\\a>', '<a\\>', '<a>*b*</a>', '<a>`<b>`', '<33> <__>', '<a h*#ref="hi">', "<a href='bar'title=title>", '</a href="foo">', '<a href="&ouml;">', '<a href="\\*">']
    return ['p ' + t if t.startswith('<') else t for t in out]


def entities(all_names=True):
    out = []
    names = sorted(n[:-1] for n in html.entities.html5 if n.endswith(';'))
    for i in range(0, len(names), 12):
        out.append(' '.join('&%s;' % n for n in names[i:i + 12]))
    legacy = sorted(n for n in html.entities.html5 if not n.endswith(';'))
    for i in range(0, len(legacy), 12):
        out.append(' '.join('&' + n for n in legacy[i:i + 12]) + ' &%sx; &%s' % (legacy[i], legacy[i].upper()))
    vals = [0, 1, 8, 9, 10, 11, 12, 13, 31, 32, 34, 38, 42, 60, 95, 96, 127, 128, 130, 150, 159, 160, 173, 255, 256, 0x2028, 0x3000, 0xd7ff, 0xd800, 0xdbff, 0xdc00, 0xdfff, 0xe000, 0xfdd0, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x1d4b3, 0x1ffff,
            0xfffff, 0x10ffff, 0x110000, 0x1fffff, 0xffffff, 999999, 9999999, 10000000, 99999999]
    for v in vals:
        for f in ['a&#%d;b', 'a&#x%x;b', 'a&#X%X;b', 'a&#%07d;b', 'a&#%08d;b', 'a&#x%06x;b', 'a&#x%07x;b', 'a&#%db', 'a&#x%xb', 'a&#%d ;b', '&#%d;', '&#x%x;']:
            out.append(f % v)
    out += ['&;', '&#;', '&#x;', '&#X;', '&#xg;', '&#1a;', '&a b;', '& amp;', '&amp ;', '&amp', '&AMP;', '&Amp;', '&aMP;', '&copy;&reg;', '&&amp;;', '&amp;amp;', '\\&amp;', '&\\amp;', '&am\\p;', '&amp\\;', '&lt;b&gt;', '&#42;a&#42;', '&#95;a_', '*a&#42;',
            '&#35; h', '&#45; x', '&#62; q', '&#96;a`', '&lbrack;a](b)', '[a](b&rpar;', '&#9;a', '&#10;a', 'a&#10;&#10;b', '&nbsp;a&nbsp;', '&#32;a&#32;', 'a &#32;', '`&amp;`', '<a b="&amp;">', '&#x1F600;', '&#٣;', '&#x٣;', '&ａmp;', '&é;', '&' + 'a' * 100 + ';', '&CounterClockwiseContourIntegral;', '&#-1;', '&#+1;', '&#1_0;', '&# 1;', '&#x 1;', '&#0x1;']
    return out


def escapes():
    out = []
    for c in list(map(chr, range(0x20, 0x7f))) + ['é', '\u00a0', '—', '€', '\t', '\n', '𝒳', '·', '\x7f']:
        out += ['\\' + c, 'a\\' + c + 'b', '\\\\' + c, 'a\\' + c + '*b*', '`\\' + c + '`', '<a b="\\' + c + '">', '[x](\\' + c + ')', '[x](</' + '\\' + c + '>)', '[x](u "\\' + c + '")', '<ab:\\' + c + '>', '# \\' + c, '[\\' + c + ']', '    \\' + c]
    out += ['a\\', '\\', 'a\\\n', '# a\\', '> a\\\nb', 'a\\\\\nb', '\\\\', '\\\\\\', '\\`a`', '`a\\`', '*a\\*', '\\*a*', '**a\\**', '\\![a](b)', '!\\[a](b)', '\\[a](b)', '[a\\](b)', '[a]\\(b)', '[a](b\\)', '\\# a', '\\- a', '1\\. a', '\\> a', '\\```\na', '\\<b>', '\\&amp;', '&amp\\;', '\\~', '\\    a', '\\\ta']
    return out


def breaks():
    out = []
    for a in ['', ' ', '  ', '   ', '      ', '\\', '\\ ', ' \\', '\\\\', '\t', ' \t', '\t ', '  \t', '\u00a0', '\u00a0\u00a0', '\u2003', ' \u00a0', '  \\', '\\  ', '\t\t', '\x0c', '\x0b', '  \u00a0']:
        for b in ['', ' ', '    ', '\t', '\u00a0', '      ', '\x0c', '\x0b', '\u2003']:
            out += ['foo' + a + '\n' + b + 'bar', '*foo' + a + '\n' + b + 'bar*', 'foo' + a + '\n' + b + '*bar*', '[foo' + a + '\n' + b + 'bar](u)', '`foo' + a + '\n' + b + 'bar`', '<a b="foo' + a + '\n' + b + 'bar">', '> foo' + a + '\n> ' + b + 'bar', '- foo' + a + '\n' + b + 'bar',
                    '*foo*' + a + '\n' + b + 'bar', 'foo&amp;' + a + '\n' + b + 'bar', 'foo`x`' + a + '\n' + b + 'bar', 'foo' + a + '\n' + b + 'bar' + a + '\n' + b + 'baz']
        out += ['foo' + a, '# foo' + a, 'foo' + a + '\n===', 'foo' + a + '\n\nbar', '> foo' + a, '- foo' + a + '\n- bar', '*foo*' + a, '`foo`' + a, a + 'foo', '# foo' + a + '#', '# ' + a + 'foo', 'foo' + a + '\n```\n```', '`a`' + a + '\n`b`', '![a' + a + '\nb](u)', 'a' + a + '\n' + '# b', a]
    return out


def emphasis():
    out = []
    us = [' ', 'a', '.', '\u00a0', 'é', '«', '“', '—', '€', '£', '\u2003', '\u3000', '+', '$', '^', '`', '~', '|', '<', '=', '>', '\\*', '&amp;', '&nbsp;', '\t', '\n', '1', '中', '。', '𝒳', '·', '¡', '´', '¨', '\u200b', '\u00ad', '\u0301']
    for b in us:
        for a in us:
            for d in '*_':
                out += [b + d + a, 'x' + b + d + a + 'y' + d, d + 'x' + b + d + a + 'y']
    for n in range(1, 9):
        for m in range(1, 9):
            for d in '*_':
                out += [d * n + 'a' + d * m, 'b' + d * n + 'a' + d * m + 'c', d * n + 'a' + d * m + 'b' + d * n, d * n + 'a ' + d * m + 'b' + d * m + ' c' + d * n]
    for p in itertools.product(['*', '**', '_', '__', '***'], repeat=4):
        out.append('%sa%sb%sc%s' % p)
        out.append('%sa %sb%s c%s' % p)
    return out


def links():
    out = []
    dests = ['', '/u', '<>', '<a b>', '<a', '<a>b', 'a b', 'a(b)', 'a(b', 'a)b', '((a)b)', '(a)(b)', '\\(a', '\\)', '<a)>', '<(>', '<a\nb>', 'a\nb', '<\\>>', '<a\\>', 'a\\b', 'a\\*b', '&auml;', '&amp;', '<&lt;>', 'é', '%20', '%zz', '%', 'a%2', '"t"', "'t'", '(t)', '#f', '?a=b&c', 'a*b*', '`a`', '[b]', '<[b]>', '\u00a0', 'a\u00a0b',
             'a\\ b', '<<>', '< a >', '\\<a>', 'a<b', '((((((((((((((((((((((((((((((((a))))))))))))))))))))))))))))))))', 'x' * 300, 'http://a.b/c?d=[e]', '//a', "a'b", 'a"b', '~!@$^*_+|{}', 'javascript:a', 'a\\\\b', '\\', 'a\\', '<\\\\>', '\tu', '(', ')', '()', '\\((', '<b>"t"', '𝒳']
    titles = ['', ' "t"', " 't'", ' (t)', '"t"', '\n"t"', '\n\n"t"', ' "t', ' t"', ' "a"b"', ' "a\\"b"', ' "\\\\"', ' "a\nb"', ' "a\n\nb"', ' ""', " ''", ' ()', ' (a(b))', ' (a\\(b)', " 'a\"b'", ' "&quot;"', ' "*a*"', ' "é"', '\t"t"', '\u00a0"t"', ' "t" x', ' "t"  ', ' "t"\n', ' "<b>"', ' "`a`"', ' "t" "u"', " 't' 'u'", ' x', '  "t"', ' "a]b"', ' "\\n"', ' "t\\"', '\x0c"t"', ' ( t )']
    for d in dests:
        for t in titles:
            out.append('[x](%s%s)' % (d, t))
        out += ['![x](%s)' % d, '[x]( %s )' % d, '[x](\n%s\n)' % d, '[x] (%s)' % d, '[x](%s' % d, '[f](%s)\n\n[f]: /r' % d, '[x](%s)(y)' % d, '[[x](%s)](z)' % d]
    texts = ['', 'x', ' ', '*x*', '`x`', '`]`', '<b>', '<b a="]">', '<ab:c>', '<ab:]>', '[x]', '[x', 'x]', '\\[', '\\]', '![x](u)', '[x](u)', '![x]', '!', '\n', 'a\nb', '**x', '&amp;', '[x](u', '[f]', '![f]', '[[x]]', '![[x](u)](v)', '*a [b](c) d*', '[f][f]', '[x][f]', 'x\\', '![', '`', 'f', '[f](u)', '!!', '\\![x](u)', '[![a](b)](c)', '<a [b](c)>']
    for t in texts:
        for u in ['(u)', '[f]', '[]', '', '(u', '[f', '[g]', ' [f]', '\n[f]', ':', '[f](u)', '(u)(v)', '[][f]', '[f][f]', '[ ]', '[F ]', '[*x*]', '()', '(u "t")', '[\n]', '[f]]', '\\[f]', '(<u>)']:
            out += ['[%s]%s\n\n[f]: /r "ti"\n[x]: /x\n[*x*]: /s' % (t, u), '![%s]%s\n\n[f]: /r "ti"\n[x]: /x' % (t, u)]
    return out


PLACES = dict(text=('a %s b', 'inl'), emph=('*%s*', 'inl'), code=('`%s`', 'inl'), tag=('x<a b="%s">', 'inl'), auto=('<ab:%s>', 'inl'), dest=('[x](%s)', 'inl'), title=('[x](u "%s")', 'inl'), alt=('![%s](u)', 'inl'),
              label=('[%s]', 'refs'), head=('# %s', 'blocks'), fence=('```\n%s\n```', 'blocks'), info=('~~~ %s\nx\n~~~', 'blocks'), html=('<div>%s</div>', 'blocks'), item=('- %s', 'blocks'), quote=('> %s', 'blocks'), par=('%s', 'blocks'))


def near(places, ns=(1, 3, 8, 17, 33, 50, 65, 100, 129, 200, 257)):
    """two pieces in one document that are the same but for one place: what
    was kept about the first must not be used for the second"""
    out = []
    for p in places:
        w, kind = PLACES[p]
        for n in ns:
            x = ('xyz' * n)[:n]
            for a, b in [(x + 'a', x + 'b'), ('a' + x, 'b' + x), (x + 'a' + x, x + 'b' + x), (x, x + 'x'), (x, x.upper()), (x + '&amp;', x + '&lt;'), (x + '&Auml;', x + '&auml;'), (x + '&LeftArrow;', x + '&Leftarrow;'), (x + '\\*', x + '\\_'), (x + 'é', x + 'é')]:
                a, b = w % a, w % b
                if kind == 'refs':
                    out += [a + ': /a\n' + b + ': /b\n\n' + b + ' ' + a, b + '\n\n' + a + ': /a', a + '\n' + b + '\n\n' + a + ': /a']
                else:
                    out.append(a + (' ' if kind == 'inl' else '\n\n') + b + '\n\n' + (b if n % 2 else a))
    return out


def smarts():
    out = []
    for n in range(1, 20):
        out += ['-' * n, 'a' + '-' * n + 'b', 'a ' + '-' * n + ' b', '*a*' + '-' * n + '`b`']
    for n in range(1, 10):
        out += ['a' + '.' * n, 'a ' + '.' * n + ' b', '.' * n + 'a']
    for a in ['', ' ', 'a', '.', '(', '1', '\u00a0', 'é', '-', '\\', '*', '"', "'", '[', ']', '\n', '`x`', '<b>', '&amp;', '“', '—']:
        for b in ['', ' ', 'a', '.', ')', '1', '\u00a0', 'é', '-', '*', '"', "'", '\n', '`x`', '<b>', '&quot;']:
            for q in ['"', "'"]:
                out += ['x' + a + q + b + 'y', 'x' + a + q + 'b' + q + b + 'y', a + q + 'b' + q + b]
    out += ['"\'a\'"', '\'"a"\'', '"a "b" c"', "'a 'b' c'", "'tis 'twas the '90s", "it's", "dogs'", '"a', 'a"', '"a\n\n"b"', '*"a*"', '"*a"*', '["a](b)"', '[a"](b)"', '"[a](b "t")"', '`"a"`', '<a b="c">', '\\"a\\"', "\\'a\\'", '&quot;a&quot;', '"a" "b" \'c\'', '""a""', "''a''", '"\'', '# "a" -- b...',
            '```\n"a"--\n```', '    "a"...', '<div>\n"a"--\n', '[f]: /u "a--b"\n\n[f] "f"', '[a--b](c--d "e--f")', '![a--b](c...d)', '<http://a--b...c>', '---\n"a"', '- "a"\n- b--', '> "a', 'a\n---', '. . .', '..', '\\...', '.\\..', '-\\--', '--\\-', '&#45;--', '---- ----', '"a"b"c"', "a'b'c", "'", '"', "'''", '"""', 'a--\\\nb', 'a...\nb', '"a\nb"', '**"a"**', '"**a**"', "_'a'_", "'_a_'", "\"'a\"'", '**"a**"', '[\'a](b)\'c\'', "*'a*'b'", '"a *b" c*', "'a'b 'c'"]
    return out
