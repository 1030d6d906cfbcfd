"""Inputs: random, mutated and boundary documents, and the line and token
alphabets that are enumerated exhaustively.  Every random choice comes from
the random.Random that is passed in."""

WORDS = ['foo', 'bar', 'baz', 'qux', 'a', 'b', 'Zed', 'x1', 'foo bar', 'é', 'Ünder']

BLOCK_TAGS = ('address article aside base basefont blockquote body caption center col colgroup dd '
              'details dialog dir div dl dt fieldset figcaption figure footer form frame frameset h1 h2 h3 '
              'h4 h5 h6 head header hr html iframe legend li link main menu menuitem nav noframes ol '
              'optgroup option p param section source summary table tbody td tfoot th thead title tr '
              'track ul').split()


def word(r):
    return r.choice(WORDS)


def spaces(r, lo=0, hi=5):
    return ' ' * r.randint(lo, hi)


def indent(r):
    k = r.random()
    if k < 0.45:
        return ''
    if k < 0.8:
        return spaces(r, 1, 7)
    return ''.join(r.choice([' ', '\t', '  ']) for _ in range(r.randint(1, 4)))


def gap(r):
    """what follows a marker"""
    return r.choice([' ', ' ', ' ', ' ', '  ', '   ', '    ', '     ', '\t', '\t\t', ' \t', '', '      '])


def bullet(r):
    return r.choice('-+*--')


def ordered(r):
    n = r.choice(['1', '1', '1', '2', '3', '0', '7', '01', '10', '007', '123456789', '1234567890', '999999999'])
    return n + r.choice('..)')


def marker(r):
    k = r.random()
    if k < 0.4:
        return '>' + r.choice(['', ' ', ' ', ' ', '\t', '  '])
    if k < 0.75:
        return bullet(r) + gap(r)
    return ordered(r) + gap(r)


def fence(r):
    c = r.choice('`~')
    n = r.choice([3, 3, 3, 3, 4, 5, 2])
    s = c * n
    k = r.random()
    if k < 0.5:
        return s
    if k < 0.65:
        return s + spaces(r, 1, 2)
    if k < 0.9:
        return s + r.choice([' ', '', '  ', '\t']) + r.choice(
            ['ruby', 'a b', 'x`y', 'x~', '\\*a', '&amp;c', 'c++', '  z  ', 'l\\a', '~~~', '```'])
    return s + r.choice(['x', ' `', '\t'])


def htmlline(r):
    k = r.randint(0, 15)
    t = r.choice(BLOCK_TAGS)
    return [
        lambda: '<' + t + r.choice(['>', ' ', '', '/>', ' a="b">', '\t>', 'x>']) + r.choice(['', word(r)]),
        lambda: '</' + t + r.choice(['>', '', ' >']) + r.choice(['', word(r)]),
        lambda: '<' + r.choice(['script', 'pre', 'style', 'SCRIPT', 'Pre']) + r.choice(['>', ' ', '', ' a>', 's>']),
        lambda: word(r) + '</' + r.choice(['script', 'pre', 'style', 'Style']) + r.choice(['>', '> ' + word(r), ' >']),
        lambda: '<!--' + r.choice(['', ' ' + word(r), '>', '->']),
        lambda: word(r) + '-->' + r.choice(['', word(r)]),
        lambda: '<?' + r.choice(['', 'php', ' x ?>']),
        lambda: r.choice(['?>', 'a ?> b']),
        lambda: '<!' + r.choice(['DOCTYPE html', 'A', 'ELEMENT x>', 'doctype', '1']),
        lambda: r.choice(['>', 'x>', 'y > z']),
        lambda: r.choice(['<![CDATA[', '<![CDATA[ x ]]>', '<![cdata[']),
        lambda: r.choice([']]>', 'a ]]>b']),
        lambda: r.choice(['<span>', '<del class="x">', '</span>', '<b/>', '</ins >', '<i a=b c>', '<x-y>', '<a href="q"']) +
        r.choice(['', ' ', '  x', '\t']),
        lambda: '<' + r.choice(['1a', ' a', 'a$b>', '/ a>', '']),
        lambda: '<' + t.upper() + '>',
        lambda: '<!-- ' + word(r) + ' -->' + r.choice(['', ' x']),
    ][k]()


def setext(r):
    return r.choice(['=', '-']) * r.choice([1, 2, 3, 3, 5]) + r.choice(['', ' ', '\t', '  ', ' x'])


def thematic(r):
    c = r.choice('*-_')
    return r.choice(['', ' ', '  ', '\t']).join([c] * r.choice([2, 3, 3, 3, 4, 6])) + r.choice(['', ' ', '\t', ' a'])


def atx(r):
    return '#' * r.choice([1, 2, 3, 4, 5, 6, 7]) + r.choice([' ', ' ', ' ', '\t', '', '   ']) + r.choice(
        ['', word(r), word(r), word(r) + ' #', word(r) + ' ## ', word(r) + '#', '#', '## ', word(r) + ' \\#',
         word(r) + '\t##\t', '# ' + word(r), word(r) + ' # b'])


def refdef(r):
    return '[' + r.choice(['foo', 'bar', 'Foo', 'a b', 'a', 'FOO  BAR', '', ' ']) + r.choice([']: ', ']:', ']:  ', ']', ']:\t']) + r.choice(
        ['/u', '<>', '<b c>', '/url "t"', "/u 't'", '/u (t)', '/u "t', '', '/u x', '<u', '/u\t"t" ', '/u "t" x', 'a(b', '/a\\*'])


def text(r):
    return ' '.join(word(r) for _ in range(r.randint(1, 3)))


def content(r):
    k = r.random()
    if k < 0.30:
        return text(r) + r.choice(['', '', '', ' ', '  ', '\t'])
    if k < 0.42:
        return ''
    if k < 0.50:
        return atx(r)
    if k < 0.58:
        return fence(r)
    if k < 0.66:
        return htmlline(r)
    if k < 0.72:
        return setext(r)
    if k < 0.78:
        return thematic(r)
    if k < 0.84:
        return refdef(r)
    if k < 0.90:
        return '    ' + text(r)
    if k < 0.94:
        return spaces(r, 0, 6)
    return r.choice(['\t', ' \t', '\t\t']) + r.choice(['', text(r)])


def line(r, marks=0.45):
    s = ''
    while r.random() < marks and len(s) < 30:
        s += indent(r) + marker(r)
    return s + (indent(r) if r.random() < 0.6 else '') + content(r)


def blockdoc(r, n=None):
    """a random document of block-level lines; later lines often repeat the
    prefix of earlier ones"""
    n = n or r.choice([1, 2, 3, 4, 5, 6, 8, 12])
    out = []
    for _ in range(n):
        if out and r.random() < 0.5:
            p = r.choice(out[-3:])
            k = r.randint(0, min(len(p), 10))
            pre = p[:k]
            if r.random() < 0.6:
                pre = ''.join(c if c in '\t>' else ' ' for c in pre) if r.random() < 0.8 else ' ' * len(pre)
            out.append(pre + (content(r) if r.random() < 0.7 else line(r)))
        elif out and r.random() < 0.15:
            out.append('')
        else:
            out.append(line(r))
    return '\n'.join(out) + r.choice(['\n', '\n', '', '\n\n'])


def listdoc(r):
    """lists and blank lines, well and badly indented"""
    out = []
    cols = [0]
    for _ in range(r.randint(2, 10)):
        k = r.random()
        if k < 0.28:
            out.append(r.choice(['', '', ' ', '  ', '    ', '\t']))
            continue
        c = r.choice(cols)
        if r.random() < 0.15:
            c = max(0, c + r.choice([-1, 1, 2]))
        pre = ' ' * c
        if k < 0.7:
            m = r.choice(['-', '-', '-', '*', '+', '1.', '2.', '1)', '3.', '10.'])
            g = r.choice([' ', ' ', ' ', '  ', '   ', '    ', '\t', ''])
            cols.append(c + len(m) + max(1, len(g)))
            cols = cols[-4:] + [0]
            rest = r.choice([word(r), word(r), word(r), '', '> ' + word(r), '- ' + word(r), '# h', '```', '    c', '[r]: /u'])
            out.append(pre + m + g + rest)
        elif k < 0.9:
            out.append(pre + r.choice([word(r), word(r), '> ' + word(r), '```', '***', '    c', '<div>', '[r]: /u']))
        else:
            out.append(word(r))
    return '\n'.join(out) + '\n'


SPECIALS = list('*_`[]()<>!\\&"\'')


def mutate(r, s, chars=None):
    """a few character or line level edits of s"""
    chars = chars or list('*_`[]()<>!\\&#-+>.:"\'= \t\n1a')
    for _ in range(r.randint(1, 4)):
        k = r.random()
        i = r.randint(0, len(s))
        if k < 0.35:
            s = s[:i] + r.choice(chars) + s[i:]
        elif k < 0.6:
            s = s[:i] + s[i + 1:]
        elif k < 0.75:
            j = min(len(s), i + r.randint(1, 8))
            p = r.randint(0, len(s))
            s = s[:p] + s[i:j] + s[p:]
        elif k < 0.9:
            ls = s.split('\n')
            a = r.randrange(len(ls))
            b = r.randrange(len(ls))
            ls[a], ls[b] = ls[b], ls[a]
            s = '\n'.join(ls)
        else:
            ls = s.split('\n')
            a = r.randrange(len(ls))
            ls[a] = r.choice(['> ', '- ', '  ', '    ', '1. ', '\t', '* ']) + ls[a]
            s = '\n'.join(ls)
    return s


# ---- inline texts ------------------------------------------------------------
def entity(r):
    return r.choice(['&amp;', '&lt;', '&copy;', '&auml;', '&nbsp;', '&quot;', '&ngE;', '&lpar;', '&ast;', '&lowbar;',
                     '&num;', '&apos;', '&colon;', '&NewLine;', '&Tab;', '&foo;', '&copy', '&#35;', '&#x22;', '&#X3c;',
                     '&#0;', '&#x0;', '&#1234567;', '&#12345678;', '&#xfffff;', '&#xD800;', '&#x110000;', '&#x1234567;',
                     '&#;', '&#x;', '&;', '&#160;', '&a b;', '&notin;', '&notit;', '&ampx;', '&#42;', '&#32;', '&#10;'])


def escape(r):
    return '\\' + r.choice(list('!"#$%&\'()*+,-./:;<=>?@[\\]^_`{|}~') + ['a', ' ', '1', 'é', '\n'])


def delims(r):
    return r.choice('**_') * r.choice([1, 1, 1, 2, 2, 3, 3, 4, 5])


def dest(r):
    return r.choice(['/u', '/url', 'a', '<b>', '<>', '', '<b c>', 'a(b)', 'a(b', 'a\\(b', 'a)b', '<a', '\\<a>', 'a&auml;', 'é',
                     'a%20b', 'a\\b', '"t"', '<a\\>b>', 'a*b', 'a`b', 'x[y]', '#f', '?q=1&b', 'a\\)', '(a)', '((a)b(c))', '<a\nb>', '&quot;'])


def title(r):
    return r.choice(['', '', '', ' "t"', " 't'", ' (t)', ' "a\\"b"', ' "a"b"', " 'a\\'b'", ' (a(b)', ' (a\\)b)', '\n"t"', '"t"', ' "&amp;"',
                     ' "a\nb"', ' "*a*"', ' "t', " 'a\"b'", ' "é"', '\t"t"', ' ""'])


def resource(r):
    return '(' + r.choice(['', '', '', ' ', '\n', '\t', '  ']) + dest(r) + title(r) + r.choice(['', '', '', ' ', '\n', ' x']) + r.choice([')', ')', ')', ''])


def label(r):
    return r.choice(['foo', 'Foo', 'bar', 'a b', 'A  B', 'a\nb', 'foo!', '', ' ', 'f\\]o', '*x*', 'é', 'É', 'ß', 'ss', 'nope', 'a[b', 'ref'])


def tag(r):
    return r.choice(['<a>', '</a>', '<b c="d">', "<b c='d'>", '<b c=d>', '<br/>', '<br />', '<x-y z>', '<!-- c -->', '<!---->', '<!-->', '<!--->',
                     '<!-- a-->', '<!-- a--b -->', '<!--a--->', '<?p?>', '<?p\nq?>', '<!D e>', '<!D>', '<![CDATA[x]]>', '<![CDATA[]]]>', '<a b', '<a  b\n=\n"c">',
                     '< a>', '<a"b">', '<a b="c>', '<1>', '<a b=c"d>', '<a *="b">', '</a b>', '<a/ >', '<a b=`c`>', '<a _:.-="x">', '<a\n>', '<?>', '<!d e>'])


def autolink(r):
    return r.choice(['<http://a.b>', '<a:b>', '<ab:>', '<ab:c d>', '<x@y.z>', '<x@y>', '<x@y_z>', '<x@-y>', '<x@y->', '<x.y+z@a-b.c.d>', '<mailto:x>',
                     '<ab+c.d-e:f&g>', '<a1:é>', '<1a:b>', '<http://a\\b>', '<MAILTO:X>', '<ab:c<d>', '<@y>', '<x@>', '<ab:"c">', '<x@y..z>', '<x\\@y.z>'])


def tick(r):
    n = r.choice([1, 1, 1, 2, 2, 3])
    return '`' * n


def atom(r):
    k = r.random()
    if k < 0.22:
        return word(r)
    if k < 0.40:
        return delims(r)
    if k < 0.50:
        return r.choice([' ', ' ', ' ', '\n', '  \n', '\\\n', '  ', ' \n '])
    if k < 0.62:
        return r.choice(['[', ']', '[', ']', '![', '!', '(', ')', '](', '][', '[]'])
    if k < 0.68:
        return tick(r)
    if k < 0.72:
        return escape(r)
    if k < 0.76:
        return entity(r)
    if k < 0.82:
        return r.choice(['[', '![']) + word(r) + ']' + resource(r)
    if k < 0.87:
        return r.choice(['[', '![']) + label(r) + ']' + r.choice(['', '', '[]', '[' + label(r) + ']', ':'])
    if k < 0.91:
        return tag(r)
    if k < 0.94:
        return autolink(r)
    if k < 0.97:
        return r.choice(['"', "'", '--', '---', '...', '-', '.', ',', '!', '?', ':', ';', '¡', '—', '\u00a0', '\u2003', '“', '€', '𝒳'])
    return r.choice(SPECIALS)


DEFS = ['[foo]: /foo', '[bar]: <b r> "ti"', '[a b]: /ab \'t\'', '[foo]: /second', '[É]: /e', '[ß]: /sz', '[*x*]: /x', '[f\\]o]: /esc', '[ref]: /r\n"t2"']


def inlinetext(r, atoms=None, n=None):
    n = n or r.choice([1, 2, 3, 4, 5, 6, 8, 10, 14])
    f = atoms or atom
    s = ''.join(f(r) for _ in range(n))
    return s


def inlinedoc(r, atoms=None, n=None):
    s = inlinetext(r, atoms, n)
    if r.random() < 0.5:
        s = 'x' + s
    d = r.sample(DEFS, r.randint(0, len(DEFS))) if r.random() < 0.6 else []
    if d:
        s = r.choice(['\n'.join(d) + '\n\n' + s, s + '\n\n' + '\n'.join(d)])
    return s
