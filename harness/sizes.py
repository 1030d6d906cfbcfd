"""Documents in which something is many, long or deep: every count a program
might keep goes far beyond what ordinary documents have."""

QUICK = (11, 33, 70)
FULL = (9, 10, 16, 17, 31, 32, 33, 64, 65, 100, 101, 128, 140)


def blocks(n):
    q = 'q' * n
    return ['a\n' * n, 'a\n\n' * n, '# h%s\n' % q, '# h' * n, ''.join('# h%d\np\n' % i for i in range(n)), '> ' * n + 'a\nb\n', '>' * n + ' - x\n' + '>' * n + '   y\n\nz',
            '> a\n' * n + 'b', 'p\n' * n + '===\nq', '***\n' * n, '*' * n + '\na', '* ' * n + '\na', '- a\n' * n + '===\n', '\n' * n + 'a\n' + '\n' * n + 'b' + '\n' * n,
            ' ' * n + 'a', 'p\n' + ' ' * n + 'a', 'a' * n + '\n' + '=' * n + '\nb', 'a\n' + '-' * n + '\nb', '<div>\n' + '*a*\n' * n + '\nb', '<!--\n' + '\n*a*\n' * n + '-->\nb',
            'p\n' + ' ' * (n % 4) + '#' + ' ' * n + 'h' + ' ' * n + '#' * n + '\nb', '# a ' + '#' * n + ' ' * n, '\t' * n + 'a', '>\t' * n + 'a', '> a\n' * n + '\n> b\n' * n,
            ''.join('> ' * k + 'a\n' for k in range(n)), ''.join('> ' * k + 'a\n\n' for k in range(min(n, 60), 0, -1)), '> ' * n + '```\n' + 'x\n' * 3, '- ' * n + 'a\n\nb', '#' * n + ' a', '~' * n + '\na\n' + '~' * n + '\nb',
            ('# a\n- b\n> c\n\n    d\n' * n)[:n * 12], 'a\n' * n + '# h\n' + 'b\n' * n + '***', 'a ' * n + '\n- b\n' + 'c ' * n, '<p' + ' a' * n + '>\nb\n\nc', 'x <' + 'b' * n + '>\n', '<' + 'b' * n + '>\n*c*\n\nd',
            '> - ' * (n // 2) + 'a\n' + 'b\n', '-\n' * n, '-\n\n' * n, '1. ' * n + 'a', '# h\n' * n + 'p\n' + '# h\n' * n, ('p\n' * 3 + '\n') * n, '`' * n + 'x\nb\n' + '`' * n + '\nc']


def lists(n):
    n2 = min(n, 60)
    return ['- a\n' * n, '- a\n\n' * n, '- a\n' * n + '\n- b', '- a\n\n' + '- b\n' * n, ''.join('%d. a\n' % (i + 1) for i in range(n)), ''.join('%d) a\n' % (i * 7) for i in range(n)),
            ''.join(' ' * (2 * k) + '- a\n' for k in range(n2)), ''.join(' ' * (2 * k) + '- a\n\n' for k in range(n2)), ''.join(' ' * (2 * k) + '- a\n' for k in range(n2)) + '\nb',
            ''.join(' ' * (2 * k) + '- a\n' for k in range(n2)) + ''.join(' ' * (2 * k) + '- b\n' for k in range(n2, -1, -1)), '- a\n' + '\n  b\n' * n, '- a\n' + '  b\n' * n + '\n- c', '- ' * n2 + 'a\n' + ' ' * (2 * n2) + 'b\n' + '- c',
            '- ' * n2 + 'a\n\n' + ' ' * (2 * n2) + 'b\n', '- ' * n2 + 'a\n\n' + ' ' * (n2 - n2 % 2) + 'b\n', ''.join('-+*'[k % 3] + ' a\n' for k in range(n)), ''.join(['1.', '1)'][k % 2] + ' a\n' for k in range(n)), '- a' + '\n' * n + '  b', '- a' + '\n' * n + '- b', '- a' + '\n' * n + 'b',
            '-' + ' ' * (n % 9) + 'a\n\n' + ' ' * (n % 9 + 1) + 'b\n' * 3, '0' * (n % 12) + '1. a\n' * 2, ''.join(' ' * (k % 4) + '- a\n' for k in range(n)), '- a\n  > b\n' * n, '- ```\n  x\n\n  ```\n' * n, '- a\n  - b\n\n  c\n' * n, ''.join('%d. a\n\n   %s\n' % (10 ** (k % 9), 'b') for k in range(n)),
            '> - a\n' * n + '>\n> - b\n', '- a\n' * n + '-\n' + '- b\n' * n, '- a\n' * n + '  c\n' + '- b\n\n' + '- d\n' * n, '- a\n- b\n\n\n' * n, '+ a\n\n  - b\n' * n, '- ' + 'a' * n + '\n' + '  ' + 'b' * n + '\n\n- c']


def code(n):
    return ['`' * n + 'i' * n + '\nx\n' + '`' * n, '~' * n + '\nx\n' + '~' * (n - 1) + '\ny\n' + '~' * (n + 1) + '\nz', '```\n' + 'a\n' * n + '```\nb', '```\n' + '\n' * n + '```\nb', '```\n' + 'a\n\n' * n, '    a\n' * n + 'b', '    a' + '\n' * n + '    b', '    a' + '\n' * n + 'b', '    ' + 'a' * n,
            '    ' + ' ' * n + 'a\n' + '    ' * n + 'b', '\t' * n + 'a\n' + '\t\t' * n, '```' + ' ' * n + 'a' + ' ' * n + 'b\n' + ' ' * n + 'c', '   ```\n' + ' ' * n + 'a\n' + ''.join(' ' * k + 'b\n' for k in range(n)), '```\n' + '```a\n' * n + '```', '``` ' + '\\*' * n + '&amp;' * n + '\nb', '> ```\n' + '> a\n' * n + 'b',
            '- ```\n' + '  a\n\n' * n + '  ```\n  b', '<pre>\n' + '\n*a*\n' * n + '</pre>\n*b*', '<div>\n' + 'a' * n + '\n' + ' ' * n + 'b\n\nc', '<!--' + '\na' * n + ' --> b\nc', '<a b="' + 'c' * n + '">\n*d*\n\n*e*', '<?' + 'a\n\n' * n + '?>\nb', '<![CDATA[' + ']\n' * n + ']]>\nb', '> ' * (n // 3) + '    a\n' + '> ' * (n // 3) + '\n' + '> ' * (n // 3) + '    b',
            '- ' * (n // 3) + '```\n' + '  ' * (n // 3) + 'a\n' + '\n' * 3 + '  ' * (n // 3) + ' b', '~~~ ' + 'x y ' * n + '\n\ta\n~~~', '```\n' + '`' * n + '\n' + ' ' * (n % 5) + '```' + ' ' * n + '\na', '\t\t' + 'a\t' * n + '\n\n\t\t\n\t \tb', '<x-' + 'y' * n + ' ' + 'z ' * n + '/>\n*a*\n\n*b*']


def refs(n):
    a = 'a' * n
    return ['[%s]\n\n[%s]: /u' % (a, a), ''.join('[f%d]: /u%d "t%d"\n' % (k, k, k) for k in range(n)) + '\n' + ''.join('[F%d] ' % k for k in range(n)), ''.join('[f%d]: /u%d\n\n' % (k, k) for k in range(n)) + '[f0] [f%d]' % (n - 1), '[f]: /u%s "%s"\n\n[f]' % (a, 't ' * n),
            ''.join('[f]: /%d\n' % k for k in range(n)) + '\n[f]', ''.join('[f]: /%d\n\n' % k for k in range(n)) + '[f]', '[f]\n\n' + 'p\n\n' * n + '[F]: /u', '[f]: /u "' + 't\n' * n + '"\n\n[f]', '[' + 'a ' * n + 'b]: /u\n\n[' + 'A\n' * n + 'B]', '[' + 'a' + ' ' * n + 'b]: /u\n\n[a b]', '[a b]: /u\n\n[a' + ' ' * n + 'b]',
            '[' + '\\]' * n + ']: /u\n\n[' + '\\]' * n + ']', '[f]: ' + '(' * (n // 3) + ')' * (n // 3) + '\n\n[f]', '[f]: <' + 'a b' * n + '>\n\n[f]', '[f]:' + ' ' * n + '/u' + ' ' * n + '"t"' + ' ' * n + '\n\n[f]', '> ' * (n // 2) + '[f]: /u\n\n[f]', '- ' * (n // 2) + '[f]: /u\n\n[f]', '[f]: /u\n' * n + 'x [f]', '[f]: /u\n' * n + '===\n[f]',
            ''.join('[%s]: /%d\n' % ('g' * (k + 1), k) for k in range(min(n, 80))) + '\n[g] [gg] ' + '[%s]' % ('g' * min(n, 80)), '[f] ' * n + '\n\n[f]: /u', '[f][f]' * n + '\n\n[f]: /u', '[f]: /u ' + "'" + '\\\'' * n + "'\n\n[f]", '[ẞ%s]: /u\n\n[SS%s]' % (a, a.upper()), '[f]: /u?' + '&amp;' * n + '\n\n[f]']


def spans(n):
    return ['`' * n + ' a ' + '`' * n, '`' * n + 'a' + '`' * (n + 1), '`a` ' * n, ' '.join('`' * (k % 9 + 1) for k in range(n)), '`' + 'a ' * n + '`', '`' + 'a\n' * n + '`', '`' + ' ' * n + 'a' + ' ' * n + '`', '`' + ' ' * n + '`', '<ab:' + 'c' * n + '>', '<' + 'a' * n + '@b.c>', '<a@' + 'b' * (n % 70) + '.c>', '<a@' + 'b.' * n + 'c>',
            '<' + 'a' * (n % 40) + ':b>', '<x:' + 'é%' * n + '>', 'x<a' + ' b' * n + '>', 'x<a' + ' b="c"' * n + '>', 'x<a b="' + 'c' * n + '">', 'x<a' + '\n' * 1 + ' ' * n + '>', 'x</' + 'a' * n + ' >', 'x<!--' + ' a' * n + '-->', 'x<!--' + ' -a' * n + ' -->', 'x<?' + '?' * n + '?>', 'x<!A' + ' b' * n + '>', 'x<![CDATA[' + ']' * n + '>',
            'x<![CDATA[' + 'a]' * n + ']]>', '<a>' * n, '<a><' * n, '<' * n + 'a>', '`' * n + '<a>' + '`' * n, '`<a ' * n, '<a `' * n, '*`a*`' * n, '[`](a)`' * n, '\\`' * n + 'a`', '<ab:c>' * n, 'a ' * n + '`b` ' + 'c ' * n + '<d>']


def emphasis(n):
    out = []
    for d in '*_':
        out += [d * n + 'a' + d * n, d * n + 'a' + d * (n + 1), d * (n + 2) + 'a' + d * n, (d + 'a ') * n, (d + 'a') * n, ('a' + d + ' ') * n, (d + 'a' + d + ' ') * n, (d * 2 + 'a' + d * 2) * n, (d + 'a ') * n + ('b' + d + ' ') * n, (d * 2 + 'a ') * n + ('b' + d * 2 + ' ') * n, (d + 'a ' + d * 2 + 'b ') * (n // 2) + ('c' + d * 2 + 'd' + d) * (n // 2),
                d + 'a' * n + d, d + 'a ' * n + 'b' + d, ' '.join(d * (k % 5 + 1) + 'a' for k in range(n)) + ' ' + ' '.join('b' + d * (k % 4 + 1) for k in range(n)), d + ' ' * n + 'a' + d, (d * 3 + 'a' + d * 2 + 'b' + d) * n, '(' * n + d + 'a' + d + ')' * n, (d + '(') * n + 'a' + (')' + d) * n, d + 'a\n' * n + 'b' + d, '\\' + d + d + 'a' + d * 2 + ('\\' + d) * n]
    out += ['*a _b ' * n + 'c_ d* ' * n, '*a _b* ' * n + 'c_', '**a _b ' * n + 'c** ' * n, ('*a ' * n) + '**b** ' * n, ''.join('*_'[k % 2] + 'a ' for k in range(n)) + ''.join('b' + '*_'[(n - 1 - k) % 2] + ' ' for k in range(n)), '*[a ' * n + '](u)*' * n, '*a `' * n, '**a*' * n, 'a**b*c ' * n, '*a&amp;' * n + '*' * n]
    return out


def links(n):
    m = min(n, 70)
    return ['[a](u) ' * n, '[a' * n + '](u)' + ']' * n, '[' * n + 'a](u)', '[' * m + 'a' + '](u)' * m, '![' * m + 'a' + '](u)' * m, '[![' * (m // 2) + 'a' + '](u)](v)' * (m // 2), ']' * n, '[' * n, '![' * n + 'a', '[a](' * n, '[a](<b' * n, '[a](' + 'u' * n + ')', '[a](<' + 'u v' * n + '>)', '[a](u "' + 't ' * n + '")', '[a](' + '(' * (n // 2) + ')' * (n // 2) + ')', '[a](' + '(' * n + ')' * (n - 1) + ')',
            '[a](' + ' ' * n + 'u' + ' ' * n + '"t"' + ' ' * n + ')', '[a](u "' + '\\"' * n + '")', '[a](' + '\\)' * n + ')', '[' + 'a ' * n + '](u)', '[' + '*a* ' * n + '](u)', '[*a ' * m + '](u) ' * m, '*[a](u) ' * n + 'b*' * n, '[f] ' * n + '\n\n[f]: /u', '[f][] ' * n + '\n\n[f]: /u', '![f] ' * n + '\n\n[f]: /u', '[a][f]' * n + '\n\n[f]: /u', '[a [f] ' * m + ']' * m + '\n\n[f]: /u', '[a][' + 'f' * n + ']\n\n[' + 'f' * n + ']: /u',
            '[a' + '\\]' * n + '](u)', '[a' + '[b]' * n + '](u)', '[a' + '`]`' * n + '](u)', '![a' + '![b](c)' * n + '](u)', '[a](u)' + '[b]' * n, '[x](u' + '%20' * n + 'é' * n + ')', '[f][g]' * n + '\n\n[g]: /g\n[f]: /f', '!' * n + '[a](u)', '[a]' + '(u)' * n, '[a' + '\n' + 'b\n' * n + '](u)', '[[a](u) ' * m + '](v)' * m, '[a](u' + '&amp;' * n + ' "' + '&lt;' * n + '")']


def texts(n):
    return ['&amp;' * n, '&am' * n, '&' * n + 'amp;', '&#' + '0' * (n % 12) + '65;', '&#x' + '0' * (n % 12) + '41;', '&' + 'a' * n + ';', '\\*' * n, '\\' * n + 'a', '\\' * n + '*', 'a  \n' * n + 'b', 'a\\\n' * n + 'b', 'a' + ' ' * n + '\nb', 'a\n' + ' ' * n + 'b', 'a\n' * n, 'a' * n, 'é' * n + '𝒳' * n, 'a!' * n, '&copy' * n + ';', '"a" ' * n, 'a' + ' ' * n + 'b', 'a\t' * n, '# ' + '\\#' * n, '# ' + '&amp; ' * n + '#', '&#65;&#x42;&lt;' * n,
            '\\&' * n + 'amp;', 'a \n' * n + 'b', 'a' + '\u00a0' * n + '\nb', '> ' + 'a  \n> ' * n + 'b', '*a*  \n' * n + 'b', '`a`\\\n' * n + 'b', 'a' * n + '  \n' + 'b' * n, '- a  \n  b\\\n' * n, '&ngE;' * n, '&NotEqualTilde;x' * n, 'x&nbsp;' * n]


def smart(n):
    return ['a' + c * k + 'b' for c in '-.' for k in range(n, n + 7)] + ['-' * n, '.' * n, 'a' + '.' * n, '"a ' * n + 'b" ' * n, "'a " * n + "b' " * n, '"\'' * n + 'a' + '\'"' * n, '"' * n + 'a' + '"' * n, "it's " * n, '"a" ' * n, "'a' " * n, '"a *b ' * n + 'c* d" ' * n, 'a--b---c...' * n, '-' * n + '.' * n + '"' * n, '"[a](u)" ' * n, '"a\n' * n + '"', '["a" ' * n + '](u "--")', '`--`--' * n, '\\"' * n + '"a"', '"a\'b ' * n, '"(' * n + 'a' + ')"' * n,
            'a"b ' * n + '"c', "'a \"b' c\" " * n, '-- ' * n + '--- ' * n, '"a" -- \'b\' ... ' * n]


def of(kind, ns):
    f = globals()[kind]
    return list(dict.fromkeys(t for n in ns for t in f(n)))


KINDS = ['blocks', 'lists', 'code', 'refs', 'spans', 'emphasis', 'links', 'texts', 'smart']


def any_of(r, k, ns=QUICK, most=2500):
    """k documents of all kinds"""
    ds = [t for kind in KINDS for t in of(kind, ns) if len(t) <= most]
    return ds if len(ds) <= k else r.sample(ds, k)
