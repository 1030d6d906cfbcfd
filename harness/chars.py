"""Every kind of character at the places where its kind matters."""
import functools
import unicodedata

import data

PLACES = dict(
    blocks=['%s', '%s# a', '#%sa', '# a %s', '# a %s#', '-%sa', '1%s a', '>%sa', '***%s', '*%s**', 'a\n%s===', 'a\n==%s', 'a\n=%s=', '<div%s\nb\n\nc', '<%s\nb', '<x %s>\nb\n\nc', 'a\n%s\nb', '%s\n\na', '```%s`\nb', '```\na\n```%s\nb', '---%s', '-%s-', '%s1. a', '1.%sa', '%s    a', '\t%s', 'a\n    %s'],
    lists=['- a\n%s\n- b', '-%s\n  a', '- a\n\n%s b', '%s a\n%s b', '1%s a\n1. b', '- a\n- %s\n- b', '- %s\n\n- b', '1.%s\n   a', '- a\n  %s\n\n- b', '- a\n%s- b'],
    code=['``` %s\na', '```%s b\na', '```b%sc\nx', '```\n%s\n```', '```\na%s', '    %s', '    a%s\n\n    b', '    a\n%s\n    b', '    a\n    %s', '<div>%s\n*a*\n\nb', '<pre>\n%s', '<!-- %s\n\n-->%s\n*a*', '<script%s\na', '<a%s>\n*b*', '<a b%s>\n*b*', '<a b=%s>\n*b*', '<!%s\na>', '~~~%s\na\n~~~'],
    pos=['%s', '%sa', 'a%s', '> %s', '-%sa', '# %s', 'a\n%s', '%s\nb', '```\n%s', '    a%s\n', '***%s\na', '[a]: %s\nb', 'a%s\nb\n'],
    refs=['[%s]: /u\n\n[%s]', '[f]:%s/u\n\n[f]', '[f]: %s\n\n[f]', '[f]: /u%s\n\n[f]', '[f]: /u%s"t"\n\n[f]', '[f]: /u "%s"\n\n[f]', '[f]: <%s>\n\n[f]', '[f%sg]: /u\n\n[f g] [fg]', '[f]: /u "t"%s\n\n[f]', '[f]%s: /u\n\n[f]', '[%sf]: /u\n\n[f]', '[f]: /u\n%s"t"\n\n[f]', '[f]: /u (%s)\n\n[f]', '[f\\%s]: /u\n\n[f\\%s]'],
    spans=['`%s`', '` %s `', '`%sa%s`', '<%s>', '<x%s:y>', '<xy:%s>', '<%sxy:z>', '<a%s@b.c>', '<a@b%sc>', '<a@%sb.c>', 'x<a%s>', 'x<a %s>', 'x<a b%s=c>', 'x<a b=%s>', 'x<a b="%s">', "x<a b='%s'>", 'x<a b=c%s>', 'x</a%s>', 'x<!--%s-->', 'x<!%s>', 'x<!A%sb>', 'x<?%s?>', 'x<![CDATA[%s]]>', 'x<%s/>', 'x<a b%s="c"d>', '`\n%s\n`'],
    emphasis=['*%sa*', '*a%s*', 'a*%sb*', '*a%s*b', '%s*a*', '*a*%s', '_%sa_', '_a%s_b', 'a%s_b_', '%s_a_', '_a_%s', '**%s"a"**', 'a**%s', '*%s*', '_"%s_a', 'a*%s"*"b', '*a%s\nb*'],
    links=['[%s](u)', '[a](%s)', '[a](b%sc)', '[a](b "%s")', "[a](b '%s')", '[a](b (%s))', '[a](<%s>)', '[a]%s(b)', '[a](%sb)', '[a](b%s)', '[a](b%s"t")', '[a](b "t"%s)', '[a%s]\n\n[a%s]: /u', '!%s[a](b)', '![%s](b)', '[a]%s[f]\n\n[f]: /u', '[a][%sf]\n\n[f]: /u', '[\\%s](u)'],
    texts=['\\%s', '&%s;', '&a%s;', '&#%s;', '&#x%s;', '&#1%s;', 'a  %s\nb', 'a %s \nb', 'a\n%s b', 'a%s  \nb', 'a\\%s\nb', '&amp%s', '%s&lt;%s', 'a\n%s', '%s', '# a\\%s', '&%samp;', '%s  \nb', 'a\\\n%sb', '[a](\\%s)', '``` \\%s\n'],
    smart=['"%sa"', '"a%s"', 'a"%sb', 'a%s"b"', "'%sa'", "'a%s'", "a%s'b", "%s'a'", '%s--', '--%s', '...%s', '..%s.', '-%s-', '"%s"', "'%s'", '%s"a" b', 'a "%s', "a'%s b"])


def usable(o):
    return 0 < o < 0x110000 and not 0xD800 <= o < 0xE000 and data.settled(chr(o))


@functools.lru_cache(None)
def special():
    """the characters at which a class begins or ends, and those of the small
    classes"""
    out = []
    for o in range(1, 0x110000):
        if not usable(o):
            continue
        c = chr(o)
        if o < 0x100 or o in (0x130, 0x131, 0x17F, 0x212A) or data.is_punct(c) or c.isspace() or unicodedata.category(c) in ('Zs', 'Cf', 'Cc'):
            out.append(c)
        elif o < 0x10000 and any(usable(p) and data.is_punct(chr(p)) for p in (o - 1, o + 1)):
            out.append(c)
    return out


def texts(r, places, count, per=8):
    """documents with count characters at each place: first ASCII and those at
    the edges of the classes, then any"""
    cs = special()
    ascii_ = [c for c in cs if ord(c) < 0x80]
    rest = [c for c in cs if ord(c) >= 0x80]
    out = []
    for p in places:
        use = ascii_ + (rest if len(rest) <= count else r.sample(rest, count))
        while len(use) < len(ascii_) + count:
            o = r.choice([r.randrange(1, 0x3000), r.randrange(1, 0x10000), r.randrange(1, 0x110000)])
            if usable(o):
                use.append(chr(o))
        # blocks stand alone, other texts share a document
        if '\n' in p or p.startswith(('```', '<', '    ')):
            out += [p.replace('%s', c) for c in use]
        else:
            out += ['\n\n'.join(p.replace('%s', c) for c in use[i:i + per]) for i in range(0, len(use), per)]
    return out


def folds(r, count):
    """labels in another case than their definition"""
    cs = [chr(o) for o in range(1, 0x110000) if usable(o) and (chr(o).casefold() != chr(o) or chr(o).upper() != chr(o))]
    cs = cs if len(cs) <= count else [c for c in cs if ord(c) < 0x250] + r.sample(cs, count)
    out = []
    for c in cs:
        vs = [v for v in (c, c.upper(), c.lower(), c.title(), c.casefold(), c.swapcase()) if all(usable(ord(x)) for x in v)]
        d = ''.join('[%sx]: /%d\n' % (v, i) for i, v in enumerate(dict.fromkeys(vs))) if r.random() < 0.3 else '[%sx]: /u\n' % r.choice(vs)
        out.append(d + '\n' + ' '.join('[%sx]' % v for v in dict.fromkeys(vs)))
    return out
