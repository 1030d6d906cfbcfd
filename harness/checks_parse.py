"""B01-B05, R01, I01-I05: parsing, against spec/CMark.tla and spec/Conform.tla."""
import re

import boundary
import chars
import data
import gen
import pool
import sizes
from core import cps, txt


def settled(t):
    return all(data.settled(c) for c in t)


# ---- where a text may stand ---------------------------------------------------
WRAPS = [('> ', '> '), ('- ', '  '), ('1. ', '   '), ('>', '>'), ('-\t', '\t'), ('10) ', '    '), ('> - ', '>   '), ('- > ', '  > '),
         ('- - ', '    '), (' * ', '   '), ('   > ', '> '), ('+   ', '    '), ('> > ', '>> '), ('-    ', '     '), ('1.\t', '\t')]


def wrap(t, first, rest):
    return first + t.replace('\n', '\n' + rest)


def nested(r):
    """examples of the standard put next to and into each other"""
    parts = []
    for _ in range(r.randint(1, 3)):
        e = r.choice(boundary.examples())
        if r.random() < 0.4:
            e = gen.mutate(r, e)
        while r.random() < 0.45:
            a, b = r.choice(WRAPS)
            e = wrap(e, a, b)
        parts.append(e)
    return r.choice(['\n\n', '\n', '\n\n\n']).join(parts)


def inline_places(r, texts):
    """the same inline texts in paragraphs, headings and containers"""
    out = []
    for t in texts:
        k = r.random()
        if k < 0.35 or '\n\n' in t:
            out.append(t)
        elif k < 0.5 and '\n' not in t:
            out.append('#' * r.randint(1, 6) + ' ' + t)
        elif k < 0.65:
            a, b = r.choice(WRAPS)
            out.append(wrap(t, a, b))
        elif k < 0.8:
            out.append('x' + t + r.choice(['\n===', ' y', '\nz']))
        else:
            out.append(r.choice(['*%s*', '[%s](u)', '**%s**', '![%s](u)', '_a %s b_', '[%s][foo]\n\n[foo]: /foo', '"%s"', '(%s)']) .replace('%s', t))
    return out


def some(ctx, name, texts, quick):
    """all of a family; in the quick tier an evenly spread part of it, chosen
    by the seed"""
    texts = list(dict.fromkeys(texts))
    if not ctx.quick or len(texts) <= quick:
        return texts
    r = ctx.rng(name)
    step = len(texts) / quick
    return [texts[min(len(texts) - 1, int((i + r.random()) * step))] for i in range(quick)]


def family(ctx, fams, proj, quick, smart=False):
    cases = []
    for f in fams:
        fs = getattr(boundary, f)()
        cases += [(t, smart, proj) for t in some(ctx, f, fs, quick)]
    ctx.conform('families: ' + ' '.join(fams), cases)


def many(ctx, kinds, proj, smart=False, ns=sizes.QUICK):
    ctx.conform('many, long, deep: ' + ' '.join(kinds), [(t, smart, proj) for k in kinds for t in sizes.of(k, ns if ctx.quick else sizes.FULL)])


def far(ctx, proj, quick, inline=False):
    """far from the start of the document or of the text"""
    r = ctx.rng('far')
    ds = r.sample(boundary.examples(), quick) if ctx.quick else boundary.examples()
    pre = (lambda: 'x' * r.choice([255, 256, 257, 300]) + r.choice(['', ' ', '\n'])) if inline else \
        (lambda: r.choice(['\n', '\n', '\n', '# h\n', '***\n']) * r.choice([254, 255, 256, 257, 270]))
    ctx.conform('far from the start', [(pre() + d, False, proj) for d in ds])


def everychar(ctx, kinds, proj, count, smart=False):
    r = ctx.rng('characters')
    ts = [t for k in kinds for t in chars.texts(r, chars.PLACES[k], ctx.size(count, 20 * count))]
    ctx.conform('characters at places: ' + ' '.join(kinds), [(t, smart, proj) for t in ts])


def near(ctx, places, proj, **kw):
    ctx.conform('pieces that differ in one place: ' + ' '.join(places), [(t, False, proj) for t in boundary.near(places, **kw)])


def mixed(ctx, name, proj, makers, quick, thorough, smart=0.0):
    """random documents; makers: functions of a random.Random"""
    n = ctx.size(quick, thorough)
    r = ctx.rng(name)
    done = 0
    while done < n:
        k = min(60000, n - done)
        cases = []
        while len(cases) < k:
            t = r.choice(makers)(r)
            if settled(t) and len(t) < 2000:
                cases.append((t, smart > 0 and r.random() < smart, proj))
        done += k
        ctx.conform(name, cases)


def mutated(r):
    return gen.mutate(r, r.choice(boundary.examples()))


DOCS = [gen.blockdoc, gen.blockdoc, gen.listdoc, nested, nested, mutated, mutated]


# ---- blocks --------------------------------------------------------------------
def B01(ctx):
    t = 0 if ctx.quick else 1
    ctx.enum('lines: containers', 'lines', ['a', '> a', '- a', '  b', '', '    c', '# h', '---'], 3 + t, 'struct', design=True)
    ctx.enum('lines: leaves', 'lines', ['```', 'a', '> ```', '  x', '', '- a', '<div>', '==='], 3 + t, 'struct', design=not ctx.quick)
    ctx.enum('lines: interruptions', 'lines', ['a', '1. b', '2. c', '-', '***', '<b>', '\tx', '> '], 3 + t, 'struct', design=not ctx.quick)
    ctx.enum('characters', 'tokens', ['>', '-', ' ', 'a', '\n', '#'], 5 + t, 'struct', design=False)
    family(ctx, ['heads', 'thematics', 'html_blocks', 'fences', 'indented', 'list_markers'], 'struct', 3500)
    family(ctx, ['looseness', 'tabs', 'refdefs'], 'struct', 700)
    family(ctx, ['pairs'], 'struct', 6000)
    mixed(ctx, 'random documents', 'struct', DOCS, 9000, 300000)
    everychar(ctx, ['blocks'], 'struct', 50)
    many(ctx, ['blocks', 'lists'], 'struct')
    far(ctx, 'struct', 90)


def B02(ctx):
    t = 0 if ctx.quick else 1
    ctx.enum('lines: looseness', 'lines', ['- a', '', '  b', '- - c', '  - d', '    e'], 4 + t, 'list', design=False)
    ctx.enum('lines: grouping', 'lines', ['- a', '* d', '1. f', '2. g', '1) h', '', ' + i'], 3 + t, 'list', design=True)
    ctx.enum('lines: blanks in items', 'lines', ['- ```', '  ```', '', '  x', '- > a', '  > b', '-'], 3 + t, 'list', design=not ctx.quick)
    ctx.enum('characters', 'tokens', ['-', '1.', ' ', 'a', '\n'], 6 + t, 'list', design=False)
    family(ctx, ['list_markers', 'looseness'], 'list', 2500)
    family(ctx, ['tabs', 'indented', 'pairs', 'thematics'], 'list', 2000)
    mixed(ctx, 'random documents', 'list', [gen.listdoc, gen.listdoc, gen.listdoc] + DOCS, 10000, 300000)
    everychar(ctx, ['lists'], 'list', 70)
    many(ctx, ['lists', 'blocks'], 'list')
    far(ctx, 'list', 90)


def B03(ctx):
    t = 0 if ctx.quick else 1
    ctx.enum('lines: fences', 'lines', ['```', '~~~', '  a', '', '````', '> ```', '    b'], 3 + t, 'code', design=not ctx.quick)
    ctx.enum('lines: indented', 'lines', ['    a', '', '     b', '  ', '\tc', 'p', '> \t\tq'], 4, 'code', design=False)
    ctx.enum('lines: HTML', 'lines', ['<div>', '<!-- a', 'b -->', '', ' *x*', '</p>', '<a>', '<pre>', '</pre> c'], 3 + t, 'code', design=not ctx.quick)
    ctx.enum('characters: fence', 'tokens', ['`', '~', ' ', 'a', '\n'], 5 + t, 'code', pre='```', post='b\n```\nc', design=False)
    family(ctx, ['fences', 'html_blocks', 'indented', 'tabs'], 'code', 3500)
    family(ctx, ['pairs', 'escapes', 'entities', 'line_ends'], 'code', 700)

    def info(r):
        return '```' + r.choice(['', ' ', '\t', '  ']) + gen.inlinetext(r, n=r.randint(1, 4)).replace('\n', ' ') + '\n' + gen.content(r) + '\n```\n'

    def html(r):
        ls = [gen.htmlline(r) if r.random() < 0.6 else gen.line(r, 0.2) for _ in range(r.randint(2, 7))]
        d = '\n'.join(ls)
        if r.random() < 0.4:
            a, b = r.choice(WRAPS)
            d = wrap(d, a, b)
        return d

    def code(r):
        ls = [r.choice(['    ', '\t', '  ', '      ', '   \t', '']) + r.choice(['a', '', '  b', '\tc', '*d*', '&lt;', '`', '> e', '- f']) for _ in range(r.randint(2, 8))]
        if r.random() < 0.5:
            f = r.choice(['```', '~~~', '````'])
            ls = [r.choice(['', ' ', '  ', '   ']) + f] + ls + [r.choice(['', ' ', '   ', '    ']) + f]
        d = '\n'.join(ls) + r.choice(['', '\n', '\n\n', '\n  \n'])
        for _ in range(r.choice([0, 0, 1, 1, 2])):
            a, b = r.choice(WRAPS)
            d = wrap(d, a, b)
        return d
    mixed(ctx, 'random documents', 'code', [info, html, code, code] + DOCS, 10000, 300000)
    everychar(ctx, ['code'], 'code', 40)
    many(ctx, ['code', 'blocks'], 'code')
    near(ctx, ['fence', 'info', 'html'], 'code', ns=(3, 33, 65, 129) if ctx.quick else (1, 3, 8, 17, 33, 50, 65, 100, 129, 200, 257, 600))
    far(ctx, 'code', 90)


def B04(ctx):
    t = 0 if ctx.quick else 1
    ctx.enum('lines', 'lines', ['a', '  - b', '> c', '', '   d\te ', '```', '***  ', '1. '], 3 + t, 'pos', design=True)
    ctx.enum('lines: ends', 'lines', ['```', '', '    x', '<!-- y', '# h #', '- -', ' > z'], 3 + t, 'pos', design=not ctx.quick)
    ctx.enum('characters', 'tokens', ['>', '- ', '\t', ' ', 'a', '\n', '\r\n'], 5, 'pos', design=False)
    family(ctx, ['heads', 'thematics', 'html_blocks', 'fences', 'indented', 'list_markers', 'looseness', 'tabs', 'refdefs', 'line_ends'], 'pos', 1200)
    family(ctx, ['pairs'], 'pos', 5000)
    mixed(ctx, 'random documents', 'pos', DOCS, 9000, 300000)
    everychar(ctx, ['pos', 'blocks'], 'pos', 30)
    many(ctx, ['blocks', 'lists', 'code'], 'pos')
    far(ctx, 'pos', 90)


def B05(ctx):
    t = 0 if ctx.quick else 1
    ctx.enum('tabs', 'tokens', ['\t', ' ', '-', '>', 'a', '\n'], 5 + t, 'struct', design=False)
    ctx.enum('line endings', 'tokens', ['\r', '\n', 'a', '- ', '> '], 5 + t, 'all', design=False)
    ctx.enum('NUL and others', 'tokens', ['\x00', '\n', '\x0c', '```\n', ' ', '\x0b'], 5 if t else 4, 'all', design=False)
    family(ctx, ['line_ends'], 'all', 3000)
    family(ctx, ['tabs'], 'all', 5000)
    r = ctx.rng('variants')
    # the same document with every line ending, with and without the last one:
    # each is checked against the specification of the first
    n = ctx.size(1500, 40000)
    cases = []
    for _ in range(n):
        d = r.choice(DOCS)(r).rstrip('\n')
        if r.random() < 0.3:
            d = ''.join(r.choice('\x00\ufffd\x0c\x0b\t') if r.random() < 0.1 else c for c in d)
        d = d.replace('\r', '')
        if not settled(d) or len(d) > 1500:
            continue
        vs = [d, d + '\n', d.replace('\n', '\r\n'), d.replace('\n', '\r') + '\r', ''.join(r.choice(['\n', '\r', '\r\n']) if c == '\n' else c for c in d + '\n'),
              d.replace('\x00', '\ufffd')]
        # mixed endings may pair up as one CRLF
        vs = [v for v in vs if re.sub('\r\n?', '\n', v).rstrip('\n').replace('\x00', '\ufffd') == d.replace('\x00', '\ufffd')]
        cases += [(v, d) for v in vs]
    # an observation of v must be what the specification says of d
    obs = pool.run([['proj', v, False, 'all'] for v, _ in cases])
    ctx.compare('variants', [(d, False, 'all') for _, d in cases], obs)
    ts = [t for k in ('blocks', 'lists', 'code', 'refs') for t in sizes.of(k, (33,) if ctx.quick else (40, 90))]
    ts = [t.replace('\n', e) for t in ts for e in ('\r\n', '\r')] + ['a\r\n' * n + 'b' for n in (100, 270)] + ['a' * n + '\x00' * 5 + '\r\nb' for n in (100, 1500)]
    ctx.conform('many lines, other line endings', [(t, False, 'all') for t in ts])
    far(ctx, 'all', 60)
    ctx.assumptions.append('tabs after the block structure is decided (inside text) stay as they are')


# ---- references -----------------------------------------------------------------
def R01(ctx):
    t = 0 if ctx.quick else 1
    ctx.enum('lines', 'lines', ['[f]: /u', '"t"', '[f]:', '/u', 'a', '', '[f]', '  (t)'], 3 + t, 'all', design=not ctx.quick)
    ctx.enum('lines: contexts', 'lines', ['[f]: /1', '[F]: /2', '> [f]: /3', '- [f]: /4', '===', '[f]', '', '    [f]: /5'], 3 + t, 'all', design=True)
    ctx.enum('definition', 'tokens', ['[', ']', ':', ' ', '\n', 'f', '/u'], 5 if t else 4, 'all', post='\n\n[f] [ff]', design=False)
    ctx.enum('after the label', 'tokens', [' ', '\n', '<', '>', '"', 'u', '('], 5 if t else 4, 'all', pre='[f]:', post='\n\n[f]', design=False)
    ctx.enum('after the target', 'tokens', [' ', '\n', '"', "'", 't', ')', '(', '\\'], 5 if t else 4, 'all', pre='[f]: /u', post='\n\n[f]', design=False)
    ctx.enum('label', 'tokens', [' ', '\n', '\\', '[', ']', 'f', 'F'], 5 if t else 4, 'all', pre='[', post=']: /u\n\n[f] [F F] [f f]', design=False)
    fam = boundary.refdefs()
    long_ = [x for x in fam if len(x) > 1200]
    ctx.conform('definitions', [(x, False, 'all') for x in some(ctx, 'refdefs', [x for x in fam if len(x) <= 1200], 3500)])
    ctx.conform('long labels', [(x, False, 'all') for x in some(ctx, 'long', long_, 40)])
    near(ctx, ['label'], 'all')

    def defs(r):
        parts = []
        for _ in range(r.randint(1, 4)):
            k = r.random()
            l = gen.label(r)
            if k < 0.6:
                d = r.choice(['', '', ' ', '   ']) + '[' + l + ']:' + r.choice([' ', ' ', '', '\n', '\t', '  ', ' \n  ']) + gen.dest(r) + gen.title(r) + r.choice(['', '', '', ' ', ' x', '\nx', '\n' + gen.content(r)])
            else:
                d = gen.inlinetext(r, n=3) + '[' + l + ']' + r.choice(['', '[]', '[' + gen.label(r) + ']'])
            if r.random() < 0.3:
                a, b = r.choice(WRAPS)
                d = wrap(d, a, b)
            parts.append(d)
        s = parts[0]
        for p in parts[1:]:
            s += r.choice(['\n', '\n\n', '\n\n', '\n***\n', '\n===\n']) + p
        return s + r.choice(['', '\n\n[foo] [bar] [a b] [É] [ss]', '\n\n[x][foo] ![f\\]o]'])
    mixed(ctx, 'random definitions', 'all', [defs, defs, defs, gen.inlinedoc, nested], 7000, 250000)
    everychar(ctx, ['refs'], 'all', 40)
    r = ctx.rng('folding')
    ctx.conform('labels in other cases', [(t, False, 'all') for t in chars.folds(r, ctx.size(600, 10**6))])
    many(ctx, ['refs'], 'all')
    far(ctx, 'all', 90)


# ---- inlines --------------------------------------------------------------------
def inline(ctx, fams, quick, makers, n, big, smart=0.0, places=0.3):
    cases = []
    r = ctx.rng('places')
    for f in fams:
        fs = some(ctx, f, getattr(boundary, f)(), quick)
        cases += [(t, False, 'inl') for t in fs]
        cases += [(t, False, 'inl') for t in inline_places(r, some(ctx, f + '/places', fs, int(quick * places)))]
    ctx.conform('families: ' + ' '.join(fams), cases)
    mixed(ctx, 'random texts', 'inl', makers, n, big, smart)


def of(*atoms):
    """texts made of the given kinds of atoms and plain ones"""
    def make(r):
        def f(r):
            k = r.random()
            if k < 0.6:
                a = r.choice(atoms)
                return a(r) if callable(a) else a
            if k < 0.75:
                return gen.word(r)
            if k < 0.85:
                return r.choice([' ', '\n', '.', ''])
            return gen.atom(r)
        return gen.inlinedoc(r, f)
    return make


def I01(ctx):
    t = 0 if ctx.quick else 1
    ctx.enum('backticks', 'tokens', ['`', '``', 'a', ' ', '\\', '\n'], 5 + t, 'inl', pre='x', design=False)
    ctx.enum('backticks (design)', 'tokens', ['`', 'a', ' ', '*'], 5 + t, 'inl', design=True)
    ctx.enum('tags', 'tokens', ['<', 'a', '>', '/', ' ', '=', '"', '!--', '--'], 4 if ctx.quick else 5, 'inl', pre='x', design=False)
    ctx.enum('in a tag', 'tokens', ['b', ' ', '=', '"', "'", '/', '\n', '>'], 4 if ctx.quick else 5, 'inl', pre='x<a', post='>*y*', design=False)
    ctx.enum('in an autolink', 'tokens', ['a', ':', '@', '.', '-', ' ', '%'], 4 if ctx.quick else 5, 'inl', pre='<a', post='b>', design=False)
    ctx.enum('in a comment', 'tokens', ['-', '>', 'a', '!'], 5 + t, 'inl', pre='x<!--', post='-->y', design=False)
    ctx.enum('in other raw HTML', 'tokens', ['<?', '?', '>', '<![CDATA[', ']', '<!A', ' ', '</a'], 4 if ctx.quick else 5, 'inl', pre='x', post='>y', design=False)
    inline(ctx, ['code_spans', 'autolinks', 'raw_html'], 1800,
           [of(gen.tick, gen.tick, gen.tag, gen.autolink), of(gen.tick), of(gen.tag, '<', '>'), of(gen.autolink, '<', '>'), gen.inlinedoc, mutated], 8000, 250000)
    everychar(ctx, ['spans'], 'inl', 60)
    many(ctx, ['spans'], 'inl')
    near(ctx, ['code', 'tag', 'auto'], 'inl')
    far(ctx, 'inl', 150, inline=True)


def I02(ctx):
    t = 0 if ctx.quick else 1
    ctx.enum('both marks', 'tokens', ['*', '_', 'a', ' '], 6 + t, 'inl', design=False)
    ctx.enum('asterisks', 'tokens', ['*', 'a', '.', ' '], 6 + t, 'inl', design=not ctx.quick)
    ctx.enum('underscores', 'tokens', ['_', 'a', '.'], 7 + t, 'inl', design=False)
    ctx.enum('runs', 'tokens', ['**', '*', 'a'], 8 + t, 'inl', pre='x', design=False)
    ctx.enum('runs of underscores', 'tokens', ['__', '_', 'a '], 7 + t, 'inl', design=False)
    ctx.enum('with links', 'tokens', ['*', 'a', '[', '](u)', '`'], 5 + t, 'inl', design=not ctx.quick)
    ctx.enum('classes', 'tokens', ['*', '_', 'a', '\u00a0', '“', '\n', '€'], 4 + t, 'inl', pre='x', design=False)
    inline(ctx, ['emphasis'], 10000, [of(gen.delims), of(gen.delims), of(gen.delims, '[', '](u)', '`'), gen.inlinedoc], 9000, 300000)
    everychar(ctx, ['emphasis'], 'inl', 1000)
    many(ctx, ['emphasis'], 'inl')
    near(ctx, ['emph'], 'inl')
    far(ctx, 'inl', 150, inline=True)


def I03(ctx):
    t = 0 if ctx.quick else 1
    ctx.enum('brackets', 'tokens', ['[', ']', '(', ')', '!', 'a'], 5 + t, 'inl', design=False)
    ctx.enum('references', 'tokens', ['[', ']', 'f', '!', '(u)'], 5 + t, 'inl', post='\n\n[f]: /r\n[ff]: /s', design=not ctx.quick)
    ctx.enum('resource', 'tokens', ['<', '>', ' ', 'b', '"', '(', ')', '\\'], 4 + t, 'inl', pre='[a](', post=')', design=False)
    ctx.enum('title', 'tokens', ['"', "'", ' ', 't', '\\', '\n', ')'], 4 + t, 'inl', pre='[a](b ', post=')\nc)', design=False)
    ctx.enum('nesting', 'tokens', ['[', '](u)', '![', ']', '*', 'a'], 5, 'inl', design=True if not ctx.quick else False)
    ctx.enum('nesting (design)', 'tokens', ['[', '](u)', '![', 'a'], 4 + t, 'inl', design=True)
    inline(ctx, ['links'], 5000, [of(lambda r: r.choice(['[', '![']) + gen.word(r) + ']' + gen.resource(r), '[', ']', '![', lambda r: '[' + gen.label(r) + ']'), of('[', ']', '![', '](', '][', gen.resource), gen.inlinedoc, gen.inlinedoc, mutated], 8000, 250000)
    everychar(ctx, ['links'], 'inl', 100)
    many(ctx, ['links', 'refs'], 'inl')
    near(ctx, ['dest', 'title', 'alt'], 'inl')
    far(ctx, 'inl', 150, inline=True)


def I04(ctx):
    t = 0 if ctx.quick else 1
    ctx.enum('entities', 'tokens', ['&', '#', 'x', '1', ';', 'a'], 5 + t, 'inl', pre='.', design=False)
    ctx.enum('escapes and breaks', 'tokens', ['\\', '\n', ' ', 'a', '*'], 5 + t, 'inl', pre='x', design=not ctx.quick)
    ctx.enum('breaks', 'tokens', ['\n', ' ', 'a', '\t', '`'], 5 + t, 'inl', pre='x', post='y', design=False)
    ctx.enum('named', 'tokens', ['&', 'amp', 'lt', ';', '\\', 'copy'], 4 + t, 'inl', design=False)
    inline(ctx, ['entities', 'escapes', 'breaks'], 3000,
           [of(gen.entity), of(gen.escape), of('  \n', '\\\n', ' \n ', '\n', '  '), of(gen.entity, gen.escape, '&', '\\'), gen.inlinedoc, mutated], 8000, 250000)
    family(ctx, ['escapes', 'entities'], 'code', 300)
    everychar(ctx, ['texts'], 'inl', 60)
    many(ctx, ['texts'], 'inl')
    near(ctx, ['text', 'title', 'dest'], 'inl')
    near(ctx, ['info'], 'code')
    far(ctx, 'inl', 150, inline=True)


def I05(ctx):
    t = 0 if ctx.quick else 1
    ctx.enum('quotes', 'tokens', ['"', "'", 'a', ' '], 6 + t, 'inl', smart=True, design=not ctx.quick)
    ctx.enum('dashes and dots', 'tokens', ['-', '.', 'a', ' '], 6 + t, 'inl', smart=True, pre='x', design=False)
    ctx.enum('quotes and markup', 'tokens', ['"', "'", '*', 'a', '`', '\\'], 4 + t, 'inl', smart=True, design=not ctx.quick)
    ctx.enum('without', 'tokens', ['"', "'", '-', '.', 'a', ' '], 4 + t, 'inl', smart=False, design=False)
    fs = some(ctx, 'smarts', boundary.smarts(), 3500)
    ctx.conform('families, with and without', [(x, s, 'all') for x in fs for s in (True, False)])
    r = ctx.rng('everything else')
    docs = [d for f in ('links', 'code_spans', 'raw_html', 'autolinks', 'breaks', 'escapes', 'refdefs', 'fences', 'html_blocks', 'emphasis') for d in r.sample(getattr(boundary, f)(), ctx.size(150, 1500)) if len(d) < 1200]
    ctx.conform('other constructs, smart', [(d, True, 'all') for d in docs if settled(d)])
    mixed(ctx, 'random texts, smart', 'all', [of('"', "'", '--', '---', '...', '-'), of('"', "'"), of('"', "'", gen.delims, gen.tick), gen.inlinedoc, gen.blockdoc, nested], 7000, 250000, smart=0.8)
    everychar(ctx, ['smart'], 'inl', 300, smart=True)
    many(ctx, ['smart'], 'all', True)
    many(ctx, ['links', 'spans', 'texts', 'code'], 'all', True, (11,))


CHECKS = dict(B01=B01, B02=B02, B03=B03, B04=B04, B05=B05, R01=R01, I01=I01, I02=I02, I03=I03, I04=I04, I05=I05)
