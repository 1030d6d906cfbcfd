"""Trees as rows (see spec/Ast.tla), for building through the node interface."""
import itertools

from core import cps

ROW0 = dict(d=0, t='', lit=[], dest=[], title=[], info=[], lev=0, lt='', ch=0, st=-1, dl=0, tight=True,
            sl=0, sc=0, el=0, ec=0)
LITS = ['a', 'b<c', '&amp;', '"q"', "it's", 'x > y', 'é\u00a0', '', '\n', ' ', 'a\nb', '<i>', '&', '*_`', '\\', 'plain', '</p>', 'a"b&c<d>e']
DESTS = ['/u', '', 'a&b', 'a"b', 'javascript:x', 'JavaScript:y', 'data:image/png;x', 'data:text/html', 'DATA:IMAGE/GIF;', 'vbscript:z', 'File:///c', 'http://a.b?c=d&e', '<x>', "'", 'http://file', 'data:image/svg+xml',
         'data:image/jpeg,', 'data:image/webp;b', 'datax:', 'javascript', 'javascriptx:', 'data:image/', 'data:imag/png', 'data', 'dAtA:image/pNg', 'data:image/pn', 'vbscript', 'file', '/file', '#data', 'x javascript']
TITLES = ['', 't', 'a"b', '&<>', "'", ' ']
RAWS = ['<b>', '</b>', '<!-- c -->', '<x y="z">', '&', '<']
INFOS = ['', 'ruby', 'a b', ' c', 'x"y', '&<', 'é', 'c++ ', '\tt u', '=html']
LEAVES = ['text', 'softbreak', 'linebreak', 'code', 'html_inline']
HOLDERS = ['emph', 'strong', 'link', 'image', 'custom_inline']


def row(d, t, **kw):
    r = dict(ROW0, d=d, t=t)
    for k, v in kw.items():
        r[k] = cps(v) if isinstance(v, str) and k not in ('lt',) else v
    return r


def inline(r, d, t):
    if t in ('text', 'code'):
        return row(d, t, lit=r.choice(LITS))
    if t == 'html_inline':
        return row(d, t, lit=r.choice(RAWS))
    if t in ('link', 'image'):
        return row(d, t, dest=r.choice(DESTS), title=r.choice(TITLES))
    if t == 'custom_inline':
        return row(d, t, dest=r.choice(['<c>', '', 'x', '\n']), title=r.choice(['</c>', '', '\n']))
    return row(d, t)


def shapes(n):
    """all depth sequences of forests of n nodes (depths from 0)"""
    if n == 0:
        return [[]]
    out = []

    def grow(ds):
        if len(ds) == n:
            out.append(list(ds))
            return
        for k in range(0, (ds[-1] + 1 if ds else 0) + 1):
            grow(ds + [k])
    grow([])
    return out


def inline_trees(r, n, custom=True):
    """document > paragraph > every forest of n inlines (kinds), attributes at
    random"""
    kinds = LEAVES + (HOLDERS if custom else HOLDERS[:-1])
    for ds in shapes(n):
        opts = []
        for i, d in enumerate(ds):
            inner = i + 1 < n and ds[i + 1] > d
            opts.append([k for k in kinds if not inner or k in HOLDERS])
        for ks in itertools.product(*opts):
            yield [row(0, 'document', sl=1, sc=1, el=1, ec=9), row(1, 'paragraph', sl=1, sc=1, el=1, ec=9)] + \
                [inline(r, d + 2, k) for d, k in zip(ds, ks)]


def rand_inlines(r, d, left, depth=0):
    out = []
    for _ in range(r.randint(0 if depth else 1, 4)):
        if left[0] <= 0:
            break
        left[0] -= 1
        t = r.choice(LEAVES + ['text', 'text'] + (HOLDERS if depth < 5 else []))
        out.append(inline(r, d, t))
        if t in HOLDERS:
            out += rand_inlines(r, d + 1, left, depth + 1)
    return out


def rand_block(r, d, left, depth, inside=''):
    pos = dict(sl=r.randint(1, 99), sc=r.randint(1, 30), el=r.randint(1, 120), ec=r.randint(0, 80)) if r.random() < 0.9 else {}
    left[0] -= 1
    kinds = ['paragraph', 'paragraph', 'heading', 'code_block', 'html_block', 'thematic_break']
    if depth < 5:
        kinds += ['block_quote', 'list', 'list', 'custom_block']
    t = r.choice(kinds) if inside != 'list' else 'item'
    if t == 'paragraph':
        return [row(d, t, **pos)] + rand_inlines(r, d + 1, left)
    if t == 'heading':
        return [row(d, t, lev=r.randint(1, 6), **pos)] + rand_inlines(r, d + 1, left)
    if t == 'code_block':
        return [row(d, t, info=r.choice(INFOS), lit=r.choice(['a\n', 'x\n y\n', '', '\n', 'a<b>\n&\n', 'a', 'q\n\n\nz\n', '  i\n']), **pos)]
    if t == 'html_block':
        return [row(d, t, lit=r.choice(['<div>', '<p>\nx', '<!-- a -->', '&', '</div>']), **pos)]
    if t == 'thematic_break':
        return [row(d, t, **pos)]
    if t == 'custom_block':
        out = [row(d, t, dest=r.choice(['<c>', '', '\n']), title=r.choice(['</c>', '']))]
    elif t == 'list':
        b = r.random() < 0.5
        ld = dict(lt='bullet', ch=ord(r.choice('-+*'))) if b else dict(lt='ordered', st=r.choice([0, 1, 1, 2, 10, 999999999]), dl=ord(r.choice('.)')))
        tight = r.random() < 0.5
        out = [row(d, t, tight=tight, **ld, **pos)]
        for _ in range(r.randint(1, 3)):
            out.append(row(d + 1, 'item', **ld, **pos))
            for _ in range(r.randint(0, 3)):
                if left[0] > 0:
                    out += rand_block(r, d + 2, left, depth + 2)
        return out
    else:
        out = [row(d, t, **pos)]
    for _ in range(r.randint(0, 3)):
        if left[0] > 0:
            out += rand_block(r, d + 1, left, depth + 1)
    return out


def rand_tree(r):
    left = [r.choice([3, 6, 10, 20, 40])]
    out = [row(0, 'document', sl=1, sc=1, el=99, ec=0)]
    while left[0] > 0:
        out += rand_block(r, 1, left, 1)
    return out
