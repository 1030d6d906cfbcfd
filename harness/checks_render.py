"""H01, H02, H03, X01: the renderers."""
import itertools
import json
import re
import time

import boundary
import gen
import pool
import sizes
import tlc
import trees
from core import cps, txt

DEF = dict(safe=False, pos=False, sb=cps('\n'))


def norm(opts):
    """options as the specification has them"""
    o = opts or {}
    return dict(safe=bool(o.get('safe')), pos=bool(o.get('sourcepos')), sb=cps(o.get('softbreak') or '\n'), ic=ord(o.get('indent_char') or ' '))


def in_image(rows):
    """whether a soft break is part of a description"""
    img = None
    for q in rows:
        if img is not None and q['d'] <= img:
            img = None
        if q['t'] == 'softbreak' and img is not None:
            return True
        if q['t'] == 'image' and img is None:
            img = q['d']
    return False


def render(ctx, name, items, design=False):
    """items: [(source, smart, [(kind, options)...])]"""
    t0 = time.time()
    got = pool.run([['render', s, sm, jobs] for s, sm, jobs in items])
    cases = []
    back = []
    bad = 0
    for (src, sm, jobs), (st, v) in zip(items, got):
        if st == 'skipped':
            continue
        if st != 'ok':
            bad += 1
            ctx.violation('rendering %s' % ('raises ' + v if st == 'error' else v), part=name,
                          text=src if isinstance(src, str) else None, tree=None if isinstance(src, str) else src)
            continue
        rows, outs, same = v
        if not same:
            bad += 1
            ctx.violation('rendering changes the tree', part=name, text=src if isinstance(src, str) else None, tree=rows)
        for (kind, opts), out in zip(jobs, outs):
            o = norm(opts)
            plain = not any(c in (34, 38, 60, 62) for c in o['sb']) or (txt(o['sb']) in ('<br />', '<br />\n') and not in_image(rows))
            cases.append(dict(rows=rows, kind=kind, o=o, obs=out, plain=plain))
            back.append((src, sm, kind, opts))
    job = dict(cases=cases, punct=[], fold=[], ents=[], explain=False)
    r = ctx.tlc('Render', job, invariants=['Balanced', 'Indented', 'TextKept'] if design else [])
    miss = sorted((int(m) - 1 for m in r['mismatches']), key=lambda i: len(cases[i]['rows']))
    if miss:
        job['cases'] = [cases[i] for i in miss[:12]]
        job['explain'] = True
        e = ctx.expected(tlc.run('Render', job)['out'])
        for j, i in enumerate(miss[:12]):
            src, sm, kind, opts = back[i]
            ctx.violation('the output is not the one the specification gives', part=name, kind=kind, options=opts,
                          text=src if isinstance(src, str) else None, smart=sm,
                          tree=None if isinstance(src, str) else cases[i]['rows'],
                          observed=txt(cases[i]['obs']), expected=txt(e[j + 1]) if isinstance(e.get(j + 1), list) else e.get(j + 1))
    ctx.validated += len(cases)
    if cases:
        ctx.sample(dict(tree=[(q['d'], q['t']) for q in cases[len(cases) // 2]['rows']][:12], output=txt(cases[len(cases) // 2]['obs'])[:160]))
    ctx.part(name, cases=len(cases), states=r['distinct'], mismatches=len(miss) + bad, wall=round(time.time() - t0, 1))


def docs(r, n, weights='bliime'):
    fs = dict(b=gen.blockdoc, l=gen.listdoc, i=gen.inlinedoc, m=lambda r: gen.mutate(r, r.choice(boundary.examples())),
              e=lambda r: r.choice(boundary.examples()))
    return [fs[r.choice(weights)](r) for _ in range(n)]


def many(ctx, name, jobs):
    """documents in which something is many, long or deep"""
    r = ctx.rng('many')
    ds = sizes.any_of(r, ctx.size(350, 100000), sizes.QUICK if ctx.quick else sizes.FULL)
    render(ctx, name, [(d, r.random() < 0.2, jobs) for d in ds])


def everywhere(t):
    """a tree with the text at every place a text can be"""
    return [trees.row(0, 'document', sl=1, sc=1, el=1, ec=1), trees.row(1, 'paragraph', sl=1, sc=1, el=1, ec=1),
            trees.row(2, 'text', lit=t), trees.row(2, 'code', lit=t), trees.row(2, 'link', dest=t, title=t), trees.row(3, 'text', lit=t),
            trees.row(2, 'image', dest=t, title=t), trees.row(3, 'text', lit=t), trees.row(3, 'code', lit=t), trees.row(3, 'html_inline', lit=t),
            trees.row(1, 'code_block', lit=t, info=t + ' x', sl=1, sc=1, el=1, ec=1), trees.row(1, 'html_block', lit=t)]


def word(c):
    """characters that the standard does not call whitespace and Python does
    may end the first word of an info string or not"""
    return 'x' if c in '\x1c\x1d\x1e\x1f\x85\u2028\u2029' else c


def H01(ctx):
    r = ctx.rng('trees')
    h = [('html', None)]
    n = ctx.size(3, 4)
    for k in range(1, n + 1):
        its = [(t, False, h) for t in trees.inline_trees(r, k)]
        if k == 4:
            its = r.sample(its, min(len(its), 60000))
        render(ctx, 'all trees of %d inlines' % k, its, design=k < 3)
    render(ctx, 'random trees (design)', [(trees.rand_tree(r), False, h) for _ in range(ctx.size(600, 6000))], design=True)
    render(ctx, 'random trees', [(trees.rand_tree(r), False, h) for _ in range(ctx.size(3000, 60000))])
    render(ctx, 'parsed documents', [(d, r.random() < 0.3, h) for d in docs(r, ctx.size(6000, 60000))])
    chars = [[trees.row(0, 'document', sl=1, sc=1, el=1, ec=1), trees.row(1, 'paragraph', sl=1, sc=1, el=1, ec=1),
              trees.row(2, 'text', lit=chr(c)), trees.row(2, 'code', lit=chr(c)), trees.row(2, 'link', dest=chr(c), title=chr(c)),
              trees.row(2, 'image', dest=chr(c), title=chr(c)), trees.row(3, 'text', lit=chr(c)), trees.row(3, 'html_inline', lit=chr(c)),
              trees.row(1, 'code_block', lit=chr(c), info=word(chr(c)) + 'x', sl=1, sc=1, el=1, ec=1)]
             for c in list(range(1, 300)) + [0x1680, 0x2003, 0x2028, 0x2029, 0x202F, 0x3000, 0xFEFF, 0xFFFD, 0xFFFF, 0x1F600]]
    render(ctx, 'every character, every place', [(t, False, h) for t in chars])
    toks = ['&', '<', '>', '"', 'amp;', 'quot;', 'lt;', 'gt;', '#39;', '#x26;', 'x', ' ', "'", '/', '-->', 'é']
    strs = [''.join(t) for n in (1, 2, 3) for t in itertools.product(toks[:ctx.size(9, 16) if n == 3 else 16], repeat=n)]
    if not ctx.quick:
        strs += [''.join(r.choice(toks) for _ in range(r.randint(4, 9))) for _ in range(20000)]
    else:
        strs += [''.join(r.choice(toks) for _ in range(r.randint(4, 9))) for _ in range(1000)]
    render(ctx, 'every short text that needs escapes', [(everywhere(t), False, h) for t in strs])
    many(ctx, 'many, long, deep', h)
    render(ctx, 'pieces that differ in one place', [(d, False, h) for d in boundary.near(boundary.PLACES, (3, 33, 65, 129, 257) if ctx.quick else (1, 3, 8, 17, 33, 50, 65, 100, 129, 200, 257, 600))])


def H02(ctx):
    r = ctx.rng('safe')
    s = [('html', {'safe': True})]
    # every target in every case pattern, links and images, plain and nested
    urls = set()
    for sch in ['javascript:', 'vbscript:', 'file:', 'data:', 'data:image/png', 'data:image/gif', 'data:image/jpeg', 'data:image/webp',
                'data:image/pn', 'data:image/svg+xml', 'data:image/', 'data:text/html', 'data:,', 'javascript', 'file', 'data', 'javascrip:', 'xjavascript',
                'jav', 'http:', 'ftp://', 'mailto:', 'about:', 'blob:', 'ms-its:', 'data:image/jpg', 'data:image/bmp', 'data:image/webpx']:
        for tail in ['', 'x', ';base64,AA', '//', '/etc', 'alert(1)', ' a', '&b', '"c', ',<script>']:
            u = sch + tail
            urls |= {u, u.upper(), u.capitalize(), u.swapcase(), ''.join(c.upper() if i % 2 else c for i, c in enumerate(u)),
                     ''.join(c.upper() if i % 2 == 0 else c for i, c in enumerate(u))}
    names = ['javascript:', 'vbscript:', 'file:', 'data:', 'data:image/png', 'data:image/gif', 'data:image/jpeg', 'data:image/webp', 'data:text', 'http:', 'x']
    for a in names:
        for b in names:
            urls |= {a + j + b + r.choice(['', 'x', ';', ',x']) for j in ['', '//', ';', ',', '/', '#', '?']}
    for u in ['http://x/javascript', '/a?b=file', '#javascript', 'x/data', '', '/', '?', 'java script', 'javas%63ript:', 'data%3A', '&#106;avascript:a',
              '/javascript', 'scripts/vbscript', 'filename', 'file.txt', 'data.html', 'database:x', 'files:', 'profile', 'mydata', 'data/x']:
        urls.add(u)
    urls = sorted(urls)
    its = []
    for u in urls:
        for t in ('link', 'image'):
            its.append(([trees.row(0, 'document', sl=1, sc=1, el=1, ec=1), trees.row(1, 'paragraph', sl=1, sc=1, el=1, ec=1),
                         trees.row(2, t, dest=u, title='t'), trees.row(3, 'text', lit='x')], False, s))
        its.append(('[a](<%s>) ![b](<%s> "t")\n\n<%s>\n\n[r] ![r]\n\n[r]: <%s>' % (u, u, u, u), False, s))
        its.append(('[![a](<%s>)](/u) ![[c](<%s>)](<%s>)' % (u, u, u), False, s))
    for e in ['&#106;avascript:x', 'java&#115;cript:x', 'JAVA&#x53;CRIPT&colon;x', 'data&colon;text/html', '\\javascript:x', 'java\\script:x', 'javascript\\:x', ' javascript:x', '<\tjavascript:x>', '< javascript:x>', '&#9;javascript:x',
              '&Tab;javascript:x', 'java&NewLine;script:x', 'java\nscript:x', 'javascript&#58;x', '%6aavascript:x', '&#1;javascript:x', 'data:image/png&#59;', 'vbscript&colon;', 'file\\:///x', '&#102;ile:x']:
        its += [('[a](%s)' % e, False, s), ('![a](%s)' % e, False, s), ('[r]: %s\n\n[r] ![r]' % e, False, s), ('[a](<%s>)' % e, False, s), ('<%s>' % e, False, s)]
    render(ctx, 'targets', its)
    # raw HTML of every kind at every place
    raws = ['<b>', '</b>', '<!-- x -->', '<?php ?>', '<!D x>', '<![CDATA[x]]>', '<script>', '<a href="javascript:x">', '<br/>', '<img src=x onerror=y>']
    its = []
    for a in raws:
        for d in ['x %s y', '%s', '*%s*', '[%s](u)', '![%s](u)', '# %s', '> %s', '- %s', '- x\n  %s', '`%s`', '    %s', '**a %s', '%s\n\nb', 'a %s b %s c', '![a *%s* b](u "t")', '1. %s\n\n   %s', '> x\n> %s', '%s *x*\ny\n\nz', '![[%s](v)](u)', '- %s\n- %s\n']:
            its.append((d.replace('%s', a), False, s))
    for d in boundary.html_blocks()[::ctx.size(12, 1)] + boundary.raw_html()[::ctx.size(4, 1)]:
        its.append((d, False, s))
    render(ctx, 'raw HTML', its)
    n = ctx.size(2, 3)
    for k in range(1, n + 1):
        render(ctx, 'all trees of %d inlines' % k, [(t, False, s) for t in trees.inline_trees(r, k, custom=False)], design=k < 3)
    opts = [{'safe': True}, {'safe': True, 'sourcepos': True}, {'safe': True, 'softbreak': '<br />'}]
    render(ctx, 'random trees', [(trees.rand_tree(r), False, [('html', r.choice(opts))]) for _ in range(ctx.size(2500, 50000))])

    def spiced(r):
        d = gen.inlinedoc(r) if r.random() < 0.6 else gen.blockdoc(r)
        return re.sub(r'/u\b|/url', lambda m: r.choice(urls).replace(' ', '') or 'z', d)
    render(ctx, 'parsed documents', [(spiced(r), r.random() < 0.2, [('html', r.choice(opts))]) for _ in range(ctx.size(6000, 60000))])
    ctx.assumptions.append('where a scheme name stands inside a target, not at its start, safe mode may drop or keep the target')


def H03(ctx):
    r = ctx.rng('opts')
    sbs = [None, ' ', '<br />', '<br />\n', '\n', 'XX', '', '  ', '\n\n', '&']
    combos = [{}]
    for sb in sbs:
        for pos in (None, True, False):
            for safe in (None, True, False):
                o = {}
                if sb is not None:
                    o['softbreak'] = sb
                if pos is not None:
                    o['sourcepos'] = pos
                if safe is not None:
                    o['safe'] = safe
                combos.append(o)
    combos.append({'softbreak': None, 'sourcepos': None, 'safe': None})
    every = ('> - a\n>   b  \n>   c\n>\n> 1. x\n>\n>    ```r s\n>    y\n>    ```\n\n# h *i*\n\n***\n\n<div>\nz\n\n    code\n\np\nq [a\nb](c "t") ![d\ne](javascript:f) <b>\n\n7) l\n\n===\n- k\n  1. m\n\n  n\n- <u>\n\n- \n\nset\n---\n')
    render(ctx, 'all option combinations', [(every, False, [('html', o) for o in combos])] +
           [(trees.rand_tree(r), False, [('html', o) for o in combos]) for _ in range(ctx.size(12, 100))])
    render(ctx, 'each option', [(d, False, [('html', None), ('html', {'sourcepos': True}), ('html', {'softbreak': r.choice(sbs[1:]) or ' '})])
                                for d in docs(r, ctx.size(2200, 20000), 'bblim')])
    render(ctx, 'option pairs', [(trees.rand_tree(r), False, [('html', r.choice(combos)), ('html', {'sourcepos': True})]) for _ in range(ctx.size(1500, 30000))])
    many(ctx, 'many, long, deep', [('html', {'sourcepos': True}), ('html', {'softbreak': '<br />\n'})])
    render(ctx, 'random (design)', [(trees.rand_tree(r), False, [('html', r.choice(combos))]) for _ in range(ctx.size(300, 3000))], design=True)


def X01(ctx):
    r = ctx.rng('rst')
    x = [('rst', None)]
    n = ctx.size(3, 4)
    for k in range(1, n + 1):
        its = [(t, False, x) for t in trees.inline_trees(r, k, custom=False)]
        its = r.sample(its, min(len(its), ctx.size(3000, 50000)))
        render(ctx, 'all trees of %d inlines' % k, its, design=k < 3)
    deep = []
    for a in ['> %s', '- %s', '1. %s', '> - %s', '- > %s', '- - %s', '- 1. %s', '> > %s', '%s', '- a\n- %s', '- a\n\n  %s', '1. a\n2. %s']:
        for b in ['x\ny', '```r\nx\n\n  y\nz\n```', '# h', 'x  \ny', '    c\n\n    d', 'a\n\nb', '![a\nb](u)', 'x `c` *d*', 'h\n===\n\np', '- p\n\n  q\n- r', '> q\n\nr', 'a\n\n```\nb\nc\n```\n\nd', '[a\nb](u)', '***', '<div>', '- x\n  - y\n    - z\n\n      w', '###### h é 𝒳 中', '## *a* `b` [c](d)',
                  '```\n```', '~~~ a b\n\n\n~~~', 'a <b> c', '#', '# ', 'x\n- y\n- z\n\nw', '> ```\n> a\n> b\n> ```']:
            ind = ' ' * {'>': 2, '-': 2, '1': 3, '%': 0}[a[0]]
            pre = '> ' if a == '> %s' else '> > ' if a == '> > %s' else '>   ' if a == '> - %s' else '  > ' if a == '- > %s' else '    ' if a == '- - %s' else '     ' if a == '- 1. %s' else ind
            deep.append((a % b.replace('\n', '\n' + pre), False, x))
            deep.append(('p\n\n' + a % b.replace('\n', '\n' + pre) + '\n\nq', False, x))
    render(ctx, 'nesting', deep, design=True)
    def rows(c):
        z = dict(sl=1, sc=1, el=1, ec=1)
        return [trees.row(0, 'document', **z), trees.row(1, 'paragraph', **z), trees.row(2, 'text', lit='a%sb' % c), trees.row(2, 'code', lit=c), trees.row(2, 'link', dest=c, title=c), trees.row(3, 'text', lit=c),
                trees.row(2, 'image', dest=c, title=c), trees.row(3, 'text', lit=c), trees.row(3, 'html_inline', lit=c), trees.row(1, 'code_block', lit='a%sb\n%s\n' % (c, c), info=word(c) + 'x', **z),
                trees.row(1, 'block_quote', **z), trees.row(2, 'code_block', lit='%s\na%sb\n' % (c, c), info='x' + word(c) + 'y', **z), trees.row(2, 'html_block', lit='<a>%s\n%sb' % (c, c), **z)]
    render(ctx, 'every character, every place', [(rows(chr(c)), False, x) for c in list(range(1, 300)) + [0x1680, 0x2003, 0x2028, 0x2029, 0x202F, 0x3000, 0xFEFF, 0xFFFD, 0xFFFF, 0x1F600]])
    ch = [('rst', {'indent_char': c}) for c in '\t.\u2003~']
    render(ctx, 'other characters of indentation', [(d, s, [r.choice(ch)]) for d, s, _ in deep] +
           [(trees.rand_tree(r), False, [r.choice(ch)]) for _ in range(ctx.size(600, 6000))])
    render(ctx, 'random trees (design)', [(trees.rand_tree(r), False, x) for _ in range(ctx.size(500, 5000))], design=True)
    render(ctx, 'random trees', [(trees.rand_tree(r), False, x) for _ in range(ctx.size(5000, 50000))])
    render(ctx, 'parsed documents', [(d, r.random() < 0.2, x) for d in docs(r, ctx.size(7000, 70000), 'blimee')])
    many(ctx, 'many, long, deep', x)
    render(ctx, 'pieces that differ in one place', [(d, False, x) for d in boundary.near(boundary.PLACES, (3, 33, 65, 129, 257) if ctx.quick else (1, 3, 8, 17, 33, 50, 65, 100, 129, 200, 257, 600))])


NOHOOKS = dict(extra=[], wrap=False, up=False)
PIECES = ['a', '\n', '<b>', '[', ']', '&', ' ', '"x"', 'é', '\\n', '{', '--']
KINDS = ['document', 'block_quote', 'list', 'item', 'paragraph', 'heading', 'code_block', 'html_block', 'thematic_break', 'text', 'softbreak',
         'linebreak', 'emph', 'strong', 'link', 'image', 'code', 'html_inline', 'custom_inline', 'custom_block', 'widget']


def rand_op(r, base, kind):
    ops = ['lit', 'lit', 'cr', 'out', 'node']
    if base == 'html':
        ops += ['tag', 'super', 'super']
    elif base == 'rst':
        ops = ['lit', 'cr', 'super', 'super', 'super']
    if base != 'plain' and kind in ('widget', 'custom_inline', 'custom_block', 'html_inline', 'html_block', 'thematic_break', 'document') and \
            (base == 'rst' or kind in ('widget', 'document')):
        ops = [o for o in ops if o != 'super']
    op = dict(op=r.choice(ops), s=[], self=False)
    op['as'] = []
    if op['op'] in ('lit', 'out'):
        op['s'] = cps(r.choice(PIECES))
    if op['op'] == 'tag':
        op['s'] = cps(r.choice(['b', 'div', '/b', 'x1']))
        op['self'] = r.random() < 0.3
        op['as'] = [[cps('k'), cps(r.choice(['v', '', 'a b']))] for _ in range(r.choice((0, 0, 1, 2)))]
    return op


def rand_plan(r, base, kinds):
    out = []
    for k in kinds:
        p = dict(kind=k, ent=[rand_op(r, base, k) for _ in range(r.randint(0, 3))], lea=[rand_op(r, base, k) for _ in range(r.randint(0, 3))])
        if base != 'plain' and k in ('item', 'block_quote', 'image'):
            # the state these keep in the base must be left as it was entered
            has = any(o['op'] == 'super' for o in p['ent'])
            for q in ('ent', 'lea'):
                p[q] = [o for o in p[q] if o['op'] != 'super']
                if has:
                    p[q].insert(r.randint(0, len(p[q])), dict(op='super', s=[], self=False, **{'as': []}))
        out.append(p)
    return out


def rand_job(r, nrows, root=None):
    base = r.choice(['plain', 'html', 'html', 'rst'])
    kinds = [k for k in KINDS if r.random() < r.choice((0.1, 0.3, 0.7, 1.0))]
    if base == 'rst':
        # the base remembers where the text of a heading begins
        kinds = [k for k in kinds if k not in ('heading', 'list')]
    opts = dict(r.choice([{}, {'sourcepos': True}, {'safe': True}, {'softbreak': '<br />'}])) if base == 'html' else \
        {'indent_char': r.choice(' \t.~')} if base == 'rst' and r.random() < 0.4 else {}
    hooks = NOHOOKS
    if base == 'html':
        hooks = dict(extra=[[cps('class'), cps('z')]] if r.random() < 0.4 else [], wrap=r.random() < 0.3, up=r.random() < 0.3)
    elif base == 'plain':
        hooks = dict(extra=[], wrap=r.random() < 0.3, up=False)
    return dict(base=base, opts=opts, hooks=hooks, plan=rand_plan(r, base, kinds), own=r.random() < 0.3, twice=r.random() < 0.3,
                root=root if root is not None else r.choice([1, 1, r.randint(1, max(1, nrows))]))


def described(rows):
    """whether raw HTML is part of a description"""
    img = None
    for q in rows:
        if img is not None and q['d'] <= img:
            img = None
        if q['t'] == 'html_inline' and img is not None:
            return True
        if q['t'] == 'image' and img is None:
            img = q['d']
    return False


def widgets(r, rows):
    """nodes of a kind of the user's own, which is no container"""
    out = []
    for q in rows:
        out.append(q)
        if q['t'] in ('paragraph', 'emph', 'link', 'image', 'block_quote', 'item', 'document') and r.random() < 0.3:
            out.append(trees.row(q['d'] + 1, 'widget', lit=r.choice(['w', ''])))
    return out


def custom(ctx, name, items, design=False):
    """items: [(source, smart, [job...])]; a root beyond the tree is the last row"""
    t0 = time.time()
    got = pool.run([['custom', s, sm, js] for s, sm, js in items])
    cases, back, bad = [], [], 0
    for (src, sm, js), (st, v) in zip(items, got):
        if st == 'skipped':
            continue
        if st != 'ok':
            bad += 1
            ctx.violation('a derived renderer %s' % ('raises ' + v if st == 'error' else v), part=name,
                          text=src if isinstance(src, str) else None, tree=None if isinstance(src, str) else src, jobs=js)
            continue
        rows, outs, same = v
        if not same or not all(o[2] for o in outs):
            bad += 1
            ctx.violation('rendering changes the tree' if not same else 'the second rendering differs from the first', part=name,
                          text=src if isinstance(src, str) else None, tree=rows, jobs=js)
        for j, (out, log, _) in zip(js, outs):
            if j['hooks']['wrap'] and described(rows):
                continue
            o = norm(j['opts'])
            o.update(j['hooks'])
            cases.append(dict(rows=rows, root=j['root'], base=j['base'], o=o, plan=j['plan'], obs=out, log=log))
            back.append((src, sm, j))
    job = dict(cases=cases, punct=[], fold=[], ents=[], explain=False)
    r = ctx.tlc('Custom', job, invariants=['Once', 'Silent'] if design else [])
    miss = sorted((int(m) - 1 for m in r['mismatches']), key=lambda i: len(cases[i]['rows']))
    if miss:
        job['cases'] = [cases[i] for i in miss[:12]]
        job['explain'] = True
        e = ctx.expected(tlc.run('Custom', job)['out'])
        for j, i in enumerate(miss[:12]):
            src, sm, jb = back[i]
            x = e.get(j + 1) or {}
            ctx.violation('what a derived renderer does is not what the specification gives', part=name, job=jb,
                          text=src if isinstance(src, str) else None, smart=sm, tree=None if isinstance(src, str) else cases[i]['rows'],
                          observed=[txt(cases[i]['obs']), cases[i]['log']],
                          expected=[txt(x.get('out') or []), x.get('log')] if isinstance(x, dict) else x)
    ctx.validated += len(cases)
    if cases:
        c = cases[len(cases) // 2]
        ctx.sample(dict(tree=[(q['d'], q['t']) for q in c['rows']][:12], base=c['base'], own=[p['kind'] for p in c['plan']], output=txt(c['obs'])[:160]))
    ctx.part(name, cases=len(cases), states=r['distinct'], mismatches=len(miss) + bad, wall=round(time.time() - t0, 1))


def one_kind(kind, base, ops, **kw):
    p = dict(kind=kind, ent=ops[0], lea=ops[1])
    return dict(base=base, opts=kw.get('opts', {}), hooks=kw.get('hooks', NOHOOKS), plan=[p], own=kw.get('own', False), twice=True, root=kw.get('root', 1))


def H04(ctx):
    r = ctx.rng('custom')

    def mk(op, s=''):
        return dict(op=op, s=cps(s), self=False, **{'as': []})
    every = [trees.rand_tree(ctx.rng('every')) for _ in range(3)]
    every = [widgets(r, t) for t in every]
    doc = '> - a *b* **c**\n>   d  \n>   e ![f `g`](h "i") <b> [j](k)\n>\n> 1. x\n>\n>    ```r s\n>    y\n>    ```\n\n# h *i*\n\n***\n\n<div>\nz\n\n    code\n'
    its = []
    for src in every + [doc]:
        js = []
        for k in KINDS:
            for base in ('plain', 'html', 'rst'):
                for own in (False, True):
                    js.append(one_kind(k, base, ([mk('lit', 'E'), mk('cr')], [mk('lit', 'L'), mk('cr')]), own=own))
                    js.append(one_kind(k, base, ([], []), own=own))
            if k not in ('widget', 'document'):
                js.append(one_kind(k, 'html', ([mk('lit', '('), mk('super'), mk('lit', ')')], [mk('cr'), mk('super'), mk('cr')])))
        for h in itertools.product(([], [[cps('class'), cps('z')]], [[cps('k'), cps('v')], [cps('l'), []]]), (False, True), (False, True)):
            for o in ({}, {'sourcepos': True}, {'safe': True, 'softbreak': ' '}):
                j = one_kind('widget', 'html', ([], []), hooks=dict(extra=h[0], wrap=h[1], up=h[2]), opts=o)
                js.append(j)
        for c in ' \t.~':
            js.append(one_kind('widget', 'rst', ([], []), opts={'indent_char': c}))
        its.append((src, False, js))
    custom(ctx, 'each kind, each base, each helper', its, design=True)
    # every node of a tree as the root
    trs = [trees.rand_tree(r) for _ in range(ctx.size(60, 1500))]
    its = []
    plain = [dict(one_kind('widget', b, ([], []), opts=o)) for b, o in (('html', {}), ('rst', {}), ('html', {'sourcepos': True}))]
    for t in trs:
        its.append((t, False, [dict(j, root=k + 1) for k in range(len(t)) for j in plain]))
    custom(ctx, 'every node as the root', its)
    n = ctx.size(3, 4)
    for k in range(1, n + 1):
        ts = list(trees.inline_trees(r, k))
        ts = r.sample(ts, min(len(ts), ctx.size(1000, 40000)))
        custom(ctx, 'trees of %d inlines' % k, [(t, False, [rand_job(r, len(t)) for _ in range(2)]) for t in ts], design=k < 3)
    ts = [trees.rand_tree(r) for _ in range(ctx.size(1600, 40000))]
    ts = [widgets(r, t) if r.random() < 0.4 else t for t in ts]
    custom(ctx, 'random trees, random renderers', [(t, False, [rand_job(r, len(t)) for _ in range(2)]) for t in ts])
    custom(ctx, 'parsed documents', [(d, r.random() < 0.2, [rand_job(r, 1, 1) for _ in range(2)]) for d in docs(r, ctx.size(1800, 40000))])


CHECKS = dict(H01=H01, H02=H02, H03=H03, H04=H04, X01=X01)
