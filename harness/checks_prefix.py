"""P01: documents that grow line by line (spec/Prefix.tla)."""
import itertools
import time

import boundary
import checks_parse as cp
import data
import gen
import pool
import sizes
from core import cps, txt


def grow(ctx, name, docs, design=False):
    t0 = time.time()
    docs = [d for d in dict.fromkeys(docs) if d and cp.settled(d) and len(d) < 1200]
    n = bad = states = 0
    for at in range(0, len(docs), 20000):
        part = docs[at:at + 20000]
        got = pool.run([['prefixes', d, False] for d in part])
        keep = []
        for d, (st, v) in zip(part, got):
            if st == 'ok':
                keep.append((d, v))
            elif st != 'skipped':
                bad += 1
                ctx.violation('parsing a prefix %s' % ('raises ' + v if st == 'error' else v), part=name, text=d)
        job = dict(data.tables([d for d, _ in keep]), cases=[dict(text=cps(d), obs=v) for d, v in keep])
        r = ctx.tlc('Prefix', job, invariants=['EndKeeps'] if design else [])
        n += sum(len(v) for _, v in keep)
        states += r['distinct']
        for m in r['mismatches']:
            i, k = [int(x) for x in m.split(',')]
            bad += 1
            d, v = keep[i - 1]
            ctx.violation('a closed block is changed by the next line', part=name, text=d, lines=k,
                          before=v[k - 1], after=v[k])
    ctx.validated += n
    if docs:
        ctx.sample(docs[len(docs) // 2])
    ctx.part(name, documents=len(docs), prefixes=n, states=states, mismatches=bad, wall=round(time.time() - t0, 1))


def lines(alph, n):
    return ['\n'.join(p) + '\n' for p in itertools.product(alph, repeat=n)]


# lines that begin, continue, interrupt or end each kind of block
KINDS = ['a', '', '    b', '> a', '>', '> > b', '>     c', '> ### a', '> ===', '> ---', '- a', '-', '  b', '      c', '- - a', '- > b', '  # c', '1. a', '   b', '2) c', '## a', '===', '---', '***', '> ```', '```', '~~~', '- ```', '  ```',
         '<div>', '> <div>', '<!-- a', '-->', '- <?', '  ?>', '<b>', '[f]: /u', '> [f]: /u', '- [f]: /u', '"t"', '[f]']


def P01(ctx):
    r = ctx.rng('docs')
    n = ctx.size(4, 5)
    for name, alph in [('containers', ['a', '> a', '- a', '  b', '', '    c']),
                       ('leaves', ['```', 'a', '  x', '', '- a', '<div>']),
                       ('definitions', ['[f]: /u', '[f]', '"t"', '', '===', '> [f]: /v']),
                       ('loose lists', ['- a', '- ', '  - b', '', '  ```', '1. c']),
                       ('HTML and code', ['<!--', '-->', '    x', '', '***', '~~~'])]:
        docs = lines(alph, n)
        if len(docs) > 8000:
            docs = r.sample(docs, 8000)
        grow(ctx, 'all documents of %d lines: %s' % (n, name), docs, design=name in ('containers', 'loose lists') or not ctx.quick)
    grow(ctx, 'all documents of 2 lines of each kind', lines(KINDS, 2))
    grow(ctx, 'documents of 3 and 4 lines of each kind', ['\n'.join(r.choice(KINDS) for _ in range(r.choice((3, 3, 4)))) + '\n' for _ in range(ctx.size(2500, 60000))])
    fam = []
    for f in ['looseness', 'fences', 'html_blocks', 'refdefs', 'indented', 'list_markers', 'heads', 'tabs']:
        fam += cp.some(ctx, f, getattr(boundary, f)(), ctx.size(220, 100000))
    tails = ['a', '', '- x', '  y', '> z', '[f]: /u', '    c', '```', '***', '-->']
    fam = [d.rstrip('\n') + '\n' + '\n'.join(r.choice(tails) for _ in range(r.randint(1, 3))) for d in fam]
    grow(ctx, 'families, extended', fam)
    many = [d for kind in ('blocks', 'lists', 'code', 'refs') for d in sizes.of(kind, ctx.size([6, 11, 25], sizes.FULL)) if len(d) < 600]
    grow(ctx, 'many, long, deep', [d.rstrip('\n') + '\n' + r.choice(tails) + '\n' for d in many])
    k = ctx.size(1800, 60000)
    docs = [r.choice(cp.DOCS)(r) for _ in range(k)]
    docs = [d if r.random() < 0.5 else d.rstrip('\n') + '\n' + r.choice(cp.DOCS)(r) for d in docs]
    grow(ctx, 'random documents', docs)


CHECKS = dict(P01=P01)
