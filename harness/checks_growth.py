"""S02: every string, to completion and in polynomial time."""
import random
import time

import boundary
import checks_parse as cp
import gen
import growth_docs
import pool
import sizes
from checks_session import printed

TOKENS = ['*', '**', '_', '__', '*a', 'a*', '_a ', ' b_', '**a ', '*_', '***a** ', '`', '``', '```', '`a', '~~~', '[', ']', '![', '[a](', '](b)', '][', '[]', '[a]',
          '[a]: ', '[a]: b\n', '[a]: b "', '(', ')', '<', '>', '\\', '\\\\', '&', '&amp;', '&#', '&#x41;', '"', "'", '--', '...', '<a ', '<a href="', '<!--', '-->', '<?', '?>',
          '<![CDATA[', ']]>', '<!A', '<http:', '<a@', 'a.', 'a', 'a ', ' ', '  ', '\t', '\n', '\n\n', '  \n', '\\\n', '> ', '>', '- ', '-\n', '* ', '+ ', '1. ', '1) ', '   ', '    ',
          '#', '# ', ' #', '===', '=', '---', '-', '***\n', '<div>', '</div>', '<pre>', '<script', 'é', '\x00', '\u00a0', '\u201c', ' "a"', '(a', 'a)', '<b>', '.', '@', '!', 'a="', ' a=', '\\"', '\\]', '\\[', '\\)']


def judge(ctx, name, runs, what):
    bad = 0
    for at in range(0, len(runs), 40000):
        part = runs[at:at + 40000]
        r = ctx.tlc('Growth', dict(gen=False, tokens=0, floor=150, short=4000, degree=4, runs=part), spec='Spec', invariants=['Onward'])
        for m in r['mismatches'][:20]:
            i, k = [int(x) for x in m.split(',')]
            bad += 1
            ctx.violation('a document is not processed to completion in time', part=name, measured=part[i - 1][:k], **what(at + i - 1, k - 1))
    return bad


def series(ctx, name, fams, ns, smart=0.3, patience=25):
    """fams: (shape, a, b, c) with the tokens themselves"""
    t0 = time.time()
    r = ctx.rng(name)
    fams = [tuple(f) for f in fams]
    sm = [r.random() < smart for _ in fams]
    got = pool.run([['series', f, ns, s] for f, s in zip(fams, sm)], patience=patience)
    runs, src = [], []
    bad = 0
    for f, s, (st, v) in zip(fams, sm, got):
        if st == 'ok':
            runs.append(v)
            src.append((f, s))
        elif st != 'skipped':
            bad += 1
            ctx.violation('a series does not come to an end: %s' % v, part=name, family=f, smart=s, ns=ns)
    bad += judge(ctx, name, runs, lambda i, k: dict(family=src[i][0], smart=src[i][1], n=ns[k], text=growth_docs.document(*src[i][0], ns[k])[:300]))
    ctx.validated += sum(map(len, runs))
    ctx.sample(dict(family=fams[len(fams) // 2], ns=ns))
    worst = max([d['ms'][s] for v in runs for d in v for s in d['ms']], default=0)
    ctx.part(name, families=len(fams), ns=ns, documents=sum(map(len, runs)), worst_ms=worst, mismatches=bad, wall=round(time.time() - t0, 1))


def whole(ctx, name, texts, smart=0.3, group=20):
    t0 = time.time()
    r = ctx.rng(name)
    packs = [texts[i:i + group] for i in range(0, len(texts), group)]
    sm = [r.random() < smart for _ in packs]
    got = pool.run([['whole', p, s] for p, s in zip(packs, sm)], patience=25, width=2)
    runs, src = [], []
    bad = 0
    for p, s, (st, v) in zip(packs, sm, got):
        if st == 'ok':
            runs += [[d] for d in v]
            src += [(t, s) for t in p]
        elif st != 'skipped':
            bad += 1
            ctx.violation('documents do not come to an end: %s' % v, part=name, texts=p, smart=s)
    bad += judge(ctx, name, runs, lambda i, k: dict(text=src[i][0][:2000], smart=src[i][1]))
    ctx.validated += len(runs)
    ctx.sample(texts[len(texts) // 2][:200])
    ctx.part(name, documents=len(runs), mismatches=bad, wall=round(time.time() - t0, 1))


NESTS = [('power', '> ', '', ''), ('before', '', '> ', 'a'), ('before', '', '- ', 'a'), ('before', '', '1. ', 'a'), ('before', '', '> - ', 'a'), ('mirror', '*a **b ', 'c** d*', 'x'),
         ('mirror', '*a ', 'b*', ''), ('mirror', '_a ', 'b_', ''), ('mirror', '![', '](b)', 'a'), ('mirror', '[', '](b)', 'a'), ('mirror', '**', '**', 'a'), ('mirror', '![', ']', 'a'),
         ('mirror', '*', '*', 'a'), ('before', '', '<b>', ''), ('before', '', '[a](b)', ''), ('before', '- a\n', '- ', 'a\n\n\n# b'), ('lines', '  ', '- a', ''), ('lines', '> ', 'a', ''), ('stairs', '  ', '- a', ''),
         ('stairs', '> ', 'a', ''), ('mirror', '"', '"', 'a'), ('mirror', "'a ", "b'", ' '), ('before', '1. a\n', '   > ', 'b'), ('before', '[x]: ', '(', 'y'), ('before', '[x](', '(', 'y'), ('mirror', '(', ')', '[x](')]


COUNTS = [('count', a, b, '') for a, b in [
    ('[l', ']: /x\n'), ('[l', ']: /x "t"\n\n'), ('[l', '] '), ('[a][l', '] '), ('![l', '][] '), ('', '. a\n'), ('', ') a\n\n'), ('&#', '; '), ('&#x', '; '), ('# h', '\n'), ('<a', '> '), ('<x', '>\n'), ('</x', ' '), ('`', '` '),
    ('[a](u', ') '), ('[a](<', '>) '), ('<x:', '> '), ('<a@b', '.c> '), ('> [l', ']: /x\n\n'), ('- [l', ']: /x\n'), ('[l', ']: '), ('[l', ']:\n'), ('```', '\n'), ('*a', ' '), ('_a', '* '), ('a', '\n'), ('a', '\n\n'), ('    a', '\n'), ('"', '" '), ('&x', '; ')]]


# one of each construct: every part of it is made long, with the rest, with
# another ending and without
WHOLE = ['<ab:c%d/e>', '<a.b-c@d-e.f-g.h>', "x<a b='c' d=\"e\" f=g h />", 'x</a-b >', 'x<!-- a-b --c -->', 'x<?a ?b?>', 'x<!A b c>', 'x<![CDATA[a]b]]>', '[a b](<c d> "e f")', "[a](b 'c\\'d')", '[a](b(c) (d e))', '![a *b*][c d]', '[a]: <b c> "d e"\n\n[a]',
         "[a\\]b]:\n b\n 'c'\n\n[a]", '&amp;&#38;&#x26;', '``a ` b``', '**a *b* _c_**', '***a** b*', '"a \'b\' c"', 'a -- b... c', 'a  \nb\\\nc', '# a b ##  ', 'a b\n---  ', '* * *  ', '- - a\n\n  b', '12. a\n    b', '> > a\n> b', '    a\n\n    b', '``` a b\nc\n```  ',
         '~~~a\n b\n~~~', '<div a>\nb\n\nc', '<a b="c">\nd', '<!-- a\nb -->\nc', '<script a>\nb</script>', '<?a\nb?>', '\ta\t\tb', '&nbsp;a&copy;']


def grown():
    out = []
    for w in WHOLE:
        for p in range(len(w)):
            for k in (1, 2, 3):
                if p + k <= len(w):
                    out += [('before', w[:p], w[p:p + k], end) for end in (w[p + k:], '', '\x01', ' x')]
    return list(dict.fromkeys(out))


def strings(r, n):
    """any characters at all"""
    spec = ['*', '_', '`', '[', ']', '(', ')', '!', '<', '>', '&', '#', '\\', '\n', '\n', ' ', ' ', '\t', '-', '+', '=', '~', '"', "'", '.', ':', ';', '/', '@', '1', 'a', '|', '\r', '\x00', '\x0b', '\x0c', '\x1b', '\x7f',
            '\x85', '\xa0', '\xad', '\u2028', '\u2029', '\u200b', '\ufeff', '\ufffd', '\uffff', '\U0001f600', '\U0010ffff', 'İ', 'ß', 'ſ', 'K', '٣', '²', '①', '\u0301', '\u3000', '\u180e', '“', '’']
    out = []
    for _ in range(n):
        k = r.random()
        s = ''
        for _ in range(r.choice([3, 8, 20, 60, 200])):
            if k < 0.5 or r.random() < 0.7:
                s += r.choice(spec)
            elif k < 0.7:
                s += r.choice(TOKENS)
            else:
                c = r.randrange(0x110000)
                s += chr(c) if not 0xd800 <= c < 0xe000 else 'x'
        out.append(s)
    return out


PLACES = ['%s', '*%s*', 'a%s_b', '[%s]', '[x](%s)', '[x](<%s>)', '[x](y "%s")', '<%s>', '<a%s>', '<a b=%s>', '<http://%s>', '<%s@b.c>', '&%s;', '&#%s;', '&#x%s;', '\\%s', '`%s`', '```%s', '%s. a', '[%s]: /u', '[x]: %s',
          '<!--%s-->', '<!%s>', '<%s', '    %s', '> %s', '- %s', '#%s', '# a %s', '"%s"', "'%s", '-%s-', '![%s](%s)', '%s*a*%s', '%s[a](b)', '%s\n===', 'a%s\nb', '%sa', '<a %s="x">', '[x](y %s)']


def S02(ctx):
    r = ctx.rng('growth')
    g = ctx.tlc('Growth', dict(gen=True, tokens=len(TOKENS), floor=0, short=0, degree=0, runs=[]), spec='Spec')
    fams = [[f['s']] + [TOKENS[f[x] - 1] if f[x] else '' for x in 'abc'] for f in printed(g['out'], 'FAMILY')]
    ctx.part('families', generated=len(fams))
    power = [f for f in fams if f[0] == 'power']
    pair = [f for f in fams if f[0] in ('pair', 'then')]
    series(ctx, 'deep nesting', NESTS, ctx.size([100, 1200], [100, 400, 1200, 2500]), patience=60)
    series(ctx, 'one token', power, ctx.size([8, 64, 512, 1500], [8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096]))
    series(ctx, 'parts of constructs', grown(), ctx.size([80], [20, 40, 80, 160, 320, 640, 1280]))
    series(ctx, 'shapes', r.sample(fams, ctx.size(1600, len(fams))), [8, 32, 128])
    series(ctx, 'longer pairs', r.sample(pair, ctx.size(150, 4000)), [128, 512, 1100])
    series(ctx, 'many, long, deep', [('sized', k, i, '') for k in sizes.KINDS for i in range(len(getattr(sizes, k)(9)))], ctx.size([40, 160, 600], [20, 40, 80, 160, 320, 640, 1280]))
    series(ctx, 'many different', COUNTS, ctx.size([100, 400, 1600], [100, 200, 400, 800, 1600, 3200, 6400]))
    long_ = []
    for _ in range(ctx.size(600, 20000)):
        w = [''.join(r.choice(TOKENS) for _ in range(r.choice([1, 1, 2, 3]))) for _ in range(3)]
        long_.append([r.choice(['pair', 'then', 'before', 'before', 'mirror', 'quoted', 'stairs', 'lines', 'paras'])] + w)
    series(ctx, 'words of tokens', long_, [8, 32, 128])
    whole(ctx, 'random strings', strings(r, ctx.size(3000, 100000)))
    whole(ctx, 'random documents', [r.choice([gen.blockdoc, gen.inlinedoc, gen.listdoc, cp.mutated])(r) for _ in range(ctx.size(1500, 50000))])
    # every character in every place (the quick run: a few places each)
    cs = [c for c in range(0x110000) if not 0xd800 <= c < 0xe000]
    if ctx.quick:
        cs = cs[:0x500] + r.sample([c for c in cs if 0x500 <= c < 0x10000], 4000) + r.sample([c for c in cs if c >= 0x10000], 1000)
    docs = []
    for i in range(0, len(cs), 25):
        for p in (r.sample(PLACES, 4) if i >= 0x180 or not ctx.quick else PLACES):
            docs.append('\n\n'.join(p.replace('%s', chr(c)) for c in cs[i:i + 25]) + '\n')
    whole(ctx, 'characters in places', docs)
    ctx.assumptions.append('times are processor times of one process; lone surrogates are not Unicode strings')


CHECKS = dict(S02=S02)
