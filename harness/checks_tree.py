"""N01, N02, N03, D01: the node tree (TreeOps, Walker, Normalize, Dump)."""
import itertools
import random
import time

import boundary
import checks_parse as cp
import gen
import pool
import sizes
import tlc
import trees
from core import cps, txt

CONTAINERS = ['document', 'paragraph', 'emph', 'list', 'item', 'block_quote', 'heading', 'strong', 'link', 'image', 'custom_block', 'custom_inline']
LEAVES = ['text', 'softbreak', 'linebreak', 'code', 'html_inline', 'code_block', 'html_block', 'thematic_break']


def graphs(ctx, module, name, tasks, n, con, design=True, patience=300):
    """tasks that return graphs of real states; TLC walks them along with the
    specification"""
    t0 = time.time()
    got = pool.run(tasks, patience=patience)
    obs, edges, starts, full = [], [], [], True
    bad = 0
    where = []
    for (st, g), t in zip(got, tasks):
        if st != 'ok':
            if st != 'skipped':
                bad += 1
                ctx.violation('operations %s' % ('raise ' + g if st == 'error' else g), part=name)
            continue
        base = len(obs)
        where.append((base, g, t))
        obs += g['obs']
        edges += [[dict(o=e[0], a=e[1], c=e[2], e=e[3], to=e[4] + base if e[4] else 0) for e in es] for es in g['edges']]
        starts += [s + base for s in g['starts']]
        full = full and g['full']
    if obs:
        job = dict(n=n, con=con, obs=obs, edges=edges, starts=starts, full=full,
                   edits=all(t[0] == 'explore' and t[4] for t in tasks))
        kw = dict(invariants=['Forest', 'Complete'] + (['Inside'] if module == 'Walker' else []),
                  properties=['Framed'] if module == 'TreeOps' else []) if design else {}
        try:
            r = ctx.tlc(module, job, **kw)
        except tlc.TlcError:
            # the operations offered depend on what the nodes say: with a
            # wrong state the graph cannot be complete either
            r = ctx.tlc(module, job)
            if not r['mismatches']:
                raise
        trans = sum(map(len, edges))
        ctx.validated += trans
        for m in r['mismatches'][:20]:
            q, i = [int(x) for x in m.split(',')]
            e = edges[q - 1][i - 1]
            ctx.violation('the operation does not have the effect of the specification', part=name, before=obs[q - 1], op=e,
                          after=obs[e['to'] - 1] if e['to'] else 'raised', history=path(edges, starts, q))
        bad += len(r['mismatches'])
        q = len(obs) // 2
        ctx.sample(dict(links=obs[q], ops=edges[q][:3]))
        ctx.part(name, nodes=n, real_states=len(obs), operations=trans, complete=full, states=r['distinct'], mismatches=bad, wall=round(time.time() - t0, 1))


def path(edges, starts, q, cap=200000):
    """operations that lead to state q"""
    prev = {s: None for s in starts}
    todo = list(starts)
    i = 0
    while i < len(todo) and i < cap and q not in prev:
        for e in edges[todo[i] - 1]:
            if e['to'] and e['to'] not in prev:
                prev[e['to']] = (todo[i], e)
                todo.append(e['to'])
        i += 1
    out = []
    while prev.get(q):
        q, e = prev[q]
        out.append('%s %s %s%s' % (e['o'], e['a'], e['c'], ' entering' if e['e'] else ''))
    return out[::-1]


def N01(ctx):
    r = ctx.rng('kinds')
    allc = lambda n: [True] * n  # noqa
    for n in range(1, 4):
        graphs(ctx, 'TreeOps', 'all histories of %d nodes' % n, [['explore', r.choices(CONTAINERS, k=n), allc(n), False, False, 20000]], n, allc(n))
    kinds = [CONTAINERS[0]] + r.sample(CONTAINERS[1:], 3)
    graphs(ctx, 'TreeOps', 'all histories of 4 nodes', [['explore', kinds, allc(4), False, False, 20000]], 4, allc(4))
    mix = [r.choice(CONTAINERS), r.choice(LEAVES), r.choice(CONTAINERS), 'text']
    graphs(ctx, 'TreeOps', 'all histories of 4 nodes, some leaves', [['explore', mix, allc(4), False, False, 20000]], 4, allc(4))
    if not ctx.quick:
        graphs(ctx, 'TreeOps', 'all histories of 5 nodes', [['explore', r.choices(CONTAINERS, k=5), allc(5), False, False, 60000]], 5, allc(5), patience=900)
    for n, length, count in [(5, 40, ctx.size(40, 400)), (7, 80, ctx.size(30, 300)), (12, 200, ctx.size(15, 150)), (30, 500, ctx.size(8, 64))]:
        kinds = [r.choice(CONTAINERS + LEAVES) for _ in range(n)]
        graphs(ctx, 'TreeOps', 'random histories of %d nodes' % n,
               [['histories', r.random(), kinds, allc(n), False, length, max(1, count // 8)] for _ in range(8)], n, allc(n))


def N02(ctx):
    r = ctx.rng('walks')

    def kinds(con):
        return [r.choice(CONTAINERS) if c else r.choice(LEAVES) for c in con]
    for con in itertools.product([True, False], repeat=3):
        con = list(con)
        graphs(ctx, 'Walker', 'all walks with edits, 3 nodes %s' % ''.join('cl'[not c] for c in con), [['explore', kinds(con), con, True, True, 30000]], 3, con)
    for con in ([True] * 4, [True, True, True, False], [True, True, False, False]) if ctx.quick else itertools.product([True, False], repeat=4):
        con = list(con)
        graphs(ctx, 'Walker', 'all walks, 4 nodes %s' % ''.join('cl'[not c] for c in con), [['explore', kinds(con), con, True, False, 60000]], 4, con, design=False)
    if not ctx.quick:
        for con in ([True] * 4, [True, True, True, False]):
            graphs(ctx, 'Walker', 'all walks with edits, 4 nodes %s' % ''.join('cl'[not c] for c in con), [['explore', kinds(con), con, True, True, 200000]], 4, con, design=False, patience=900)
    for n, length, count in [(5, 60, ctx.size(100, 800)), (9, 150, ctx.size(60, 600)), (25, 400, ctx.size(8, 64))]:
        con = [r.random() < 0.75 for _ in range(n)]
        graphs(ctx, 'Walker', 'random walks with edits, %d nodes' % n,
               [['histories', r.random(), kinds(con), con, True, length, max(1, count // 8)] for _ in range(8)], n, con)
    walks(ctx)


def walks(ctx):
    """whole walks of parsed and built trees, from every kind of node"""
    t0 = time.time()
    r = ctx.rng('whole walks')
    items = [(r.choice(cp.DOCS + [gen.inlinedoc])(r), False) for _ in range(ctx.size(1500, 20000))]
    items += [(trees.rand_tree(r), False) for _ in range(ctx.size(1500, 20000))]
    items += [(t, False) for k in (1, 2) for t in trees.inline_trees(r, k)]
    items += [('> ' * 80 + 'a', False), ('- ' * 60 + '*b*', False), ('*a ' * 60 + 'x' + '*' * 60, False)]
    items += [(d, False) for d in sizes.any_of(r, ctx.size(250, 100000), sizes.QUICK if ctx.quick else sizes.FULL)]
    tasks = [['walk', s, sm, r.choice([0, 0, r.randint(0, 30)])] for s, sm in items]
    cases = []
    bad = 0
    for (st, v), t in zip(pool.run(tasks), tasks):
        if st == 'ok':
            for ev in v[1:3]:
                cases.append(dict(rows=v[0], ev=[dict(n=a, e=b) for a, b in ev], con=v[3]))
        elif st != 'skipped':
            bad += 1
            ctx.violation('walking %s' % ('raises ' + v if st == 'error' else v), part='whole walks', text=str(t[1])[:500])
    r = ctx.tlc('Walks', dict(cases=cases, ents=[], punct=[], fold=[]))
    for m in r['mismatches'][:10]:
        ctx.violation('the walk is not in document order, or is_container() is wrong', part='whole walks', case=cases[int(m) - 1])
    ctx.validated += len(cases)
    ctx.sample(cases[len(cases) // 2])
    ctx.part('whole walks', walks=len(cases), states=r['distinct'], mismatches=bad + len(r['mismatches']), wall=round(time.time() - t0, 1))


def normal(ctx, name, items, any_order=False):
    """items: (source, splits, node)"""
    t0 = time.time()
    cases, back = [], []
    bad = 0
    for (st, v), it in zip(pool.run([['normalize', s, False, sp, at] for s, sp, at in items]), items):
        if st == 'ok':
            cases.append(v)
            back.append(it)
        elif st != 'skipped':
            bad += 1
            ctx.violation('normalize %s' % ('raises ' + v if st == 'error' else v), part=name, text=it[0] if isinstance(it[0], str) else None,
                          tree=None if isinstance(it[0], str) else it[0])
    r = ctx.tlc('Normalize', dict(cases=cases, any=any_order), invariants=['TextKept', 'OthersKept', 'Final'], properties=['Fewer'])
    miss = sorted(set(int(m) for m in r['mismatches']), key=lambda i: len(cases[i - 1]['rows']))
    for m in miss[:10]:
        c = cases[m - 1]
        ctx.violation('normalize does not give the tree of the specification', part=name, root=c['root'],
                      before=[(q['d'], q['t'], txt(q['lit'])) for q in c['rows']], after=[(q['d'], q['t'], txt(q['lit'])) for q in c['after']])
    ctx.validated += len(cases)
    if cases:
        c = cases[len(cases) // 2]
        ctx.sample(dict(before=[(q['d'], q['t'], txt(q['lit'])) for q in c['rows']][:12], after=[(q['d'], q['t'], txt(q['lit'])) for q in c['after']][:12]))
    ctx.part(name, cases=len(cases), merging=sum(c['rows'] != c['after'] for c in cases), states=r['distinct'], mismatches=bad + len(miss), wall=round(time.time() - t0, 1))


def N03(ctx):
    r = ctx.rng('trees')
    kinds = [('text', 'a'), ('text', ''), ('emph', ''), ('code', 'c')]

    def small(n):
        for ds in trees.shapes(n):
            opts = [[k for k in kinds if not (i + 1 < n and ds[i + 1] > d) or k[0] == 'emph'] for i, d in enumerate(ds)]
            for ks in itertools.product(*opts):
                yield [trees.row(0, 'document', sl=1, sc=1, el=1, ec=1), trees.row(1, 'paragraph', sl=1, sc=1, el=1, ec=1)] + \
                    [trees.row(d + 2, t, lit=(l and chr(97 + i))) for i, (d, (t, l)) in enumerate(zip(ds, ks))]
    for n in range(1, 5):
        its = list(small(n))
        normal(ctx, 'all trees of %d inlines' % n, [(t, [], 0) for t in its] + [(t, [], -1 - r.randint(0, 5)) for t in its], any_order=True)
    its = list(small(5))
    normal(ctx, 'trees of 5 inlines', [(t, [], r.choice([0, 1, -2])) for t in r.sample(its, min(len(its), ctx.size(1500, 20000)))])

    def texty(r):
        t = trees.rand_tree(r)
        return [trees.row(q['d'], 'text', lit=r.choice(['a', 'b', '', '*', '\n'])) if q['t'] in trees.LEAVES and r.random() < 0.7 else q for q in t]
    normal(ctx, 'random trees', [(texty(r), [r.randint(0, 9) for _ in range(r.randint(0, 3))], r.choice([0, 0, r.randint(0, 9), -r.randint(1, 20)])) for _ in range(ctx.size(2500, 40000))])
    runs = []
    for n in ctx.size([11, 33, 70], sizes.FULL):
        for mid in [[], [('emph', '')], [('code', 'c')], [('text', '')], [('emph', ''), ('text', 'z')]]:
            for k in (0, n // 2, n - 1):
                t = [trees.row(0, 'document', sl=1, sc=1, el=1, ec=1), trees.row(1, 'paragraph', sl=1, sc=1, el=1, ec=1)]
                for i in range(n):
                    t.append(trees.row(2, 'text', lit=r.choice(['a', 'bc', '', '*', '\n'])))
                    if i == k:
                        t += [trees.row(2 + (j > 0), a, lit=b) for j, (a, b) in enumerate(mid)]
                runs += [(t, [], 0), (t, [], -1 - r.randint(0, 20))]
    runs += [(d, [r.randint(0, 9) for _ in range(r.randint(0, 3))], 0) for d in sizes.any_of(r, ctx.size(150, 100000), sizes.QUICK if ctx.quick else sizes.FULL, 400)]
    normal(ctx, 'many, long, deep', runs)
    normal(ctx, 'parsed documents', [(r.choice(cp.DOCS + [gen.inlinedoc] * 4)(r), [r.randint(0, 9) for _ in range(r.randint(0, 3))], r.choice([0, 0, r.randint(0, 9)])) for _ in range(ctx.size(2500, 40000))])


def dumps(ctx, name, items):
    """items: (source, smart, which, node)"""
    t0 = time.time()
    cases, back = [], []
    bad = 0
    for (st, v), it in zip(pool.run([['dump'] + list(i) for i in items]), items):
        if st == 'ok':
            rows, js, ast, same = v
            if js is not None:
                cases.append(dict(kind='json', rows=rows, json=js, ast=[], same=same))
                back.append(it)
            if ast is not None:
                cases.append(dict(kind='ast', rows=rows, json=[], ast=ast, same=same))
                back.append(it)
        elif st != 'skipped':
            bad += 1
            ctx.violation('dumping %s' % ('raises ' + v if st == 'error' else v), part=name, text=it[0] if isinstance(it[0], str) else None,
                          tree=None if isinstance(it[0], str) else it[0])
    job = dict(cases=cases, explain=False, ents=[], punct=[], fold=[])
    r = ctx.tlc('Dump', job, invariants=['EachOnce'])
    miss = sorted((int(m) - 1 for m in r['mismatches']), key=lambda i: len(cases[i]['rows']))
    if miss:
        job = dict(job, cases=[cases[i] for i in miss[:5]], explain=True)
        e = ctx.expected(tlc.run('Dump', job)['out'])
        for j, i in enumerate(miss[:5]):
            c, x = cases[i], e.get(j + 1)
            ctx.violation('the dump is not the one the specification gives', part=name, kind=c['kind'], same_tree=c['same'], node=back[i][3],
                          text=back[i][0] if isinstance(back[i][0], str) else None, tree=None if isinstance(back[i][0], str) else back[i][0],
                          observed=txt(c['ast']) if c['kind'] == 'ast' else c['json'], expected=txt(x) if c['kind'] == 'ast' and isinstance(x, list) else x)
    ctx.validated += len(cases)
    if cases:
        c = cases[len(cases) // 2]
        ctx.sample(dict(kind=c['kind'], nodes=[(q['d'], q['t']) for q in c['rows']][:12]))
    ctx.part(name, dumps=len(cases), states=r['distinct'], mismatches=bad + len(miss), wall=round(time.time() - t0, 1))


def D01(ctx):
    r = ctx.rng('dumps')
    both = ('json', 'ast')
    n = ctx.size(1300, 40000)
    dumps(ctx, 'parsed documents', [(r.choice(cp.DOCS + [gen.inlinedoc] * 2)(r), r.random() < 0.2, both, r.choice([0, 0, 0, r.randint(0, 30)])) for _ in range(n)])
    dumps(ctx, 'families', [(d, False, both, 0) for f in ('list_markers', 'looseness', 'fences', 'links', 'refdefs', 'heads', 'html_blocks') for d in cp.some(ctx, f, getattr(boundary, f)(), ctx.size(90, 1500)) if len(d) < 1000])
    nul = lambda t: [dict(q, nul=r.random() < 0.5) for q in t]  # noqa
    dumps(ctx, 'random trees', [(nul(trees.rand_tree(r)), False, both, r.choice([0, 0, r.randint(0, 30)])) for _ in range(n // 2)])
    def anything(t):
        # any attribute on any node
        out = []
        for q in t:
            over = {k: r.choice(['', None, 'v', 'a"b\nc', 'é<&', '0', ' ']) for k in ('literal', 'title', 'info', 'destination', 'string_content') if r.random() < 0.4}
            over.update({k: r.random() < 0.5 for k in ('is_open', 'last_line_blank') if r.random() < 0.4})
            if r.random() < 0.25:
                over['list_data'] = {k: r.choice(vs) for k, vs in dict(type=['bullet', 'ordered', None, ''], bullet_char=['-', '*', None], start=[0, 1, 7, 999999999, None], delimiter=['.', ')', None],
                                                                      padding=[0, 2, 12, None], marker_offset=[0, 1, 3, None], tight=[True, False]).items() if r.random() < 0.7}
            out.append(dict(q, over=over))
        return out
    dumps(ctx, 'any attributes', [(anything(trees.rand_tree(r)), False, both, r.choice([0, 0, r.randint(0, 30)])) for _ in range(n // 5)])
    chars = [[trees.row(0, 'document', sl=1, sc=1, el=1, ec=1), trees.row(1, 'paragraph'), trees.row(2, 'text', lit='x' + chr(c)), trees.row(2, 'link', dest=chr(c), title=chr(c) + 'y'),
              trees.row(1, 'code_block', lit=chr(c), info=chr(c), sl=1, sc=1, el=1, ec=1)] for c in list(range(0, 300)) + [0x2028, 0x2029, 0xFEFF, 0xFFFF, 0x1F600, 0x10FFFF]]
    dumps(ctx, 'every character', [(t, False, both, 0) for t in chars])
    dumps(ctx, 'many, long, deep', [(d, False, both if n % 3 == 0 else ('json',), 0) for n, d in enumerate(sizes.any_of(r, ctx.size(150, 100000), sizes.QUICK if ctx.quick else sizes.FULL, 800))])
    deep = []
    for k in (1, 2, 5, 20, 60, ctx.size(150, 1200)):
        deep += [('> ' * k + 'a', False, ('json',), 0), ('- ' * k + 'a', False, ('json',), 0), ('*a _b ' * k + 'x' + '_ *' * k, False, ('json',), 0),
                 ('[' * k + 'x' + '](u)' * k, False, ('json',), 0), ('![' * k + 'x' + '](u)' * k, False, ('json',), 0), ('> - ' * k + '# h', False, ('json',), 0)]
        if k < 100:
            deep += [(d[0], False, ('ast',), 0) for d in deep[-6:]]
    dumps(ctx, 'deep nesting', deep)


CHECKS = dict(N01=N01, N02=N02, N03=N03, D01=D01)
