"""S01: sessions of several objects and calls that run at the same time."""
import itertools
import json
import re
import time
from concurrent.futures import ThreadPoolExecutor

import gen
import pool

# documents that leave something behind if anything does; those of a family
# differ in little, so that a result kept from one shows in another
FAMILIES = [
    ['[foo]\n', '[foo]: /a\n\n[foo]\n', '[foo]: /b "t"\n\n[foo]\n', '[FOO]\n\n[foo]: <c>\n'],
    ['a *b **c\n', 'a *b **c** d*\n', '*a\n', 'a* **b\n'],
    ['x [a *b\n', 'c](d) e*\n', '![a\n', 'c]\n\n[c]: /x\n', '"\n\n[a', ']: /x\n\n[y]\n'],
    ['"a\n', '"a" \'b\' -- c... "\n', 'it\'s "\n'],
    ['```py\nx\n', '~~~\ny\n~~~\n', '\tcode\n\n\tx\n', 'x\n'],
    ['<div>\nx *a*\n', '<!-- x\n\ny\n', 'z <b>c</b>\n', '<script>\na\n\nb\n'],
    ['- a\n\n- b\n', '- a\n- b\n', '1. a\n   > b\n', '3) a\n4) b\n- c\n', '>\t\tx\n>\n> y\n'],
    ['![a [b](c)](d "e")\n', '[a](b\n', '![a\n', '![foo][]\n\n[foo]: /i\n', '[x [y] z\n'],
    ['`a\n', '`` a ` b ``\n', '`a` <http://x> &amp; &#65; \\*\n'],
    ['# a\n\nb  \nc\\\nd\n', 'a\n===\nb\n---\n', '# a\n', '***\n', ''],
    ['a  \nb\n', 'a\nb\n', ' a\n b \n', 'A\nB'],
    ['<b>x</b> *y*\n', '![*x* `y` <b>](u)\n', '[a](javascript:x)\n'],
    ['> - a\n> b\n\n    c\n', '- \n  a\n\n\n  b\n', '* a\n\t* b\n\n\t\tc\n', '-\n\n  a\n'],
]
CUTS = [0, 60, 150, 300, 500, 700, 850, 950, 990]


def baseline(texts):
    """the results of fresh processes"""
    with ThreadPoolExecutor(8) as ex:
        got = list(ex.map(lambda t: pool.run([['baseline', t]])[0], texts))
        opts = pool.run([['opts']])[0]
    bad = [g for g in got + [opts] if g[0] != 'ok']
    if bad:
        raise BaseRefused(bad[0][1])
    got = [g[1] for g in got]
    n = len(got[0]['out'])
    return dict(tree=[g['tree'] for g in got], dump=[g['dump'] for g in got],
                out=[[g['out'][r] for g in got] for r in range(n)],
                facade=[[g['facade'][f] for g in got] for f in range(3)], opts=opts[1])


class BaseRefused(Exception):
    pass


def job(texts, cuts, base, gen_, most=0, runs=()):
    return dict(gen=gen_, max=most, smart=[True, False, False], renderers=4, texts=len(texts), cuts=cuts, base=base, runs=list(runs))


def printed(out, tag):
    return [json.loads(m.replace('\\"', '"')) for m in re.findall(r'<<"%s", "(.*)">>' % tag, out)]


def replay(ctx, name, texts, cuts, base, hs, note):
    t0 = time.time()
    size = max(1, min(200, len(hs) // 16))
    tasks = [['sessions', [[list(op[k] for k in 'oxyk') for op in h] for h in hs[i:i + size]], texts] for i in range(0, len(hs), size)]
    got = pool.run(tasks, patience=120, width=1)
    runs = []
    bad = 0
    for st, v in got:
        if st == 'ok':
            runs += v
        elif st != 'skipped':
            bad += 1
            ctx.violation('a session %s' % ('raises ' + v if st == 'error' else v), part=name)
    for at in range(0, len(runs), 40000):
        part = runs[at:at + 40000]
        r = ctx.tlc('Session', job(texts, cuts, base, False, 0, part), spec='Spec', properties=['Grows'])
        for m in r['mismatches']:
            i, k = [int(x) for x in m.split(',')]
            bad += 1
            ev = part[i - 1][k - 1]
            ops = [e['op'] for e in part[i - 1][:k]]
            used = sorted({o['y'] for o in ops if o['o'] in ('parse', 'broken', 'facade')})
            ctx.violation('the call does not have the result it has in a fresh process', part=name, event=ev, history=ops,
                          texts={str(d): texts[d - 1] for d in used})
    ctx.validated += sum(map(len, runs))
    if runs:
        ctx.sample([e['op'] for e in runs[len(runs) // 2]][:6])
    ctx.part(name, histories=len(runs), events=sum(map(len, runs)), mismatches=bad, wall=round(time.time() - t0, 1), **note)


def exhaustive(ctx, name, texts, cuts, most):
    base = baseline(texts)
    g = ctx.tlc('Session', job(texts, cuts, base, True, most), spec='Spec', properties=['Grows'])
    hs = printed(g['out'], 'HISTORY')
    replay(ctx, name, texts, cuts, base, hs, dict(length=most, generated=len(hs)))


def random_history(r, n, texts, cuts):
    h = []
    trees = 0
    whole = set()
    for _ in range(n):
        k = r.random()
        if trees > 25:
            h.append(('forget', 0, 0, 0))
            trees = 0
            whole = set()
            continue
        if whole and r.random() < 0.08:
            t = r.choice(sorted(whole))
            whole.discard(t)
            h.append(('edit', r.choice([1, 2, 2]), t, 0))
            continue
        p = r.choice([1, 1, 2, 2, 3])
        d = r.randint(1, texts)
        if k < 0.4 or not trees and k > 0.6:
            h.append(('parse', p, d, 0))
            trees += 1
            whole.add(trees)
        elif k < 0.5:
            h.append(('broken', p, d, r.choice(cuts)))
        elif k < 0.55:
            h.append(('facade', r.randint(1, 3), d, 0))
        elif k < 0.6:
            h.append(('new', p, 0, 0))
        elif k < 0.85:
            h.append(('render', r.randint(1, 4), r.randint(1, trees), 0))
        elif k < 0.95:
            h.append(('stopped', r.randint(1, 4), r.randint(1, trees), r.choice(cuts)))
        else:
            h.append(('dump', 0, r.randint(1, trees), 0))
    return [dict(zip('oxyk', op)) for op in h]


def variants(r, t):
    """texts that differ from t in little"""
    k = r.randint(0, 5)
    if k == 0:
        return t.swapcase()
    if k == 1:
        return t.rstrip('\n')
    if k == 2:
        return t + '\n' + t
    if k == 3:
        return t.replace('a', 'b')
    if k == 4:
        return '> ' + t
    return gen.mutate(r, t)


# ---- at the same time -------------------------------------------------------------
def schedules(ctx, threads, n, switches):
    g = ctx.tlc('Interleave', dict(gen=True, threads=threads, n=n, switches=switches, alone=[], runs=[]), spec='Spec', invariants=['Waits'])
    return printed(g['out'], 'SCHEDULE')


def at_once(ctx, name, texts, calls, groups, scheds, n, share=0):
    """groups: tuples of call numbers (from 1); every schedule with each.
    scheds None: the second call runs as a whole where the first reaches a
    line of the code"""
    t0 = time.time()
    alone = pool.run([['alone', c, texts] for c in calls])
    for st, v in alone:
        if st != 'ok':
            ctx.violation('a call by itself: %s' % v, part=name)
            return
    lines = [v[1] for _, v in alone]
    if scheds is None:
        pts = pool.run([['points', c, texts] for c in calls])
        cases = []
        for g in groups:
            ps = pts[g[0] - 1][1]
            cases += [(g, k) for k in (ps if len(ps) <= share else ctx.rng(name + str(g)).sample(ps, share))]
    else:
        cases = [(g, s) for g in groups for s in scheds]

    def plan(g, s):
        """runs of the same thread, in lines; the last part of a call is what is left"""
        if scheds is None:
            return [[0, s], [1, None], [0, None]]
        out = []
        done = [0] * len(g)
        for t in s:
            t -= 1
            done[t] += 1
            total = lines[g[t] - 1]
            k = total * done[t] // n - total * (done[t] - 1) // n if done[t] < n else None
            if out and out[-1][0] == t and out[-1][1] is not None:
                out[-1][1] = None if k is None else out[-1][1] + k
            else:
                out.append([t, k])
        return out
    work = [[[calls[i - 1] for i in g], plan(g, s)] for g, s in cases]
    size = max(1, min(100, len(work) // 16))
    got = pool.run([['turns', work[i:i + size], texts] for i in range(0, len(work), size)], patience=120, width=1)
    runs = []
    bad = 0
    for k, (st, v) in enumerate(got):
        if st == 'ok' and not isinstance(v, str):
            for (g, s), res in zip(cases[k * size:(k + 1) * size], v):
                runs.append(dict(calls=list(g), sched=s if scheds is not None else [1, 2, 2, 1], res=res))
        elif st != 'skipped':
            bad += 1
            ctx.violation(v if st != 'error' else 'calls at the same time raise ' + v, part=name)
    if runs:
        r = ctx.tlc('Interleave', dict(gen=False, threads=len(groups[0]), n=n, switches=0, alone=[v[0] for _, v in alone], runs=runs),
                    spec='Spec', invariants=['Waits'])
        for m in r['mismatches'][:20]:
            u = runs[int(m) - 1]
            bad += 1
            ctx.violation('calls at the same time do not have the results they have alone', part=name, schedule=u['sched'],
                          calls=[calls[i - 1] for i in u['calls']], texts=[texts[calls[i - 1][2]] for i in u['calls']],
                          results=u['res'], alone=[alone[i - 1][1][0] for i in u['calls']])
        ctx.validated += len(runs) * len(groups[0])
        ctx.sample(dict(calls=[calls[i - 1] for i in runs[0]['calls']], schedule=runs[0]['sched']))
    ctx.part(name, calls=len(calls), groups=len(groups), schedules=len(scheds) if scheds is not None else 'at lines', runs=len(runs), mismatches=bad, wall=round(time.time() - t0, 1))


def free(ctx, name, texts, calls, groups, rounds):
    t0 = time.time()
    alone = pool.run([['alone', c, texts] for c in calls])
    want = [v[0] for _, v in alone]
    got = pool.run([['free', [[calls[i - 1] for i in g]], texts, rounds] for g in groups], patience=120, width=1)
    bad = 0
    runs = []
    for g, (st, v) in zip(groups, got):
        if st != 'ok':
            if st != 'skipped':
                bad += 1
                ctx.violation('threads: %s' % v, part=name)
            continue
        res = [k[0] if len(k) == 1 else 'several results' for k in v[0]]
        runs.append(dict(calls=list(g), sched=[t + 1 for t in range(len(g))], res=res))
    if runs:
        r = ctx.tlc('Interleave', dict(gen=False, threads=len(groups[0]), n=1, switches=0, alone=want, runs=runs), spec='Spec')
        for m in r['mismatches'][:10]:
            u = runs[int(m) - 1]
            bad += 1
            ctx.violation('threads do not have the results they have alone', part=name, calls=[calls[i - 1] for i in u['calls']],
                          results=u['res'], alone=[want[i - 1] for i in u['calls']])
        ctx.validated += len(runs) * rounds * len(groups[0])
    ctx.part(name, groups=len(groups), rounds=rounds, mismatches=bad, wall=round(time.time() - t0, 1))


BIG = ['[foo]: /a "t"\n[Foo]: /b\n\n*a [foo] **b `c` ![d](e "f") <b>* &amp; "q" \\*\n\n> - x\n>   y\n>\n> 1. z\n\n```py\nc\n```\n',
       '[foo]\n\n**a *b [foo][] "x" -- y\' `d`\n\n<div>\n*h*\n\n- a\n\n- b\n\tc\n\n# h [baz](u)\n\n[baz]: v\n',
       '~~~ x\nq\n\n> [bar]\n\n[bar]: <z> \'w\'\n\nt  \nu\\\nv <http://x.y> ![*i* "j"](k)\n===\n']


def S01(ctx):
    r = ctx.rng('sessions')
    try:
        flat = [t for f in FAMILIES for t in f]
        # every short history with two or three documents of one family, or of several
        picks = [r.sample(f, 2) for f in FAMILIES[1:] if len(f) > 1]
        r.shuffle(picks)
        picks.insert(0, ['[foo]\n', '[foo]: /a\n\n[foo]\n'])
        for i, f in enumerate(picks[:ctx.size(2, 12)]):
            exhaustive(ctx, 'all histories of 3 calls, %d' % (i + 1), f, [r.choice(CUTS[2:])], 3)
        for i in range(ctx.size(2, 12)):
            texts = [r.choice(f) for f in r.sample(FAMILIES[:7], 5)] if i else [r.choice(FAMILIES[r.choice([0, 1])])] + FAMILIES[2][:4]
            exhaustive(ctx, 'all histories of 2 calls, %d' % (i + 1), texts, [0] + r.sample(CUTS[1:], 2), 2)
        # long ones
        n = ctx.size(2, 12)
        for i in range(n):
            texts = r.sample(flat, 12)
            texts += [variants(r, r.choice(texts)) for _ in range(6)] + [gen.blockdoc(r) for _ in range(4)] + [gen.inlinedoc(r) for _ in range(4)]
            base = baseline(texts)
            hs = [random_history(r, r.choice([8, 15, 25, 40, 40, 90]), len(texts), CUTS) for _ in range(ctx.size(200, 1000))]
            replay(ctx, 'random histories %d' % (i + 1), texts, CUTS, base, hs, {})
        texts = r.sample(flat, 8)
        hs = [random_history(r, 1500, len(texts), CUTS) for _ in range(ctx.size(8, 60))]
        replay(ctx, 'very long histories', texts, CUTS, baseline(texts), hs, {})
    except BaseRefused as e:
        ctx.violation('a call by itself raises %s' % e)
        return
    texts = BIG + [t for f in FAMILIES for t in f[:1]]
    calls = [['parse', s, d] for d in range(3) for s in (0, 1)] + [['render', k, d] for d in range(2) for k in range(4)] + \
            [['json', 0, 0], ['facade', 0, 1], ['facade', 1, 0], ['facade', 2, 1]]
    same = lambda a, b: (calls[a - 1][0] == 'parse') == (calls[b - 1][0] == 'parse')  # noqa
    allp = [p for p in itertools.product(range(1, len(calls) + 1), repeat=2) if same(*p)]
    parse = [p for p in allp if calls[p[0] - 1][0] == 'parse' and calls[p[0] - 1][2] != calls[p[1] - 1][2]]
    rest = [p for p in allp if p not in parse]
    s4 = schedules(ctx, 2, 4, 8)
    at_once(ctx, 'two calls in turns', texts, calls, r.sample(parse, ctx.size(12, len(parse))) + r.sample(rest, ctx.size(12, len(rest))), s4, 4)
    s3 = schedules(ctx, 3, 2, 6)
    trip = [r.choices(range(1, len(calls) + 1), k=3) for _ in range(ctx.size(6, 60))]
    at_once(ctx, 'three calls in turns', texts, calls, trip, s3, 2)
    # one call is broken in on at each line of the code by a whole other one
    at_once(ctx, 'a call inside another', texts, calls, r.sample(parse, ctx.size(8, len(parse))) + r.sample(rest, ctx.size(8, len(rest))),
            None, 2, ctx.size(300, 3000))
    free(ctx, 'threads running freely', texts, calls, r.sample(allp, 16), ctx.size(10, 100))
    ctx.assumptions.append('calls that run at the same time use different objects; preemption is between lines of the code of the library')


CHECKS = dict(S01=S01)
