"""A01 and C01: the convenience function and the command."""
import hashlib
import time

import boundary
import checks_parse as cp
import gen
import pool
import sizes
from checks_session import FAMILIES, printed

def dig(b):
    return hashlib.sha1(b).hexdigest()[:12]


ODD = [chr(i) for i in range(32) if i not in (10, 13)] + list('\x7f\x80\x85\x9f\xa0\xad\ufeff\ufffe\uffff\u2028\u2029\u200b\u200e\u3000\u180e\u1680\u0300\u2003\U0001f600\U0010ffff')
FORMATS = [([0, None], 'html'), ([1, 'html'], 'html'), ([2, 'html'], 'html'), ([1, 'rst'], 'rst'), ([2, 'json'], 'json'),
           ([1, 'json'], 'json'), ([1, 'ast'], 'ast'), ([2, 'ast'], 'ast'), ([2, 'rst'], 'rst')]
OTHERS = ['HTML', 'Html', '', ' html', 'html ', 'htm', 'xml', 'text', 'markdown', 'latex', 'man', 'JSON', 'js', 'jso', 'RST', 'rs', 'AST',
          'as', 'rest', 'html\n', 'html5', 'xhtml', 'pdf', 'none', 'html,json', 'htmljson', None, 0, 1, True, False, 1.5, 'h', 'ml', 'ſ', 'аst']
TELLING = ['"q" -- it\'s...\n', '<b>x</b>\n<div>\n', 'a\nb  \nc\\\nd\n', '[a](javascript:x) ![b](data:y)\n', '# h\n\n- a\n  - b\n\n```py\nx\n```\n',
           '[foo]\n\n[foo]: /u "t"\n', '', '\n\n', 'x', '\t\u00e9\U0001f600 &copy; &lt;\n', 'a\r\nb\rc\x00\n']


def facade(ctx, name, texts, formats, hs):
    t0 = time.time()
    base = pool.run([['steps', t] for t in texts])
    if any(st != 'ok' for st, _ in base):
        ctx.violation('parsing and rendering: %s' % next(v for st, v in base if st != 'ok'), part=name)
        return
    b = {k: [v[k] for _, v in base] for k in ('html', 'rst', 'json', 'ast')}
    job = dict(gen=False, max=0, texts=len(texts), formats=[k for _, k in formats], base=b, runs=[])
    if isinstance(hs, int):
        g = ctx.tlc('Facade', dict(job, gen=True, max=hs), spec='Spec', properties=['OneByOne'])
        hs = [[[c['f'], c['d']] for c in h] for h in printed(g['out'], 'HISTORY')]
    size = max(1, min(400, len(hs) // 16))
    got = pool.run([['facade', hs[i:i + size], texts, [f for f, _ in formats]] for i in range(0, len(hs), size)], width=1)
    runs = []
    bad = 0
    for st, v in got:
        if st == 'ok':
            runs += v
        elif st != 'skipped':
            bad += 1
            ctx.violation('a call %s' % v, part=name)
    r = ctx.tlc('Facade', dict(job, runs=runs), spec='Spec', properties=['OneByOne'])
    for m in r['mismatches'][:20]:
        i, k = [int(x) for x in m.split(',')]
        bad += 1
        e = runs[i - 1][k - 1]
        ctx.violation('the call is not parsing and then rendering', part=name, text=texts[e['d'] - 1], format=formats[e['f'] - 1], observed=e,
                      calls_before=k - 1, two_steps={q: b[q][e['d'] - 1] for q in b})
    ctx.validated += sum(map(len, runs))
    ctx.sample(dict(text=texts[-1], format=formats[-1][0]))
    ctx.part(name, texts=len(texts), formats=len(formats), histories=len(runs), calls=sum(map(len, runs)), mismatches=bad, wall=round(time.time() - t0, 1))


def A01(ctx):
    r = ctx.rng('facade')
    others = [([1 + i % 2, v], 'other') for i, v in enumerate(OTHERS)]
    facade(ctx, 'all histories of 3 calls', r.sample(TELLING[:6], 2), r.sample(FORMATS[:3], 1) + FORMATS[3:7] + r.sample(others, 2), 3)
    facade(ctx, 'all histories of 2 calls', TELLING, FORMATS[:7] + r.sample(others, 3), 2)
    texts = boundary.examples() if not ctx.quick else r.sample(boundary.examples(), 150)
    texts = sorted(set(texts + TELLING + [t for f in FAMILIES for t in f]))
    allf = FORMATS + others
    facade(ctx, 'documents of the standard', texts, allf, [[[f + 1, d + 1] for f in range(len(allf))] for d in range(len(texts))])
    texts = sizes.any_of(r, ctx.size(450, 3000), sizes.QUICK if ctx.quick else sizes.FULL)
    facade(ctx, 'many, long, deep', texts, FORMATS[:7], [[[f + 1, d + 1] for f in range(7)] for d in range(len(texts))])
    texts = [cp.mutated(r) if r.random() < 0.5 else gen.blockdoc(r) + gen.inlinedoc(r) for _ in range(ctx.size(1200, 8000))]
    facade(ctx, 'random documents', texts, FORMATS[:7], [[[f + 1, d + 1] for f in range(7)] for d in range(len(texts))])


def C01(ctx):
    r = ctx.rng('command')

    def content():
        k = r.random()
        if k < 0.2:
            s = r.choice(TELLING)
        elif k < 0.5:
            s = gen.blockdoc(r)
        elif k < 0.8:
            s = gen.inlinedoc(r)
        elif k < 0.9:
            s = cp.mutated(r)
        else:
            s = '\n'.join(gen.blockdoc(r) for _ in range(r.choice([30, 120])))
        if r.random() < 0.15:
            s = s.replace('\n', r.choice(['\r\n', '\r']))
        if r.random() < 0.15:
            s = s.rstrip('\n')
        if r.random() < 0.1:
            s = s + r.choice(['\x0c', '\u2028', '\x85', '\x1c', '\x0b', '\ufeff', '\U0001f600', '\x00', '\x1a']) + r.choice(['z\n', '', '\n'])
        return list(s.encode('utf-8', 'replace'))

    def histories(name, contents, most, hs=None, targets=1):
        t0 = time.time()
        lib = pool.run([['library', c] for c in contents])
        if any(st != 'ok' for st, _ in lib):
            ctx.violation('the library: %s' % next(v for st, v in lib if st != 'ok'), part=name)
            return
        inputs = ['in%d.md' % (i + 1) for i in range(len(contents))]
        outputs = ['out%d' % (i + 1) for i in range(targets)]
        job = dict(gen=False, max=most, contents=len(contents), targets=targets, inputs=inputs, outputs=outputs,
                   content=[dig(bytes(c)) for c in contents], nothing=dig(b''),
                   base={k: [v[k] for _, v in lib] for k in ('html', 'json', 'ast')}, runs=[])
        if hs is None:
            g = ctx.tlc('Cli', dict(job, gen=True), spec='Spec', invariants=['Inputs'])
            hs = printed(g['out'], 'HISTORY')
        size = max(1, min(10, len(hs) // 16))
        got = pool.run([['command', hs[i:i + size], contents, inputs, outputs] for i in range(0, len(hs), size)], patience=120, width=1)
        runs = []
        bad = 0
        for st, v in got:
            if st == 'ok':
                runs += v
            elif st != 'skipped':
                bad += 1
                ctx.violation('the command: %s' % v, part=name)
        q = ctx.tlc('Cli', dict(job, runs=runs), spec='Spec', invariants=['Inputs'])
        for m in q['mismatches'][:20]:
            i, k = [int(x) for x in m.split(',')]
            bad += 1
            e = runs[i - 1][k - 1]
            ctx.violation('the command does not do what the library does', part=name, run=e, before=[x['r'] for x in runs[i - 1][:k - 1]],
                          text=bytes(contents[e['r']['d'] - 1]).decode('utf-8'), library=lib[e['r']['d'] - 1][1], nothing=dig(b''))
        ctx.validated += sum(map(len, runs))
        ctx.sample(dict(content=bytes(contents[-1]).decode('utf-8')[:200], run=hs[-1][0]))
        ctx.part(name, contents=len(contents), histories=len(runs), runs=sum(map(len, runs)), mismatches=bad, wall=round(time.time() - t0, 1))
    few = [list(x.encode()) for x in r.sample(TELLING[:5], 2)]
    histories('all histories of 2 runs', few, 2)
    some = [list(x.encode()) for x in TELLING] + [content() for _ in range(ctx.size(3, 60))]
    histories('every run', some, 1, targets=1)
    long_ = [list(('\n'.join(gen.blockdoc(r) for _ in range(200)) + '\n').encode()), list(('x' * 70000 + '\n').encode()),
             list(('> é\U0001f600 *a*\n' * 4000).encode())]
    histories('long contents', long_, 1)
    # characters and blanks at the ends of the text and of its lines
    ends = [c + '# a\n' for c in ODD] + ['```\nx' + c for c in ODD] + ['```\n' + ''.join('%sx%s\n' % (c, c) for c in ODD[i::8]) for i in range(8)]
    ends += [b + '    x' + e for b in ['', ' ', '\n', '\n\n', '\t', '    \n'] for e in ['', '\n', ' ', '  \n', '\n\n\n', '\n    \n', '\n  y', '\t\n', '\\', '\\\n']]
    # around the sizes of buffers
    for n in (1024, 4096, 8192, 65536):
        ends += [('é' * (n // 2 + 1))[:n // 2 + k] + tail for k in (-1, 0) for tail in ('', 'z', '€y\n', '\r\n', '\r')]
    histories('ends and sizes', [list(x.encode()) for x in ends], 0,
              [[dict(s=['file', 'stdin'][k % 2], d=d + 1, f=['html', 'html', 'html', 'json'][k // 2 % 4], t=k // 3 % 2)]
               for d in range(len(ends)) for k in r.sample(range(12), ctx.size(1, 4))])
    for i in range(ctx.size(1, 10)):
        many = [content() for _ in range(12)]

        def run():
            return dict(s=r.choice(['file', 'stdin']), d=r.randint(1, len(many)), f=r.choice(['html', 'html', 'json', 'ast']), t=r.randint(0, 3))
        histories('random histories %d' % (i + 1), many, 0, [[run() for _ in range(6)] for _ in range(ctx.size(24, 150))], targets=3)
    ctx.assumptions.append('contents are valid UTF-8 and the locale is UTF-8; -o is given a name; -a and -aj are not given together')


CHECKS = dict(A01=A01, C01=C01)
