"""What all checks share: seeds, conformance runs, violations, evidence."""
import json
import os
import random
import re
import sys
import time
import traceback

import data
import pool
import tlc

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
CONTROLS = dict(invariants=['SpineOk', 'Nested', 'Lists', 'RefsOnce', 'InlineOk', 'NoNestedLinks'],
                properties=['Stable', 'Progress'])


def cps(s):
    return [ord(c) for c in s]


def txt(a):
    return ''.join(map(chr, a))


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.quick = tier == 'quick'
        self.t0 = time.time()
        self.bad = []
        self.states = self.transitions = self.validated = self.evaluations = 0
        self.samples = []
        self.parts = []
        self.assumptions = []

    def rng(self, name):
        return random.Random('%s/%s/%d' % (self.pid, name, self.seed))

    def size(self, quick, thorough):
        return quick if self.quick else thorough

    def sample(self, x):
        if len(self.samples) < 12:
            self.samples.append(x)

    def part(self, name, **kw):
        self.parts.append(dict(part=name, **kw))
        print('  %-28s %s' % (name, ' '.join('%s=%s' % i for i in kw.items())), flush=True)

    def violation(self, what, **detail):
        self.bad.append(dict(what=what, **detail))

    def tlc(self, module, job, **kw):
        try:
            r = tlc.run(module, job, **kw)
        except tlc.TlcError as e:
            r = self.narrow(module, job, kw, e)
        self.states += r['distinct']
        self.transitions += r['states']
        return r

    def narrow(self, module, job, kw, e):
        """TLC could not evaluate something: the observation it cannot make
        sense of is found (the specification has no such value)"""
        key = 'cases' if job.get('cases') else 'runs' if job.get('runs') else None
        if key is None or not e.evaluation:
            raise e
        items = job[key]
        if len(items) == 1:
            self.violation('the observation is none the specification can make sense of', part=module,
                           observed=json.dumps(items[0])[:1500], error=str(e)[:500])
            return dict(out='', rc=1, wall=0, finished=False, states=0, distinct=0, mismatches=[])
        h = len(items) // 2
        res = dict(out='', rc=0, wall=0, finished=True, states=0, distinct=0, mismatches=[])
        for at, part in ((0, items[:h]), (h, items[h:])):
            if sum(b['what'].startswith('the observation is none') for b in self.bad) >= 3:
                break
            try:
                r = tlc.run(module, dict(job, **{key: part}), **kw)
            except tlc.TlcError as x:
                r = self.narrow(module, dict(job, **{key: part}), kw, x)
            for k in ('states', 'distinct', 'wall'):
                res[k] += r[k]
            res['mismatches'] += [re.sub(r'\d+', lambda m: str(int(m.group()) + at), m, count=1) for m in r['mismatches']]
        return res

    # ---- conformance of parses ----------------------------------------------
    def conform(self, name, cases):
        """cases: [(text, smart, projection)]; every observation of the code is
        checked against the specification by TLC"""
        seen = set()
        todo = []
        for c in cases:
            if c not in seen:
                seen.add(c)
                todo.append(c)
        obs = pool.run([['proj', t, s, p] for t, s, p in todo])
        self.compare(name, todo, obs)

    def compare(self, name, todo, obs, batch=60000):
        t0 = time.time()
        n = bad = 0
        for at in range(0, len(todo), batch):
            part = todo[at:at + batch]
            got = obs[at:at + batch]
            keep = []
            for c, (st, v) in zip(part, got):
                if st == 'ok':
                    keep.append((c, v))
                elif st != 'skipped':
                    self.violation('parsing %s' % ('raises ' + v if st == 'error' else v), part=name, text=c[0], smart=c[1])
                    bad += 1
            job = dict(data.tables([c[0] for c, _ in keep]), explain=False,
                       cases=[dict(text=cps(c[0]), smart=c[1], p=c[2], obs=v) for c, v in keep])
            r = self.tlc('Conform', job)
            n += len(keep)
            miss = sorted((int(m) - 1 for m in r['mismatches']), key=lambda i: len(keep[i][0][0]))
            bad += len(miss)
            if miss:
                job['cases'] = [job['cases'][i] for i in miss[:20]]
                job['explain'] = True
                e = self.expected(tlc.run('Conform', job)['out'])
                for j, i in enumerate(miss[:20]):
                    c, v = keep[i]
                    self.violation('the tree is not the one the specification gives', part=name, text=c[0], smart=c[1],
                                   projection=c[2], observed=v, expected=e.get(j + 1))
        self.validated += n
        if todo:
            self.sample(todo[len(todo) // 3][0])
            self.sample(todo[-1][0])
        self.part(name, cases=n, mismatches=bad, wall=round(time.time() - t0, 1))

    def expected(self, out):
        e = {}
        for m in re.finditer(r'<<\s*"EXPECTED",\s*(\d+),\s*"(.*?)"\s*>>\s*$', out, re.M | re.S):
            s = m.group(2).replace('\\"', '"').replace('\\\\', '\\')
            try:
                e[int(m.group(1))] = json.loads(re.sub(r'\s*\n\s*', '', s))
            except ValueError:
                e[int(m.group(1))] = s
        return e

    def enum(self, name, mode, alph, maxlen, proj, smart=False, design=True, pre='', post=''):
        """every input over the alphabet of lines or tokens up to maxlen, the
        parser machine micro step by micro step, and the code on each"""
        t0 = time.time()
        texts = []

        def grow(n, s):
            if n == 0:
                texts.append(s)
                return
            for a in alph:
                grow(n - 1, s + [a])
        for n in range(maxlen + 1):
            grow(n, [])
        sep = '\n' if mode == 'lines' else ''
        docs = [pre + sep.join(t) + ('\n' if mode == 'lines' and t else '') + post for t in texts]
        obs = pool.run([['proj', d, smart, proj] for d in docs])
        bad = 0
        vals = []
        for d, (st, v) in zip(docs, obs):
            if st == 'ok':
                vals.append(v)
            else:
                vals.append([])
                if st != 'skipped':
                    bad += 1
                    self.violation('parsing %s' % ('raises ' + v if st == 'error' else v), part=name, text=d, smart=smart)
        job = dict(data.tables(docs if any('&' in a for a in alph) else docs[-1:] + alph), mode=mode, pre=cps(pre), post=cps(post), alph=[cps(a) for a in alph], max=maxlen, smart=smart,
                   proj=proj, obs=vals)
        try:
            r = self.tlc('CMark', job, **(CONTROLS if design else {}))
        except tlc.TlcError as e:
            if not e.evaluation:
                raise
            self.compare(name + ' (one by one)', [(d, smart, proj) for d in docs], obs)
            if not self.bad:
                raise
            return
        miss = []
        for m in r['mismatches']:
            q = [int(x) - 1 for x in re.findall(r'\d+', m)]
            miss.append(pre + sep.join(alph[i] for i in q) + ('\n' if mode == 'lines' and q else '') + post)
        self.validated += len(docs)
        self.sample(docs[len(docs) // 2])
        if miss:
            miss = [d for d in sorted(miss, key=len) if obs[docs.index(d)][0] == 'ok']
            self.compare(name + ' (explained)', [(d, smart, proj) for d in miss[:10]],
                         [obs[docs.index(d)] for d in miss[:10]])
            if not self.bad and miss:
                raise RuntimeError('the step-wise and the whole specification differ on %r' % miss[0])
        self.part(name, mode=mode, alphabet=len(alph), maxlen=maxlen, inputs=len(docs), states=r['distinct'],
                  mismatches=len(miss) + bad, wall=round(time.time() - t0, 1))

    # ---- the end ---------------------------------------------------------------
    def finish(self):
        known = load_known(self.pid)
        shown = set()
        left = []
        for b in self.bad:
            k = next((k for k in known if k['match'] in json.dumps(b, sort_keys=True)), None)
            if k is None:
                left.append(b)
            elif k['match'] not in shown:
                shown.add(k['match'])
                print('KNOWN-FINDING: property=%s %s' % (self.pid, k['what']))
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        replay = None
        if left:
            d = os.path.join(ROOT, 'work', 'replay')
            os.makedirs(d, exist_ok=True)
            replay = os.path.join(d, '%s.json' % self.pid)
            left.sort(key=lambda b: len(b.get('text') or '') or 10 ** 6)
            with open(replay, 'w') as f:
                json.dump(dict(property=self.pid, seed=self.seed, tier=self.tier, violations=left[:50]), f, indent=1)
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level='model_checking',
                  coverage=dict(states=self.states, transitions=self.transitions,
                                traces_validated_against_impl=self.validated, samples=self.samples or ['(none)'],
                                parts=self.parts),
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(left))
        if len(json.dumps(ev)) > 60000:
            ev['coverage']['samples'] = [str(s)[:400] for s in ev['coverage']['samples']]
        with open(os.path.join(ROOT, 'evidence', self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        if left:
            for b in left[:3]:
                print('  ' + json.dumps(b)[:600])
            print('VIOLATION property=%s replay=%s' % (self.pid, replay))
            return 1
        print('%s held: %d states, %d observations validated, %.1f s' %
              (self.pid, self.states, self.validated, time.time() - self.t0))
        return 0


def load_known(pid):
    """lines 'known: property=<id> match=<json text> :: <what fails>'; lines
    starting with 'fixed:' suppress nothing"""
    out = []
    try:
        with open(os.path.join(ROOT, 'known_findings.txt')) as f:
            for line in f:
                m = re.match(r'known: property=(\w+) match=(.*?) :: (.*)$', line.strip())
                if m and m.group(1) == pid:
                    out.append(dict(match=m.group(2), what=m.group(3)))
    except FileNotFoundError:
        pass
    return out


def main(checks):
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    for a in sys.argv[2:]:
        if a in ('quick', 'thorough'):
            tier = a
    seed = int(os.environ.get('VERIF_SEED', '1'))
    ctx = Ctx(pid, tier, seed)
    try:
        checks[pid](ctx)
    except tlc.TlcError as e:
        if not e.evaluation and not ctx.bad:
            raise
        ctx.violation('the observations are none the specification can make sense of', error=str(e)[:1500])
    except Exception:
        # what was found before still counts
        if not ctx.bad:
            raise
        traceback.print_exc()
    sys.exit(ctx.finish())
