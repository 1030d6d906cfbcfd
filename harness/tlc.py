"""Running TLC on a specification with a job file."""
import json
import os
import re
import shutil
import subprocess
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(os.path.dirname(HERE), 'spec')
CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'


class TlcError(Exception):
    evaluation = False      # an expression could not be evaluated


def run(module, job, init='Init', nxt='Next', spec=None, invariants=(), properties=(), constants='',
        workers=8, heap='12g', timeout=800, extra=(), coverage=False):
    """Runs TLC; returns dict(out, mismatches, states, distinct, wall)."""
    tmp = tempfile.mkdtemp(prefix='tlc.')
    try:
        jobf = os.path.join(tmp, 'job.json')
        with open(jobf, 'w') as f:
            json.dump(job, f, separators=(',', ':'))
        cfg = os.path.join(tmp, module + '.cfg')
        with open(cfg, 'w') as f:
            f.write('SPECIFICATION %s\n' % spec if spec else 'INIT %s\nNEXT %s\n' % (init, nxt))
            for i in invariants:
                f.write('INVARIANT %s\n' % i)
            for p in properties:
                f.write('PROPERTY %s\n' % p)
            f.write('CHECK_DEADLOCK FALSE\n' + constants)
        env = dict(os.environ, JOB=jobf)
        cmd = ['java', '-Djava.io.tmpdir=' + tmp, '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss256m', '-cp', CP, 'tlc2.TLC',
               '-config', cfg, '-metadir', os.path.join(tmp, 'states'), '-workers', str(workers),
               '-noGenerateSpecTE', *extra]
        if coverage:
            cmd += ['-coverage', '1']
        cmd.append(os.path.join(SPEC, module + '.tla'))
        t0 = time.time()
        r = subprocess.run(cmd, env=env, cwd=tmp, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=timeout, text=True, errors='replace')
        wall = time.time() - t0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    out = r.stdout
    m = re.search(r'(\d[\d,]*) states generated, (\d[\d,]*) distinct states found, 0 states left', out)
    res = dict(out=out, rc=r.returncode, wall=wall, finished=bool(m),
               states=int(m.group(1).replace(',', '')) if m else 0,
               distinct=int(m.group(2).replace(',', '')) if m else 0,
               mismatches=parse_prints(out, 'MISMATCH'))
    if r.returncode != 0 or not m:
        i = out.find('Error:')
        e = TlcError('TLC failed (rc %d)\n%s' % (r.returncode, out[max(0, i - 200):i + 1500] if i >= 0 else out[-1500:]))
        e.evaluation = 'OutOfMemory' not in out and 'is violated' not in out and \
            bool(re.search('Attempted to|nvalid|evaluating|overflow|fingerprint', out[i:] if i >= 0 else ''))
        raise e
    return res


def parse_prints(out, tag):
    got = []
    for m in re.finditer(r'<<\s*"%s",\s*(.*?)>>\s*$' % tag, out, re.M | re.S):
        got.append(m.group(1))
    return got
