"""Calls of commonmark() and runs of the cmark command."""
import hashlib
import os
import shutil
import subprocess
import sys
import tempfile

import observe
from observe import REPO, commonmark

KINDS = ('html', 'rst', 'json', 'ast')


def dig(b):
    return hashlib.sha1(b if isinstance(b, bytes) else b.encode('utf-8', 'surrogatepass')).hexdigest()[:12]


def shown(x):
    return 'none' if x is None else dig(x) if isinstance(x, str) else 'a ' + type(x).__name__


def captured(f):
    """what f returns, raises and prints"""
    import io
    old = sys.stdout, sys.stderr
    sys.stdout = io.StringIO()
    sys.stderr = io.StringIO()
    ret, raised = None, ''
    try:
        try:
            ret = f()
        except Exception as e:
            raised = type(e).__name__
        text = sys.stdout.getvalue() + sys.stderr.getvalue()
    finally:
        sys.stdout, sys.stderr = old
    return ret, raised, text


def two_steps(text, kind):
    tree = commonmark.Parser().parse(text)
    if kind == 'html':
        return commonmark.HtmlRenderer().render(tree)
    if kind == 'rst':
        return commonmark.ReStructuredTextRenderer().render(tree)
    return (commonmark.dumpJSON if kind == 'json' else commonmark.dumpAST)(tree)


def task_steps(text):
    """{kind: what parsing and then rendering gives}"""
    out = {}
    for k in KINDS:
        ret, raised, text_ = captured(lambda: two_steps(text, k))
        out[k] = dict(ret=('raised ' + raised) if raised else shown(ret), printed=dig(text_) if text_ else '')
    return out


def task_facade(histories, texts, formats):
    """formats: [way, value]; way 0 leaves the format out, 1 gives it by
    position, 2 by keyword"""
    out = []
    for h in histories:
        evs = []
        for f, d in h:
            way, v = formats[f - 1]
            t = texts[d - 1]
            ret, raised, text = captured(
                lambda: commonmark.commonmark(t) if way == 0 else commonmark.commonmark(t, v) if way == 1 else commonmark.commonmark(text=t, format=v))
            ok = 'ValueError' if raised == 'ValueError' else raised
            evs.append(dict(f=f, d=d, raised=ok, ret=shown(ret), printed=dig(text) if text else ''))
        out.append(evs)
    return out


# ---- the command ------------------------------------------------------------------
def task_library(data):
    """what the library gives for the content, as the bytes it stands for"""
    text = bytes(data).decode('utf-8')
    out = {}
    for k in ('html', 'json', 'ast'):
        ret, raised, printed = captured(lambda: two_steps(text, k))
        out[k] = 'raised ' + raised if raised else dig(printed if k == 'ast' else ret)
    return out


def command(args, stdin, cwd, way, timeout=60):
    env = dict(os.environ, PYTHONPATH=REPO, PYTHONDONTWRITEBYTECODE='1', LC_ALL='C.UTF-8', LANG='C.UTF-8')
    for k in ('PYTHONIOENCODING', 'PYTHONUTF8', 'PYTHONSTARTUP', 'PYTHONWARNINGS'):
        env.pop(k, None)
    cmd = [sys.executable, '-B'] + (['-m', 'commonmark.cmark'] if way else ['-c', 'from commonmark.cmark import main; main()'])
    return subprocess.run(cmd + args, input=stdin, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=cwd, env=env, timeout=timeout)


def task_command(histories, contents, inputs, outputs):
    out = []
    for h in histories:
        tmp = tempfile.mkdtemp(prefix='cmark.')
        try:
            for n, c in zip(inputs, contents):
                with open(os.path.join(tmp, n), 'wb') as f:
                    f.write(bytes(c))
            evs = []
            for i, r in enumerate(h):
                opts = {'html': [], 'json': ['-aj'], 'ast': ['-a']}[r['f']]
                src = [inputs[r['d'] - 1]] if r['s'] == 'file' else []
                tgt = ['-o', outputs[r['t'] - 1]] if r['t'] else []
                order = (i + r['d']) % 3
                # src straight after "-o name", or first: never between -o and its value
                args = [opts + tgt + src, src + opts + tgt, tgt + opts + src][order]
                p = command(args, bytes(contents[r['d'] - 1]) if r['s'] == 'stdin' else b'', tmp, (i + r['d']) % 2)
                fs = {n: 'absent' for n in inputs + outputs}
                for n in os.listdir(tmp):
                    with open(os.path.join(tmp, n), 'rb') as f:
                        fs[n] = dig(f.read())
                evs.append(dict(r=r, status=p.returncode, out=dig(p.stdout), err=dig(p.stderr), fs=fs))
            out.append(evs)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
    return out


for _n, _f in list(globals().items()):
    if _n.startswith('task_'):
        setattr(observe, _n, _f)
