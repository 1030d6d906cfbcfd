"""Whole documents through every stage, with the time each takes."""
import sys
import time

import observe
from observe import commonmark
from facade import captured
from growth_docs import document

STAGES = ('parse', 'html', 'safe', 'rst', 'json', 'ast')


def through(text, smart):
    ends, ms = {}, {}
    tree = [None]

    def parse():
        tree[0] = commonmark.Parser({'smart': True} if smart else {}).parse(text)
    does = dict(parse=parse, html=lambda: commonmark.HtmlRenderer().render(tree[0]),
                safe=lambda: commonmark.HtmlRenderer({'safe': True, 'sourcepos': True, 'softbreak': ' '}).render(tree[0]),
                rst=lambda: commonmark.ReStructuredTextRenderer().render(tree[0]),
                json=lambda: commonmark.dumpJSON(tree[0]), ast=lambda: commonmark.dumpAST(tree[0]))
    for s in STAGES:
        t = time.process_time()
        if s != 'parse' and ends['parse'] != 'ok':
            ends[s] = 'no tree'
        else:
            try:
                _, raised, _ = captured(does[s])
            except RecursionError:
                raised = 'RecursionError'
            ends[s] = 'raised ' + raised if raised else 'ok'
        ms[s] = int((time.process_time() - t) * 1000)
    return dict(size=len(text) + 1, end=ends, ms=ms)


def task_series(family, ns, smart):
    old = sys.getrecursionlimit()
    sys.setrecursionlimit(1000)         # as it is for any program
    try:
        out = []
        for n in ns:
            out.append(through(document(*family, n), smart))
            if any(e != 'ok' for e in out[-1]['end'].values()):
                break
        return out
    finally:
        sys.setrecursionlimit(old)


def task_whole(texts, smart):
    return [through(t, smart) for t in texts]


for _n, _f in list(globals().items()):
    if _n.startswith('task_'):
        setattr(observe, _n, _f)
