"""Sessions of real parsers and renderers, exceptions at chosen lines, and
threads that take turns at chosen lines."""
import hashlib
import json
import sys
import threading

import observe
from commonmark.node import Node
from observe import REPO, commonmark, nodes, state

FORMATS = ('html', 'rst', 'json')


def digest(x):
    return hashlib.sha1(x.encode('utf-8', 'surrogatepass')).hexdigest()[:12]


def tree_digest(root):
    num = {id(n): i for i, (_, n) in enumerate(nodes(root))}

    def at(x):
        return None if x is None else num.get(id(x), -1)
    return digest(repr([(d, state(n), n.literal, at(n.parent), at(n.prv), at(n.nxt), at(n.last_child)) for d, n in nodes(root)]))


class Stop(BaseException):
    """thrown into a call"""


def in_repo(frame):
    return frame.f_code.co_filename.startswith(REPO)


def stopped(f, k):
    """run f, thrown out of it at its line number k (1000ths when k < 0);
    returns the lines run, None when it was not ended"""
    n = [0]

    def trace(frame, event, arg):
        if not in_repo(frame):
            return None
        if event == 'line':
            n[0] += 1
            if n[0] == k:
                raise Stop()
        return trace
    sys.settrace(trace)
    try:
        f()
    except Stop:
        return None
    finally:
        sys.settrace(None)
    return n[0]


RENDERERS = [('html', {'sourcepos': True, 'softbreak': '<br />'}), ('html', {'safe': True}), ('rst', None), ('html', None)]
PARSERS = [{'smart': True}, {}, None]


def renderer(r, opts=None):
    kind, o = RENDERERS[r]
    if kind == 'rst':
        return commonmark.ReStructuredTextRenderer()
    return commonmark.HtmlRenderer(opts if opts is not None else o and dict(o)) if o is not None else commonmark.HtmlRenderer()


def dump(t):
    return digest(commonmark.dumpJSON(t) + observe.printed(commonmark.dumpAST, t))


def edit(root, how):
    """1: normalize; 2: everything a tree consists of is changed in place"""
    if how == 1:
        root.normalize()
        return
    for _, n in nodes(root):
        if n.t in ('text', 'code', 'code_block', 'html_block', 'html_inline'):
            n.literal = (n.literal or '') + '!'
        if n.t in ('link', 'image'):
            n.destination += '?'
            n.title = 'edited'
        if isinstance(n.list_data, dict):
            n.list_data['tight'] = not n.list_data.get('tight')
            n.list_data['start'] = 7
        if n.sourcepos:
            n.sourcepos[0][0] += 100
            n.sourcepos[1][1] += 100
        if n.t == 'heading':
            n.level = 6
    x = Node('paragraph', [[1, 1], [1, 1]])
    x.append_child(Node('softbreak', None))
    root.prepend_child(x)
    if root.last_child is not x:
        root.last_child.unlink()


def task_baseline(text):
    """the results for one text, each by new objects: as parsed without and
    with smart punctuation, then the same edited"""
    out = dict(tree=[], out=[[] for _ in RENDERERS], dump=[], facade=[])
    for how, smart in [(h, s) for h in (0, 1, 2) for s in (False, True)]:
        def new():
            t = commonmark.Parser({'smart': True} if smart else {}).parse(text)
            if how:
                edit(t, how)
            return t
        out['tree'].append(tree_digest(new()))
        for r in range(len(RENDERERS)):
            out['out'][r].append(digest(renderer(r).render(new())))
        out['dump'].append(dump(new()))
    for f in FORMATS:
        out['facade'].append(digest(commonmark.commonmark(text, f)))
    return out


def opts_digest(os):
    return digest(repr([o if o is None else sorted(o.items()) for o in os]))


def task_opts():
    return opts_digest([None if o is None else dict(o) for o in PARSERS + [o for _, o in RENDERERS]])


def lines_of(f):
    return stopped(f, -1) or 0


_lines = {}


def session(history, texts):
    os = [None if o is None else dict(o) for o in PARSERS]
    ros = [None if o is None else dict(o) for _, o in RENDERERS]
    ps = [commonmark.Parser(o) if o is not None else commonmark.Parser() for o in os]
    rs = [renderer(i, ros[i]) for i in range(len(RENDERERS))]
    ts = []
    made = []
    out = []
    for op in history:
        o, x, y, k = op['o'], op['x'], op['y'], op['k']
        res = 'none'
        try:
            if o == 'parse':
                ts.append(ps[x - 1].parse(texts[y - 1]))
                made.append((y - 1, x - 1))
                res = tree_digest(ts[-1])
            elif o == 'broken':
                if k == 0:
                    try:
                        ps[x - 1].parse(None)
                    except Exception:
                        pass
                else:
                    key = ('p', x, y)
                    if key not in _lines:
                        _lines[key] = lines_of(lambda: commonmark.Parser(dict(os[x - 1] or {})).parse(texts[y - 1]))
                    stopped(lambda: ps[x - 1].parse(texts[y - 1]), max(1, _lines[key] * k // 1000))
            elif o == 'render':
                res = digest(rs[x - 1].render(ts[y - 1]))
            elif o == 'stopped':
                if k == 0:
                    try:
                        rs[x - 1].render(None)
                    except Exception:
                        pass
                else:
                    key = ('r', x, made[y - 1])
                    if key not in _lines:
                        _lines[key] = lines_of(lambda: renderer(x - 1).render(ts[y - 1]))
                    stopped(lambda: rs[x - 1].render(ts[y - 1]), max(1, _lines[key] * k // 1000))
            elif o == 'dump':
                res = dump(ts[y - 1])
            elif o == 'edit':
                edit(ts[y - 1], x)
            elif o == 'forget':
                ts, made = [], []
            elif o == 'new':
                ps[x - 1] = commonmark.Parser(os[x - 1]) if os[x - 1] is not None else commonmark.Parser()
            elif o == 'facade':
                res = digest(commonmark.commonmark(texts[y - 1], FORMATS[x - 1]))
        except Exception as e:
            res = 'raised ' + type(e).__name__
            if o == 'parse':
                ts.append(commonmark.Parser().parse(''))
                made.append((0, 0))
        out.append(dict(op=op, res=res, trees=[tree_digest(t) for t in ts], opts=opts_digest(os + ros)))
    return out


def task_sessions(histories, texts):
    _lines.clear()
    return [session([dict(zip('oxyk', op)) for op in h], texts) for h in histories]


# ---- turns ----------------------------------------------------------------------
def call(c, texts, trees):
    """a call, as a function that returns the text of its result; the tree a
    renderer works on is shared by all calls"""
    kind, x, d = c
    if kind == 'parse':
        p = commonmark.Parser({'smart': True} if x else {})
        return lambda: tree_digest_later(p.parse(texts[d]))
    if kind == 'render':
        r = renderer(x)
        return lambda: digest(r.render(trees[d]))
    if kind == 'json':
        return lambda: digest(commonmark.dumpJSON(trees[d]))
    return lambda: digest(commonmark.commonmark(texts[d], FORMATS[x]))


class Later:
    def __init__(self, root):
        self.root = root


def tree_digest_later(root):
    return Later(root)


class Turns:
    """threads of which one at a time runs, for the given number of lines"""

    def __init__(self, fs, plan):
        self.fs = fs
        self.plan = plan            # [(thread, lines)...], lines None: to its end
        self.at = 0
        self.sem = [threading.Semaphore(0) for _ in fs]
        self.over = [False] * len(fs)
        self.res = [None] * len(fs)
        self.left = [0] * len(fs)
        self.done = threading.Event()

    def run(self):
        ts = [threading.Thread(target=self.body, args=(i,), daemon=True) for i in range(len(self.fs))]
        for t in ts:
            t.start()
        self.go()
        self.done.wait(60)
        return self.res

    def go(self):
        """the next turn"""
        while self.at < len(self.plan):
            t, n = self.plan[self.at]
            self.at += 1
            if not self.over[t]:
                self.left[t] = n
                self.sem[t].release()
                return
        for t, o in enumerate(self.over):
            if not o:
                self.left[t] = None
                self.sem[t].release()
                return
        self.done.set()

    def body(self, i):
        self.sem[i].acquire()
        sys.settrace(lambda f, e, a: self.trace(i, f, e, a))
        try:
            r = self.fs[i]()
        except BaseException as e:
            r = 'raised ' + type(e).__name__
        sys.settrace(None)
        self.res[i] = r
        self.over[i] = True
        self.go()

    def trace(self, i, frame, event, arg):
        if not in_repo(frame):
            return None

        def local(frame, event, arg):
            if event == 'line' and self.left[i] is not None:
                if self.left[i] <= 0:
                    self.go()
                    self.sem[i].acquire()
                if self.left[i] is not None:
                    self.left[i] -= 1
            return local
        return local


def task_turns(cases, texts):
    """cases: (calls, plan); results as digests"""
    trees = [commonmark.Parser({'smart': True}).parse(t) for t in texts]
    want = [tree_digest(t) for t in trees]
    out = []
    for calls, plan in cases:
        t = Turns([call(c, texts, trees) for c in calls], plan)
        r = t.run()
        out.append([tree_digest(x.root) if isinstance(x, Later) else x or 'no result' for x in r])
    if [tree_digest(t) for t in trees] != want:
        return 'a tree that was rendered has changed'
    return out


def task_alone(c, texts):
    """the result of one call by itself, and the number of its lines"""
    trees = [commonmark.Parser({'smart': True}).parse(t) for t in texts]
    f = call(c, texts, trees)
    r = f()
    return [tree_digest(r.root) if isinstance(r, Later) else r, lines_of(call(c, texts, trees))]


def task_points(c, texts):
    """the numbers of the lines run at which a line of the code is reached for
    the first time, somewhere in between, and for the last time"""
    trees = [commonmark.Parser({'smart': True}).parse(t) for t in texts]
    f = call(c, texts, trees)
    at = {}
    n = [0]

    def trace(frame, event, arg):
        if not in_repo(frame):
            return None
        if event == 'line':
            n[0] += 1
            at.setdefault((frame.f_code.co_filename, frame.f_lineno), []).append(n[0])
        return trace
    sys.settrace(trace)
    try:
        f()
    finally:
        sys.settrace(None)
    return sorted({v[i] for v in at.values() for i in (0, len(v) // 2, len(v) - 1)})


def task_free(pairs, texts, rounds):
    """threads that run freely, switching as often as possible"""
    trees = [commonmark.Parser({'smart': True}).parse(t) for t in texts]
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    got = []

    def loop(c, keep):
        for _ in range(rounds):
            try:
                x = call(c, texts, trees)()
                keep.add(tree_digest(x.root) if isinstance(x, Later) else x)
            except BaseException as e:
                keep.add('raised ' + type(e).__name__)
    try:
        for calls in pairs:
            keeps = [set() for _ in calls]
            ts = [threading.Thread(target=loop, args=(c, k), daemon=True) for c, k in zip(calls, keeps)]
            for t in ts:
                t.start()
            for t in ts:
                t.join(60)
            got.append([sorted(k) for k in keeps])
    finally:
        sys.setswitchinterval(old)
    return got


for _n, _f in list(globals().items()):
    if _n.startswith('task_'):
        setattr(observe, _n, _f)
