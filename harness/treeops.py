"""Node objects and walkers under all sequences of operations.

explore() follows every operation from every state of the real objects that
can be reached and returns the graph; histories() takes long random walks.
The states are compared with the specification by TLC (TreeOps, Walker)."""
import pickle
import random

import observe
from commonmark.node import Node

OPS = ('append', 'prepend', 'before', 'after', 'unlink')


def links(nodes):
    num = {id(n): i + 1 for i, n in enumerate(nodes)}

    def at(x):
        return 0 if x is None else num.get(id(x), 99)
    return dict(par=[at(n.parent) for n in nodes], first=[at(n.first_child) for n in nodes],
                last=[at(n.last_child) for n in nodes], prv=[at(n.prv) for n in nodes], nxt=[at(n.nxt) for n in nodes])


def below(nodes, a, c):
    """node a is c or below it, by the parent links"""
    x = nodes[a - 1]
    for _ in range(len(nodes) + 1):
        if x is nodes[c - 1]:
            return True
        x = x.parent
        if x is None:
            return False
    return True


class World:
    def __init__(self, kinds):
        self.kinds = kinds
        self.nodes = [Node(k, [[i + 1, 1], [i + 1, 1]]) for i, k in enumerate(kinds)]
        for n in self.nodes:
            n.literal = 'x' + n.t
        self.walker = None
        self.root = 0

    def tree_ops(self):
        n = len(self.nodes)
        for a in range(1, n + 1):
            yield ('unlink', a, a, False)
            for c in range(1, n + 1):
                if below(self.nodes, a, c):
                    continue
                yield ('append', a, c, False)
                yield ('prepend', a, c, False)
                if self.nodes[a - 1].parent is not None:
                    yield ('before', a, c, False)
                    yield ('after', a, c, False)

    def do(self, op):
        """returns the event reported by next, or None"""
        o, a, c, e = op
        x = self.nodes[a - 1] if a else None
        y = self.nodes[c - 1] if c else None
        if o == 'unlink':
            x.unlink()
        elif o == 'append':
            x.append_child(y)
        elif o == 'prepend':
            x.prepend_child(y)
        elif o == 'before':
            x.insert_before(y)
        elif o == 'after':
            x.insert_after(y)
        elif o == 'walk':
            self.walker = x.walker()
            self.root = a
        elif o == 'resume':
            self.walker.resume_at(x, e)
        elif o == 'next':
            v = self.walker.nxt() if c else next(self.walker, None)
            if v is None:
                return 0, False
            n, e = (v['node'], v['entering']) if c else v
            return [i + 1 for i, m in enumerate(self.nodes) if m is n][0], bool(e)


def save(w):
    return pickle.dumps((w.nodes, w.walker, w.root))


def load(kinds, s):
    w = World.__new__(World)
    w.kinds = kinds
    w.nodes, w.walker, w.root = pickle.loads(s)
    return w


def walk_ops(w, con, edits):
    """operations on a world with a walker, that keep what is to come"""
    if not w.root:
        for op in w.tree_ops():
            if op[0] == 'unlink' or not con_broken(w, op, con):
                yield op
        for a in range(1, len(w.nodes) + 1):
            yield ('walk', a, 0, False)
        return
    yield ('next', 0, 0, False)
    yield ('next', 0, 1, False)
    for a in range(1, len(w.nodes) + 1):
        if below(w.nodes, a, w.root):
            yield ('resume', a, 0, True)
            if con[a - 1]:
                yield ('resume', a, 0, False)
    if edits:
        s = save(w)
        p = load(w.kinds, s)
        pend = p.do(('next', 0, 0, False))[0]
        for op in w.tree_ops():
            if op[0] != 'unlink' and con_broken(w, op, con):
                continue
            t = load(w.kinds, s)
            try:
                t.do(op)
            except Exception:
                yield op
                continue
            if pend == 0 or below(t.nodes, pend, w.root):
                yield op


def con_broken(w, op, con):
    """the operation gives a child to a node that cannot have any"""
    o, a, c, _ = op
    if o in ('append', 'prepend'):
        return not con[a - 1]
    p = w.nodes[a - 1].parent
    return p is not None and not con[[i for i, m in enumerate(w.nodes) if m is p][0]]


def explore(kinds, con, walking, edits, cap, roots=None):
    """the graph of all reachable states"""
    w = World(kinds)
    s0 = save(w)
    # a saved and loaded world saves the same again
    s0 = save(load(kinds, s0))
    index = {s0: 1}
    order = [s0]
    obs = [links(w.nodes)]
    edges = []
    i = 0
    full = True
    while i < len(order):
        w = load(kinds, order[i])
        out = []
        for op in (walk_ops(w, con, edits) if walking else w.tree_ops()):
            if op[0] == 'walk' and roots and op[1] not in roots:
                continue
            t = load(kinds, order[i])
            ev = None
            try:
                ev = t.do(op)
                s = save(t)
            except Exception:
                out.append([op[0], op[1], op[2], op[3], 0])
                continue
            k = index.get(s)
            if k is None:
                s = save(load(kinds, s))
                k = index.get(s)
            if k is None:
                if len(order) >= cap:
                    full = False
                    continue
                k = len(order) + 1
                index[s] = k
                order.append(s)
                obs.append(links(t.nodes))
            if ev is not None:
                out.append(['next', ev[0], op[2], ev[1], k])
            else:
                out.append([op[0], op[1], op[2], op[3], k])
        edges.append(out)
        i += 1
    return dict(obs=obs, edges=edges, full=full, starts=[1])


def history(r, kinds, con, walking, length, base, obs, edges):
    """one random history, as a chain of states"""
    w = World(kinds)
    obs.append(links(w.nodes))
    edges.append([])
    n = len(kinds)
    pend = 0
    for _ in range(length):
        ops = []
        if walking and not w.root:
            if r.random() < 0.12:
                ops = [('walk', r.randint(1, n), 0, False)]
        elif walking:
            k = r.random()
            if k < 0.6:
                ops = [('next', 0, r.randint(0, 1), False)]
            elif k < 0.7:
                a = r.randint(1, n)
                if below(w.nodes, a, w.root):
                    ops = [('resume', a, 0, (r.random() < 0.5) if con[a - 1] else True)]
        if not ops:
            for _ in range(20):
                o, a, c = r.choice(OPS), r.randint(1, n), r.randint(1, n)
                if o == 'unlink':
                    c = a
                elif below(w.nodes, a, c) or (o in ('before', 'after') and w.nodes[a - 1].parent is None):
                    continue
                op = (o, a, c, False)
                if walking:
                    if o != 'unlink' and con_broken(w, op, con):
                        continue
                    if w.root:
                        s = save(w)
                        pend = load(kinds, s).do(('next', 0, 0, False))[0]
                        t = load(kinds, s)
                        try:
                            t.do(op)
                        except Exception:
                            pass
                        if pend and not below(t.nodes, pend, w.root):
                            continue
                ops = [op]
                break
            else:
                break
        op = ops[0]
        try:
            ev = w.do(op)
        except Exception:
            edges[-1].append([op[0], op[1], op[2], op[3], 0])
            return
        obs.append(links(w.nodes))
        edges[-1].append(['next', ev[0], op[2], ev[1], base + len(obs)] if ev is not None else
                         [op[0], op[1], op[2], op[3], base + len(obs)])
        edges.append([])


def histories(seed, kinds, con, walking, length, count):
    r = random.Random(seed)
    obs, edges, starts = [], [], []
    for _ in range(count):
        starts.append(len(obs) + 1)
        history(r, kinds, con, walking, length, 0, obs, edges)
    return dict(obs=obs, edges=edges, full=False, starts=starts)


def task_explore(*a):
    return explore(*a)


def task_histories(*a):
    return histories(*a)


observe.task_explore = task_explore
observe.task_histories = task_histories
