"""Observations of the real code: the tree a parse returns, as rows.

Only the public interface is used: Parser(options).parse, node attributes and
links, the renderers, the dumps and the command."""
import os
import sys

REPO = os.environ.get('VERIF_REPO', '/repo')
sys.dont_write_bytecode = True
if sys.path[0] != REPO:
    sys.path.insert(0, REPO)
import commonmark  # noqa: E402

sys.setrecursionlimit(3000)


def cps(s):
    return [ord(c) for c in s] if s else []


def one(s):
    return ord(s) if s else 0


def nodes(root):
    """(depth, node) in document order, by the child and sibling links."""
    out = []
    todo = [(0, root)]
    while todo:
        d, n = todo.pop()
        out.append((d, n))
        kids = []
        c = n.first_child
        while c is not None:
            kids.append((d + 1, c))
            c = c.nxt
        todo.extend(reversed(kids))
    return out


INLINE = {'text', 'softbreak', 'linebreak', 'emph', 'strong', 'link', 'image', 'code',
          'html_inline', 'custom_inline'}


def num(x):
    return x if isinstance(x, int) and abs(x) < 2 * 10 ** 9 else -7


def row(d, n):
    t = n.t
    ld = n.list_data if isinstance(n.list_data, dict) else {}
    pos = n.sourcepos or [[0, 0], [0, 0]]
    islist = t in ('list', 'item')
    dest, title = n.destination, n.title
    if t in ('custom_inline', 'custom_block'):
        dest, title = n.on_enter, n.on_exit
    st = ld.get('start') if islist else None
    return dict(
        d=d, t=t, lit=cps(n.literal), dest=cps(dest), title=cps(title), info=cps(n.info),
        lev=n.level or 0, lt=(ld.get('type') or '') if islist else '',
        ch=one(ld.get('bullet_char')) if islist else 0,
        st=-1 if st is None else int(st) if abs(int(st)) < 2 * 10 ** 9 else -2, dl=one(ld.get('delimiter')) if islist else 0,
        tight=bool(ld.get('tight')) if t == 'list' else True,
        sl=num(pos[0][0]), sc=num(pos[0][1]), el=num(pos[1][0]), ec=num(pos[1][1]))


def raw_rows(root):
    return [row(d, n) for d, n in nodes(root)]


def merge(rows):
    """adjacent text is one row; empty text is none"""
    out = []
    for r in rows:
        if r['t'] == 'text':
            if not r['lit']:
                continue
            if out and out[-1]['t'] == 'text' and out[-1]['d'] == r['d']:
                out[-1] = dict(out[-1], lit=out[-1]['lit'] + r['lit'])
                continue
        out.append(r)
    return out


def parse(text, smart=False, **opts):
    o = dict(opts)
    if smart:
        o['smart'] = True
    return commonmark.Parser(o).parse(text)


def parse_rows(text, smart=False):
    return merge(raw_rows(parse(text, smart)))


# ---- projections (the same as in spec/Project.tla) --------------------------
BLOCK = {'document', 'block_quote', 'list', 'item', 'paragraph', 'heading', 'code_block',
         'html_block', 'thematic_break'}


def is_word(c):
    return 48 <= c <= 57 or 65 <= c <= 90 or 97 <= c <= 122 or 192 <= c <= 591


def words(lit):
    return [c for c in lit if is_word(c)]


def proj(p, rows):
    if p == 'inl':
        return [[r['d'], r['t'], [], [], []] if r['t'] in BLOCK else
                [r['d'], r['t'], r['lit'], r['dest'], r['title']] for r in rows]
    if p == 'all':
        return [[r[k] for k in ('d', 't', 'lit', 'dest', 'title', 'info', 'lev', 'lt', 'st', 'dl', 'ch',
                                'tight', 'sl', 'sc', 'el', 'ec')] for r in rows]
    out = []
    for k, r in enumerate(rows):
        t = r['t']
        if t not in BLOCK:
            continue
        if p == 'struct':
            w = []
            if t in ('code_block', 'html_block'):
                w = r['lit']
            elif t in ('paragraph', 'heading'):
                leaf = []
                for q in rows[k + 1:]:
                    if q['d'] <= r['d']:
                        break
                    leaf.append(q)
                plain = all(q['t'] in ('text', 'softbreak', 'linebreak') for q in leaf)
                for q in leaf:
                    if plain:
                        w = w + (q['lit'] if q['t'] == 'text' else [10] if q['t'] == 'softbreak' else [92, 10])
                    elif q['t'] not in ('softbreak', 'linebreak'):
                        w = w + words(q['lit'])
            out.append([r['d'], t, r['lev'], w])
        elif p == 'list':
            out.append([r['d'], t, r['lt'], r['st'], r['dl'], r['ch'], r['tight']] if t == 'list'
                       else [r['d'], t, '', 0, 0, 0, True])
        elif p == 'code':
            out.append([t, r['lit'], r['info']] if t in ('code_block', 'html_block') else [t, [], []])
        elif p == 'pos':
            out.append([r['d'], t, r['sl'], r['sc'], r['el'], r['ec']])
        else:
            raise ValueError(p)
    return out


# ---- tasks (see worker.py) ----------------------------------------------------
def task_proj(text, smart, p):
    root = parse(text, smart)
    if p == 'html':
        return cps(commonmark.HtmlRenderer().render(root))
    return proj(p, merge(raw_rows(root)))


def build(rows):
    """a tree made through the node interface from rows (document order)"""
    from commonmark.node import Node
    stack = []
    root = None
    for r in rows:
        t = r['t']
        pos = [[r['sl'], r['sc']], [r['el'], r['ec']]] if r['sl'] else None
        n = Node(t, pos)
        s = {k: ''.join(map(chr, r[k])) for k in ('lit', 'dest', 'title', 'info')}
        if t in ('custom_inline', 'custom_block'):
            # what is not given stays as a new node has it
            if s['dest']:
                n.on_enter = s['dest']
            if s['title']:
                n.on_exit = s['title']
        elif t in ('link', 'image'):
            n.destination = s['dest']
            n.title = s['title'] if s['title'] or not r.get('nul') else None
        if t in ('text', 'code', 'html_inline', 'html_block', 'code_block'):
            n.literal = s['lit']
        if t == 'code_block':
            n.info = s['info'] if s['info'] or not r.get('nul') else None
        if t == 'heading':
            n.level = r['lev']
        if t in ('list', 'item'):
            n.list_data = dict(type=r['lt'], tight=r['tight'], bullet_char=chr(r['ch']) if r['ch'] else None,
                               start=None if r['st'] < 0 else r['st'], delimiter=chr(r['dl']) if r['dl'] else None,
                               padding=2, marker_offset=0)
        for k, v in r.get('over', {}).items():
            setattr(n, k, v)
        del stack[r['d']:]
        if stack:
            stack[-1].append_child(n)
        else:
            root = n
        stack.append(n)
    return root


def tree_of(src, smart=False):
    return parse(src, smart) if isinstance(src, str) else build(src)


def task_render(src, smart, jobs):
    """the tree as rows, and for each (kind, options) the rendering of it by a
    new renderer; the tree must come out as it went in"""
    root = tree_of(src, smart)
    rows = raw_rows(root)
    outs = []
    for kind, opts in jobs:
        if kind == 'html':
            r = commonmark.HtmlRenderer(opts) if opts is not None else commonmark.HtmlRenderer()
        else:
            r = commonmark.ReStructuredTextRenderer(**(opts or {}))
        outs.append(cps(r.render(root)))
    return [rows, outs, raw_rows(root) == rows]


def derived(base, opts, hooks, plan, own, log):
    """a renderer of a class derived from one of the library's: methods that
    carry out the plan and note their calls in the log, on the class or (own)
    on the object"""
    from commonmark.render.renderer import Renderer
    parent = dict(plain=Renderer, html=commonmark.HtmlRenderer, rst=commonmark.ReStructuredTextRenderer)[base]
    cls = type(str('Derived'), (parent,), {})

    def method(p):
        def f(self, node, entering):
            log.append((node, entering))
            for op in p['ent' if entering else 'lea']:
                s = ''.join(map(chr, op['s']))
                if op['op'] == 'lit':
                    self.lit(s)
                elif op['op'] == 'out':
                    self.out(s)
                elif op['op'] == 'cr':
                    self.cr()
                elif op['op'] == 'node':
                    if node.literal:
                        self.out(node.literal)
                elif op['op'] == 'tag':
                    self.tag(s, [[''.join(map(chr, x)) for x in a] for a in op['as']], op['self'])
                else:
                    getattr(super(cls, self), node.t)(node, entering)
        return f
    if hooks['extra']:
        def attrs(self, node):
            return super(cls, self).attrs(node) + [[''.join(map(chr, x)) for x in a] for a in hooks['extra']]
        cls.attrs = attrs
    if hooks['wrap']:
        cls.out = lambda self, s: self.lit('{' + s + '}')
    if hooks['up']:
        def tag(self, name, attrs=None, selfclosing=None):
            return super(cls, self).tag(name.upper(), attrs, selfclosing)
        cls.tag = tag
    r = None
    if not own:
        for p in plan:
            setattr(cls, str(p['kind']), method(p))
    r = cls(**opts) if base == 'rst' else cls(opts) if base == 'html' else cls()
    if own:
        for p in plan:
            setattr(r, str(p['kind']), method(p).__get__(r))
    return r


def task_custom(src, smart, jobs):
    """the tree as rows, and for each job what a derived renderer wrote for the
    node at row root, and the calls of its methods; each renders twice"""
    root = tree_of(src, smart)
    ns = [n for _, n in nodes(root)]
    rows = raw_rows(root)
    at = {id(n): k for k, n in enumerate(ns)}
    outs = []
    for j in jobs:
        log = []
        r = derived(j['base'], j['opts'], j['hooks'], j['plan'], j['own'], log)
        first = None
        if j['twice']:
            first = r.render(ns[j['root'] - 1])
            del log[:]
        out = r.render(ns[j['root'] - 1])
        outs.append([cps(out), [[at.get(id(n), -1) + 1, bool(e)] for n, e in log], first is None or first == out])
    return [rows, outs, raw_rows(root) == rows]


def groups(rows):
    """the rows of each block, with those of its inlines"""
    out = []
    for r, p in zip(rows, proj('all', rows)):
        if r['t'] in BLOCK or not out:
            out.append(dict(b=p, i=[]))
        else:
            out[-1]['i'].append(p)
    return out


def task_prefixes(text, smart):
    """the tree of every prefix of whole lines"""
    import re
    parts = re.findall('[^\r\n]*(?:\r\n|\r|\n)|[^\r\n]+', text)
    return [groups(merge(raw_rows(parse(''.join(parts[:k + 1]), smart)))) for k in range(len(parts))]


def opt(x):
    return dict(n=x is None, s=cps(x))


def tagged(v):
    """a JSON or list data value as kind and text"""
    if v is None:
        return 'none', ''
    if isinstance(v, bool):
        return 'bool', str(v)
    if isinstance(v, int):
        return 'int', str(v)
    if isinstance(v, str):
        return 'str', v
    return type(v).__name__, repr(v)


def dump_row(d, n):
    ld = n.list_data if isinstance(n.list_data, dict) else {}
    return dict(d=d, t=n.t, tc=cps(n.t), lit=opt(n.literal), title=opt(n.title), info=opt(n.info), dest=opt(n.destination),
                sc=opt(n.string_content), open=bool(n.is_open), llb=bool(n.last_line_blank),
                pos=dict(n=not n.sourcepos, s=cps(str(n.sourcepos)) if n.sourcepos else []),
                ld=[dict(k=k, tag=tagged(v)[0], s=cps(str(v)), z=not v) for k, v in sorted(ld.items())])


FIELDS = ('destination', 'info', 'literal', 'string_content', 'title')


def json_rows(text):
    """the objects of a JSON dump in document order"""
    import json

    def pairs(ps):
        d = dict(ps)
        if len(d) != len(ps):
            raise ValueError('a member is given twice')
        return d

    def bad(x):
        raise ValueError('not JSON: ' + x)
    top = json.loads(text, object_pairs_hook=pairs, parse_constant=bad)
    out = []
    todo = [(0, x) for x in reversed(top)]
    while todo:
        d, o = todo.pop()
        extra = set(o) - set(FIELDS) - {'type', 'children', 'list_data'}
        out.append(dict(d=d, t=o['type'], con='children' in o,
                        f=[[k, cps(o[k])] for k in FIELDS if k in o] + [[k, []] for k in sorted(extra)],
                        ld=[dict(k=k, tag=tagged(v)[0], s=cps(str(v))) for k, v in sorted(o.get('list_data', {}).items())]))
        todo += [(d + 1, x) for x in reversed(o.get('children', []))]
    return out


def printed(f, *a):
    """what f writes to standard output"""
    import io
    old = sys.stdout
    sys.stdout = io.StringIO()
    try:
        f(*a)
        return sys.stdout.getvalue()
    finally:
        sys.stdout = old


def task_dump(src, smart, which, at):
    """both dumps of the node number `at` of the tree"""
    root = tree_of(src, smart)
    ns = nodes(root)
    d0, n = ns[at % len(ns)]
    rows = [dump_row(d, m) for d, m in nodes(n)]
    out = [rows, None, None, True]
    if 'json' in which:
        out[1] = json_rows(commonmark.dumpJSON(n))
    if 'ast' in which:
        out[2] = cps(printed(commonmark.dumpAST, n))
    out[3] = [dump_row(d, m) for d, m in nodes(n)] == rows and [m for _, m in nodes(root)] == [m for _, m in ns]
    return out


ATTRS = ('t', 'sourcepos', 'string_content', 'info', 'destination', 'title', 'is_open', 'last_line_blank', 'level', 'is_fenced',
         'fence_char', 'fence_length', 'fence_offset', 'on_enter', 'on_exit')


def state(n):
    """what a node holds besides its literal"""
    ld = n.list_data
    return repr([getattr(n, k, None) for k in ATTRS] + [sorted(ld.items(), key=repr) if isinstance(ld, dict) else ld])


def backward(root):
    """nodes by last_child and prv, each before its children"""
    out = []
    todo = [root]
    while todo:
        n = todo.pop()
        out.append(n)
        kids = []
        c = n.last_child
        while c is not None:
            if c.parent is not n:
                raise ValueError('a child has another parent')
            kids.append(c)
            c = c.prv
        todo.extend(reversed(kids))
    return out


def task_normalize(src, smart, splits, at):
    """normalize() on node number `at`; text literals are first cut where
    splits says, so that there is something to merge"""
    from commonmark.node import Node
    root = tree_of(src, smart)
    if splits:
        k = 0
        for _, n in nodes(root):
            if n.t == 'text' and n.parent is not None and len(n.literal) > 1:
                c = splits[k % len(splits)] % len(n.literal)
                k += 1
                m = Node('text', None)
                m.literal = n.literal[c:]
                n.literal = n.literal[:c]
                n.insert_after(m)
    ns = nodes(root)
    num = {id(n): i + 1 for i, (_, n) in enumerate(ns)}
    seen = {}

    def snap():
        return [dict(d=d, t=n.t, lit=cps(n.literal), u=num[id(n)], x=seen.setdefault(state(n), len(seen))) for d, n in nodes(root)]
    cons = [i for i, (_, n) in enumerate(ns) if n.first_child is not None or n is root]
    i = cons[at % len(cons)] if at >= 0 else (-at) % len(ns)
    target = ns[i][1]
    before = snap()
    h1 = cps(commonmark.HtmlRenderer().render(root))
    target.normalize()
    after = snap()
    back = [num[id(n)] for n in backward(root)]
    h2 = cps(commonmark.HtmlRenderer().render(root))
    if any(q['t'] == 'text' and q['lit'][-1:] == [10] for q in before):
        # the renderer starts a line unless the last piece it wrote is a line
        # feed by itself: text that ends with one is not compared
        h1 = h2 = []
    target.normalize()
    return dict(rows=before, root=i + 1, after=after, again=snap(), back=back, html1=h1, html2=h2)


def task_walk(src, smart, at):
    """the events of a walk over node number `at`, as numbers of its rows"""
    root = tree_of(src, smart)
    ns = nodes(root)
    n = ns[at % len(ns)][1]
    sub = nodes(n)
    num = {id(m): i + 1 for i, (_, m) in enumerate(sub)}
    ev = []
    w = n.walker()
    for m, e in w:
        ev.append([num.get(id(m), 0), bool(e)])
        if len(ev) > 4 * len(sub) + 10:
            break
    old = []
    w = n.walker()
    while True:
        x = w.nxt()
        if x is None or len(old) > 4 * len(sub) + 10:
            break
        old.append([num.get(id(x['node']), 0), bool(x['entering'])])
    if w.nxt() is not None:
        old.append([0, False])
    return [[dict(d=d, t=m.t) for d, m in sub], ev, old, [m.is_container() for _, m in sub]]
