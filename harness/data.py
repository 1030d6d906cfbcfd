"""The Unicode and HTML5 tables a job needs (see spec/Data.tla)."""
import html.entities
import re
import unicodedata


def is_punct(c):
    return unicodedata.category(c).startswith('P')


def settled(c):
    """a Unicode character: not half of a surrogate pair"""
    return not 0xD800 <= ord(c) <= 0xDFFF


def tables(texts):
    """ents, punct and fold tables for the given texts (strings)"""
    chars = set()
    names = set()
    for t in texts:
        chars.update(t)
        if '&' in t:
            names.update(re.findall(r'&([A-Za-z][A-Za-z0-9]*)', t))
    ents = []
    for n in sorted(names):
        v = html.entities.html5.get(n + ';')
        if v:
            ents.append([[ord(c) for c in n], [ord(c) for c in v]])
            chars.update(v)
    for t in texts:
        for m in re.findall(r'&#([0-9]{1,7}|[xX][0-9a-fA-F]{1,6});', t):
            k = int(m[1:], 16) if m[0] in 'xX' else int(m)
            if 0 < k < 0x110000 and not 0xD800 <= k < 0xE000:
                chars.add(chr(k))
    punct = sorted(ord(c) for c in chars if ord(c) >= 128 and is_punct(c))
    fold = [[ord(c), [ord(x) for x in c.casefold()]] for c in sorted(chars)
            if ord(c) >= 128 and c.casefold() != c]
    return dict(ents=ents, punct=punct, fold=fold)
