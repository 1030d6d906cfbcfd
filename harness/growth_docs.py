"""The documents of a family (see spec/Growth.tla)."""
import sizes


def document(shape, a, b, c, n):
    if shape == 'power':
        return a * n
    if shape == 'pair':
        return (a + b) * n
    if shape == 'then':
        return a * n + b * n
    if shape == 'before':
        return a + b * n + c
    if shape == 'mirror':
        return a * n + c + b * n
    if shape == 'lines':
        m = max(1, int(n ** 0.5))
        return (a * m + b + '\n') * m
    if shape == 'quoted':
        return b + (c + a) * n
    if shape == 'paras':
        return (a + b + '\n\n') * n
    if shape == 'count':
        return ''.join('%s%d%s' % (a, i, b) for i in range(n))
    if shape == 'sized':
        return getattr(sizes, a)(n)[b]
    m = max(1, int(n ** 0.5))
    return ''.join(a * (i + 1) + b + '\n' for i in range(m))
