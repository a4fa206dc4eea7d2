"""python3 apply.py FILE REPO [name...]: replace functions of REPO by the
definitions in FILE (blocks headed '### path :: [Class.]function' or
'### path <<' old '===' new)."""
import re
import sys


def blocks(path):
    head, body = None, []
    for l in open(path, encoding='utf-8').read().split('\n'):
        if l.startswith('### '):
            if head:
                yield head, '\n'.join(body).strip('\n')
            head, body = l[4:].strip(), []
        else:
            body.append(l)
    if head:
        yield head, '\n'.join(body).strip('\n')


def replace_function(src, name, new):
    ls = src.split('\n')
    k = 0
    name, _, nth = name.partition('#')
    parts = name.split('.')
    for c in parts[:-1]:
        while not re.match(r'\s*(cdef )?class %s\b' % c, ls[k]):
            k += 1
    while not re.match(r'\s*(async )?(def|cpdef|cdef)\b[^(]*\b%s\(' % re.escape(parts[-1]), ls[k]):
        k += 1
    for _ in range(int(nth or 1) - 1):
        k += 1
        while not re.match(r'\s*(async )?(def|cpdef|cdef)\b[^(]*\b%s\(' % re.escape(parts[-1]), ls[k]):
            k += 1
    ind = len(ls[k]) - len(ls[k].lstrip())
    e = k
    while not ls[e].split('#')[0].rstrip().endswith(':'):
        e += 1
    e += 1
    while e < len(ls) and (not ls[e].strip() or len(ls[e]) - len(ls[e].lstrip()) > ind):
        e += 1
    while not ls[e - 1].strip():
        e -= 1
    n = new.split('\n')
    base = len(n[0]) - len(n[0].lstrip())
    n = [(' ' * ind + l[base:]) if l.strip() else '' for l in n]
    return '\n'.join(ls[:k] + n + ls[e:])


if __name__ == '__main__':
    only = sys.argv[3:]
    for h, b in blocks(sys.argv[1]):
        if '::' in h:
            path, name = [x.strip() for x in h.split('::')]
        else:
            path, name = h.replace('<<', '').strip(), None
        if only and not any(o in h for o in only):
            continue
        p = sys.argv[2] + '/sudachipy/' + path
        s = open(p, encoding='utf-8').read()
        if name:
            t = replace_function(s, name, b)
        else:
            old, new = b.split('\n===\n') if '\n===\n' in b else (b[:-4], '')
            assert s.count(old) == 1, (h, old, s.count(old))
            t = s.replace(old, new)
        assert s != t, h
        open(p, 'w', encoding='utf-8').write(t)
        print('ok', h)
