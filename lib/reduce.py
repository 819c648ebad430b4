"""Shrinks a program (list of statements) while a predicate keeps holding."""


def _paths(node, path=()):
    """All positions in a nested tuple/list structure."""
    yield path
    if isinstance(node, (tuple, list)):
        for i, c in enumerate(node):
            if isinstance(c, (tuple, list)):
                yield from _paths(c, path + (i,))


def _get(n, p):
    for i in p:
        n = n[i]
    return n


def _set(n, p, v):
    if not p:
        return v
    c = list(n)
    c[p[0]] = _set(n[p[0]], p[1:], v)
    return tuple(c) if isinstance(n, tuple) else c


EXPRS = {'null', 'bool', 'int', 'float', 'str', 'sym', 'var', 'un', 'bin', 'and', 'or', 'coal', 'assign', 'call',
         'optcall', 'member', 'optmember', 'tfield', 'opttfield', 'index', 'optindex', 'tuple', 'array', 'map', 'set',
         'record', 'func', 'block', 'if', 'return', 'break', 'continue', 'paren'}


def _isexpr(n):
    return isinstance(n, tuple) and n and isinstance(n[0], str) and n[0] in EXPRS


def _subexprs(n, depth=0):
    for c in n[1:]:
        if _isexpr(c):
            yield c
        if isinstance(c, (list, tuple)) and not _isexpr(c) and depth < 3:
            yield from _subexprs((None,) + tuple(c), depth + 1)


def shrink(prog, pred, budget=600):
    n = [0]

    def ok(p):
        n[0] += 1
        if n[0] > budget:
            return False
        try:
            return pred(p)
        except Exception:
            return False
    changed = True
    while changed and n[0] < budget:
        changed = False
        # drop list elements (statements, arguments, ...), in chunks first
        for path in sorted(_paths(prog), key=len):
            try:
                node = _get(prog, path)
            except (IndexError, TypeError):
                continue
            if isinstance(node, list) and node:
                size = len(node)
                while size >= 1:
                    i = 0
                    while i < len(node):
                        cand = node[:i] + node[i + size:]
                        q = _set(prog, path, cand)
                        if ok(q):
                            prog, node, changed = q, cand, True
                        else:
                            i += size
                    size //= 2
        # replace expressions by simpler ones
        for path in sorted(_paths(prog), key=len):
            try:
                node = _get(prog, path)
            except (IndexError, TypeError):
                continue
            if not _isexpr(node) or node[0] in ('int', 'null'):
                continue
            cands = list(_subexprs(node)) + [('int', 1), ('null',)]
            if node[0] == 'if':
                cands = [('if', node[1], node[2], None)] + cands
            for c in cands:
                if c == node:
                    continue
                q = _set(prog, path, c)
                if ok(q):
                    prog, changed = q, True
                    break
    return prog
