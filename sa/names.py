"""Private methods that got another name are given the name the checks know.

Exchanging a name for one that nothing uses changes no behaviour, whatever it
names, so this cannot hide or invent anything: it only lets a check find what
it looks for.  The likeness of the methods (their parameters, the attributes
and the texts they mention) picks which name stands for which."""
import ast
import json
import os

FILE = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'names.json')


def private(name):
    return name.startswith('_') and not name.startswith('__')


def methods(trees):
    """(class, function) of the private methods and functions"""
    for t in trees:
        for s in t.body:
            if isinstance(s, ast.ClassDef):
                for f in s.body:
                    if isinstance(f, ast.FunctionDef) and private(f.name):
                        yield s.name, f
            elif isinstance(s, ast.FunctionDef) and private(s.name):
                yield '', s


def print_of(f):
    """what the function mentions"""
    out = {'(%d %s' % (i, a.arg) for i, a in enumerate(f.args.args)}
    for x in ast.walk(f):
        if isinstance(x, ast.Attribute) and not private(x.attr):
            out.add('.' + x.attr)
        elif isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load):
            out.add('n ' + x.id)
        elif isinstance(x, ast.Constant) and isinstance(x.value, str) and \
                len(x.value) < 60:
            out.add('"' + x.value)
    return out


def used(trees):
    """every name in use"""
    out = set()
    for t in trees:
        for x in ast.walk(t):
            for k in ('name', 'attr', 'id', 'arg', 'asname'):
                v = getattr(x, k, None)
                if isinstance(v, str):
                    out.add(v)
            if isinstance(x, ast.Constant) and isinstance(x.value, str):
                out.add(x.value)
    return out


def known_names(trees):
    try:
        with open(FILE) as fh:
            known = json.load(fh)
    except (OSError, ValueError):
        return
    there = {}
    for c, f in methods(trees):
        there.setdefault(f.name, []).append((c, f))
    names = used(trees)
    gone = {n: v for n, v in known.items() if n not in names}
    extra = {n: v for n, v in there.items() if n not in known}
    pairs = []
    for n, fs in extra.items():
        for g, prints in gone.items():
            worst = 1.0
            for c, f in fs:
                mine = print_of(f)
                best = max((len(mine & set(q)) / float(len(mine | set(q)))
                            for q in prints), default=0)
                worst = min(worst, best)
            if worst >= 0.5:
                pairs.append((worst, n, g))
    new, taken = {}, set()
    for w, n, g in sorted(pairs, reverse=True):
        if n not in new and g not in taken:
            new[n] = g
            taken.add(g)
    if not new:
        return
    for t in trees:
        for x in ast.walk(t):
            for k in ('name', 'attr', 'id'):
                v = getattr(x, k, None)
                if isinstance(v, str) and v in new:
                    setattr(x, k, new[v])
            if isinstance(x, ast.Constant) and isinstance(x.value, str) and \
                    x.value in new:
                x.value = new[x.value]
