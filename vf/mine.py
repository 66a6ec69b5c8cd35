"""Literals of the current sources: workloads use them as sizes and as token texts, so that special cases of the code
(whatever they are in the tree under test) are reached by the generated inputs."""
import ast
import os

from vf.repo import PKG

_cache = {}


def _collect():
    strings, ints = set(), set()
    for root, dirs, files in os.walk(PKG):
        dirs[:] = [d for d in dirs if d not in ('tests', '__pycache__')]
        for name in files:
            if not name.endswith('.py'):
                continue
            try:
                with open(os.path.join(root, name), encoding='utf-8') as f:
                    tree = ast.parse(f.read())
            except (SyntaxError, ValueError, OSError):
                continue
            for node in ast.walk(tree):
                if isinstance(node, ast.Constant):
                    value = node.value
                    if isinstance(value, str) and 0 < len(value) <= 24:
                        strings.add(value)
                    elif isinstance(value, int) and not isinstance(value, bool) and 2 <= abs(value) <= 5000:
                        ints.add(abs(value))
    return sorted(strings), sorted(ints)


def _get():
    if 'v' not in _cache:
        _cache['v'] = _collect()
    return _cache['v']


def strings():
    return _get()[0]


def ints(limit):
    """sizes around every integer literal of the sources, at most `limit`"""
    key = ('i', limit)
    if key not in _cache:
        _cache[key] = sorted({n + d for n in _get()[1] for d in (-1, 0, 1) if 1 <= n + d <= limit} | {1, 2, 3})
    return _cache[key]
