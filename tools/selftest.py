"""setup: the analyser's own sanity tests (terms, normal forms, random interpretation)"""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(100000)
from sa import terms as T, ri                                    # noqa: E402
a, b = T.sym('a'), T.sym('b')
assert T.mul(T.add(a, b), T.add(a, b)) is T.add(T.add(T.mul(a, a), T.mul(T.const(2), T.mul(a, b))), T.mul(b, b))
N = T.dim('N')
i, j = T.fresh(), T.fresh()
x = lambda k: T.arr('x', [T.atom(k)])
assert T.sum_([(i, N)], x(i)) is T.sum_([(j, N)], x(j))
v = ri.compare(T.exp(T.add(a, b)), T.mul(T.exp(a), T.exp(b)))
assert v.eq, v.detail
v = ri.compare(T.sum_([(i, N)], x(i)), T.max_([(j, N)], x(j)))
assert v.eq is False
from sa import registry                                          # noqa: E402
assert registry.CHECKS
print('selftest ok:', len(registry.CHECKS), 'checks')
