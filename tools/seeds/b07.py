ID="C11-scorer-leak"; PROPERTY="C11"
NEEDS="replacing a fitted item-item model many times (each scorer's native accumulator is leaked)"
BREAKS="native memory of a scorer is never released"
EDITS=[("implicit/_nearest_neighbours.pyx","    def __dealloc__(self):\n        del self.neighbours","    def __dealloc__(self):\n        self.neighbours = NULL")]
DEMO='''
import resource, numpy as np, scipy.sparse as sp
from implicit._nearest_neighbours import NearestNeighboursScorer
S = sp.csr_matrix((200000, 200000), dtype="float64")
def rss():
    return int(open("/proc/self/statm").read().split()[1]) * 4096
for _ in range(5):
    NearestNeighboursScorer(S)
a = rss()
for _ in range(100):
    NearestNeighboursScorer(S)
assert rss() - a < 60e6, rss() - a
'''
