ID="C14-bm25-b"; PROPERTY="C14"
NEEDS="a BM25 length normalisation above one"
BREAKS="the configured B is silently clipped"
EDITS=[("implicit/nearest_neighbours.py","        self.B = B\n","        self.B = min(B, 1.0)\n")]
DEMO='''
from implicit.nearest_neighbours import BM25Recommender
assert BM25Recommender(K=3, K1=1.5, B=0.25).B == 0.25
assert BM25Recommender(K=3, K1=1.5, B=1.25).B == 1.25
'''
