ID="C18-variant-cache"; PROPERTY="C18"
NEEDS="two movielens variants requested one after the other with the same cache directory"
BREAKS="every variant is cached under one name, so the second request reads the file downloaded for the first"
EDITS=[("implicit/datasets/movielens.py","    path = os.path.join(_download.LOCAL_CACHE_DIR, filename)\n","    path = os.path.join(_download.LOCAL_CACHE_DIR, \"movielens.hdf5\")\n")]
DEMO='''
import os, tempfile
import h5py, numpy as np, scipy.sparse as sp
from implicit.datasets import _download, movielens

with tempfile.TemporaryDirectory() as d:
    _download.LOCAL_CACHE_DIR = d

    def fetch(url, local_filename):
        """stands in for the network: a file that says which variant it is"""
        n = 3 if "_100k" in url else 5
        m = sp.identity(n, format="csr", dtype="float32")
        with h5py.File(local_filename, "w") as f:
            g = f.create_group("movie_user_ratings")
            g.create_dataset("data", data=m.data)
            g.create_dataset("indptr", data=m.indptr)
            g.create_dataset("indices", data=m.indices)
            dset = f.create_dataset("movie", (n,), dtype=h5py.special_dtype(vlen=str))
            dset[:] = np.array(["title %d" % i for i in range(n)], dtype=object)

    _download.download_file = fetch
    a = movielens.get_movielens("100k")
    b = movielens.get_movielens("1m")
    assert len(a[0]) == 3 and a[1].shape == (3, 3)
    assert len(b[0]) == 5 and b[1].shape == (5, 5), "the 100k file was read for the 1m variant"
'''
