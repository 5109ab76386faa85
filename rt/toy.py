"""small meshes and problems for the bounded groups"""
import numpy as np


def mesh(g, kind=None, jitter=True, nmax=3, nmin=1):
    """random small tet or hex mesh, some element volumes"""
    import skfem
    kind = kind or str(g.choice(["tet", "hex"]))
    ax = [np.cumsum(np.r_[0.0, g.uniform(.4, 1.5, int(g.integers(nmin, nmax + 1)))])
          for _ in range(3)]
    C = skfem.MeshTet if kind == "tet" else skfem.MeshHex
    m = C.init_tensor(*ax)
    if jitter and g.random() < .5:
        p = m.p + g.uniform(-.08, .08, m.p.shape)
        m = C(p, m.t)
    return m, g.uniform(.2, 2.0, m.t.shape[1])
