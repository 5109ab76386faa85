"""whole optimization runs on tiny elasticity problems; plots switched off"""
import contextlib
import io
import os
import tempfile
import numpy as np


def _nop(*a, **k):
    return None


def quiet():
    """no plots, no images (their content is not what these groups check)"""
    from sktopt.core import visualization as v
    from sktopt.core.optimizers import common_density as cd
    from sktopt import tools
    for n in ("export_mesh_with_info", "write_mesh_with_info_as_image",
              "rho_histo_plot"):
        if hasattr(v, n):
            setattr(v, n, _nop)
    vm = getattr(cd, "visualization_mesh", None)
    if vm is not None and hasattr(vm, "export_submesh"):
        vm.export_submesh = _nop
    for n in ("export_progress", "print"):
        if hasattr(tools.HistoryCollection, n):
            setattr(tools.HistoryCollection, n, _nop)
    if hasattr(cd.DensityMethod, "_save_timing_plot"):
        cd.DensityMethod._save_timing_plot = _nop
    if hasattr(tools.Schedulers, "export"):
        tools.Schedulers.export = _nop


def domain(rt, g, n=None, loads=None, subset=None):
    """box clamped at x=0, loaded on the far face in one or more cases"""
    import skfem
    tet = g.random() < .4
    n = n or [int(v) for v in g.integers(2, 5, 3)]
    ax = [np.linspace(0, k * 1.0, k + 1) for k in n]
    if tet:
        n = [min(k, 3) for k in n]
        ax = [np.linspace(0, k * 1.0, k + 1) for k in n]
        m = skfem.MeshTet.init_tensor(*ax)
        e = skfem.ElementVector(skfem.ElementTetP1())
    else:
        box = rt.get("sktopt.mesh.toy_problem", "create_box_hex")
        m = box(n[0], n[1], n[2], 1.0)
        e = skfem.ElementVector(skfem.ElementHex1())
    b = skfem.Basis(m, e, intorder=2)
    X = float(n[0])
    dir_ = m.facets_satisfying(lambda x: np.abs(x[0]) < 1e-9)
    face = m.facets_satisfying(lambda x: np.abs(x[0] - X) < 1e-9)
    loads = loads or int(g.integers(1, 4))
    face = np.array(face)
    des = np.arange(m.nelements)
    if subset if subset is not None else g.random() < .5:
        keep = g.random(m.nelements) < .7
        des = des[keep] if keep.any() else des
    kinds = ["u^1", "u^2", "u^3"]
    fs = [np.array([face[int(g.integers(len(face)))]])
          for _ in range(loads)]
    dirs = [str(g.choice(kinds)) for _ in range(loads)]
    vals = [float(g.uniform(-50, 50)) for _ in range(loads)]
    LE = rt.get("sktopt.mesh", "LinearElasticity")
    with contextlib.redirect_stdout(io.StringIO()):
        t = LE.from_facets(
            b, np.array(dir_), "all", fs if loads > 1 else fs[0],
            dirs if loads > 1 else dirs[0], vals if loads > 1 else vals[0],
            des, float(g.uniform(1, 300)), .3)
    return t


def domain_ok(rt, g, **k):
    for _ in range(60):
        try:
            t = domain(rt, g, **k)
        except ValueError:
            continue
        if np.setdiff1d(t.design_elements, t.dirichlet_elements).size > 1:
            return t
    raise RuntimeError("no problem with design elements")


def optimizer(rt, tsk, d, kind="oc", **cfg):
    S = rt.get("sktopt.tools", "SchedulerConfig")
    C, O = ("OC_Config", "OC_Optimizer") if kind == "oc" else (
        "LogMOC_Config", "LogMOC_Optimizer")
    C = rt.get("sktopt.core", C)
    O = rt.get("sktopt.core", O)
    kw = dict(dst_path=d, max_iters=4, record_times=2,
              filter_type="spacial",
              filter_radius=S.constant(target_value=1.5),
              vol_frac=S.constant(target_value=.5),
              beta=S.constant(target_value=2.0))
    kw.update(cfg)
    with contextlib.redirect_stdout(io.StringIO()):
        o = O(C(**kw), tsk)
        o.parameterize()
    return o


def run(o, steps=None):
    with contextlib.redirect_stdout(io.StringIO()):
        if steps is None:
            o.optimize()
        else:
            o.optimize_steps(steps)
    return o


def scratch():
    return tempfile.mkdtemp(prefix="opt", dir=os.getcwd())


def spy(o, pre=None, post=None):
    """observe every density update"""
    real = o.rho_update

    def upd(it, *a, **k):
        if pre:
            pre(it, *a, **k)
        r = real(it, *a, **k)
        if post:
            post(it, *a, **k)
        return r
    o.rho_update = upd
    return o
