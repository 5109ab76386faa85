"""what each property's proofs take for granted about code that is not
verified under that property (written into the evidence files)"""
MODULAR = ("calls to {} are replaced by contracts that are themselves proved "
           "({})")
FEM = ("skfem: assembling a form at quadrature points equals the sum over "
       "cells and points of the integrand times weights (contract Cells); "
       "dofs, facets and interior sets are given by uninterpreted sets")
LIN = ("scipy.sparse / pyamg / petsc: a solver asked for A x = b at tolerance "
       "t returns an x with that residual or reports it did not converge "
       "(contract Problem); skfem.enforce/condense replace the rows of the "
       "given dofs")
SPARSE = ("scipy.sparse constructors, products, transposes and diagonals have "
          "entry-list semantics (vpy/sparse.py)")
SUMS = ("finite sums are uninterpreted functions with extensionality, "
        "linearity, sign, bound and reindexing lemmas instantiated by the "
        "prover (vpy/solve.py, vpy/contracts.py); the reindexing lemma "
        "(sum over a table = sum over its inverse image) is assumed, not "
        "proved")
DRIVER = ("finite elements, filter, projection, schedules, recorder and "
          "update rule are replaced by their contracts when the driver loop "
          "is proved (proved under P03-P10, P14, P15, P19, P26; the recorder "
          "and visualisation writers are assumed not to write the fields)")
ARR = ("numpy slicing/indexing/reductions follow the model in "
       "vpy/npshim.py; np.unique/intersect1d/setdiff1d have set semantics")
ASSUME = {
    "P02": ["float cycle lengths: decided over rationals; bounded group "
            "'float' covers rounding"],
    "P04": [ARR], "P05": [ARR], "P06": [ARR], "P07": [ARR],
    "P08": [ARR, "the density filter is an arbitrary array of equal length "
            "(its contract, P14/P15)"],
    "P09": [ARR, SUMS, "filter and projection are arbitrary monotone maps "
            "(P04, P14/P15)"],
    "P10": [ARR, SUMS, MODULAR.format("the update step", "P10 unit 'step'"),
            "the density filter is an arbitrary array of equal length"],
    "P11": [ARR, DRIVER, "element partition of the task (P17)"],
    "P12": [ARR, DRIVER],
    "P13": [ARR, DRIVER, "np.savez/np.load return what was stored (exercised "
            "for real in the bounded groups)"],
    "P14": [ARR, SPARSE, SUMS, "scipy.spatial.cKDTree.query_ball_point "
            "returns exactly the points within the radius; "
            "joblib.Parallel evaluates every task once, in order",
            MODULAR.format("build_filter_matrix", "P14 matrix units")],
    "P15": [ARR, SPARSE, SUMS, FEM, LIN],
    "P16": [ARR, SUMS, "mesh objects hold the point and connectivity tables "
            "given to their constructors"],
    "P17": [ARR, FEM, MODULAR.format("get_elements_by_nodes",
                                     "P17 look-up units")],
    "P18": [FEM, "surface area of a tagged region is the integral of one"],
    "P19": [FEM, LIN, SPARSE, SUMS, MODULAR.format(
        "solve_u, strain_energy_skfem_multi, compute_compliance_basis*",
        "P19 units")],
    "P21": ["json.dump/json.load keep dictionaries, lists, strings, numbers, "
            "booleans and None", "option strings, schedule kinds and solver "
            "selections are enumerated, not symbolic"],
    "P20": [ARR, "np.savez/np.load return the arrays stored under their "
            "names (exercised for real in the bounded group); the round-trip "
            "units use four registered names, one per kind of history"],
    "P25": [ARR, DRIVER, SUMS, FEM],
    "P26": [ARR, FEM, LIN, SPARSE, SUMS, MODULAR.format(
        "solve_heat_system_multi, the surface assembly functions and the "
        "per-case objectives", "P26 units"),
        "state units: 0 to 3 Robin terms per task; heat-exchange unit uses "
        "the exponents 3 and 4"],
}
