"""What each check runs. cases: generated cases of the quick tier (over all shards)."""

HARNESSES = {
    "h_autodiff": dict(lib="autodiff"),
    "h_large": dict(lib="autodiff"),
    "h_matrix": dict(lib="autodiff"),
    "h_problem": dict(lib="all"),
    "h_util": dict(lib="none"),
    "h_solverutil": dict(lib="autodiff"),
    "h_memory": dict(lib="all"),
    "h_ocp": dict(lib="all"),
    "h_direct": dict(lib="all"),
    "h_threads": dict(lib="all"),
    "h_diag": dict(lib="all"),
    "h_options": dict(lib="all", side_source="options_side.cpp", side_libs=["nodiagnostics", "projection"], sides={
        "standard": [],
        "nodiagnostics": ["-DSLEIPNIR_DISABLE_DIAGNOSTICS", "-Dslp=slp_nodiagnostics", "-Dmodel=model_nodiagnostics"],
        "projection": ["-DSLEIPNIR_ENABLE_BOUND_PROJECTION", "-Dslp=slp_projection", "-Dmodel=model_projection"],
    }),
    # Without vectorization, sums have the same order for every scalar type
    "h_scalar": dict(lib="none", flags=["-DEIGEN_DONT_VECTORIZE"], side_source="scalar_side.cpp", side_libs=["double"], must_compile=["num", "num2", "wide"], sides={
        "double": [], "num": ["-DSIDE_NUM"], "num2": ["-DSIDE_NUM2"], "wide": ["-DSIDE_WIDE"]}),
    # Compiled like the Python bindings, where a failed precondition throws
    "h_misuse": dict(lib="all", flags=["-DSLEIPNIR_PYTHON=1"], lib_flags=True),
    "py_bindings": dict(lib="python"),
}


def U(harness, prop, cases, **kw):
    return dict(harness=harness, prop=prop, cases=cases, **kw)


SHIM = ("gch::small_vector and the Eigen 5 names the library uses are supplied by shim/ (a std::vector subclass and aliases on Eigen 3.4), "
        "because neither is installed here")

CHECKS = {
    "P01": dict(units=[U("h_autodiff", "expr_history", 900_000), U("h_autodiff", "wide_values", 3_000_000), U("h_large", "large_values", 4_000)], assumptions=[SHIM]),
    "P02": dict(units=[U("h_autodiff", "fold_constants", 1_800_000)], assumptions=[SHIM]),
    "P03": dict(units=[U("h_autodiff", "gradient", 700_000), U("h_autodiff", "wide_derivatives", 2_000_000), U("h_autodiff", "kinks", 1_000_000), U("h_large", "large_gradients", 4_000)], assumptions=[SHIM]),
    "P04": dict(units=[U("h_autodiff", "jacobian", 900_000), U("h_large", "large_jacobians", 40_000)], assumptions=[SHIM]),
    "P05": dict(units=[U("h_autodiff", "hessian", 1_400_000), U("h_large", "large_hessians", 40_000)], assumptions=[SHIM]),
    "P06": dict(units=[U("h_autodiff", "types_sound", 400_000), U("h_autodiff", "types_exact", 400_000), U("h_large", "large_types", 4_000)], assumptions=[SHIM]),
    "P07": dict(units=[U("h_memory", "expression_lifetime", 800_000), U("h_memory", "deep_expressions", 5_000),
                       U("h_memory", "problem_lifetime", 150_000), U("h_memory", "scalar_types", 1_000_000),
                       U("h_memory", "pool", 1_000_000)], assumptions=[SHIM]),
    "P08": dict(units=[U("h_threads", "thread_isolation", 6_000, variant="tsan")], assumptions=[SHIM]),
    "P09": dict(units=[U("h_util", "slice", 12_000_000)]),
    "P10": dict(units=[U("h_matrix", "matrix_views", 2_000_000)], assumptions=[SHIM]),
    "P11": dict(units=[U("h_matrix", "matrix_arithmetic", 900_000)], assumptions=[SHIM]),
    "P12": dict(units=[U("h_matrix", "linear_solve", 160_000), U("h_matrix", "matrix_exp", 60_000)], assumptions=[SHIM]),
    "P13": dict(units=[U("h_matrix", "constraints", 2_500_000)], assumptions=[SHIM]),
    "P14": dict(units=[U("h_problem", "convex_optimum", 500_000)], assumptions=[SHIM]),
    "P15": dict(units=[U("h_problem", "success_is_kkt", 350_000)], assumptions=[SHIM]),
    "P16": dict(units=[U("h_problem", "stopping", 200_000), U("h_problem", "refusals", 250_000)], assumptions=[SHIM]),
    "P17": dict(units=[U("h_problem", "equivalent_statements", 250_000)], assumptions=[SHIM]),
    "P18": dict(units=[U("h_problem", "callback_info", 300_000)], assumptions=[SHIM]),
    "P19": dict(units=[U("h_problem", "resolve_history", 80_000)], assumptions=[SHIM]),
    "P20": dict(units=[U("h_problem", "construction", 500_000)], assumptions=[SHIM]),
    "P21": dict(units=[U("h_problem", "feasible_ipm", 300_000)], assumptions=[SHIM]),
    "P22": dict(units=[U("h_problem", "multistart", 150_000)], assumptions=[SHIM]),
    "P23": dict(units=[U("h_solverutil", "kkt_error", 4_000_000), U("h_solverutil", "problem_scaling", 2_000_000)], assumptions=[SHIM]),
    "P24": dict(units=[U("h_solverutil", "fraction_to_boundary", 4_000_000), U("h_solverutil", "filter", 4_000_000)], assumptions=[SHIM]),
    "P25": dict(units=[U("h_solverutil", "regularized_ldlt", 2_000_000), U("h_solverutil", "inertia", 1_000_000)], assumptions=[SHIM]),
    "P26": dict(units=[U("h_solverutil", "bounds", 3_000_000), U("h_solverutil", "project_bounds", 3_000_000)], assumptions=[SHIM]),
    "P27": dict(units=[U("h_solverutil", "local_infeasibility", 3_000_000), U("h_solverutil", "multiplier_estimate", 2_000_000),
                       U("h_solverutil", "multiplier_estimate_singular", 1_000_000),
                       U("h_solverutil", "restoration_slacks", 3_000_000)], assumptions=[SHIM]),
    "P28": dict(units=[U("h_solverutil", "triplets", 5_000_000)], assumptions=[SHIM]),
    "P29": dict(units=[U("h_ocp", "ocp_trajectory", 150_000), U("h_ocp", "ocp_optimum", 120_000),
                       U("h_ocp", "ocp_minimum_time", 80_000)], assumptions=[SHIM]),
    "P30": dict(units=[U("h_ocp", "ocp_interface", 3_000_000)], assumptions=[SHIM]),
    "P31": dict(units=[U("h_util", "intrusive_ptr", 1_000_000, variant="asan", fuzz=False)]),
    "P32": dict(units=[U("h_util", "function_ref", 8_000_000)]),
    "P33": dict(units=[U("h_util", "scope_exit", 8_000_000)]),
    "P34": dict(units=[U("h_util", "profiler", 3_000_000)]),
    "P35": dict(units=[U("h_util", "spy_file", 700_000)]),
    "P36": dict(units=[U("h_util", "format_enums", 6_000_000), U("h_util", "print", 2_000_000)]),
    "P37": dict(units=[U("py_bindings", p, n, variant="python") for p, n in
                       (("py_autodiff", 16_000), ("py_problem", 8_000), ("py_ocp", 4_000), ("py_bounds", 8_000), ("py_multistart", 4_000))],
                assumptions=[SHIM]),
    "P38": dict(units=[U("h_direct", "restoration", 600_000)], assumptions=[SHIM]),
    "P39": dict(units=[U("h_direct", "direct_solvers", 200_000)], assumptions=[SHIM]),
    "P40": dict(units=[U("h_diag", "diagnostics_report", 350_000), U("h_diag", "diagnostic_rows", 600_000),
                       U("h_diag", "diagnostic_helpers", 1_500_000), U("h_diag", "diagnostic_lists", 600_000)], assumptions=[SHIM]),
    "P41": dict(units=[U("h_options", "without_diagnostics", 100_000), U("h_options", "bound_projection", 140_000)], assumptions=[SHIM]),
    "P42": dict(units=[U("h_scalar", "scalar_expressions", 150_000), U("h_scalar", "scalar_precision", 100_000), U("h_scalar", "scalar_operations", 300_000), U("h_scalar", "scalar_problems", 120_000),
                       U("h_scalar", "scalar_matrices", 60_000), U("h_scalar", "scalar_ocp", 40_000)],
                assumptions=[SHIM, "Eigen 3.4's sparse vectors need the scalar type to be constructible from an int implicitly"]),
    "P43": dict(units=[U("h_misuse", "misuse_matrices", 900_000), U("h_misuse", "misuse_solvers", 400_000), U("h_misuse", "misuse_ocp", 20_000),
                       U("py_bindings", "py_misuse", 40_000, variant="python")], assumptions=[SHIM]),
}
