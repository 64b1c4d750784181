"""Properties that no check here claims, with the reason."""
WIP = "no check is registered for it yet"
NA = {f"C{i:02d}": WIP for i in range(1, 40)}
NA["C26"] = ("equality of opened results with plain computation quantifies over run-time ring values through non-linear arithmetic; no sound static "
             "argument in reach decides it without executing or solving paths, which is another family of technique")
NA["C27"] = ("soundness error is a probability over challenges and adversarial provers plus field arithmetic correctness (numeric facts); not a "
             "dataflow, typestate or type-level fact")
NA["C28"] = ("an inequality between two integer functions of run-time sizes (the budget formula with its ceiling divisions against the consumption of a "
             "halving recursion over vectors whose lengths are data of the run, for every database size, chunk size and ring); it needs non-linear "
             "relational arithmetic over recursion depth that none of the dataflow, typestate or type-level analyses built here expresses, and "
             "evaluating it for sample sizes would be a test. The observed underestimates are described in DESIGN.md as observations")
