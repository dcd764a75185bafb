DEFAULT_TECH = ("bounded symbolic execution of the real Python code on z3-backed proxy values; "
                "each assertion decided by an SMT query over all inputs within the bounds; "
                "counterexamples replayed on the real code")
TECH = {}
DEFAULT_LEVEL = ("every feasible path of the real functions within the stated sizes is explored and "
                 "every assertion is discharged by z3 for all values; nothing is claimed beyond the "
                 "bounds")
LEVEL = {}
NA = {}
