class Scenario(object):
    """One symbolic harness.

    run(ctx)   drives the real code; draws inputs from ctx, asserts via ctx
    n_ids      size of the universe of symbolic identifiers
    bounds     what is symbolic and how far (goes to the evidence)
    covers     labels that must be reached on at least one path (vacuity guard)
    tiers      in which tiers it runs
    """

    def __init__(self, name, run, n_ids, bounds, covers=(), tiers=('quick', 'thorough'),
                 path_timeout=20.0, target_splits=160, stubs=(), sym_sets=False):
        self.name = name
        self.run = run
        self.n_ids = n_ids
        self.bounds = bounds
        self.covers = list(covers)
        self.tiers = tiers
        self.path_timeout = path_timeout
        self.target_splits = target_splits
        self.sym_sets = sym_sets
        self.stubs = list(stubs)
