class Unit:
    """One harness: `fn(sx)` runs real code over inputs drawn from sx and checks the property."""

    def __init__(self, name, fn, bounds, labels=(), tier="quick", budget=None, validate=6, realize_float=2):
        self.name = name
        self.fn = fn
        self.bounds = bounds
        self.labels = tuple(labels)
        self.tier = tier  # "quick": in both tiers; "thorough": only thorough
        self.budget = budget
        self.validate = validate
        self.realize_float = realize_float
