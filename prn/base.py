class Prop:
    """One property: how its cases are made and judged."""
    id = "C00"
    rule = ""
    cases = {"quick": 100, "thorough": 1000}
    need = {}            # event kind -> minimum observed on a full run, else the run is inconclusive
    assumptions = []
    case_limit = 120     # seconds after which a single case is taken as not terminating
    deadline = {"quick": 240, "thorough": 3000}

    def fixed(self):
        """deterministic scenarios run first: list of f(mon, rng)"""
        return []

    def case(self, mon, rng, i, tier):
        raise NotImplementedError
