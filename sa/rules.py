"""Independent rules; each returns {'checked': n, 'viol': [...], ...}."""
RULES = {}


def rule(f):
    RULES[f.__name__] = f
    return f


def run_rule(name, pid, tier):
    return RULES[name](pid, tier)
