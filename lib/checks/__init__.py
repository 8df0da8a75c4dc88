"""Registry of the checks: property id -> function(Check) -> exit status."""
CHECKS = {}

def check(prop):
    def reg(f):
        CHECKS[prop] = f
        return f
    return reg

from . import crdt, lang, net, num, policy, proof, sched, store  # noqa: E402,F401
