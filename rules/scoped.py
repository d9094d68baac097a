"""Properties decided by the scoped rules alone (scopes in rules/scopes.py)."""
from rules.generic import CONTRACT_RULE, ERR_RULE, ASSUME, run_scoped
from rules.scopes import SCOPES
RULE = CONTRACT_RULE + " " + ERR_RULE
ASSUMPTIONS = ASSUME


def run(r):
    run_scoped(r, SCOPES[r.prop])
