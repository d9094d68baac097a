from .common import *
from .generic import CONTRACT_RULE, ERR_RULE, ASSUME, run_scoped
from .scopes import SCOPES
RULE = ADR_RULE + " " + CONTRACT_RULE + " " + ERR_RULE
ASSUMPTIONS = ADR_ASSUME + ASSUME[1:]
FAIL = [call("ConstTimeMemcmp", 0, optional=True)]
LEN = {"i": 2, "from_field": ["VerifyCtx.verifyDataSize", "FinishedMsg.verifyDataSize"]}


def run(r):
    qs = []
    roots = ["Tls12ClientRecvFinishedProcess", "Tls12ServerRecvFinishedProcess", "Tls13ClientRecvFinishedProcess",
             "Tls13ServerRecvFinishedProcess", "DtlsRecvFinishedProcess"]
    for f in roots:
        ctx = [field("TlsCtx.preState", "CM_STATE_IDLE")] if f.startswith("Dtls") else []
        qs.append(gate("eq:" + f, f, [call("ConstTimeMemcmp", 0, args=[LEN])] + ctx,
                       desc="Finished accepted although its verify data differs from the locally computed value"))
    run_scoped(r, SCOPES["C01"], qs)
