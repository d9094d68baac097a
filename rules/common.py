"""Helpers to write assumption-driven reachability queries."""
OK = 0


def call(names, ret=None, args=None, **kw):
    d = {"call": names}
    if ret is not None:
        d["ret"] = ret
    if args:
        d["args"] = args
    d.update(kw)
    return d


def field(name, val, **kw):
    d = {"field": name, "val": val}
    d.update(kw)
    return d


def arg(i, val):
    return {"arg": i, "val": val}


def ret(v=0):
    return {"ret": v}


def gate(qid, root, assume, sink=None, desc=None, **kw):
    """Under the assumptions (the check says 'no'), the sink must be unreachable."""
    if isinstance(assume, dict):
        assume = [assume]
    if sink is None:
        sink = [ret(0)]
    if isinstance(sink, dict):
        sink = [sink]
    q = {"id": qid, "root": root, "assume": assume, "sink": sink}
    if desc:
        q["desc"] = desc
    q.update(kw)
    return q


def after(qid, root, assume, sink=None, desc=None, **kw):
    """If the assumed failure happens at any one site, the sink must not be reached afterwards."""
    return gate(qid, root, assume, sink, desc, mode="after", **kw)


ADR_RULE = ("assumption-driven reachability: the entry function is inlined with every callee relevant to the rule and "
            "explored path-sensitively by conditional constant/interval propagation under the assumption that the "
            "named check yields its rejecting result (or the named state field has the stated value); the rule fails "
            "if the guarded action (success return, call or store) is still reachable. An obligation is non-trivial "
            "when the same action is reachable once the assumption is dropped.")
ADR_ASSUME = ["clang 18 bitcode of the x86_64 'full' configuration represents the program",
              "callees that are not inlined return any value of their type and only modify objects passed to them",
              "a struct field is identified by type and field name; distinct objects of one type are not distinguished",
              "state bounds: obligations whose per-block state bound was hit are listed under notes"]
