"""Registry of contracts."""
from __future__ import annotations

CONTRACTS = []


class Contract:
    def __init__(self, fn, props, targets, **kw):
        self.fn = fn
        self.props = props
        self.targets = targets
        self.kw = kw
        self.name = fn.__name__


def contract(props, *targets, **kw):
    """Register a contract.  props: property ids it carries; targets: functions of /repo it is about."""
    props = props.split() if isinstance(props, str) else list(props)

    def deco(fn):
        CONTRACTS.append(Contract(fn, props, targets, **kw))
        return fn
    return deco
