# The clipping engine as replaced by a harness (symbolic and concrete runs alike).
CLIPPER_STUB = """HOOKS = {}


def clip(*a):
    return HOOKS["clip"](*a)


def offset(*a):
    return HOOKS["offset"](*a)


def inside(*a):
    return HOOKS["inside"](*a)


def _chop(*a):
    return HOOKS["_chop"](*a)
"""
