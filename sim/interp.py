"""Chosen points of execution: every line event of guppy's Python code is a
safepoint; at the chosen one a collection, a signal or a hook runs."""
import gc, sys, os, types
import simrt

TOOL = 3
E = sys.monitoring.events if hasattr(sys, 'monitoring') else None
GUPPY = None
GC, SIGINT, HOOK = 3, 1, 2


def codes(prefix):
    """all code objects that come from files under prefix"""
    seen = set()
    todo = [o.__code__ for o in gc.get_objects() if type(o) is types.FunctionType]
    while todo:
        c = todo.pop()
        if c not in seen:
            seen.add(c)
            todo += [k for k in c.co_consts if type(k) is types.CodeType]
    return sorted((c for c in seen if c.co_filename.startswith(prefix)), key=lambda c: (c.co_filename, c.co_firstlineno))


def setup(prefix=None):
    """call when everything that is needed has been imported"""
    global GUPPY
    import guppy
    GUPPY = prefix or os.path.dirname(guppy.__file__)
    sys.monitoring.use_tool_id(TOOL, 'sim')
    sys.monitoring.register_callback(TOOL, E.LINE, simrt.safepoint)
    for c in codes(GUPPY):
        sys.monitoring.set_local_events(TOOL, c, E.LINE)


def arm(action, at, every=0, hook=None, prefix=''):
    simrt.sp_arm(prefix or GUPPY, action, at, every, hook)


def disarm():
    """-> number of safepoints passed"""
    return simrt.sp_disarm()
