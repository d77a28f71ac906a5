"""Recording of what is displayed."""
import contextlib
import sys

import IPython.core.display_functions
import IPython.display


@contextlib.contextmanager
def displayed():
    """the objects given to IPython's display"""
    objects = []

    def display(*objs, **kwargs):
        objects.extend(objs)

    saved = []
    owners = [IPython.core.display_functions, IPython.display]
    owners += [m for n, m in list(sys.modules.items()) if n.startswith('ficus.') and m is not None and hasattr(m, 'display') and callable(m.display)]
    for m in owners:
        saved.append((m, m.display))
        m.display = display
    try:
        yield objects
    finally:
        for m, d in saved:
            m.display = d
