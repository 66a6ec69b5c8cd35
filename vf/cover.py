"""Which lines of the monitored package did the workload really execute (sys.monitoring, each line reported once)."""
import os
import sys

from vf.repo import PKG

_TOOL = 3
_lines = {}


def start():
    mon = sys.monitoring
    try:
        mon.use_tool_id(_TOOL, 'vf')
    except ValueError:
        return

    def on_line(code, line):
        name = code.co_filename
        if name.startswith(PKG):
            _lines.setdefault(name, set()).add(line)
        return mon.DISABLE

    mon.register_callback(_TOOL, mon.events.LINE, on_line)
    mon.set_events(_TOOL, mon.events.LINE)


def lines():
    return {os.path.relpath(name, PKG): sorted(found) for name, found in _lines.items()}


def clear():
    _lines.clear()
    try:
        sys.monitoring.restart_events()
    except Exception:
        pass
