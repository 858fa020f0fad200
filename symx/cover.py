"""Which functions of the code under test were executed (symbolically) in this process."""
import sys

SEEN = set()
_ROOT = "/repo/src/decomon"
_on = False


def start():
    global _on
    if _on or not hasattr(sys, "monitoring"):
        return
    mon = sys.monitoring
    try:
        mon.use_tool_id(4, "symx")
    except ValueError:
        return

    def cb(code, off):
        f = code.co_filename
        if "/decomon/" in f and "site-packages" not in f:
            SEEN.add(f.split("/decomon/", 1)[1] + ":" + code.co_qualname.replace(".<locals>", ""))
        return mon.DISABLE

    mon.register_callback(4, mon.events.PY_START, cb)
    mon.set_events(4, mon.events.PY_START)
    _on = True


def drain():
    global SEEN
    r = sorted(x for x in SEEN if "<module>" not in x)
    return r
