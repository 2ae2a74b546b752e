"""Line coverage of wafo's Python code by the generated cases (VERIF_COV=DIR; see tools/cov.py)."""
import os
import pickle
import sys

LINES = set()


def start():
    m = sys.monitoring
    m.use_tool_id(m.COVERAGE_ID, 'verif')

    def line(code, no):
        f = code.co_filename
        if '/wafo/' in f:
            LINES.add((f, no))
        return m.DISABLE

    m.register_callback(m.COVERAGE_ID, m.events.LINE, line)
    m.set_events(m.COVERAGE_ID, m.events.LINE)


def save(d):
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, '%d.pkl' % os.getpid()), 'wb') as f:
        pickle.dump(LINES, f)
