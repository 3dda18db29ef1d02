"""sys.path set-up shared by runner and workers."""
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
VT_SITE = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'


def setup():
    """The code under test comes from /repo's working tree, hypothesis from the tool venv."""
    for p in (os.path.join(VERIF, 'harness'), VERIF, REPO):
        if p in sys.path:
            sys.path.remove(p)
        sys.path.insert(0, p)
    if VT_SITE not in sys.path:
        sys.path.append(VT_SITE)
