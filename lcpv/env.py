"""Where things are, and how the real packages are loaded."""
import os, sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('LCPV_REPO', '/repo')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = 'thorough' if os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
OUT = os.path.join(VERIF, 'out')
EVID = os.path.join(VERIF, 'evidence')
VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'


def setup():
    os.environ.setdefault('SDL_VIDEODRIVER', 'dummy')
    os.environ.setdefault('PYGAME_HIDE_SUPPORT_PROMPT', '1')
    os.environ.setdefault('OMP_NUM_THREADS', '1')
    sys.dont_write_bytecode = True
    import warnings
    warnings.filterwarnings('ignore')
    # drop any installed copy: the code under check is REPO's working tree
    if REPO not in sys.path: sys.path.insert(0, REPO)
    if VT not in sys.path:
        sys.path.append(VT)
