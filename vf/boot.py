"""Process set-up: where the code under test and Hypothesis come from."""
import glob
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')


def boot():
    # the code under test always comes from the current working tree, first on the path
    if sys.path[0] != REPO:
        sys.path.insert(0, REPO)
    if VERIF not in sys.path:
        sys.path.append(VERIF)
    try:
        import hypothesis  # noqa: F401
    except ImportError:
        for cand in ('/opt/veriftools/pyvenv/lib/python3.12/site-packages',):
            if os.path.isdir(os.path.join(cand, 'hypothesis')):
                sys.path.append(cand)   # at the END: never shadows the repository's own dependencies
                break
        else:
            target = '/tmp/verif-hypothesis'
            if not os.path.isdir(os.path.join(target, 'hypothesis')):
                os.system(f'{sys.executable} -m pip install -q --no-index --find-links /opt/veriftools/wheels '
                          f'--target {target} hypothesis >/dev/null 2>&1')
            sys.path.append(target)
        import hypothesis  # noqa: F401
    import logging
    logging.disable(logging.CRITICAL)
    # silence "Can not find native module" and friends
    import io
    import contextlib
    with contextlib.redirect_stdout(io.StringIO()):
        import sampo.scheduler  # noqa: F401  (must be the first sampo import)
        import sampo
        import sampo.base  # noqa: F401
    root = os.path.realpath(os.path.dirname(list(sampo.__path__)[0]))
    if root != os.path.realpath(REPO):
        raise SystemExit(f'harness error: sampo imported from {root}, not {REPO}')
