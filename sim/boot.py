"""Installs the seams and imports hiku from /repo's working tree."""
import os
import sys

REPO = os.environ.get('VERIF_REPO', '/repo')


def boot():
    from . import seams
    # third-party modules, with their cached byte code
    import graphql           # noqa
    import sqlalchemy        # noqa
    import sqlalchemy.engine.default  # noqa
    import google.protobuf   # noqa
    seams.install()
    import prometheus_client  # noqa
    import asyncio, concurrent.futures, concurrent.futures.thread  # noqa
    # hiku: always compiled from the sources as they are now
    sys.path.insert(0, REPO)
    old = sys.pycache_prefix
    sys.pycache_prefix = '/nonexistent-pycache'
    sys.dont_write_bytecode = True
    try:
        import hiku
        import pkgutil
        import importlib
        for m in pkgutil.walk_packages(hiku.__path__, 'hiku.'):
            if not m.name.startswith('hiku.docs'):
                importlib.import_module(m.name)
    finally:
        sys.pycache_prefix = old
    where = os.path.realpath(hiku.__file__)
    assert where.startswith(os.path.realpath(REPO) + '/'), where
    seams.patch_identity_hashes()
    from . import threads
    threads.PREEMPT.install()
