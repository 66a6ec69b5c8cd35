"""Loading of the code under observation: always from /repo's source files, never from bytecode caches."""
import importlib.machinery
import os
import sys

REPO = os.environ.get('VF_REPO', '/repo')
PKG = os.path.join(REPO, 'babylondigger')


class _SourceOnly(importlib.machinery.SourceFileLoader):
    def path_stats(self, path):
        raise OSError('bytecode is not used')

    def set_data(self, path, data, **kwargs):
        pass


def install():
    sys.dont_write_bytecode = True
    for path in (PKG, REPO):
        if path in sys.path:
            sys.path.remove(path)
        sys.path.insert(0, path)
    # `evaluation.grid_eval`-like top level names live in /repo/babylondigger: keep it after /repo
    sys.path.remove(REPO)
    sys.path.insert(0, REPO)

    real = importlib.machinery.FileFinder.path_hook((_SourceOnly, importlib.machinery.SOURCE_SUFFIXES))

    def hook(path):
        if path == REPO or path.startswith(PKG):
            return real(path)
        raise ImportError(path)

    sys.path_hooks.insert(0, hook)
    sys.path_importer_cache.clear()


def is_repo_file(path):
    return path.startswith(PKG)
