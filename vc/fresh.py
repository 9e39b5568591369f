"""Import /repo's `peak` package from its current source (never from a cached .pyc)."""
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys
import warnings

REPO = os.environ.get('VERIF_REPO', '/repo')
sys.dont_write_bytecode = True
warnings.simplefilter('ignore')


class _Src(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        return compile(self.get_data(path), path, 'exec', dont_inherit=True)


class _Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path=None, target=None):
        if name != 'peak' and not name.startswith('peak.'):
            return None
        base = os.path.join(REPO, *name.split('.'))
        if os.path.isdir(base) and os.path.exists(os.path.join(base, '__init__.py')):
            f = os.path.join(base, '__init__.py')
            return importlib.util.spec_from_file_location(name, f, loader=_Src(name, f), submodule_search_locations=[base])
        if os.path.exists(base + '.py'):
            return importlib.util.spec_from_file_location(name, base + '.py', loader=_Src(name, base + '.py'))
        return None


def install():
    if not any(isinstance(f, _Finder) for f in sys.meta_path):
        sys.meta_path.insert(0, _Finder())
        sys.path.insert(0, REPO)


install()
