"""Sources of the code under test are always compiled from the working tree, never taken from a .pyc."""
import os
from importlib import machinery

_root = os.path.join(os.environ.get("VERIF_REPO", "/repo"), "objutils") + os.sep
_get_code = machinery.SourceFileLoader.get_code


def get_code(self, fullname):
    path = self.get_filename(fullname)
    if path.startswith(_root):
        return self.source_to_code(self.get_data(path), path)
    return _get_code(self, fullname)


machinery.SourceFileLoader.get_code = get_code
