"""Makes hypothesis importable from /opt/venv/bin/python without exposing the rest of the tool venv."""
import importlib.machinery
import os
import sys

_SITE = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
_NAMES = {"hypothesis", "_hypothesis_pytestplugin", "_hypothesis_ftz_detector", "sortedcontainers", "_hypothesis_globals"}


class _Finder:
    @staticmethod
    def find_spec(name, path=None, target=None):
        if path is None and name.split(".")[0] in _NAMES:
            return importlib.machinery.PathFinder.find_spec(name, [_SITE])
        return None


def install():
    try:
        import hypothesis  # noqa: F401
        return
    except ImportError:
        pass
    sys.meta_path.append(_Finder)
    try:
        import hypothesis  # noqa: F401
    except ImportError:
        # fall back to the wheels
        import glob
        for pat in ("hypothesis-*", "sortedcontainers-*"):
            for w in glob.glob("/opt/veriftools/wheels/" + pat + ".whl"):
                sys.path.append(w)
        import hypothesis  # noqa: F401


if __name__ == "__main__":
    install()
    import hypothesis, grpc, pulumi
    print("hypothesis", hypothesis.__version__, "grpc", grpc.__version__, "pulumi at", os.path.dirname(pulumi.__file__))
