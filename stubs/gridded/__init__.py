"""Small stand-in for the `gridded` package.

`gridded` cannot be installed in this sandbox, and without it `import gnome`
fails.  This package supplies the part of gridded's public interface that
gnome uses (time axes, rectangular / triangular grids, variables on them), so
that the *real* gnome code can run.  It belongs to the test environment: no
property is stated about it, and no check looks at it.
"""
__version__ = "0.7.5"
from . import utilities, time, grids, depth, variable   # noqa: F401
from .variable import Variable, VectorVariable            # noqa: F401
