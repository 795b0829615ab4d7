"""The layout package over the working tree's Python sources and the compiled rectangle packer."""
import sys
import vf, pure


def use(**stubs):
    d = vf.pypkg(["rpack"], opt="-O1 -DNDEBUG")
    pure.use(**stubs)
    sys.path[:0] = [d]
    sys.modules["minorminer"].__path__ = [d + "/minorminer"]
    import os, warnings
    os.environ["OPENBLAS_NUM_THREADS"] = os.environ["OMP_NUM_THREADS"] = "1"
    warnings.simplefilter("ignore", DeprecationWarning)
    import minorminer.layout as mml
    return mml
