"""The pure Python parts of the package, without its compiled extensions."""
import sys, types
import vf


def use(**stubs):
    """put a copy of the working tree's package on the path; compiled modules are replaced by empty ones, or by what stubs give"""
    d = vf.pypkg([])
    vf.use_package(d)
    top = types.ModuleType("minorminer")
    top.__path__ = [d + "/minorminer"]
    sys.modules["minorminer"] = top

    def no(*a, **k):
        raise NotImplementedError("not available here")
    mods = {"busclique": dict(busgraph_cache=no, find_clique_embedding=no), "subgraph": dict(find_subgraph=no), "_minorminer": {}}
    mods["minorminer"] = dict(find_embedding=no, miner=no, VARORDER=no)
    for k, v in stubs.items():
        mods.setdefault(k, {}).update(v)
    for k, v in mods.items():
        m = types.ModuleType("minorminer." + k)
        m.__dict__.update(v)
        sys.modules["minorminer." + k] = m
        if k != "minorminer":
            setattr(top, k, m)
    top.find_embedding = mods["minorminer"]["find_embedding"]
    top.miner = mods["minorminer"]["miner"]
    return top
