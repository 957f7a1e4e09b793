"""The contracts of each property."""
import importlib

MODULES = {
    "C01": "background", "C02": "background", "C03": "background", "C04": "background",
    "C10": "kernels", "C11": "kernels", "C12": "kernels", "C13": "kernels",
    "C14": "angular", "C05": "history", "C06": "objects", "C25": "objects",
    "C16": "linear", "C17": "linear", "C18": "linear", "C15": "angular",
    "C19": "splines", "C20": "splines", "C21": "splines",
    "C22": "tools", "C23": "tools",
    "C24": "gradients", "C07": "spectra", "C08": "spectra", "C09": "spectra",
}


def obligations(prop):
    m = importlib.import_module("contracts." + MODULES[prop])
    obs = getattr(m, prop)()
    for o in obs:
        assert o.name.startswith(prop + "."), o.name
    return obs
