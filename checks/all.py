"""Which harness modules decide which property."""
import importlib

MODULES = {
    "C01": ["naki"],
    "C02": ["naki"],
    "C03": ["naki"],
    "C04": ["naki"],
    "C05": ["tokens"],
    "C06": ["mask", "rounds"],
    "C07": ["rounds"],
    "C08": ["games"],
    "C15": ["wins"],
    "C27": ["ready"],
    "C28": ["games"],
    "C09": ["rounds"],
    "C10": ["rounds"],
    "C11": ["rounds"],
    "C12": ["rounds"],
    "C13": ["rounds"],
    "C14": ["rounds"],
    "C16": ["agents"],
    "C17": ["agents"],
    "C18": ["agents"],
    "C19": ["agents", "apart"],
    "C20": ["agents"],
    "C21": ["agents"],
    "C22": ["agents"],
    "C23": ["agents"],
    "C24": ["training"],
    "C25": ["training"],
    "C26": ["training"],
    "C29": ["view"],
    "C30": ["training"],
    "C31": ["apart"],
    "C32": ["scrape"],
    "C33": ["agents"],
    "C34": ["agents"],
}


def load(prop):
    for m in MODULES[prop]:
        importlib.import_module("checks." + m)
