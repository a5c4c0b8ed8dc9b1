"""All checks."""
import importlib
from pathlib import Path

PROPS = {}
for f in sorted(Path(__file__).parent.glob('p_*.py')):
    m = importlib.import_module('mc.' + f.stem)
    for k, v in m.PROPS.items():
        assert k not in PROPS
        PROPS[k] = v
