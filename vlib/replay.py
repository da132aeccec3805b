"""Re-run one recorded case, without Hypothesis.  Exit 1 if it (still) violates the property, 0 if not."""
import importlib
import json
import logging
import os
import sys


def main():
    path = sys.argv[1]
    r = json.load(open(path))
    import finmlkit  # noqa: F401
    logging.disable(logging.CRITICAL)
    from vlib.core import Violation, quiet
    from vlib.worker import facet_check
    mod = importlib.import_module(f"props.{r['property'].lower()}")
    facet = next(f for f in mod.FACETS if f.name == r["facet"])
    try:
        with quiet():
            facet_check(facet, r["case"])
    except Violation as v:
        print(f"REPRODUCED property={r['property']} facet={r['facet']} mode={r['mode']}: {v}")
        sys.exit(1)
    print("not reproduced: the property holds on this case")


if __name__ == "__main__":
    main()
