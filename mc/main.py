from __future__ import annotations

import importlib
import os
import sys

from . import engine


def module(prop):
    return importlib.import_module(f"checks.{prop}")


def spaces_for(prop, tier):
    return module(prop).spaces(tier)


def main(argv):
    sys.setrecursionlimit(3000)
    if argv[:1] == ["--replay"]:
        return engine.replay(argv[1], spaces_for)
    prop = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    import htmltools

    where = os.path.realpath(htmltools.__file__)
    if where != "/repo/htmltools/__init__.py":
        print(f"error: htmltools comes from {where}", file=sys.stderr)
        return 3
    m = module(prop)
    return engine.explore(prop, m.spaces(tier), tier=tier,
                          assumptions=getattr(m, "ASSUMPTIONS", ()),
                          explanation=(m.__doc__ or "").strip())


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
