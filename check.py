#!/usr/bin/env python3
"""check.py <property id>: decide one property on /repo's current tree."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "engine"))

import driver
import checks
from extract import BuildError

if __name__ == "__main__":
    if len(sys.argv) != 2 or sys.argv[1] not in checks.PROPS:
        print("usage: check.py <" + "|".join(sorted(checks.PROPS)) + ">")
        sys.exit(2)
    try:
        sys.exit(driver.main(sys.argv[1], checks.PROPS[sys.argv[1]]))
    except BuildError as e:
        print(e)
        sys.exit(2)
