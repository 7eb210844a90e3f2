#!/usr/bin/env python3
"""check.py <property> : decide one property for the current tree of /repo."""
import importlib, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vk import core, checks
sys.exit(core.run(sys.argv[1], checks.CHECKS[sys.argv[1]]))
