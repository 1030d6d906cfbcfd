"""check.py <property> [quick|thorough]: decides one property on /repo."""
import importlib
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import core  # noqa: E402

CHECKS = {}
for m in ('checks_parse', 'checks_prefix', 'checks_tree', 'checks_render', 'checks_session', 'checks_facade', 'checks_growth'):
    CHECKS.update(importlib.import_module(m).CHECKS)
if __name__ == '__main__':
    core.main(CHECKS)
