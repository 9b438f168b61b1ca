#!/usr/bin/env python3
"""run.py <property> <quick|thorough>: decides one property on /repo's working tree. See DESIGN.md."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'gen'))
sys.dont_write_bytecode = True
import checks  # noqa: E402


def main():
    if len(sys.argv) < 2 or sys.argv[1] not in checks.CHECKS:
        print('usage: run.py <%s> [quick|thorough]' % '|'.join(sorted(checks.CHECKS)))
        return 2
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    try:
        return checks.CHECKS[sys.argv[1]](tier)
    except checks.HarnessError as e:
        print('ERROR: %s' % e)
        return 2


if __name__ == '__main__':
    sys.exit(main())
