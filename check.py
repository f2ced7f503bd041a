#!/usr/bin/env python3
"""check.py <property> [--thorough]: decide one property of /repo's current source by static analysis."""
import importlib
import os
import sys
import traceback
import warnings

sys.dont_write_bytecode = True
warnings.simplefilter('ignore')
sys.setrecursionlimit(20000)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

from sa.model import Program, AnalysisError      # noqa: E402
from sa.report import Check                       # noqa: E402


def main():
    pid = sys.argv[1]
    thorough = '--thorough' in sys.argv[2:]
    root = os.environ.get('SA_REPO', '/repo')
    ck = Check(pid, 'thorough' if thorough else 'quick', int(os.environ.get('VERIF_SEED', '1') or 1), root)
    try:
        prog = Program(root)
        rule = importlib.import_module('sa.rules.' + pid.lower())
        from sa.interp import Interp
        Interp.passes = getattr(rule, 'PASSES', 1)
        rule.run(prog, ck, thorough)
        return ck.finish()
    except AnalysisError as e:
        if ck.findings:
            return ck.finish()
        print('ANALYSIS-BROKEN property=%s %s' % (pid, e))
        return 2
    except Exception:
        if ck.findings:
            return ck.finish()
        traceback.print_exc()
        print('ANALYSIS-BROKEN property=%s' % pid)
        return 2


if __name__ == '__main__':
    sys.exit(main())
