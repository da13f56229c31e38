#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--facts FILE]"""
import argparse
import importlib
import os
import shutil
import sys
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, 'vlib'))
import runner  # noqa: E402


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default='quick')
    ap.add_argument('--facts')
    a = ap.parse_args()
    t0 = time.time()
    work = None
    if a.facts:
        path = a.facts
    else:
        try:
            path, work = runner.extract()
        except runner.BuildFailed as e:
            print('the repository does not build for analysis:\n%s' % e)
            return 2
    try:
        import facts
        F = facts.Facts(path)
    finally:
        if work:
            shutil.rmtree(work, ignore_errors=True)
    import rules
    mod, fn = rules.RULES[a.property]
    ctx = runner.Ctx(a.property, a.tier, F, runner.BUILD)
    m = importlib.import_module(mod)
    technique = getattr(m, fn)(ctx)
    return runner.finish(ctx, t0, technique)


if __name__ == '__main__':
    sys.exit(main())
