#!/opt/venv/bin/python -B
"""check.py <property id> [--tier quick|thorough] [--replay FILE]"""
import argparse
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
WANTED = {'PYTHONHASHSEED': '0', 'PYTHONDONTWRITEBYTECODE': '1'}


def main():
    parser = argparse.ArgumentParser()
    parser.add_argument('property')
    parser.add_argument('--tier', default=os.environ.get('VERIF_TIER')
                        or 'quick', choices=('quick', 'thorough'))
    parser.add_argument('--replay')
    arguments = parser.parse_args()
    if any(os.environ.get(k) != v for k, v in WANTED.items()):
        os.environ.update(WANTED)
        os.execv(sys.executable, [sys.executable, '-B', *sys.argv])
    sys.pycache_prefix = '/nonexistent/rv'  # never read stale bytecode
    sys.path.insert(0, os.environ.get('RV_REPO', '/repo'))
    sys.path.insert(0, HERE)
    from rv import runner
    return runner.main(arguments.property.upper(), arguments.tier,
                       arguments.replay)


if __name__ == '__main__':
    try:
        code = main()
    except Exception:
        import traceback
        traceback.print_exc()
        code = 3
    sys.stdout.flush()
    sys.exit(code)
