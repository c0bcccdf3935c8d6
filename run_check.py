#!/opt/venv/bin/python
"""run_check.py P01 | --replay FILE | --worker ... | --setup"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)


def run():
    from pbt import core
    args = sys.argv[1:]
    if os.environ.get('PYTHONHASHSEED') != '0':
        os.execve(sys.executable, [sys.executable, os.path.join(HERE, 'run_check.py')] + args, core.child_env())
    if args and args[0] == '--worker':
        return core.worker_main(args[1:])
    if args and args[0] == '--replay':
        return core.replay_main(args[1])
    if args and args[0] == '--setup':
        from pbt import env
        env.prepare(False)
        env.prepare(True)
        env.setup()
        import hypothesis
        import numpy
        print('ready: hypothesis %s, numpy %s' % (hypothesis.__version__, numpy.__version__))
        return 0
    if args:
        return core.main(args[0])
    print(__doc__)
    return 2


if __name__ == '__main__':
    try:
        status = run()
    except SystemExit:
        raise
    except BaseException:
        import traceback
        traceback.print_exc()
        status = 2
    sys.stdout.flush()
    sys.exit(status)
