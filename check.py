"""check.py <property> [--tier quick|thorough] | --replay FILE | --setup"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/venv/bin/python'
ENV = {'PATH': '/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin',
       'SETUPTOOLS_SCM_PRETEND_VERSION': '2.0.0', 'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONHASHSEED': '0',
       'OMP_NUM_THREADS': os.environ.get('OMP_NUM_THREADS', '1'), 'OPENBLAS_NUM_THREADS': '1',
       'PIP_NO_INDEX': '1'}


def ensure():
    if os.environ.get('VERIF_PY') != '1':
        env = dict(os.environ, **ENV, VERIF_PY='1')
        env.pop('PYTHONPATH', None)
        env.pop('MESONPY_EDITABLE_SKIP', None)
        os.execve(PY, [PY, os.path.abspath(__file__)] + sys.argv[1:], env)
    link = os.path.join(HERE, '.build', 'z3path')
    os.makedirs(link, exist_ok=True)
    try:
        os.symlink('/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3', link + '/z3')
    except FileExistsError:
        pass


def main():
    ensure()
    sys.path.insert(0, HERE)
    os.chdir(HERE)
    from engine import runner
    if sys.argv[1] == '--replay':
        return runner.replay_main(sys.argv[2])
    if sys.argv[1] == '--setup':
        from engine import fbuild
        print(fbuild.build())
        import pysimulators  # noqa
        return 0
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    return runner.main(sys.argv[1], tier)


if __name__ == '__main__':
    rc = main()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
