"""Entry point of every check: run.py <property> [quick|thorough] [--replay FILE]"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
PY = '/opt/venv/bin/python'

ENV = {'OMP_NUM_THREADS': '1', 'OMP_WAIT_POLICY': 'passive', 'GOMP_SPINCOUNT': '0', 'OPENBLAS_NUM_THREADS': '1', 'MKL_NUM_THREADS': '1',
       'MPLBACKEND': 'Agg', 'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONHASHSEED': '0'}

if __name__ == '__main__':
    if os.environ.get('VERIF_CHILD') != '1':
        env = dict(os.environ)
        env.update(ENV)
        env['VERIF_CHILD'] = '1'
        env.pop('PYTHONPATH', None)
        os.execve(PY, [PY, '-u', os.path.abspath(__file__)] + sys.argv[1:], env)
    sys.path.insert(0, HERE)
    import harness
    sys.exit(harness.main(sys.argv[1:]))
