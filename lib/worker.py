"""Runs inside the repository's own interpreter (PyPy, /opt/venv).  Serves JSON requests, one per line, on the pipe
that was stdin/stdout when it started; everything the code under test prints goes to the log file."""
import os
import sys
import json
import traceback
import importlib

REPO = os.environ['VERIF_REPO']
HERE = os.path.dirname(os.path.abspath(__file__))


def main():
    inp = os.fdopen(os.dup(0), 'r', encoding='utf-8')
    out = os.fdopen(os.dup(1), 'w', encoding='utf-8')
    log = os.open(os.environ.get('VERIF_WORKER_LOG', os.devnull), os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o600)
    nul = os.open(os.devnull, os.O_RDONLY)
    os.dup2(nul, 0)
    os.dup2(log, 1)
    os.dup2(log, 2)
    scratch = os.environ['VERIF_SCRATCH']
    os.chdir(scratch)
    sys.dont_write_bytecode = True
    sys.path.insert(0, HERE)
    sys.path.insert(0, REPO)
    try:
        import ops
        reply = {'ready': True, 'python': sys.version.split()[0]}
    except BaseException:
        reply = {'ready': False, 'error': traceback.format_exc()[-3000:]}
    out.write(json.dumps(reply) + '\n')
    out.flush()
    if not reply['ready']:
        return
    for line in inp:
        req = json.loads(line)
        try:
            res = {'ok': ops.run(req['op'], req['args'])}
        except ops.HarnessError:
            res = {'harness': traceback.format_exc()[-3000:]}
        except MemoryError:
            res = {'harness': 'MemoryError'}
        except BaseException as e:
            res = {'exc': {'type': type(e).__name__, 'msg': str(e)[:500], 'tb': traceback.format_exc()[-2500:]}}
        out.write(json.dumps(res) + '\n')
        out.flush()
        # the log only matters for debugging; keep it from growing
        try:
            if os.lseek(1, 0, os.SEEK_CUR) > 1 << 22:
                os.ftruncate(1, 0)
                os.lseek(1, 0, os.SEEK_SET)
        except OSError:
            pass


if __name__ == '__main__':
    main()
