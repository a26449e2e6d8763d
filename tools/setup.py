"""Makes the folders the checks write to, and sees that both interpreters work."""
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(ROOT, 'lib'))
for d in ('evidence', 'replays', 'work'):
    os.makedirs(os.path.join(ROOT, d), exist_ok=True)
import hypothesis  # noqa: E402
from client import Worker  # noqa: E402
w = Worker()
w.start()
w.close()
print('ready: hypothesis %s, worker started' % hypothesis.__version__)
