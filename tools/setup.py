"""setup_cmd: nothing is built ahead of time (every check translates /repo's current source); this only reports the tools."""
import os
import shutil
os.makedirs(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'evidence'), exist_ok=True)
for t in ('/opt/venv/bin/python', 'python3-vt', 'cvc5'):
    print(t, 'found' if shutil.which(t) or os.path.exists(t) else 'MISSING')
