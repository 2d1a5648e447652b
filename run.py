import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('SIOTLS_REPO', '/repo')
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(REPO, 'src'))
# hypothesis lives in the tooling venv (same Python 3.12); cryptography in the project's
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')

from vlib.core import main  # noqa: E402

if __name__ == '__main__':
    sys.exit(main(sys.argv[1:], HERE))
