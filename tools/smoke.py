"""setup_cmd: nothing to build; checks that the interpreter and the parser the checks use are there."""
import subprocess
import sys
sys.exit(subprocess.call(["/opt/venv/bin/python", "-B", "-c", "import sys, markdown_it, jinja2; assert sys.version_info >= (3, 12); print('ready')"]))
