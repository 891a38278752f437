"""setup_cmd: nothing needs building beforehand; checks that the tools the checks use are there."""
import z3, subprocess, sys
from . import sym, build, configs
subprocess.run(['rustc', '+1.99.1', '--version'], check=True); subprocess.run(['rustc', '+nightly', '--version'], check=True)
print('z3', z3.get_version_string(), 'ok')
