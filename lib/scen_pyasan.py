"""The Python binding under AddressSanitizer and UBSan (interpreter allocations included)."""
import scen_py as _s
from scen_py import *
from scen_py import _build
_s.ASAN = False
VARIANT = 'pyasan'
def build(d, repo): return _build(d, repo, True)
def environment(d):
    import subprocess
    so = subprocess.run(['gcc', '-print-file-name=libasan.so'], stdout=subprocess.PIPE, text=True).stdout.strip()
    so2 = subprocess.run(['gcc', '-print-file-name=libubsan.so'], stdout=subprocess.PIPE, text=True).stdout.strip()
    return {'PYTHONPATH': d, 'PYTHONMALLOC': 'malloc', 'LD_PRELOAD': so + ' ' + so2, 'ASAN_OPTIONS': 'detect_leaks=0:abort_on_error=1:allocator_may_return_null=1', 'UBSAN_OPTIONS': 'halt_on_error=1:abort_on_error=1:print_stacktrace=1'}
def setup(d): _s.ASAN = True; _s.setup(d)
SCENARIOS = _s.SCENARIOS
def run(scen, scratch, repo, seed, budget, tier, replay_path, known):
    import pycore; return pycore.driver_run(__name__, scen, scratch, repo, seed, budget, tier, replay_path, known)
