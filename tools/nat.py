"""run the native reading of units on the unchanged tree for SECS each (must find nothing): nat.py SECS UNIT..."""
import sys, os, importlib.util
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
spec = importlib.util.spec_from_file_location('driver', os.path.join(V, 'lib', 'driver.py'))
drv = importlib.util.module_from_spec(spec); spec.loader.exec_module(drv)
us = drv.load_units(); ctx = drv.Ctx()
names = [n for n in us if any(n == a or (a.endswith('*') and n.startswith(a[:-1])) for a in sys.argv[2:])]
def go(n):
    f, d, det = drv.native_search(ctx, us[n], {}, 'n', 7, float(sys.argv[1]))
    return n, f, d, (det.get('random_out', '')[-600:] if f else '')
with ThreadPoolExecutor(8) as ex:
    for n, f, d, o in ex.map(go, names):
        print('BAD' if f else 'ok ', n, d, o, flush=True)
ctx.close()
