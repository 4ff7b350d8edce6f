"""pyrun.py HARNESS ARGS: runs a harness; a Python layer that cannot be imported is a failure
of the first scenario, not of the check."""
import importlib
import sys
import traceback

import pymc

name = sys.argv.pop(1)
try:
    importlib.import_module(name)
except Exception as e:
    tb = traceback.extract_tb(e.__traceback__)
    where = [f for f in tb if 'importlib' not in f.filename][-1]
    msg = '%s: %s (%s:%d)' % (type(e).__name__, e, where.filename, where.lineno)
    pymc.SCEN.clear()

    @pymc.scenario('import')
    def _(r):
        r.choose(1, 'import')
        r.fail('import', msg)

sys.exit(pymc.main())
