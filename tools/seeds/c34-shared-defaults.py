PROPERTY = 'C34'
EDITS = [('config.py', "        self._defaults = dictionaries.LowerCaseDict()\n        if defaults is not None:\n            self._defaults.update(defaults)\n", "        self._defaults = defaults if isinstance(defaults, dictionaries.LowerCaseDict) else dictionaries.LowerCaseDict()\n        if defaults is not None:\n            self._defaults.update(defaults)\n")]
NEEDS = "a setup made from another one, whose default settings are changed afterwards"
BREAKS = "two setups share their default settings"
DEMO = '''
import io, contextlib
s = config.get(tag='seeddef', defaults=dict(Size=1))
with contextlib.redirect_stdout(io.StringIO()):
    t = s(tag='seeddefbis')
assert t is not s and dict(t.defaults) == dict(size=1)
t.defaults.update(size=2)
assert dict(s.defaults) == dict(size=1), dict(s.defaults)
'''
