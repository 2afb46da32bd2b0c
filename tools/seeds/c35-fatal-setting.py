PROPERTY = 'C35'
EDITS = [('__init__.py', "self._footprint.resolve(self._attributes,  # @UnusedVariable\n                                                                                  fatal=True)", "self._footprint.resolve(self._attributes,  # @UnusedVariable\n                                                                                  fast=True)")]
NEEDS = "the setup says that resolutions are not fatal, and an object is built with an unacceptable value"
BREAKS = "the construction does not fail: it gives an object with missing attributes"
DEMO = '''
import footprints
class C35C(FootprintBase):
    _collector = ('c35c',)
    _footprint = dict(attr=dict(kind=dict(values=['a', 'b']), num=dict(type=int)))
footprints.setup.fatal = False
try:
    try:
        C35C(kind='a')
    except Exception:
        pass
    else:
        raise SystemExit('built without its mandatory attribute')
finally:
    footprints.setup.fatal = True
'''
