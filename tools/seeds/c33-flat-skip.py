PROPERTY = 'C33'
EDITS = [('collectors.py', "                    altreport.reshuffle(['only', 'attribute'], skip=False)\n", "                    altreport.reshuffle(['only', 'attribute'])\n")]
NEEDS = "the flat style, and a search that failed without any only condition (or with other rejections beside)"
BREAKS = "the second part of a flat report shows rejections that have nothing to do with the only conditions"
DEMO = '''
import io, contextlib

class A(FootprintBase):
    _collector = ('seedflat',)
    _footprint = dict(attr=dict(kind=dict(values=['a']), size=dict(type=int)))

def shown(**kw):
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        assert fp.load(tag='seedflat', **kw) is None
    return out.getvalue()

txt = shown(kind='b', size=1, _report_style=config.FLAT_REPORTINGSTYLE)
assert txt.count('attribute: kind') == 1, txt
'''
