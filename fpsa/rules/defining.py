"""Shared analysis of the definition of a class (FootprintBaseMeta.__new__)."""
from .common import *

CLS, NAME, BASES, BODY = sym('cls'), sym('n'), sym('b'), sym('d')
OPAQUE = {'Footprint.__init__', 'Footprint.allkeys', 'FootprintBase.fullname', 'FootprintBase.footprint_mandatory', 'Collector._upd_fasttrack_index', 'doc:format_docstring',
          'access:attr_descriptors', 'collectors:get'}


class Define:
    def __init__(self, ctx, docstrings=None):
        self.ctx = ctx
        f = ctx.repo.func('FootprintBaseMeta.__new__')
        names = [a.arg for a in f.node.args.args]
        st = State()
        if docstrings is not None:
            st = st.assume(truth(attr(('glob', 'footprints', 'setup'), 'docstrings')), docstrings, False)
        self.I = I = ctx.interp(opaque=OPAQUE, max_states=20000)
        self.f, self.rows = execute(ctx, I, f.qual, dict(zip(names, (CLS, NAME, BASES, BODY))), st)
        self.where = f.where()
        self.outs = outcomes(self.rows)

    def loops(self, pred):
        return [r for r in self.I.loops.values() if r.coll is not None and pred(r)]
