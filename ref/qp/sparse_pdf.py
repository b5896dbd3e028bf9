import os
import sys
import numpy as np
from scipy.stats import rv_continuous
from scipy import integrate as sciint
from scipy import interpolate as sciinterp
from qp import sparse_rep
from qp.factory import add_class
from qp.interp_pdf import interp_gen
from qp.conversion_funcs import extract_sparse_from_xy
from qp.test_data import TEST_XVALS, NPDF

class sparse_gen(interp_gen):
    name = 'sparse'
    version = 0
    _support_mask = rv_continuous._support_mask

    def __init__(self, xvals, mu, sig, dims, sparse_indices, *args, **kwargs):
        self.sparse_indices = sparse_indices
        self._xvals = xvals
        self.mu = mu
        self.sig = sig
        self.dims = dims
        self._cut = kwargs.pop('cut', 1e-05)
        sparse_meta = dict(xvals=xvals, mu=mu, sig=sig, dims=dims)
        A = sparse_rep.create_basis(sparse_meta, cut=self._cut)
        basis_indices, weights = sparse_rep.decode_sparse_indices(sparse_indices)
        pdf_y = A[:, basis_indices] * weights
        x = sparse_meta['xvals']
        y = pdf_y.sum(axis=-1)
        norms = sciint.trapezoid(y.T, x)
        y /= norms
        kwargs.setdefault('xvals', x)
        kwargs.setdefault('yvals', y.T)
        super().__init__(*args, **kwargs)
        self._clearobjdata()
        self._addmetadata('xvals', self._xvals)
        self._addmetadata('mu', self.mu)
        self._addmetadata('sig', self.sig)
        self._addmetadata('dims', self.dims)
        self._addmetadata('cut', self._cut)
        self._addobjdata('sparse_indices', self.sparse_indices)

    def _updated_ctor_param(self):
        dct = super()._updated_ctor_param()
        dct['sparse_indices'] = self.sparse_indices
        dct['xvals'] = self._xvals
        dct['mu'] = self.mu
        dct['sig'] = self.sig
        dct['dims'] = self.dims
        dct['cut'] = self._cut
        return dct

    @classmethod
    def get_allocation_kwds(cls, npdf, **kwargs):
        if 'dims' not in kwargs:
            raise ValueError('required argument dims not in kwargs')
        nsp = np.array(kwargs['dims']).flatten()[4]
        return dict(sparse_indices=((npdf, nsp), 'i8'))

    @classmethod
    def add_mappings(cls):
        cls._add_creation_method(cls.create, None)
        cls._add_extraction_method(extract_sparse_from_xy, None)

    @staticmethod
    def build_test_data():
        qproot = sys.modules['qp'].__path__[0]
        filein = os.path.join(qproot, './data/CFHTLens_sample.P.npy')
        P = np.load(filein)
        z = P[-1]
        P = P[:NPDF]
        P = P / sciint.trapezoid(P, z).reshape(-1, 1)
        minz = np.min(z)
        nz = 301
        _, j = np.where(P > 0)
        maxz = np.max(z[j + 1])
        newz = np.linspace(minz, maxz, nz)
        interp = sciinterp.interp1d(z, P, assume_sorted=True)
        newpdf = interp(newz)
        newpdf = newpdf / sciint.trapezoid(newpdf, newz).reshape(-1, 1)
        sparse_idx, meta, _ = sparse_rep.build_sparse_representation(newz, newpdf, verbose=False)
        return (sparse_idx, meta)

    @classmethod
    def make_test_data(cls):
        SPARSE_IDX, META = cls.build_test_data()
        cls.test_data = dict(sparse=dict(gen_func=sparse, ctor_data=dict(xvals=META['xvals'], mu=META['mu'], sig=META['sig'], dims=META['dims'], sparse_indices=SPARSE_IDX), test_xvals=TEST_XVALS))
sparse = sparse_gen.create
add_class(sparse_gen)
