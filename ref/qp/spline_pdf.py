import numpy as np
from scipy.integrate import quad
from scipy.interpolate import splev, splint, splrep
from scipy.special import errstate
from scipy.stats import rv_continuous
from qp.conversion_funcs import extract_samples, extract_xy_vals
from qp.factory import add_class
from qp.pdf_gen import Pdf_rows_gen
from qp.plotting import get_axes_and_xlims, plot_pdf_on_axes
from qp.test_data import SAMPLES, TEST_XVALS, XARRAY, YARRAY
from qp.utils import build_kdes, evaluate_kdes, reshape_to_pdf_size

def normalize_spline(xvals, yvals, limits, **kwargs):

    def row_integral(irow):

        def spl(xv):
            return splev(xv, splrep(xvals[irow], yvals[irow]))
        return quad(spl, limits[0], limits[1], **kwargs)[0]
    vv = np.vectorize(row_integral)
    with errstate(all='ignore'):
        integrals = vv(np.arange(xvals.shape[0]))
    return (yvals.T / integrals).T

def build_splines(xvals, yvals):
    l_x = []
    l_y = []
    l_n = []
    for xrow, yrow in zip(xvals, yvals):
        rep = splrep(xrow, yrow)
        l_x.append(rep[0])
        l_y.append(rep[1])
        l_n.append(rep[2])
    return (np.vstack(l_x), np.vstack(l_y), np.vstack(l_n))

class spline_gen(Pdf_rows_gen):
    name = 'spline'
    version = 0
    _support_mask = rv_continuous._support_mask

    def __init__(self, *args, **kwargs):
        splx = kwargs.pop('splx', None)
        sply = kwargs.pop('sply', None)
        spln = kwargs.pop('spln', None)
        if splx is None:
            raise ValueError('splx must be provided')
        if splx.shape != sply.shape:
            raise ValueError('Shape of xvals (%s) != shape of yvals (%s)' % (splx.shape, sply.shape))
        self._xmin = np.min(splx)
        self._xmax = np.max(splx)
        kwargs['shape'] = splx.shape[:-1]
        self._splx = reshape_to_pdf_size(splx, -1)
        self._sply = reshape_to_pdf_size(sply, -1)
        self._spln = reshape_to_pdf_size(spln, -1)
        super().__init__(*args, **kwargs)
        self._addobjdata('splx', self._splx)
        self._addobjdata('sply', self._sply)
        self._addobjdata('spln', self._spln)

    @staticmethod
    def build_normed_splines(xvals, yvals, **kwargs):
        if xvals.shape != yvals.shape:
            raise ValueError('Shape of xvals (%s) != shape of yvals (%s)' % (xvals.shape, yvals.shape))
        xmin = np.min(xvals)
        xmax = np.max(xvals)
        yvals = normalize_spline(xvals, yvals, limits=(xmin, xmax), **kwargs)
        return build_splines(xvals, yvals)

    @classmethod
    def create_from_xy_vals(cls, xvals, yvals, **kwargs):
        splx, sply, spln = spline_gen.build_normed_splines(xvals, yvals, **kwargs)
        gen_obj = cls(splx=splx, sply=sply, spln=spln)
        return gen_obj(**kwargs)

    @classmethod
    def create_from_samples(cls, xvals, samples, **kwargs):
        kdes = build_kdes(samples)
        kwargs.pop('yvals', None)
        yvals = evaluate_kdes(xvals, kdes)
        xvals_expand = (np.expand_dims(xvals, -1) * np.ones(samples.shape[0])).T
        return cls.create_from_xy_vals(xvals_expand, yvals, **kwargs)

    @property
    def splx(self):
        return self._splx

    @property
    def sply(self):
        return self._sply

    @property
    def spln(self):
        return self._spln

    def _pdf(self, x, row):

        def pdf_row(xv, irow):
            return splev(xv, (self._splx[irow], self._sply[irow], self._spln[irow].item()))
        with errstate(all='ignore'):
            vv = np.vectorize(pdf_row)
        return vv(x, row).ravel()

    def _cdf(self, x, row):

        def cdf_row(xv, irow):
            return splint(self._xmin, xv, (self._splx[irow], self._sply[irow], self._spln[irow].item()))
        with errstate(all='ignore'):
            vv = np.vectorize(cdf_row)
        return vv(x, row).ravel()

    def _updated_ctor_param(self):
        dct = super()._updated_ctor_param()
        dct['splx'] = self._splx
        dct['sply'] = self._sply
        dct['spln'] = self._spln
        return dct

    @classmethod
    def get_allocation_kwds(cls, npdf, **kwargs):
        if 'splx' not in kwargs:
            raise ValueError('required argument splx not included in kwargs')
        shape = (npdf, np.shape(kwargs['splx'])[-1])
        return dict(splx=(shape, 'f4'), sply=(shape, 'f4'), spln=((npdf, 1), 'i4'))

    @classmethod
    def plot_native(cls, pdf, **kwargs):
        axes, _, kw = get_axes_and_xlims(**kwargs)
        xvals = pdf.dist.splx[pdf.kwds['row']]
        return plot_pdf_on_axes(axes, pdf, xvals, **kw)

    @classmethod
    def add_mappings(cls):
        cls._add_creation_method(cls.create, None)
        cls._add_creation_method(cls.create_from_xy_vals, 'xy')
        cls._add_creation_method(cls.create_from_samples, 'samples')
        cls._add_extraction_method(extract_xy_vals, 'xy')
        cls._add_extraction_method(extract_samples, 'samples')

    @classmethod
    def make_test_data(cls):
        SPLX, SPLY, SPLN = cls.build_normed_splines(XARRAY, YARRAY)
        cls.test_data = dict(spline=dict(gen_func=spline, ctor_data=dict(splx=SPLX, sply=SPLY, spln=SPLN), test_xvals=TEST_XVALS[::10]), spline_kde=dict(gen_func=spline_from_samples, ctor_data=dict(samples=SAMPLES, xvals=np.linspace(0, 5, 51)), convert_data=dict(xvals=np.linspace(0, 5, 51), method='samples'), test_xvals=TEST_XVALS, atol_diff2=1.0, test_pdf=False), spline_xy=dict(gen_func=spline_from_xy, ctor_data=dict(xvals=XARRAY, yvals=YARRAY), convert_data=dict(xvals=np.linspace(0, 5, 51), method='xy'), test_xvals=TEST_XVALS, test_pdf=False))
spline = spline_gen.create
spline_from_xy = spline_gen.create_from_xy_vals
spline_from_samples = spline_gen.create_from_samples
add_class(spline_gen)
