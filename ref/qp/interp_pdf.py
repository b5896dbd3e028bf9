import numpy as np
from scipy.stats import rv_continuous
from qp.conversion_funcs import extract_vals_at_x, extract_xy_sparse, extract_xy_vals
from qp.factory import add_class
from qp.pdf_gen import Pdf_rows_gen
from qp.plotting import get_axes_and_xlims, plot_pdf_on_axes
from qp.test_data import TEST_XVALS, XARRAY, XBINS, YARRAY
from qp.utils import interpolate_multi_x_multi_y, interpolate_multi_x_y, interpolate_x_multi_y, normalize_interp1d, reshape_to_pdf_size

class interp_gen(Pdf_rows_gen):
    name = 'interp'
    version = 0
    _support_mask = rv_continuous._support_mask

    def __init__(self, xvals, yvals, *args, **kwargs):
        if np.size(xvals) != np.shape(yvals)[-1]:
            raise ValueError('Shape of xbins in xvals (%s) != shape of xbins in yvals (%s)' % (np.size(xvals), np.shape(yvals)[-1]))
        self._xvals = np.asarray(xvals)
        self._xmin = self._xvals[0]
        self._xmax = self._xvals[-1]
        kwargs['shape'] = np.shape(yvals)[:-1]
        self._yvals = reshape_to_pdf_size(yvals, -1)
        self._check_input = kwargs.pop('check_input', True)
        if self._check_input:
            self._compute_ycumul()
            self._yvals = (self._yvals.T / self._ycumul[:, -1]).T
            self._ycumul = (self._ycumul.T / self._ycumul[:, -1]).T
        else:
            self._ycumul = None
        super().__init__(*args, **kwargs)
        self._addmetadata('xvals', self._xvals)
        self._addmetadata('check_input', self._check_input)
        self._addobjdata('yvals', self._yvals)

    def _compute_ycumul(self):
        copy_shape = np.array(self._yvals.shape)
        self._ycumul = np.ndarray(copy_shape)
        self._ycumul[:, 0] = 0.5 * self._yvals[:, 0] * (self._xvals[1] - self._xvals[0])
        self._ycumul[:, 1:] = np.cumsum((self._xvals[1:] - self._xvals[:-1]) * 0.5 * np.add(self._yvals[:, 1:], self._yvals[:, :-1]), axis=1)

    @property
    def xvals(self):
        return self._xvals

    @property
    def yvals(self):
        return self._yvals

    def _pdf(self, x, row):
        return interpolate_x_multi_y(x, row, self._xvals, self._yvals, bounds_error=False, fill_value=0.0).ravel()

    def _cdf(self, x, row):
        if self._ycumul is None:
            self._compute_ycumul()
        return interpolate_x_multi_y(x, row, self._xvals, self._ycumul, bounds_error=False, fill_value=(0.0, 1.0)).ravel()

    def _ppf(self, x, row):
        if self._ycumul is None:
            self._compute_ycumul()
        return interpolate_multi_x_y(x, row, self._ycumul, self._xvals, bounds_error=False, fill_value=(self._xmin, self._xmax)).ravel()

    def _munp(self, m, *args):
        with np.errstate(all='ignore'):
            vals = self.custom_generic_moment(m)
        return vals

    def custom_generic_moment(self, m):
        m = np.asarray(m)
        dx = np.gradient(self._xvals)
        return np.sum(self._xvals ** m * self._yvals * dx, axis=1)

    def _updated_ctor_param(self):
        dct = super()._updated_ctor_param()
        dct['xvals'] = self._xvals
        dct['yvals'] = self._yvals
        dct['check_input'] = self._check_input
        return dct

    @classmethod
    def get_allocation_kwds(cls, npdf, **kwargs):
        if 'xvals' not in kwargs:
            raise ValueError('required argument xvals not included in kwargs')
        ngrid = np.shape(kwargs['xvals'])[-1]
        return dict(yvals=((npdf, ngrid), 'f4'))

    @classmethod
    def plot_native(cls, pdf, **kwargs):
        axes, _, kw = get_axes_and_xlims(**kwargs)
        return plot_pdf_on_axes(axes, pdf, pdf.dist.xvals, **kw)

    @classmethod
    def add_mappings(cls):
        cls._add_creation_method(cls.create, None)
        cls._add_extraction_method(extract_vals_at_x, None)

    @classmethod
    def make_test_data(cls):
        cls.test_data = dict(interp=dict(gen_func=interp, ctor_data=dict(xvals=XBINS, yvals=YARRAY), convert_data=dict(xvals=XBINS), test_xvals=TEST_XVALS))
interp = interp_gen.create

class interp_irregular_gen(Pdf_rows_gen):
    name = 'interp_irregular'
    version = 0
    _support_mask = rv_continuous._support_mask

    def __init__(self, xvals, yvals, *args, **kwargs):
        if np.shape(xvals) != np.shape(yvals):
            raise ValueError('Shape of xvals (%s) != shape of yvals (%s)' % (np.shape(xvals), np.shape(yvals)))
        self._xvals = reshape_to_pdf_size(xvals, -1)
        self._xmin = np.min(self._xvals)
        self._xmax = np.max(self._xvals)
        kwargs['shape'] = np.shape(xvals)[:-1]
        self._check_input = kwargs.pop('check_input', True)
        self._yvals = reshape_to_pdf_size(yvals, -1)
        if self._check_input:
            self._yvals = normalize_interp1d(self._xvals, self._yvals)
        self._ycumul = None
        super().__init__(*args, **kwargs)
        self._addmetadata('check_input', self._check_input)
        self._addobjdata('xvals', self._xvals)
        self._addobjdata('yvals', self._yvals)

    def _compute_ycumul(self):
        copy_shape = np.array(self._yvals.shape)
        self._ycumul = np.ndarray(copy_shape)
        self._ycumul[:, 0] = 0.0
        self._ycumul[:, 1:] = np.cumsum(self._xvals[:, 1:] * self._yvals[:, 1:] - self._xvals[:, :-1] * self._yvals[:, 1:], axis=1)

    @property
    def xvals(self):
        return self._xvals

    @property
    def yvals(self):
        return self._yvals

    def _pdf(self, x, row):
        return interpolate_multi_x_multi_y(x, row, self._xvals, self._yvals, bounds_error=False, fill_value=0.0).ravel()

    def _cdf(self, x, row):
        if self._ycumul is None:
            self._compute_ycumul()
        return interpolate_multi_x_multi_y(x, row, self._xvals, self._ycumul, bounds_error=False, fill_value=(0.0, 1.0)).ravel()

    def _ppf(self, x, row):
        if self._ycumul is None:
            self._compute_ycumul()
        return interpolate_multi_x_multi_y(x, row, self._ycumul, self._xvals, bounds_error=False, fill_value=(self._xmin, self._xmax)).ravel()

    def _updated_ctor_param(self):
        dct = super()._updated_ctor_param()
        dct['xvals'] = self._xvals
        dct['yvals'] = self._yvals
        dct['check_input'] = self._check_input
        return dct

    @classmethod
    def get_allocation_kwds(cls, npdf, **kwargs):
        if 'xvals' not in kwargs:
            raise ValueError('required argument xvals not included in kwargs')
        ngrid = np.shape(kwargs['xvals'])[-1]
        return dict(xvals=((npdf, ngrid), 'f4'), yvals=((npdf, ngrid), 'f4'))

    @classmethod
    def plot_native(cls, pdf, **kwargs):
        axes, _, kw = get_axes_and_xlims(**kwargs)
        xvals_row = pdf.dist.xvals
        return plot_pdf_on_axes(axes, pdf, xvals_row, **kw)

    @classmethod
    def add_mappings(cls):
        cls._add_creation_method(cls.create, None)
        cls._add_extraction_method(extract_xy_vals, None)
        cls._add_extraction_method(extract_xy_sparse, None)

    @classmethod
    def make_test_data(cls):
        cls.test_data = dict(interp_irregular=dict(gen_func=interp_irregular, ctor_data=dict(xvals=XARRAY, yvals=YARRAY), convert_data=dict(xvals=XBINS), test_xvals=TEST_XVALS))
interp_irregular = interp_irregular_gen.create
add_class(interp_gen)
add_class(interp_irregular_gen)
