import numpy as np
from scipy import stats as sps
from scipy.stats import rv_continuous
from qp.conversion_funcs import extract_mixmod_fit_samples
from qp.factory import add_class
from qp.pdf_gen import Pdf_rows_gen
from qp.test_data import MEAN_MIXMOD, STD_MIXMOD, TEST_XVALS, WEIGHT_MIXMOD
from qp.utils import interpolate_multi_x_y, reshape_to_pdf_size

class mixmod_gen(Pdf_rows_gen):
    name = 'mixmod'
    version = 0
    _support_mask = rv_continuous._support_mask

    def __init__(self, means, stds, weights, *args, **kwargs):
        self._scipy_version_warning()
        self._means = reshape_to_pdf_size(means, -1)
        self._stds = reshape_to_pdf_size(stds, -1)
        self._weights = reshape_to_pdf_size(weights, -1)
        kwargs['shape'] = means.shape[:-1]
        self._ncomps = means.shape[-1]
        super().__init__(*args, **kwargs)
        if np.any(self._weights < 0):
            raise ValueError('All weights need to be larger than zero')
        self._weights = self._weights / self._weights.sum(axis=1)[:, None]
        self._addobjdata('weights', self._weights)
        self._addobjdata('stds', self._stds)
        self._addobjdata('means', self._means)

    def _scipy_version_warning(self):
        import scipy
        scipy_version = scipy.__version__
        vtuple = scipy_version.split('.')
        if int(vtuple[0]) > 1 or int(vtuple[1]) > 7:
            return
        raise DeprecationWarning(f'Mixmod_gen will not work correctly with scipy version < 1.8.0, you have {scipy_version}')

    @property
    def weights(self):
        return self._weights

    @property
    def means(self):
        return self._means

    @property
    def stds(self):
        return self._stds

    def _pdf(self, x, row):
        if np.ndim(x) > 1:
            x = np.expand_dims(x, -2)
        return (self.weights[row].swapaxes(-2, -1) * sps.norm(loc=self._means[row].swapaxes(-2, -1), scale=self._stds[row].swapaxes(-2, -1)).pdf(x)).sum(axis=0)

    def _cdf(self, x, row):
        if np.ndim(x) > 1:
            x = np.expand_dims(x, -2)
        return (self.weights[row].swapaxes(-2, -1) * sps.norm(loc=self._means[row].swapaxes(-2, -1), scale=self._stds[row].swapaxes(-2, -1)).cdf(x)).sum(axis=0)

    def _ppf(self, x, row):
        min_val = np.min(self._means - 6 * self._stds)
        max_val = np.max(self._means + 6 * self._stds)
        grid = np.linspace(min_val, max_val, 201)
        rows, table_row = np.unique(row, return_inverse=True)
        cdf_vals = self.cdf(grid, np.expand_dims(rows, -1))
        return interpolate_multi_x_y(x, table_row.reshape(np.shape(row)), cdf_vals, grid, bounds_error=False, fill_value=(min_val, max_val)).ravel()

    def _updated_ctor_param(self):
        dct = super()._updated_ctor_param()
        dct['means'] = self._means
        dct['stds'] = self._stds
        dct['weights'] = self._weights
        return dct

    @classmethod
    def get_allocation_kwds(cls, npdf, **kwargs):
        if 'means' not in kwargs:
            raise ValueError('required argument means not included in kwargs')
        ncomp = np.shape(kwargs['means'])[-1]
        return dict(means=((npdf, ncomp), 'f4'), stds=((npdf, ncomp), 'f4'), weights=((npdf, ncomp), 'f4'))

    @classmethod
    def add_mappings(cls):
        cls._add_creation_method(cls.create, None)
        cls._add_extraction_method(extract_mixmod_fit_samples, None)

    @classmethod
    def make_test_data(cls):
        cls.test_data = dict(mixmod=dict(gen_func=mixmod, ctor_data=dict(weights=WEIGHT_MIXMOD, means=MEAN_MIXMOD, stds=STD_MIXMOD), convert_data={}, test_xvals=TEST_XVALS, atol_diff2=1.0))
mixmod = mixmod_gen.create
add_class(mixmod_gen)
