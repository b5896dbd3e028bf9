import sys
import numpy as np
from numpy import asarray
from scipy.stats import rv_continuous
from scipy.stats._distn_infrastructure import rv_continuous_frozen
from qp.utils import reshape_to_pdf_size, reshape_to_pdf_shape
from qp.dict_utils import get_val_or_default, set_val_or_default, pretty_print
from qp.plotting import plot_dist_pdf

class Pdf_gen:
    _reader_map = {}
    _creation_map = {}
    _extraction_map = {}

    def __init__(self, *args, **kwargs):
        self._metadata = {}
        self._objdata = {}
        self._addclassmetadata(type(self))

    def _addclassmetadata(self, cls):
        self._metadata['pdf_name'] = np.array([cls.name.encode()])
        self._metadata['pdf_version'] = np.array([cls.version])

    def _addmetadata(self, key, val):
        self._metadata[key] = np.expand_dims(val, 0)

    def _addobjdata(self, key, val):
        self._objdata[key] = val

    def _clearobjdata(self):
        self._objdata = {}

    @property
    def metadata(self):
        return self._metadata

    @property
    def objdata(self):
        return self._objdata

    @classmethod
    def creation_method(cls, method=None):
        return get_val_or_default(cls._creation_map, method)

    @classmethod
    def extraction_method(cls, method=None):
        return get_val_or_default(cls._extraction_map, method)

    @classmethod
    def reader_method(cls, version=None):
        return get_val_or_default(cls._reader_map, version)

    @classmethod
    def add_method_dicts(cls):
        cls._reader_map = {}
        cls._creation_map = {}
        cls._extraction_map = {}

    @classmethod
    def _add_creation_method(cls, the_func, method):
        set_val_or_default(cls._creation_map, method, the_func)

    @classmethod
    def _add_extraction_method(cls, the_func, method):
        set_val_or_default(cls._extraction_map, method, the_func)

    @classmethod
    def _add_reader_method(cls, the_func, version):
        set_val_or_default(cls._reader_map, version, the_func)

    @classmethod
    def print_method_maps(cls, stream=sys.stdout):
        pretty_print(cls._creation_map, ['Create  '], stream=stream)
        pretty_print(cls._extraction_map, ['Extract '], stream=stream)
        pretty_print(cls._reader_map, ['Reader  '], stream=stream)

    @classmethod
    def create_gen(cls, **kwds):
        kwds_copy = kwds.copy()
        name = kwds_copy.pop('name', 'dist')
        return (cls(name=name), kwds_copy)

    @classmethod
    def create(cls, **kwds):
        obj, kwds_freeze = cls.create_gen(**kwds)
        return obj(**kwds_freeze)

    @classmethod
    def plot(cls, pdf, **kwargs):
        return plot_dist_pdf(pdf, **kwargs)

    @classmethod
    def plot_native(cls, pdf, **kwargs):
        return plot_dist_pdf(pdf, **kwargs)

    @classmethod
    def get_allocation_kwds(cls, npdf, **kwargs):
        raise NotImplementedError()

class rv_frozen_func(rv_continuous_frozen):

    def __init__(self, dist, *args, **kwds):
        super().__init__(dist, *args, **kwds)
        array_list = [np.array(val) for val in self.kwds.values()]
        bc = np.broadcast(array_list)
        ss = bc.shape
        if len(ss) < 2:
            self._shape = 1
        else:
            self._shape = ss[1:-1]
        self._npdf = np.prod(self._shape).astype(int)
        self._ndim = np.size(self._shape)

    @property
    def ndim(self):
        return self._ndim

    @property
    def shape(self):
        return self._shape

    @property
    def npdf(self):
        return self._npdf

    def histogramize(self, bins):
        cdf_vals = reshape_to_pdf_size(self.cdf(bins), -1)
        bin_vals = cdf_vals[:, 1:] - cdf_vals[:, 0:-1]
        return (bins, reshape_to_pdf_shape(bin_vals, self._shape, bins.size - 1))

class rv_frozen_rows(rv_continuous_frozen):

    def __init__(self, dist, shape, *args, **kwds):
        self._shape = shape
        self._npdf = np.prod(shape).astype(int)
        self._ndim = np.size(shape)
        if self._npdf is not None:
            kwds.setdefault('row', np.expand_dims(np.arange(self._npdf).reshape(self._shape), -1))
        super().__init__(dist, *args, **kwds)

    @property
    def ndim(self):
        return self._ndim

    @property
    def shape(self):
        return self._shape

    @property
    def npdf(self):
        return self._npdf

    def histogramize(self, bins):
        cdf_vals = reshape_to_pdf_size(self.cdf(bins), -1)
        bin_vals = cdf_vals[:, 1:] - cdf_vals[:, 0:-1]
        return (bins, reshape_to_pdf_shape(bin_vals, self._shape, bins.size - 1))

class Pdf_rows_gen(rv_continuous, Pdf_gen):

    def __init__(self, *args, **kwargs):
        self._shape = kwargs.pop('shape', 1)
        self._npdf = np.prod(self._shape).astype(int)
        super().__init__(*args, **kwargs)

    @property
    def shape(self):
        return self._shape

    @property
    def npdf(self):
        return self._npdf

    @staticmethod
    def _sliceargs(x, row, *args):
        if np.size(x) == 1 or np.size(row) == 1:
            return (False, x, row, args)
        xx = np.unique(x)
        rr = np.unique(row)
        if np.size(xx) == np.size(x):
            xx = x
        if np.size(rr) == np.size(row):
            rr = row
        if np.size(xx) * np.size(rr) != np.size(x):
            return (False, x, row, args)
        outargs = [arg[0:np.size(xx)] for arg in args]
        return (True, xx, rr, outargs)

    def _rvs(self, *args, size=None, random_state=None):
        U = random_state.uniform(size=size)
        Y = self._ppf(U, *args)
        if size is None:
            return Y
        return Y.reshape(size)

    def _argcheck(self, *args):
        cond = 1
        if args:
            cond = np.logical_and(cond, np.logical_and(asarray(args[0]) >= 0, asarray(args[0]) < self._npdf))
        return np.atleast_1d(cond)

    def freeze(self, *args, **kwds):
        return rv_frozen_rows(self, self._shape, *args, **kwds)

    @classmethod
    def create_gen(cls, **kwds):
        return (cls(**kwds), {})

    def _scipy_version_warning(self):
        import scipy
        scipy_version = scipy.__version__
        vtuple = scipy_version.split('.')
        if int(vtuple[0]) > 1 or int(vtuple[1]) > 7:
            return
        raise DeprecationWarning(f'Ensemble.moments will not work correctly with scipy version < 1.8.0, you have {scipy_version}')

    def moment(self, n, *args, **kwds):
        self._scipy_version_warning()
        return rv_continuous.moment(self, n, *args, **kwds)

class Pdf_gen_wrap(Pdf_gen):

    def __init__(self, *args, **kwargs):
        super().__init__(*args, **kwargs)
        self._other_init(*args, **kwargs)

    def _my_freeze(self, *args, **kwds):
        return rv_frozen_func(self, *args, **kwds)

    @classmethod
    def get_allocation_kwds(cls, npdf, **kwargs):
        return {key: ((npdf, 1), val.dtype) for key, val in kwargs.items()}

    @classmethod
    def add_mappings(cls):
        cls._add_creation_method(cls.create, None)
