import os
import numpy as np
from tables_io import io
from qp.dict_utils import check_array_shapes, compare_dicts, concatenate_dicts, slice_dict
from qp.metrics import quick_moment

class Ensemble:

    def __init__(self, gen_func, data, ancil=None):
        self._gen_func = gen_func
        self._frozen = self._gen_func(**data)
        self._gen_obj = self._frozen.dist
        self._gen_class = type(self._gen_obj)
        self._ancil = None
        self.set_ancil(ancil)
        self._gridded = None
        self._samples = None

    def __getitem__(self, key):
        red_data = {}
        md = self.metadata()
        md.pop('pdf_name')
        md.pop('pdf_version')
        for k, v in md.items():
            red_data[k] = np.squeeze(v)
        dd = slice_dict(self.objdata(), key)
        for k, v in dd.items():
            if len(np.shape(v)) < 2:
                red_data[k] = np.expand_dims(v, 0)
            else:
                red_data[k] = v
        if self._ancil is not None:
            ancil = slice_dict(self._ancil, key)
        else:
            ancil = None
        return Ensemble(self._gen_obj.create, data=red_data, ancil=ancil)

    @property
    def gen_func(self):
        return self._gen_func

    @property
    def gen_class(self):
        return self._gen_class

    @property
    def dist(self):
        return self._gen_obj

    @property
    def kwds(self):
        return self._frozen.kwds

    @property
    def gen_obj(self):
        return self._gen_obj

    @property
    def frozen(self):
        return self._frozen

    @property
    def ndim(self):
        return self._frozen.ndim

    @property
    def shape(self):
        return self._frozen.shape

    @property
    def npdf(self):
        return self._frozen.npdf

    @property
    def ancil(self):
        return self._ancil

    def convert_to(self, to_class, **kwargs):
        kwds = kwargs.copy()
        method = kwds.pop('method', None)
        ctor_func = to_class.creation_method(method)
        class_name = to_class.name
        if ctor_func is None:
            raise KeyError('Class named %s does not have a creation_method named %s' % (class_name, method))
        extract_func = to_class.extraction_method(method)
        if extract_func is None:
            raise KeyError('Class named %s does not have a extraction_method named %s' % (class_name, method))
        data = extract_func(self, **kwds)
        return Ensemble(ctor_func, data=data)

    def update(self, data, ancil=None):
        self._update_frozen(self._gen_func(**data), ancil)

    def _update_frozen(self, frozen, ancil=None):
        check_array_shapes(ancil, frozen.npdf)
        self._frozen = frozen
        self._gen_obj = self._frozen.dist
        self.set_ancil(ancil)
        self._gridded = None
        self._samples = None

    def update_objdata(self, data, ancil=None):
        new_data = {}
        for k, v in self.metadata().items():
            if k in ['pdf_name', 'pdf_version']:
                continue
            new_data[k] = np.squeeze(v)
        new_data.update(self.objdata())
        new_data.update(data)
        self._update_frozen(self._gen_obj.create(**new_data), ancil)

    def metadata(self):
        dd = {}
        dd.update(self._gen_obj.metadata)
        return dd

    def objdata(self):
        dd = {}
        dd.update(self._frozen.kwds)
        dd.pop('row', None)
        dd.update(self._gen_obj.objdata)
        return dd

    def set_ancil(self, ancil):
        check_array_shapes(ancil, self.npdf)
        self._ancil = ancil

    def add_to_ancil(self, to_add):
        check_array_shapes(to_add, self.npdf)
        ancil = {} if self._ancil is None else dict(self._ancil)
        ancil.update(to_add)
        self._ancil = ancil

    def append(self, other_ens):
        if not compare_dicts([self.metadata(), other_ens.metadata()]):
            raise KeyError('Metadata does not match, can not append')
        full_objdata = concatenate_dicts([self.objdata(), other_ens.objdata()])
        if self._ancil is not None and other_ens.ancil is not None:
            full_ancil = concatenate_dicts([self.ancil, other_ens.ancil])
        else:
            full_ancil = None
        self.update_objdata(full_objdata, full_ancil)

    def build_tables(self):
        dd = dict(meta=self.metadata(), data=self.objdata())
        if self.ancil is not None:
            dd['ancil'] = self.ancil
        return dd

    def mode(self, grid):
        new_grid, griddata = self.gridded(grid)
        return np.expand_dims(new_grid[np.argmax(griddata, axis=-1)], -1)

    def gridded(self, grid):
        if self._gridded is None or not np.array_equal(self._gridded[0], grid):
            self._gridded = (np.array(grid), self.pdf(grid))
        return self._gridded

    def write_to(self, filename):
        basename, ext = os.path.splitext(filename)
        tables = self.build_tables()
        io.write(tables, basename, ext[1:])

    def pdf(self, x):
        return self._frozen.pdf(x)

    def logpdf(self, x):
        return self._frozen.logpdf(x)

    def cdf(self, x):
        return self._frozen.cdf(x)

    def logcdf(self, x):
        return self._frozen.logcdf(x)

    def ppf(self, q):
        return self._frozen.ppf(q)

    def sf(self, q):
        return self._frozen.sf(q)

    def logsf(self, q):
        return self._frozen.logsf(q)

    def isf(self, q):
        return self._frozen.isf(q)

    def rvs(self, size=None, random_state=None):
        return self._frozen.rvs(size=(self._frozen.npdf, size), random_state=random_state)

    def stats(self, moments='mv'):
        return self._frozen.stats(moments=moments)

    def median(self):
        return self._frozen.median()

    def mean(self):
        return self._frozen.mean()

    def var(self):
        return self._frozen.var()

    def std(self):
        return self._frozen.std()

    def moment(self, n):
        return self._frozen.moment(n)

    def entropy(self):
        return self._frozen.entropy()

    def interval(self, alpha):
        return self._frozen.interval(alpha)

    def histogramize(self, bins):
        return self._frozen.histogramize(bins)

    def integrate(self, limits):
        return self.cdf(limits[1]) - self.cdf(limits[0])

    def mix_mod_fit(self, comps=5):
        raise NotImplementedError('mix_mod_fit %i' % comps)

    def moment_partial(self, n, limits, dx=0.01):
        D = int((limits[-1] - limits[0]) / dx)
        grid = np.linspace(limits[0], limits[1], D)
        dx = (limits[-1] - limits[0]) / (D - 1)
        P_eval = self.gridded(grid)[1]
        grid_to_n = grid ** n
        return quick_moment(P_eval, grid_to_n, dx)

    def plot(self, key=0, **kwargs):
        return self._gen_class.plot(self[key], **kwargs)

    def plot_native(self, key=0, **kwargs):
        return self._gen_class.plot_native(self[key], **kwargs)

    def _get_allocation_kwds(self, npdf):
        tables = self.build_tables()
        keywords = {}
        for group, tab in tables.items():
            if group != 'meta':
                keywords[group] = {}
                for key, array in tab.items():
                    shape = list(array.shape)
                    shape[0] = npdf
                    keywords[group][key] = (shape, array.dtype)
        return keywords

    def initializeHdf5Write(self, filename, npdf, comm=None):
        kwds = self._get_allocation_kwds(npdf)
        group, fout = io.initializeHdf5Write(filename, comm=comm, **kwds)
        return (group, fout)

    def writeHdf5Chunk(self, fname, start, end):
        odict = self.build_tables().copy()
        odict.pop('meta')
        io.writeDictToHdf5Chunk(fname, odict, start, end)

    def finalizeHdf5Write(self, filename):
        mdata = self.metadata()
        io.finalizeHdf5Write(filename, 'meta', **mdata)
