import sys
import os
from collections import OrderedDict
import numpy as np
from scipy import stats as sps
from tables_io import io
from tables_io.types import NUMPY_DICT
from qp.ensemble import Ensemble
from qp.dict_utils import compare_dicts, concatenate_dicts
from qp.pdf_gen import Pdf_gen_wrap

class Factory(OrderedDict):

    def __init__(self):
        super().__init__()
        self._load_scipy_classes()

    @staticmethod
    def _build_data_dict(md_table, data_table):
        data_dict = {}
        for col, col_data in md_table.items():
            ndim = np.ndim(col_data)
            if ndim > 1:
                col_data = np.squeeze(col_data)
                if np.ndim(col_data) == 0:
                    col_data = col_data.item()
            elif ndim == 1:
                col_data = col_data[0]
            if isinstance(col_data, bytes):
                col_data = col_data.decode()
            data_dict[col] = col_data
        for col, col_data in data_table.items():
            if len(col_data.shape) < 2:
                data_dict[col] = np.expand_dims(col_data, -1)
            else:
                data_dict[col] = col_data
        return data_dict

    def _make_scipy_wrapped_class(self, class_name, scipy_class):
        override_dict = dict(name=class_name, version=0, freeze=Pdf_gen_wrap._my_freeze, _other_init=scipy_class.__init__)
        the_class = type(class_name, (Pdf_gen_wrap, scipy_class), override_dict)
        self.add_class(the_class)

    def _load_scipy_classes(self):
        names = sps.__all__
        for name in names:
            attr = getattr(sps, name)
            if isinstance(attr, sps.rv_continuous):
                self._make_scipy_wrapped_class(name, type(attr))

    def add_class(self, the_class):
        if not hasattr(the_class, 'name'):
            raise AttributeError("Can not add class %s to factory because it doesn't have a name attribute" % the_class)
        if the_class.name in self:
            raise KeyError('Class nameed %s is already in factory, point to %s' % (the_class.name, self[the_class.name]))
        the_class.add_method_dicts()
        the_class.add_mappings()
        self[the_class.name] = the_class
        setattr(self, '%s_gen' % the_class.name, the_class)
        setattr(self, the_class.name, the_class.create)

    def create(self, class_name, data, method=None):
        if class_name not in self:
            raise KeyError('Class nameed %s is not in factory' % class_name)
        the_class = self[class_name]
        ctor_func = the_class.creation_method(method)
        return Ensemble(ctor_func, data)

    def from_tables(self, tables):
        md_table = tables['meta']
        data_table = tables['data']
        ancil_table = tables.get('ancil')
        data = self._build_data_dict(md_table, data_table)
        pdf_name = data.pop('pdf_name')
        pdf_version = data.pop('pdf_version')
        if pdf_name not in self:
            raise KeyError('Class nameed %s is not in factory' % pdf_name)
        the_class = self[pdf_name]
        reader_convert = the_class.reader_method(pdf_version)
        ctor_func = the_class.creation_method(None)
        if reader_convert is not None:
            data = reader_convert(data)
        return Ensemble(ctor_func, data=data, ancil=ancil_table)

    def read_metadata(self, filename):
        tables = io.read(filename, NUMPY_DICT, keys=['meta'])
        return tables['meta']

    def is_qp_file(self, filename):
        try:
            tables = io.readNative(filename, keys=['meta'])
            return len(tables['meta']['pdf_name']) > 0
        except Exception as msg:
            print(f'This is not a qp file because {msg}')
        return False

    def read(self, filename):
        _, ext = os.path.splitext(filename)
        if ext in ['.pq']:
            keys = ['data', 'meta', 'ancil']
            allow_missing_keys = True
        else:
            keys = None
            allow_missing_keys = False
        tables = io.read(filename, NUMPY_DICT, keys=keys, allow_missing_keys=allow_missing_keys)
        return self.from_tables(tables)

    def data_length(self, filename):
        f, infp = io.readHdf5Group(filename, 'data')
        try:
            num_rows = io.getGroupInputDataLength(f)
        finally:
            infp.close()
        return num_rows

    def iterator(self, filename, chunk_size=100000, rank=0, parallel_size=1):
        extension = os.path.splitext(filename)[1]
        if extension not in ['.hdf5']:
            raise TypeError('Can only use qp.iterator on hdf5 files')
        metadata = io.readHdf5ToDict(filename, 'meta')
        pdf_name = metadata.pop('pdf_name')[0].decode()
        _pdf_version = metadata.pop('pdf_version')[0]
        if pdf_name not in self:
            raise KeyError('Class nameed %s is not in factory' % pdf_name)
        the_class = self[pdf_name]
        ctor_func = the_class.creation_method(None)
        f, infp = io.readHdf5Group(filename, 'data')
        try:
            ancil_f, ancil_infp = io.readHdf5Group(filename, 'ancil')
        except KeyError:
            ancil_f, ancil_infp = (None, None)
        num_rows = io.getGroupInputDataLength(f)
        ranges = io.data_ranges_by_rank(num_rows, chunk_size, parallel_size, rank)
        try:
            for start, end in ranges:
                data_table = OrderedDict()
                for key, val in f.items():
                    data_table[key] = io.readHdf5DatasetToArray(val, start, end)
                data = self._build_data_dict(metadata, data_table)
                if ancil_f is not None:
                    ancil_data = OrderedDict()
                    for key, val in ancil_f.items():
                        ancil_data[key] = io.readHdf5DatasetToArray(val, start, end)
                else:
                    ancil_data = None
                yield (start, end, Ensemble(ctor_func, data=data, ancil=ancil_data))
        finally:
            infp.close()
            if ancil_infp is not None:
                ancil_infp.close()

    def convert(self, in_dist, class_name, **kwds):
        kwds_copy = kwds.copy()
        method = kwds_copy.pop('method', None)
        if class_name not in self:
            raise KeyError('Class nameed %s is not in factory' % class_name)
        if class_name not in self:
            raise KeyError('Class nameed %s is not in factory' % class_name)
        the_class = self[class_name]
        extract_func = the_class.extraction_method(method)
        if extract_func is None:
            raise KeyError('Class named %s does not have a extraction_method named %s' % (class_name, method))
        data = extract_func(in_dist, **kwds_copy)
        return self.create(class_name, data, method)

    def pretty_print(self, stream=sys.stdout):
        for class_name, cl in self.items():
            stream.write('\n')
            stream.write('%s: %s\n' % (class_name, cl))
            cl.print_method_maps(stream)

    @staticmethod
    def concatenate(ensembles):
        if not ensembles:
            return None
        metadata_list = []
        objdata_list = []
        ancil_list = []
        gen_func = None
        for ensemble in ensembles:
            metadata_list.append(ensemble.metadata())
            objdata_list.append(ensemble.objdata())
            if gen_func is None:
                gen_func = ensemble.gen_obj.create
            if ancil_list is not None:
                if ensemble.ancil is None:
                    ancil_list = None
                else:
                    ancil_list.append(ensemble.ancil)
        if not compare_dicts(metadata_list):
            raise ValueError('Metadata does not match')
        metadata = metadata_list[0]
        data = concatenate_dicts(objdata_list)
        if ancil_list is not None:
            ancil = concatenate_dicts(ancil_list)
        else:
            ancil = None
        for k, v in metadata.items():
            if k in ['pdf_name', 'pdf_version']:
                continue
            data[k] = np.squeeze(v)
        return Ensemble(gen_func, data, ancil)

    @staticmethod
    def write_dict(filename, ensemble_dict, **kwargs):
        output_tables = {}
        for key, val in ensemble_dict.items():
            if not isinstance(val, Ensemble):
                raise ValueError('All values in ensemble_dict must be qp.Ensemble')
            output_tables[key] = val.build_tables()
        io.writeDictsToHdf5(output_tables, filename, **kwargs)

    @staticmethod
    def read_dict(filename):
        results = {}
        top_level_groups = io.readHdf5GroupNames(filename)
        for top_level_group in top_level_groups:
            tables = {}
            keys = io.readHdf5GroupNames(filename, top_level_group)
            for key_name in keys:
                group_object, infp = io.readHdf5Group(filename, f'{top_level_group}/{key_name}')
                try:
                    tables[key_name] = io.readHdf5GroupToDict(group_object)
                finally:
                    infp.close()
            results[top_level_group] = from_tables(tables)
        return results
_FACTORY = Factory()

def instance():
    return _FACTORY
stats = _FACTORY
add_class = _FACTORY.add_class
create = _FACTORY.create
read = _FACTORY.read
read_metadata = _FACTORY.read_metadata
iterator = _FACTORY.iterator
convert = _FACTORY.convert
concatenate = _FACTORY.concatenate
data_length = _FACTORY.data_length
from_tables = _FACTORY.from_tables
is_qp_file = _FACTORY.is_qp_file
write_dict = _FACTORY.write_dict
read_dict = _FACTORY.read_dict
