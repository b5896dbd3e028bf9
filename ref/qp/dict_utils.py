import sys
import numpy as np

def get_val_or_default(in_dict, key):
    if key in in_dict:
        return in_dict[key]
    if None in in_dict:
        return in_dict[None]
    return None

def set_val_or_default(in_dict, key, val):
    if key in in_dict:
        return in_dict[key]
    in_dict[key] = val
    return val

def pretty_print(in_dict, prefixes, idx=0, stream=sys.stdout):
    prefix = prefixes[idx]
    for key, val in in_dict.items():
        if key is None:
            key_str = 'default'
        else:
            key_str = key
        if isinstance(val, dict):
            stream.write('%s%s:\n' % (prefix, key_str))
            pretty_print(val, prefixes, idx + 1, stream)
        else:
            stream.write('%s%s : %s\n' % (prefix, key_str, val))

def print_dict_shape(in_dict):
    for key, val in in_dict.items():
        print(key, np.shape(val))

def slice_dict(in_dict, subslice):
    out_dict = {}
    for key, val in in_dict.items():
        try:
            out_dict[key] = val[subslice]
        except (KeyError, TypeError):
            out_dict[key] = val
    return out_dict

def check_keys(in_dicts):
    if not in_dicts:
        return
    master_keys = in_dicts[0].keys()
    for in_dict in in_dicts[1:]:
        if in_dict.keys() != master_keys:
            raise ValueError('Keys to not match: %s != %s' % (in_dict.keys(), master_keys))

def concatenate_dicts(in_dicts):
    if not in_dicts:
        return {}
    check_keys(in_dicts)
    out_dict = {key: None for key in in_dicts[0].keys()}
    for key in out_dict.keys():
        out_dict[key] = np.concatenate([in_dict[key] for in_dict in in_dicts])
    return out_dict

def check_array_shapes(in_dict, npdf):
    if in_dict is None:
        return
    for key, val in in_dict.items():
        if np.size(val) == 1 and npdf == 1:
            continue
        if np.shape(val)[0] != npdf:
            raise ValueError('First dimension of array %s does not match npdf: %i != %i' % (key, np.shape(val)[0], npdf))

def compare_two_dicts(d1, d2):
    if d1.keys() != d2.keys():
        return False
    for k, v in d1.items():
        vv = d2[k]
        try:
            if v != vv:
                return False
        except ValueError:
            if not np.allclose(v, vv):
                return False
    return True

def compare_dicts(in_dicts):
    if not in_dicts:
        return True
    first_dict = in_dicts[0]
    for in_dict in in_dicts[1:]:
        if not compare_two_dicts(first_dict, in_dict):
            return False
    return True
