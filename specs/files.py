"""Files: what is read from and written to JSON and TSV files.  Look-ups at arbitrary keys."""
import csv
import json
import os
from segeval.data import Dataset, DataIOError, name_from_filepath, load_nested_folders_dict
from segeval.data.jsonutils import input_linear_mass_json, output_linear_mass_json
from segeval.data.tsv import input_linear_mass_tsv, input_linear_positions_tsv
from segeval.format import convert_positions_to_masses


# ------------------------------------------------------------------- JSON
def document(path):
    """What the file holds, if that is a linear segmentation document."""
    if not __isjson__(__text__(path)):
        raise DataIOError('not JSON')
    data = json.loads(__text__(path))
    if 'segmentation_type' not in data:
        raise DataIOError('no type')
    if data['segmentation_type'] != 'linear':
        raise DataIOError('other type')
    if 'items' not in data:
        raise DataIOError('no items')
    return data


@check('C22', strict=True)
def read_code(p: PATH, i: ITEMNAME, c: CODER):
    d = input_linear_mass_json(p)
    return i in d, d.get(i, {}).get(c), c in d.coders


def read_want(p, i, c):
    items = document(p)['items']
    return i in items, items.get(i, {}).get(c), any(c in x for x in items.values())


@check('C22', strict=True)
def read_properties_code(p: PATH, k: PROPKEY):
    d = input_linear_mass_json(p)
    return k in d.properties, d.properties.get(k), d.boundary_format, d.boundary_types


def read_properties_want(p, k):
    data = document(p)
    return k in data and k != 'items', None if k == 'items' else data.get(k), 'mass', set([1])


@check('C22')
def written_code(p: PATH, d: MASSDS):
    output_linear_mass_json(p, d)
    if os.path.isdir(p):
        return __text__(os.path.join(p, 'output.json'))
    return __text__(p)


def written_want(p, d):
    data = dict(d.properties)
    data['segmentation_type'] = 'linear'
    data['items'] = d
    return __jsontext__(data)


@check('C22')
def written_directory_code(p: PATH, d: MASSDS):
    if os.path.isdir(p):
        return None
    output_linear_mass_json(p, d)
    return __text__(os.path.join(p, 'output.json'))


def written_directory_want(p, d):
    if os.path.isdir(p):
        return None
    q = os.path.join(p, 'output.json')
    if q == p:
        output_linear_mass_json(p, d)
    return __text__(q)


@check('C22')
def round_trip_code(p: PATH, d: MASSDS, i: ITEMNAME, c: CODER):
    if os.path.isdir(p):
        return None
    output_linear_mass_json(p, d)
    e = input_linear_mass_json(p)
    return i in e, e.get(i, {}).get(c), c in e.coders


def round_trip_want(p, d, i, c):
    if os.path.isdir(p):
        return None
    return i in d, d.get(i, {}).get(c), any(c in x for x in d.values())


@check('C22')
def round_trip_properties_code(p: PATH, d: MASSDS, k: PROPKEY):
    if os.path.isdir(p):
        return None
    output_linear_mass_json(p, d)
    return input_linear_mass_json(p).properties.get(k)


def round_trip_properties_want(p, d, k):
    if os.path.isdir(p) or k == 'items':
        return None
    if k == 'segmentation_type':
        return 'linear'
    return d.properties.get(k)


@check('C22')
def write_keeps_code(p: PATH, d: MASSDS, i: ITEMNAME, c: CODER, k: PROPKEY):
    a = __fresh__(d)
    output_linear_mass_json(p, a)
    return i in a, a.get(i, {}).get(c), c in a.coders, k in a.properties, a.properties.get(k)


def write_keeps_want(p, d, i, c, k):
    return i in d, d.get(i, {}).get(c), c in d.coders, k in d.properties, d.properties.get(k)


@check('C22')
def rewrite_code(p: PATH, a: MASSDS, b: MASSDS):
    if os.path.isdir(p):
        return None
    output_linear_mass_json(p, a)
    output_linear_mass_json(p, b)
    return __text__(p)


def rewrite_want(p, a, b):
    if os.path.isdir(p):
        return None
    output_linear_mass_json(p, b)
    return __text__(p)


# -------------------------------------------------------------------- TSV


def table(p, delimiter, i, c):
    """What the delimited file p codes for item i and coder c."""
    rows = csv.reader(open(p), delimiter=delimiter)
    if any(len(rows[1 + n]) > 0 and any(len(rows[1 + m]) > 0 and rows[1 + m][0] == rows[1 + n][0] for m in range(n))
           for n in range(len(rows) - 1)):
        raise DataIOError('coder listed twice')
    there = any(len(r) > 0 and r[0] == c for r in rows[1:])
    mine = there and i == name_from_filepath(p)
    return mine, [[int(x) for x in r[1:]] for r in rows[1:] if len(r) > 0 and r[0] == c][0] if mine else None


@check('C23', strict=True, abstract=['itemname'])
def tsv_code(p: PATH, i: ITEMNAME, c: CODER):
    d = input_linear_mass_tsv(p)
    return i in d, c in d.get(i, {}), d.get(i, {}).get(c)


def tsv_want(p, i, c):
    mine, masses = table(p, '\t', i, c)
    return i == name_from_filepath(p), mine, masses


@check('C23', strict=True, abstract=['itemname'])
def tsv_delimiter_code(p: PATH, delimiter: DELIM, i: ITEMNAME, c: CODER):
    d = input_linear_mass_tsv(p, delimiter)
    return c in d.get(i, {}), d.get(i, {}).get(c)


def tsv_delimiter_want(p, delimiter, i, c):
    return table(p, delimiter, i, c)


@check('C23', abstract=['itemname'])
def tsv_coders_code(p: PATH, c: CODER):
    d = input_linear_mass_tsv(p)
    return c in d.coders, d.boundary_format, d.boundary_types


def tsv_coders_want(p, c):
    return table(p, '\t', name_from_filepath(p), c)[0], 'mass', set([1])


@check('C23', strict=True, abstract=['itemname', 'pos2mass'])
def positions_code(p: PATH, i: ITEMNAME, c: CODER):
    d = input_linear_positions_tsv(p)
    return i in d, c in d.get(i, {}), d.get(i, {}).get(c)


def positions_want(p, i, c):
    mine, positions = table(p, '\t', i, c)
    return i == name_from_filepath(p), mine, convert_positions_to_masses(positions) if mine else None


@check('C23', strict=True, abstract=['itemname', 'pos2mass'])
def positions_delimiter_code(p: PATH, delimiter: DELIM, i: ITEMNAME, c: CODER):
    d = input_linear_positions_tsv(p, delimiter)
    return c in d.get(i, {}), d.get(i, {}).get(c), c in d.coders


def positions_delimiter_want(p, delimiter, i, c):
    mine, positions = table(p, delimiter, i, c)
    return mine, convert_positions_to_masses(positions) if mine else None, table(p, delimiter, name_from_filepath(p), c)[0]


@check('C23')
def item_name_code(p: PATH):
    return name_from_filepath(p)


def item_name_want(p):
    name = os.path.split(p)[1]
    return os.path.splitext(name)[0] if len(os.path.splitext(name)[0]) > 0 else name


# ------------------------------------------------------------ directories
EXTENSIONS = {'tsv': ['.tsv', '.csv'], 'json': ['.json', '.jsn']}


def same_kind(kind, filetype):
    return kind == 'tsv' if filetype == 'tsv' else kind == 'json'


def loadable(directory, name, filetype):
    return not os.path.isdir(os.path.join(directory, name)) and os.path.splitext(name)[1].lower() in EXTENSIONS[filetype]


@check('C24', abstract=['loads'])
def files_code(directory: DIR, filetype: FILETYPE, q: ENTRY, kind: FILETYPE, prefix: PREFIX):
    if filetype != 'tsv' and filetype != 'json':
        return None
    d = load_nested_folders_dict(directory, filetype)
    return sum(1 for e in __loaded__(d) if e == ('file', kind, q, prefix))


def files_want(directory, filetype, q, kind, prefix):
    if filetype != 'tsv' and filetype != 'json':
        return None
    return sum(1 for name in os.listdir(directory)
               if loadable(directory, name, filetype) and same_kind(kind, filetype) and os.path.join(directory, name) == q and prefix == [])


@check('C24', abstract=['loads'])
def folders_code(directory: DIR, filetype: FILETYPE, q: ENTRY, kind: FILETYPE, prefix: PREFIX):
    if filetype != 'tsv' and filetype != 'json':
        return None
    d = load_nested_folders_dict(directory, filetype)
    return sum(1 for e in __loaded__(d) if e == ('tree', kind, q, prefix))


def folders_want(directory, filetype, q, kind, prefix):
    if filetype != 'tsv' and filetype != 'json':
        return None
    return sum(1 for name in os.listdir(directory)
               if os.path.isdir(os.path.join(directory, name)) and same_kind(kind, filetype) and os.path.join(directory, name) == q and prefix == [name])


@check('C24', abstract=['loads'])
def files_into_code(directory: DIR, filetype: FILETYPE, pre: STRS, q: ENTRY, kind: FILETYPE, prefix: PREFIX):
    if filetype != 'tsv' and filetype != 'json':
        return None
    d = Dataset()
    e = load_nested_folders_dict(directory, filetype, dataset=d, prepend_item=pre)
    return sum(1 for x in __loaded__(d) if x == ('file', kind, q, prefix)), e is d


def files_into_want(directory, filetype, pre, q, kind, prefix):
    if filetype != 'tsv' and filetype != 'json':
        return None
    return sum(1 for name in os.listdir(directory)
               if loadable(directory, name, filetype) and same_kind(kind, filetype) and os.path.join(directory, name) == q and prefix == pre), True


@check('C24', abstract=['loads'])
def folders_into_code(directory: DIR, filetype: FILETYPE, pre: STRS, q: ENTRY, kind: FILETYPE, prefix: PREFIX):
    if filetype != 'tsv' and filetype != 'json':
        return None
    d = Dataset()
    load_nested_folders_dict(directory, filetype, dataset=d, prepend_item=pre)
    return sum(1 for x in __loaded__(d) if x == ('tree', kind, q, prefix))


def folders_into_want(directory, filetype, pre, q, kind, prefix):
    if filetype != 'tsv' and filetype != 'json':
        return None
    return sum(1 for name in os.listdir(directory)
               if os.path.isdir(os.path.join(directory, name)) and same_kind(kind, filetype) and os.path.join(directory, name) == q and prefix == list(pre) + [name])


@check('C24', abstract=['loads'])
def prefix_kept_code(directory: DIR, filetype: FILETYPE, pre: STRS):
    if filetype != 'tsv' and filetype != 'json':
        return None
    p = list(pre)
    load_nested_folders_dict(directory, filetype, prepend_item=p)
    return p


def prefix_kept_want(directory, filetype, pre):
    if filetype != 'tsv' and filetype != 'json':
        return None
    return list(pre)
