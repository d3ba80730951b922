"""Reference models for the multi-value containers: functions over a plain dictionary of lists."""
from request_parser.utils.datastructures import MultiValueDictKeyError


def getitem(d, key):
    if key not in d:
        raise MultiValueDictKeyError(key)
    values = d[key]
    if len(values) == 0:
        return []
    return values[-1]


def get(d, key, default=None):
    if key not in d:
        return default
    value = getitem(d, key)
    if value == []:
        return default
    return value


def getlist(d, key, default=None):
    if key in d:
        return list(d[key])
    if default is None:
        return []
    return default


def setitem(d, key, value):
    d[key] = [value]


def setlist(d, key, values):
    if values is None:
        d[key] = []
    elif type(values) is list:
        d[key] = list(values)
    else:
        d[key] = [values]


def setdefault(d, key, default=None):
    if key not in d:
        d[key] = [default]
    return getitem(d, key)


def setlistdefault(d, key, default=None):
    if key not in d:
        setlist(d, key, default)
    return d[key]


def appendlist(d, key, value):
    if key in d:
        d[key].append(value)
    else:
        d[key] = [value]


def update(d, *args, **kwargs):
    if len(args) > 1:
        raise TypeError("too many")
    if args:
        other = args[0]
        for key in other:
            appendlist(d, key, other[key])
    for key in kwargs:
        appendlist(d, key, kwargs[key])


def update_lists(d, other):
    for key in other:
        values = other[key]
        if key in d:
            d[key].extend(values)
        else:
            d[key] = list(values)


def delitem(d, key):
    del d[key]


def pop(d, key, *default):
    return d.pop(key, *default)


def clear(d):
    d.clear()


def contains(d, key):
    return key in d


def keys(d):
    return list(d)


def values(d):
    return [getitem(d, key) for key in d]


def items(d):
    return [(key, getitem(d, key)) for key in d]


def lists(d):
    return [(key, list(d[key])) for key in d]


def as_dict(d):
    out = {}
    for key in d:
        out[key] = getitem(d, key)
    return out
