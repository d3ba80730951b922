"""Reference model of splitting at a boundary."""


def boundary(data, b):
    """(what is before the boundary, without its line break; what is behind it), or None without a boundary"""
    i = data.find(b)
    if i < 0:
        return None
    end = i
    if end > 0 and data[end - 1:end] == '\n':
        end = end - 1
    if end > 0 and data[end - 1:end] == '\r':
        end = end - 1
    return data[:end], data[i + len(b):]
