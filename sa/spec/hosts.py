"""Reference models for the host of a request (interpreted abstractly, never run)."""
import re

_HOST = re.compile(r'\A([a-z0-9.-]+|\[[a-f0-9]*:[a-f0-9\.:]+\])(:\d+)?\Z')


def host_port(text):
    """the lower-cased host and the port written in a host[:port], both empty when it is not one"""
    text = text.lower()
    if not _HOST.match(text):
        return '', ''
    if text.endswith(']'):
        return text, ''
    host, colon, port = text.rpartition(':')
    if not colon:
        host, port = text, ''
    if host.endswith('.'):
        host = host[:-1]
    return host, port


_VALID = re.compile(r'\A([a-z0-9.-]+|\[[a-f0-9:.]+\])(:\d*)?\Z')


def valid_host_port(text):
    """the host and the port in a text that is known to hold a valid host, both empty otherwise"""
    if not _VALID.match(text):
        return '', ''
    if text.endswith(']'):
        return text, ''
    host, colon, port = text.rpartition(':')
    if not colon:
        host, port = text, ''
    if host.endswith('.'):
        host = host[:-1]
    return host, port


def scheme_port(scheme, port):
    """(reported scheme, reported port) for the scheme of the URI and the port written there"""
    s = scheme.lower()
    if not port:
        if s == 'https':
            port = 443
        elif s == 'http':
            port = 80
        else:
            port = 65536
    if not scheme:
        return 'UNKNOWN', port
    return s, port
