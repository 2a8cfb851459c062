"""Counts what the ecCodes library has open, at the boundary of its Python binding."""
import os

NEW = {'codes_handle_new_from_file': 'handle', 'grib_handle_new_from_index': 'handle', 'codes_handle_new_from_index': 'handle', 'grib_handle_new_from_samples': 'handle',
       'codes_handle_new_from_samples': 'handle', 'grib_handle_clone': 'handle', 'grib_handle_clone_headers_only': 'handle', 'grib_handle_new_from_message_copy': 'handle',
       'codes_handle_new_from_message_copy': 'handle', 'grib_index_new_from_file': 'index', 'grib_nearest_new': 'nearest', 'grib_iterator_new': 'iterator',
       'grib_keys_iterator_new': 'keys', 'codes_handle_new_from_message': 'handle', 'grib_handle_new_from_message': 'handle', 'grib_multi_handle_new': 'multi'}
DELETE = {'grib_handle_delete': 'handle', 'codes_handle_delete': 'handle', 'grib_index_delete': 'index', 'grib_nearest_delete': 'nearest', 'grib_iterator_delete': 'iterator',
          'grib_keys_iterator_delete': 'keys', 'grib_multi_handle_delete': 'multi'}


class Library:
    """stands for the library object of gribapi and keeps what is open: address -> kind"""

    def __init__(self, lib, ffi):
        self._lib, self._ffi, self.open, self.made, self.bad = lib, ffi, {}, {}, []

    def _address(self, p):
        try:
            return int(self._ffi.cast('size_t', p))
        except TypeError:
            return None

    def __getattr__(self, name):
        f = getattr(self._lib, name)
        if name in NEW:
            def new(*a):
                p = f(*a)
                k = self._address(p)
                if k:
                    self.open[k] = NEW[name]
                    self.made[NEW[name]] = self.made.get(NEW[name], 0) + 1
                return p
            res = new
        elif name in DELETE:
            def delete(*a):
                k = self._address(a[0])
                if k and self.open.pop(k, None) is None:
                    self.bad.append((name, k))
                return f(*a)
            res = delete
        else:
            res = f
        self.__dict__[name] = res
        return res

    def counts(self):
        res = {}
        for v in self.open.values():
            res[v] = res.get(v, 0) + 1
        return res


def install():
    import gribapi.gribapi as g
    if not isinstance(g.lib, Library):
        g.lib = Library(g.lib, g.ffi)
    return g.lib


def descriptors():
    """what the files and sockets open in this process are"""
    res = []
    for fd in os.listdir('/proc/self/fd'):
        try:
            res.append(os.readlink(f'/proc/self/fd/{fd}'))
        except OSError:
            pass
    return sorted(res)
