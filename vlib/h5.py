"""minimal HDF5 reader (ctypes): every numeric dataset of a file as a numpy array"""
import ctypes as C, glob
import numpy as np

_lib = None


def lib():
    global _lib
    if _lib is None:
        p = sorted(glob.glob("/usr/lib/x86_64-linux-gnu/libhdf5_serial.so*")) or sorted(glob.glob("/usr/lib/x86_64-linux-gnu/libhdf5.so*"))
        L = C.CDLL(p[0])
        h = C.c_int64
        for n, r, a in [("H5open", C.c_int, []), ("H5Fopen", h, [C.c_char_p, C.c_uint, h]), ("H5Fclose", C.c_int, [h]), ("H5Oopen", h, [h, C.c_char_p, h]),
                        ("H5Oclose", C.c_int, [h]), ("H5Iget_type", C.c_int, [h]), ("H5Dget_space", h, [h]), ("H5Dget_type", h, [h]),
                        ("H5Sget_simple_extent_ndims", C.c_int, [h]), ("H5Sget_simple_extent_dims", C.c_int, [h, C.c_void_p, C.c_void_p]),
                        ("H5Tget_class", C.c_int, [h]), ("H5Dread", C.c_int, [h, h, h, h, h, C.c_void_p]), ("H5Sclose", C.c_int, [h]),
                        ("H5Tclose", C.c_int, [h]), ("H5Eset_auto2", C.c_int, [h, C.c_void_p, C.c_void_p])]:
            f = getattr(L, n)
            f.restype, f.argtypes = r, a
        L.H5open()
        L.H5Eset_auto2(0, None, None)
        L.CB = C.CFUNCTYPE(C.c_int, h, C.c_char_p, C.c_void_p, C.c_void_p)
        v = getattr(L, "H5Lvisit1", None) or L.H5Lvisit
        v.restype, v.argtypes = C.c_int, [h, C.c_int, C.c_int, L.CB, C.c_void_p]
        L.visit = v
        L.DBL = C.c_int64.in_dll(L, "H5T_NATIVE_DOUBLE_g").value
        _lib = L
    return _lib


def read(path):
    """{dataset path: array}; raises OSError if the file is not a readable HDF5 file"""
    L = lib()
    f = L.H5Fopen(path.encode(), 0, 0)
    if f < 0:
        raise OSError("not an HDF5 file: " + path)
    names = []

    def cb(g, name, info, data):
        names.append(name)
        return 0
    L.visit(f, 0, 2, L.CB(cb), None)
    r = {}
    for n in names:
        o = L.H5Oopen(f, n, 0)
        if o < 0:
            continue
        if L.H5Iget_type(o) == 5:
            s, t = L.H5Dget_space(o), L.H5Dget_type(o)
            nd = L.H5Sget_simple_extent_ndims(s)
            dims = (C.c_uint64 * max(nd, 1))()
            L.H5Sget_simple_extent_dims(s, dims, None)
            if L.H5Tget_class(t) in (0, 1):
                a = np.zeros([int(x) for x in dims[:nd]])
                if a.size and L.H5Dread(o, L.DBL, 0, 0, 0, a.ctypes.data) < 0:
                    raise OSError("cannot read " + n.decode())
                r[n.decode()] = a
            L.H5Sclose(s)
            L.H5Tclose(t)
        L.H5Oclose(o)
    L.H5Fclose(f)
    return r
