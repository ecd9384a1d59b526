/* Declarations of the NumPy C API, used only to parse extension modules for
 * verification. */
#ifndef VC_ARRAYOBJECT_H
#define VC_ARRAYOBJECT_H
#include <Python.h>
typedef Py_ssize_t npy_intp;
typedef size_t npy_uintp;
typedef double npy_double;
typedef unsigned char npy_bool;
typedef struct tagPyArrayObject { Py_ssize_t ob_refcnt; char *data; int nd; npy_intp *dimensions; npy_intp *strides;
    PyObject *base; void *descr; int flags; } PyArrayObject;
extern PyTypeObject PyArray_Type;
enum NPY_TYPES { NPY_BOOL = 0, NPY_BYTE, NPY_UBYTE, NPY_SHORT, NPY_USHORT, NPY_INT, NPY_UINT, NPY_LONG, NPY_ULONG,
    NPY_LONGLONG, NPY_ULONGLONG, NPY_FLOAT, NPY_DOUBLE, NPY_LONGDOUBLE };
#define NPY_FLOAT64 NPY_DOUBLE
#define NPY_FLOAT32 NPY_FLOAT
#define NPY_INT64 NPY_LONG
#define NPY_INT32 NPY_INT
#define NPY_ARRAY_C_CONTIGUOUS 0x0001
#define NPY_ARRAY_F_CONTIGUOUS 0x0002
#define NPY_ARRAY_OWNDATA 0x0004
#define NPY_ARRAY_FORCECAST 0x0010
#define NPY_ARRAY_ENSURECOPY 0x0020
#define NPY_ARRAY_ENSUREARRAY 0x0040
#define NPY_ARRAY_ALIGNED 0x0100
#define NPY_ARRAY_NOTSWAPPED 0x0200
#define NPY_ARRAY_WRITEABLE 0x0400
#define NPY_ARRAY_BEHAVED (NPY_ARRAY_ALIGNED | NPY_ARRAY_WRITEABLE)
#define NPY_ARRAY_CARRAY (NPY_ARRAY_C_CONTIGUOUS | NPY_ARRAY_BEHAVED)
#define NPY_ARRAY_CARRAY_RO (NPY_ARRAY_C_CONTIGUOUS | NPY_ARRAY_ALIGNED)
#define NPY_ARRAY_FARRAY (NPY_ARRAY_F_CONTIGUOUS | NPY_ARRAY_BEHAVED)
#define NPY_ARRAY_FARRAY_RO (NPY_ARRAY_F_CONTIGUOUS | NPY_ARRAY_ALIGNED)
#define NPY_ARRAY_DEFAULT NPY_ARRAY_CARRAY
#define NPY_ARRAY_IN_ARRAY NPY_ARRAY_CARRAY_RO
#define NPY_ARRAY_OUT_ARRAY NPY_ARRAY_CARRAY
#define NPY_ARRAY_INOUT_ARRAY NPY_ARRAY_CARRAY
#define NPY_ARRAY_IN_FARRAY NPY_ARRAY_FARRAY_RO
#define NPY_IN_ARRAY NPY_ARRAY_IN_ARRAY
int _import_array(void);
#define import_array() _import_array()
PyObject *vc_from_otf(PyObject *, int, int);
#define PyArray_FROM_OTF(o, t, f) vc_from_otf((PyObject *)(o), t, f)
#define PyArray_FROMANY(o, t, mn, mx, f) vc_from_any((PyObject *)(o), t, mn, mx, f)
PyObject *vc_from_any(PyObject *, int, int, int, int);
#define PyArray_ContiguousFromAny(o, t, mn, mx) vc_from_any((PyObject *)(o), t, mn, mx, NPY_ARRAY_DEFAULT)
PyObject *vc_zeros(int, const npy_intp *, int, int);
PyObject *vc_empty(int, const npy_intp *, int, int);
#define PyArray_ZEROS(m, d, t, f) vc_zeros(m, d, t, f)
#define PyArray_EMPTY(m, d, t, f) vc_empty(m, d, t, f)
#define PyArray_SimpleNew(m, d, t) vc_empty(m, d, t, 0)
PyObject *PyArray_Return(PyArrayObject *);
int vc_ndim(const PyArrayObject *);
npy_intp *vc_dims(const PyArrayObject *);
npy_intp vc_dim(const PyArrayObject *, int);
npy_intp vc_stride(const PyArrayObject *, int);
void *vc_data(const PyArrayObject *);
int vc_type(const PyArrayObject *);
npy_intp vc_size(const PyArrayObject *);
int vc_check(const PyObject *);
#define PyArray_NDIM(a) vc_ndim((const PyArrayObject *)(a))
#define PyArray_DIMS(a) vc_dims((const PyArrayObject *)(a))
#define PyArray_SHAPE(a) vc_dims((const PyArrayObject *)(a))
#define PyArray_DIM(a, i) vc_dim((const PyArrayObject *)(a), i)
#define PyArray_STRIDE(a, i) vc_stride((const PyArrayObject *)(a), i)
#define PyArray_DATA(a) vc_data((const PyArrayObject *)(a))
#define PyArray_BYTES(a) ((char *)vc_data((const PyArrayObject *)(a)))
#define PyArray_TYPE(a) vc_type((const PyArrayObject *)(a))
#define PyArray_SIZE(a) vc_size((const PyArrayObject *)(a))
#define PyArray_Check(a) vc_check((const PyObject *)(a))
#define PyArray_GETPTR2(a, i, j) vc_getptr2((const PyArrayObject *)(a), i, j)
void *vc_getptr2(const PyArrayObject *, npy_intp, npy_intp);
#endif
