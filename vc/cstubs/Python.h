/* Declarations of the CPython API, used only to parse extension modules for
 * verification (no macros with hidden behaviour: every API call is a call). */
#ifndef VC_PYTHON_H
#define VC_PYTHON_H
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include <limits.h>
#include <float.h>
#include <errno.h>
#include <assert.h>
#define PY_VERSION_HEX 0x030C03F0
#define PY_MAJOR_VERSION 3
#define PY_MINOR_VERSION 12
typedef long Py_ssize_t;
typedef struct _object { Py_ssize_t ob_refcnt; } PyObject;
typedef struct _typeobject { Py_ssize_t ob_refcnt; } PyTypeObject;
typedef PyObject *(*PyCFunction)(PyObject *, PyObject *);
typedef struct PyMethodDef { const char *ml_name; PyCFunction ml_meth; int ml_flags; const char *ml_doc; } PyMethodDef;
typedef struct PyModuleDef_Base { int dummy; } PyModuleDef_Base;
typedef struct PyModuleDef { PyModuleDef_Base m_base; const char *m_name; const char *m_doc; Py_ssize_t m_size;
    PyMethodDef *m_methods; void *m_slots; void *m_traverse; void *m_clear; void *m_free; } PyModuleDef;
#define PyModuleDef_HEAD_INIT {0}
#define PyMODINIT_FUNC PyObject *
#define METH_VARARGS 1
#define METH_KEYWORDS 2
#define METH_NOARGS 4
#define METH_O 8
extern PyObject *PyExc_ValueError, *PyExc_TypeError, *PyExc_MemoryError, *PyExc_RuntimeError, *PyExc_IndexError,
    *PyExc_OverflowError, *PyExc_Exception, *PyExc_ImportError;
extern PyObject _Py_NoneStruct;
#define Py_None (&_Py_NoneStruct)
int PyArg_ParseTuple(PyObject *, const char *, ...);
PyObject *Py_BuildValue(const char *, ...);
PyObject *PyTuple_Pack(Py_ssize_t, ...);
PyObject *PyTuple_New(Py_ssize_t);
int PyTuple_SetItem(PyObject *, Py_ssize_t, PyObject *);
#define PyTuple_SET_ITEM(a, b, c) PyTuple_SetItem((PyObject *)(a), b, (PyObject *)(c))
void PyErr_SetString(PyObject *, const char *);
PyObject *PyErr_Format(PyObject *, const char *, ...);
PyObject *PyErr_NoMemory(void);
PyObject *PyErr_Occurred(void);
void vc_incref(void *), vc_decref(void *), vc_xdecref(void *), vc_xincref(void *);
#define Py_INCREF(o) vc_incref((void *)(o))
#define Py_DECREF(o) vc_decref((void *)(o))
#define Py_XDECREF(o) vc_xdecref((void *)(o))
#define Py_XINCREF(o) vc_xincref((void *)(o))
#define Py_CLEAR(o) do { vc_xdecref((void *)(o)); (o) = 0; } while (0)
PyObject *PyModule_Create(PyModuleDef *);
void *PyMem_Malloc(size_t); void *PyMem_Calloc(size_t, size_t); void PyMem_Free(void *);
void *PyMem_RawMalloc(size_t); void PyMem_RawFree(void *);
#define PyMem_New(T, n) ((T *)PyMem_Malloc((size_t)(n) * sizeof(T)))
#define PyMem_Del PyMem_Free
#define Py_UNUSED(x) x
#define Py_RETURN_NONE return Py_None
#define Py_BEGIN_ALLOW_THREADS {
#define Py_END_ALLOW_THREADS }
#endif
