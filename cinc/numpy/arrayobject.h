#ifndef VP_NUMPY_H
#define VP_NUMPY_H
#include <Python.h>
typedef long npy_intp;
typedef struct { long x; } PyArrayObject;
enum { NPY_DOUBLE = 12, NPY_ULONG = 8, NPY_LONG = 7, NPY_INT = 5, NPY_FLOAT = 11 };
enum { NPY_ARRAY_IN_ARRAY = 0x101, NPY_ARRAY_INOUT_ARRAY = 0x501, NPY_ARRAY_OUT_ARRAY = 0x501 };
PyObject *PyArray_FROMANY(PyObject *, int, int, int, int);
PyObject *PyArray_SimpleNew(int, npy_intp *, int);
PyObject *PyArray_ZEROS(int, npy_intp *, int, int);
PyObject *PyArray_EMPTY(int, npy_intp *, int, int);
void *PyArray_DATA(PyArrayObject *);
npy_intp PyArray_DIM(PyArrayObject *, int);
npy_intp *PyArray_DIMS(PyArrayObject *);
int PyArray_NDIM(PyArrayObject *);
npy_intp PyArray_SIZE(PyArrayObject *);
#define import_array()
#endif
