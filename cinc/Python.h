#ifndef VP_PYTHON_H
#define VP_PYTHON_H
/* stand-in declarations: only what the parser of the check needs */
#include <stddef.h>
#include <stdio.h>
#include <string.h>
typedef long Py_ssize_t;
typedef struct _object { long ob_refcnt; } PyObject;
typedef struct _typeobject { long x; } PyTypeObject;
typedef PyObject *(*PyCFunction)(PyObject *, PyObject *);
typedef PyObject *(*PyCFunctionWithKeywords)(PyObject *, PyObject *, PyObject *);
typedef struct { const char *ml_name; PyCFunction ml_meth; int ml_flags; const char *ml_doc; } PyMethodDef;
typedef struct { int x; } PyModuleDef_Base;
struct PyModuleDef { PyModuleDef_Base m_base; const char *m_name; const char *m_doc; Py_ssize_t m_size; PyMethodDef *m_methods; };
#define PyModuleDef_HEAD_INIT {0}
#define PY_MAJOR_VERSION 3
#define METH_VARARGS 1
#define METH_KEYWORDS 2
int PyArg_ParseTupleAndKeywords(PyObject *, PyObject *, const char *, char **, ...);
int PyArg_ParseTuple(PyObject *, const char *, ...);
PyObject *Py_BuildValue(const char *, ...);
PyObject *PyModule_Create(struct PyModuleDef *);
extern PyObject *PyExc_RuntimeError, *PyExc_ValueError, *PyExc_MemoryError, *PyExc_TypeError, *PyExc_IndexError;
void PyErr_SetString(PyObject *, const char *);
PyObject *PyErr_Format(PyObject *, const char *, ...);
PyObject *PyErr_NoMemory(void);
void Py_XDECREF(void *);
void Py_DECREF(void *);
void Py_XINCREF(void *);
void Py_INCREF(void *);
#define Py_BEGIN_ALLOW_THREADS {
#define Py_END_ALLOW_THREADS }
#endif
