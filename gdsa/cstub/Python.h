/* Declarations of the part of the Python C API an extension may use, for
   syntactic analysis only: every macro of the real header is a function here. */
#ifndef GDSA_PYTHON_H
#define GDSA_PYTHON_H
#include <cstddef>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#define PY_MAJOR_VERSION 3
#define PY_MINOR_VERSION 12
#define PY_VERSION_HEX 0x030c0000
#define METH_VARARGS 1
#define METH_KEYWORDS 2
#define METH_NOARGS 4
#define METH_O 8
#ifndef M_PI
#define M_PI 3.14159265358979323846
#endif
typedef ptrdiff_t Py_ssize_t;
typedef long Py_hash_t;
struct PyTypeObject;
struct PyObject { Py_ssize_t ob_refcnt; PyTypeObject *ob_type; };
struct PyTypeObject { const char *tp_name; };
struct PyThreadState;
typedef PyObject *(*PyCFunction)(PyObject *, PyObject *);
typedef PyObject *(*PyCFunctionWithKeywords)(PyObject *, PyObject *, PyObject *);
struct PyMethodDef { const char *ml_name; PyCFunction ml_meth; int ml_flags; const char *ml_doc; };
struct PyModuleDef_Base { int x; };
struct PyModuleDef { PyModuleDef_Base m_base; const char *m_name; const char *m_doc; Py_ssize_t m_size; PyMethodDef *m_methods; void *m_slots; void *m_traverse; void *m_clear; void *m_free; };
#define PyModuleDef_HEAD_INIT {0}
#define PyMODINIT_FUNC extern "C" PyObject *
#define PyDoc_STRVAR(n, s) static const char n[] = s
#define PyDoc_STR(s) s
extern "C" {
extern PyObject *PyExc_TypeError, *PyExc_ValueError, *PyExc_RuntimeError, *PyExc_MemoryError, *PyExc_IndexError, *PyExc_Exception, *PyExc_KeyError, *PyExc_OverflowError, *PyExc_SystemError;
extern PyObject *Py_None, *Py_True, *Py_False, *Py_NotImplemented;
void Py_INCREF(PyObject *);
void Py_DECREF(PyObject *);
void Py_XINCREF(PyObject *);
void Py_XDECREF(PyObject *);
PyObject *Py_NewRef(PyObject *);
PyObject *Py_XNewRef(PyObject *);
PyTypeObject *Py_TYPE(PyObject *);
Py_ssize_t Py_REFCNT(PyObject *);
int PyArg_ParseTuple(PyObject *, const char *, ...);
int PyArg_ParseTupleAndKeywords(PyObject *, PyObject *, const char *, char **, ...);
int PyArg_UnpackTuple(PyObject *, const char *, Py_ssize_t, Py_ssize_t, ...);
PyObject *Py_BuildValue(const char *, ...);
PyObject *PyErr_Occurred(void);
void PyErr_SetString(PyObject *, const char *);
PyObject *PyErr_Format(PyObject *, const char *, ...);
void PyErr_SetNone(PyObject *);
PyObject *PyErr_NoMemory(void);
void PyErr_Clear(void);
int PyErr_ExceptionMatches(PyObject *);
int PyErr_WarnEx(PyObject *, const char *, Py_ssize_t);
int PySequence_Check(PyObject *);
Py_ssize_t PySequence_Length(PyObject *);
Py_ssize_t PySequence_Size(PyObject *);
PyObject *PySequence_GetItem(PyObject *, Py_ssize_t);
PyObject *PySequence_ITEM(PyObject *, Py_ssize_t);
PyObject *PySequence_Fast(PyObject *, const char *);
PyObject *PySequence_Fast_GET_ITEM(PyObject *, Py_ssize_t);
Py_ssize_t PySequence_Fast_GET_SIZE(PyObject *);
PyObject **PySequence_Fast_ITEMS(PyObject *);
PyObject *PySequence_List(PyObject *);
PyObject *PySequence_Tuple(PyObject *);
PyObject *PyObject_GetIter(PyObject *);
PyObject *PyIter_Next(PyObject *);
Py_ssize_t PyObject_Length(PyObject *);
Py_ssize_t PyObject_Size(PyObject *);
PyObject *PyObject_GetItem(PyObject *, PyObject *);
PyObject *PyObject_GetAttrString(PyObject *, const char *);
int PyObject_IsTrue(PyObject *);
PyObject *PyObject_Repr(PyObject *);
PyObject *PyObject_Str(PyObject *);
PyObject *PyTuple_New(Py_ssize_t);
void PyTuple_SET_ITEM(PyObject *, Py_ssize_t, PyObject *);
int PyTuple_SetItem(PyObject *, Py_ssize_t, PyObject *);
PyObject *PyTuple_GET_ITEM(PyObject *, Py_ssize_t);
PyObject *PyTuple_GetItem(PyObject *, Py_ssize_t);
Py_ssize_t PyTuple_GET_SIZE(PyObject *);
Py_ssize_t PyTuple_Size(PyObject *);
int PyTuple_Check(PyObject *);
PyObject *PyTuple_Pack(Py_ssize_t, ...);
PyObject *PyList_New(Py_ssize_t);
void PyList_SET_ITEM(PyObject *, Py_ssize_t, PyObject *);
int PyList_SetItem(PyObject *, Py_ssize_t, PyObject *);
PyObject *PyList_GET_ITEM(PyObject *, Py_ssize_t);
PyObject *PyList_GetItem(PyObject *, Py_ssize_t);
Py_ssize_t PyList_GET_SIZE(PyObject *);
Py_ssize_t PyList_Size(PyObject *);
int PyList_Append(PyObject *, PyObject *);
int PyList_Check(PyObject *);
PyObject *PyFloat_FromDouble(double);
double PyFloat_AsDouble(PyObject *);
double PyFloat_AS_DOUBLE(PyObject *);
int PyFloat_Check(PyObject *);
int PyNumber_Check(PyObject *);
PyObject *PyNumber_Float(PyObject *);
PyObject *PyNumber_Long(PyObject *);
PyObject *PyLong_FromLong(long);
PyObject *PyLong_FromLongLong(long long);
PyObject *PyLong_FromUnsignedLong(unsigned long);
PyObject *PyLong_FromSsize_t(Py_ssize_t);
PyObject *PyLong_FromSize_t(size_t);
long PyLong_AsLong(PyObject *);
long long PyLong_AsLongLong(PyObject *);
int PyLong_Check(PyObject *);
PyObject *PyBool_FromLong(long);
int PyBool_Check(PyObject *);
PyObject *PyUnicode_FromString(const char *);
const char *PyUnicode_AsUTF8(PyObject *);
int PyUnicode_Check(PyObject *);
PyObject *PyDict_New(void);
int PyDict_SetItemString(PyObject *, const char *, PyObject *);
PyObject *PyModule_Create(PyModuleDef *);
int PyModule_AddObject(PyObject *, const char *, PyObject *);
int PyModule_AddIntConstant(PyObject *, const char *, long);
void *PyMem_Malloc(size_t);
void *PyMem_Realloc(void *, size_t);
void PyMem_Free(void *);
PyThreadState *PyEval_SaveThread(void);
void PyEval_RestoreThread(PyThreadState *);
}
#define Py_RETURN_NONE return Py_NewRef(Py_None)
#define Py_RETURN_TRUE return Py_NewRef(Py_True)
#define Py_RETURN_FALSE return Py_NewRef(Py_False)
#define Py_BEGIN_ALLOW_THREADS { PyThreadState *_save = PyEval_SaveThread();
#define Py_END_ALLOW_THREADS PyEval_RestoreThread(_save); }
#define Py_CLEAR(op) do { PyObject *_tmp = (PyObject *)(op); if (_tmp != NULL) { (op) = NULL; Py_DECREF(_tmp); } } while (0)
#define PyMem_New(type, n) ((type *)PyMem_Malloc((n) * sizeof(type)))
#endif
