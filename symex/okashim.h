/* okascore.c is compiled once more with this in front: a ledger of the
   references the C code owns, and calls that can be made to fail. */
#include "Python.h"

#define VP_MAX 4096
static PyObject *vp_obj[VP_MAX];
static long vp_own[VP_MAX], vp_doomed[VP_MAX];	/* doomed: references of dead tuples */
static int vp_n, vp_calls, vp_at;
static char vp_msg[256];

static int vp_immortal(PyObject *o) { return _Py_IsImmortal(o); }

static void vp_note(const char *s) { if (!vp_msg[0]) { strncpy(vp_msg, s, sizeof(vp_msg) - 1); } }

static int vp_find(PyObject *o)
{
	int k;
	for (k = 0; k < vp_n; k++)
		if (vp_obj[k] == o)
			return k;
	return -1;
}

static int vp_entry(PyObject *o)
{
	int k = vp_find(o);
	if (k < 0 && vp_n < VP_MAX) {
		k = vp_n++;
		vp_obj[k] = o;
		vp_own[k] = vp_doomed[k] = 0;
		Py_INCREF(o);	/* nothing is deallocated during the call */
	}
	return k;
}

/* would be deallocated if there were no ledger */
static int vp_dead(PyObject *o)
{
	int k;
	if (o == NULL || vp_immortal(o))
		return 0;
	k = vp_find(o);
	return k >= 0 && Py_REFCNT(o) <= 1 + vp_doomed[k];
}

static PyObject *vp_new(PyObject *o)
{
	if (o != NULL && !vp_immortal(o)) {
		int k = vp_entry(o);
		if (k >= 0)
			vp_own[k]++;
	}
	return o;
}

static PyObject *vp_use(PyObject *o)
{
	static PyObject *stand_in;
	if (o == NULL) {
		vp_note("NULL is passed to the C API");
		if (stand_in == NULL)
			stand_in = PyTuple_Pack(2, Py_None, Py_None);
		return stand_in;
	}
	if (vp_dead(o))
		vp_note("a freed object is used");
	return o;
}

static void vp_incref(PyObject *o)
{
	vp_use(o);
	if (o != NULL) {
		Py_INCREF(o);
		vp_new(o);
	}
}

static void vp_decref(PyObject *o)
{
	int k;
	if (o == NULL) {
		vp_note("a reference to NULL is released");
		return;
	}
	if (vp_immortal(o))
		return;
	k = vp_entry(o);
	if (k < 0)
		return;
	if (vp_own[k] <= 0) {
		vp_note("a reference too much is released");
		return;
	}
	vp_own[k]--;
	Py_DECREF(o);
	if (PyTuple_CheckExact(o) && Py_REFCNT(o) == 1) {
		/* only the ledger keeps the tuple, and with it its items */
		Py_ssize_t i;
		for (i = 0; i < PyTuple_GET_SIZE(o); i++) {
			PyObject *x = PyTuple_GET_ITEM(o, i);
			if (!vp_immortal(x) && (k = vp_entry(x)) >= 0)
				vp_doomed[k]++;
		}
	}
}

static void vp_xdecref(PyObject *o) { if (o != NULL) vp_decref(o); }
static void vp_xincref(PyObject *o) { if (o != NULL) vp_incref(o); }
static PyObject *vp_newref(PyObject *o) { vp_incref(o); return o; }

static int vp_inject(void)
{
	if (++vp_calls == vp_at) {
		PyErr_SetString(PyExc_MemoryError, "injected");
		return 1;
	}
	return 0;
}

static PyObject *vp_seqitem(PyObject *o, Py_ssize_t i)
{ vp_use(o); return vp_inject() || !o ? NULL : vp_new(PySequence_GetItem(o, i)); }
static PyObject *vp_getitem(PyObject *o, PyObject *k)
{ vp_use(o); vp_use(k); return vp_inject() || !o || !k ? NULL : vp_new(PyObject_GetItem(o, k)); }
static int vp_setitem(PyObject *o, PyObject *k, PyObject *v)
{ vp_use(o); vp_use(k); vp_use(v); return vp_inject() || !o || !k || !v ? -1 : PyObject_SetItem(o, k, v); }
static PyObject *vp_float(double x)
{ return vp_inject() ? NULL : vp_new(PyFloat_FromDouble(x)); }
static Py_ssize_t vp_size(PyObject *o)
{ vp_use(o); return vp_inject() || !o ? -1 : PyObject_Size(o); }
static double vp_asdouble(PyObject *o)
{ vp_use(o); return o ? PyFloat_AsDouble(o) : -1.0; }

__attribute__((visibility("default"))) void vp_begin(int at)
{ vp_n = vp_calls = 0; vp_at = at; vp_msg[0] = 0; }

/* to be called after the call, its result still alive */
__attribute__((visibility("default"))) const char *vp_end(PyObject *result)
{
	int k;
	for (k = 0; k < vp_n; k++) {
		PyObject *o = vp_obj[k];
		vp_own[k] -= o == result;
		if (vp_own[k] > 0)
			vp_note("a reference is leaked");
		else if (vp_own[k] < 0)
			vp_note("a reference too much is released");
		Py_DECREF(o);
	}
	vp_n = 0;
	return vp_msg;
}
__attribute__((visibility("default"))) int vp_count(void) { return vp_calls; }

#undef Py_INCREF
#undef Py_DECREF
#undef Py_XINCREF
#undef Py_XDECREF
#undef Py_NewRef
#undef Py_XNewRef
#undef Py_CLEAR
#undef Py_SETREF
#undef Py_XSETREF
#define Py_INCREF(o) vp_incref((PyObject *)(o))
#define Py_DECREF(o) vp_decref((PyObject *)(o))
#define Py_XINCREF(o) vp_xincref((PyObject *)(o))
#define Py_XDECREF(o) vp_xdecref((PyObject *)(o))
#define Py_NewRef(o) vp_newref((PyObject *)(o))
#define Py_XNewRef(o) ((o) ? vp_newref((PyObject *)(o)) : NULL)
#define Py_CLEAR(o) do { PyObject *vp_t = (PyObject *)(o); (o) = NULL; vp_xdecref(vp_t); } while (0)
#define Py_SETREF(o, n) do { PyObject *vp_t = (PyObject *)(o); (o) = (n); vp_decref(vp_t); } while (0)
#define Py_XSETREF(o, n) do { PyObject *vp_t = (PyObject *)(o); (o) = (n); vp_xdecref(vp_t); } while (0)
#define Py_IncRef(o) vp_xincref(o)
#define Py_DecRef(o) vp_xdecref(o)
#undef PyObject_Length
#undef PySequence_Length
#undef PyTuple_GET_ITEM
#undef PyTuple_CheckExact
#undef PyTuple_Check
#define PyTuple_CheckExact(o) Py_IS_TYPE(vp_use((PyObject *)(o)), &PyTuple_Type)
#define PyTuple_Check(o) PyType_HasFeature(Py_TYPE(vp_use((PyObject *)(o))), Py_TPFLAGS_TUPLE_SUBCLASS)
#undef PyTuple_GET_SIZE
#define PyTuple_GET_ITEM(o, i) (((PyTupleObject *)vp_use((PyObject *)(o)))->ob_item[i])
#define PyTuple_GET_SIZE(o) Py_SIZE(vp_use((PyObject *)(o)))
#undef PySequence_ITEM
#define PySequence_GetItem(o, i) vp_seqitem((PyObject *)(o), i)
#define PySequence_ITEM(o, i) vp_seqitem((PyObject *)(o), i)
#define PyObject_GetItem(o, k) vp_getitem((PyObject *)(o), (PyObject *)(k))
#define PyObject_SetItem(o, k, v) vp_setitem((PyObject *)(o), (PyObject *)(k), (PyObject *)(v))
#define PyFloat_FromDouble(x) vp_float(x)
#define PyFloat_AsDouble(o) vp_asdouble((PyObject *)(o))
#define PyObject_Size(o) vp_size((PyObject *)(o))
#define PyObject_Length(o) vp_size((PyObject *)(o))
#define PySequence_Size(o) vp_size((PyObject *)(o))
#define PySequence_Length(o) vp_size((PyObject *)(o))
#define PyNumber_Float(o) vp_new(PyNumber_Float(o))
#define PySequence_List(o) vp_new(PySequence_List(o))
#define PySequence_Tuple(o) vp_new(PySequence_Tuple(o))
#define PySequence_Fast(o, m) vp_new(PySequence_Fast(o, m))
#define PyObject_GetIter(o) vp_new(PyObject_GetIter(o))
#define PyIter_Next(o) vp_new(PyIter_Next(o))
#define PyLong_FromLong(x) vp_new(PyLong_FromLong(x))
#define PyLong_FromSsize_t(x) vp_new(PyLong_FromSsize_t(x))
