// (part of driver.cpp) the objects are Python objects: every actor has a Python
// thread state of its own, which is exchanged when the actor is
#include <Python.h>
#include <pybind11/pybind11.h>

extern "C" PyObject* PyInit_PyEigenIPC();

static PyThreadState* tmain_;
static PyThreadState* ts_[16];
static void* life_[16];
static bool in_[16];
static PyObject* make_;

#if PYBIND11_INTERNALS_VERSION == 4
#define LIFE_KEY pybind11::detail::get_local_internals().loader_life_support_tls_key
#else
#define LIFE_KEY pybind11::detail::get_internals().loader_life_support_tls_key
#endif

static void pySwap(int a, bool in) {
    if (in) {
        if (!ts_[a]) ts_[a] = PyThreadState_New(tmain_->interp);
        PyThreadState_Swap(ts_[a]);
        PYBIND11_TLS_REPLACE_VALUE(pybind11::detail::get_internals().tstate, ts_[a]);
        PYBIND11_TLS_REPLACE_VALUE(LIFE_KEY, life_[a]);
    } else {
        life_[a] = PYBIND11_TLS_GET_VALUE(LIFE_KEY);
        PYBIND11_TLS_REPLACE_VALUE(LIFE_KEY, nullptr);
        PYBIND11_TLS_REPLACE_VALUE(pybind11::detail::get_internals().tstate, nullptr);
        PyThreadState_Swap(tmain_);
    }
}

// what died in the middle of something is left alone
static void pyReset() { for (int a = 0; a < 16; a++) if (in_[a]) { in_[a] = false; ts_[a] = nullptr; life_[a] = nullptr; } }

static void pyDie(const char* what) { PyErr_Print(); fprintf(stderr, "%s\n", what); _exit(3); }

// sleeping is the virtual system's, too
static PyObject* pySleep(PyObject*, PyObject* a) {
    double t = PyFloat_AsDouble(a); if (t < 0) t = 0;
    struct timespec ts = {(time_t)t, (long)((t - (time_t)t) * 1e9)}; nanosleep(&ts, nullptr);
    Py_RETURN_NONE;
}
static PyMethodDef sleepDef_ = {"vpsleep", pySleep, METH_O, ""};

static void pyInit() {
    setenv("OPENBLAS_NUM_THREADS", "1", 1);
    PyImport_AppendInittab("PyEigenIPC", PyInit_PyEigenIPC);
    PyConfig c; PyConfig_InitPythonConfig(&c);
    PyConfig_SetBytesString(&c, &c.program_name, "/usr/bin/python3");
    c.install_signal_handlers = 0; c.write_bytecode = 0; c.use_environment = 0;
    PyStatus st = Py_InitializeFromConfig(&c);
    if (PyStatus_Exception(st)) { fprintf(stderr, "python does not start: %s\n", st.err_msg); _exit(3); }
    PyConfig_Clear(&c);
    tmain_ = PyThreadState_Get();
    PyObject* path = PySys_GetObject("path");
    PyObject* pkg = PyUnicode_FromString(getenv("VP_PYPKG")); PyList_Insert(path, 0, pkg);
    PyObject* src = PyUnicode_FromString(getenv("VP_PYOPS")); PyList_Insert(path, 0, src);
    PyObject* tm = PyImport_ImportModule("time"); PyObject_SetAttrString(tm, "sleep", PyCFunction_New(&sleepDef_, nullptr));
    PyObject* m = PyImport_ImportModule("pyops");
    if (!m) pyDie("pyops cannot be imported");
    make_ = PyObject_GetAttrString(m, "make");
    if (!make_) pyDie("no make");
    PyRun_SimpleString("import gc; gc.collect(); gc.freeze(); gc.disable()");
    vp::on_swap = pySwap;
}

struct PyO : Obj {
    PyObject* p;
    PyO(const ObjSpec& s, const Scenario& sc) {
        auto& nm = sc.names.at(s.name);
        PyObject* strs = PyDict_New();
        for (auto& k : sc.strs) { PyObject* b = PyBytes_FromStringAndSize(k.second.data(), k.second.size()); PyObject* i = PyLong_FromLong(k.first); PyDict_SetItem(strs, i, b); Py_DECREF(b); Py_DECREF(i); }
        p = PyObject_CallFunction(make_, "siiiiiiissN", s.kind.c_str(), s.dt, s.lay, s.safe, s.force, s.rows, s.cols, s.verbose, nm.first.c_str(), nm.second.c_str(), strs);
        if (!p) pyDie("make failed");
    }
    Res op(const Op& o, const Scenario&) override {
        int me = vp::self(); in_[me] = true;
        PyObject* l = PyList_New(o.a.size());
        for (size_t i = 0; i < o.a.size(); i++) PyList_SetItem(l, i, PyLong_FromLong(o.a[i]));
        PyObject* r = PyObject_CallMethod(p, "op", "sN", o.name.c_str(), l);
        if (!r) { PyErr_Print(); vp::fatal("driver"); }
        Res res; res.s = PyUnicode_AsUTF8(PyTuple_GetItem(r, 0));
        PyObject* v = PyTuple_GetItem(r, 1);
        for (Py_ssize_t i = 0; i < PyList_Size(v); i++) res.v.push_back(PyLong_AsLong(PyList_GetItem(v, i)));
        Py_DECREF(r);
        in_[me] = false;
        return res;
    }
};
static Obj* makeObj(const ObjSpec& s, const Scenario& sc) { return new PyO(s, sc); }
