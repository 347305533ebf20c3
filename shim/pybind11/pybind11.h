/* Minimal stand-in for the part of pybind11 that pctsp/pypctsp.cpp uses, over the CPython C API.
 * Conversions follow pybind11: an argument that does not convert raises TypeError, C++ exceptions
 * become RuntimeError (out_of_range -> IndexError, invalid_argument -> ValueError). */
#ifndef VP_PYBIND11_H
#define VP_PYBIND11_H
#ifndef PY_SSIZE_T_CLEAN
#define PY_SSIZE_T_CLEAN
#endif
#include <Python.h>
#include <string>
#include <vector>
#include <list>
#include <map>
#include <set>
#include <unordered_map>
#include <optional>
#include <tuple>
#include <memory>
#include <functional>
#include <stdexcept>
#include <filesystem>
#include <type_traits>
#include <limits>

namespace pybind11 {
struct error_already_set : std::runtime_error { error_already_set() : std::runtime_error("python error") {} };
struct cast_error : std::runtime_error { using std::runtime_error::runtime_error; };

class object;
class handle {
protected: PyObject* p_ = nullptr;
public:
    handle() {} handle(PyObject* p) : p_(p) {}
    PyObject* ptr() const { return p_; }
    object attr(const char* name) const;
    template <typename... A> object operator()(A&&... a) const;
};
class object : public handle {
public:
    object() {}
    struct steal_t {}; struct borrow_t {};
    object(handle h, steal_t) : handle(h.ptr()) {}
    object(handle h, borrow_t) : handle(h.ptr()) { Py_XINCREF(p_); }
    object(const object& o) : handle(o.p_) { Py_XINCREF(p_); }
    object(object&& o) : handle(o.p_) { o.p_ = nullptr; }
    object& operator=(const object& o) { if (this != &o) { Py_XINCREF(o.p_); Py_XDECREF(p_); p_ = o.p_; } return *this; }
    object& operator=(object&& o) { if (this != &o) { Py_XDECREF(p_); p_ = o.p_; o.p_ = nullptr; } return *this; }
    ~object() { Py_XDECREF(p_); }
    PyObject* release() { PyObject* p = p_; p_ = nullptr; return p; }
};
template <typename T> T reinterpret_borrow(handle h) { return T(h, object::borrow_t()); }
template <typename T> T reinterpret_steal(handle h) { return T(h, object::steal_t()); }
inline object check_new(PyObject* p) { if (!p) throw error_already_set(); return object(p, object::steal_t()); }
inline object handle::attr(const char* name) const { return check_new(PyObject_GetAttrString(p_, name)); }
class bool_ : public object { public: bool_(bool b) : object(b ? Py_True : Py_False, borrow_t()) {} };

/* casters */
template <typename T, typename E = void> struct caster;
template <> struct caster<object> {
    static bool load(PyObject* o, object& v) { v = object(o, object::borrow_t()); return true; }
    static PyObject* cast(const object& v) { Py_XINCREF(v.ptr()); return v.ptr(); } };
template <> struct caster<bool_> { static PyObject* cast(const bool_& v) { Py_XINCREF(v.ptr()); return v.ptr(); } };
template <> struct caster<bool> {
    static bool load(PyObject* o, bool& v) {
        if (o == Py_True) { v = true; return true; } if (o == Py_False || o == Py_None) { v = false; return true; }
        if (Py_TYPE(o)->tp_as_number && Py_TYPE(o)->tp_as_number->nb_bool) { int r = PyObject_IsTrue(o); if (r >= 0) { v = r; return true; } PyErr_Clear(); }
        return false; }
    static PyObject* cast(bool v) { return PyBool_FromLong(v); } };
template <typename T> struct caster<T, std::enable_if_t<std::is_integral<T>::value && !std::is_same<T, bool>::value>> {
    static bool load(PyObject* o, T& v) {
        if (PyFloat_Check(o) || !PyIndex_Check(o)) return false;
        PyObject* i = PyNumber_Index(o); if (!i) { PyErr_Clear(); return false; }
        bool ok = true;
        if (std::is_signed<T>::value) { long long x = PyLong_AsLongLong(i); if (x == -1 && PyErr_Occurred()) { PyErr_Clear(); ok = false; }
            else if (x < (long long)std::numeric_limits<T>::min() || x > (long long)std::numeric_limits<T>::max()) ok = false; else v = (T)x; }
        else { unsigned long long x = PyLong_AsUnsignedLongLong(i); if (x == (unsigned long long)-1 && PyErr_Occurred()) { PyErr_Clear(); ok = false; }
            else if (x > (unsigned long long)std::numeric_limits<T>::max()) ok = false; else v = (T)x; }
        Py_DECREF(i); return ok; }
    static PyObject* cast(T v) { return std::is_signed<T>::value ? PyLong_FromLongLong((long long)v) : PyLong_FromUnsignedLongLong((unsigned long long)v); } };
template <typename T> struct caster<T, std::enable_if_t<std::is_floating_point<T>::value>> {
    static bool load(PyObject* o, T& v) { double d = PyFloat_AsDouble(o); if (d == -1.0 && PyErr_Occurred()) { PyErr_Clear(); return false; } v = (T)d; return true; }
    static PyObject* cast(T v) { return PyFloat_FromDouble((double)v); } };
template <> struct caster<std::string> {
    static bool load(PyObject* o, std::string& v) { if (!PyUnicode_Check(o)) return false; Py_ssize_t n; const char* s = PyUnicode_AsUTF8AndSize(o, &n); if (!s) { PyErr_Clear(); return false; } v.assign(s, n); return true; }
    static PyObject* cast(const std::string& v) { return PyUnicode_FromStringAndSize(v.data(), v.size()); } };
template <> struct caster<std::filesystem::path> {
    static bool load(PyObject* o, std::filesystem::path& v) { PyObject* f = PyOS_FSPath(o); if (!f) { PyErr_Clear(); return false; }
        bool ok = false; if (PyUnicode_Check(f)) { const char* s = PyUnicode_AsUTF8(f); if (s) { v = s; ok = true; } else PyErr_Clear(); } Py_DECREF(f); return ok; } };
template <typename A, typename B> struct caster<std::pair<A, B>> {
    static bool load(PyObject* o, std::pair<A, B>& v) {
        if (!PySequence_Check(o) || PySequence_Size(o) != 2) { PyErr_Clear(); return false; }
        object a = check_new(PySequence_GetItem(o, 0)), b = check_new(PySequence_GetItem(o, 1));
        return caster<A>::load(a.ptr(), v.first) && caster<B>::load(b.ptr(), v.second); }
    static PyObject* cast(const std::pair<A, B>& v) { PyObject* t = PyTuple_New(2); PyTuple_SET_ITEM(t, 0, caster<A>::cast(v.first)); PyTuple_SET_ITEM(t, 1, caster<B>::cast(v.second)); return t; } };
template <typename C, typename T> struct seq_caster {
    static bool load(PyObject* o, C& v) {
        if (!PySequence_Check(o) || PyUnicode_Check(o) || PyBytes_Check(o)) return false;
        v.clear(); Py_ssize_t n = PySequence_Size(o);
        for (Py_ssize_t i = 0; i < n; i++) { object it = check_new(PySequence_GetItem(o, i)); T x{}; if (!caster<T>::load(it.ptr(), x)) return false; v.push_back(std::move(x)); }
        return true; }
    static PyObject* cast(const C& v) { PyObject* l = PyList_New(0); for (auto const& x : v) { PyObject* y = caster<T>::cast(x); PyList_Append(l, y); Py_DECREF(y); } return l; } };
template <typename T> struct caster<std::vector<T>> : seq_caster<std::vector<T>, T> {};
template <typename T> struct caster<std::list<T>> : seq_caster<std::list<T>, T> {};
template <typename M, typename K, typename V> struct map_caster {
    static bool load(PyObject* o, M& v) {
        if (!PyDict_Check(o)) return false; v.clear(); PyObject *k, *x; Py_ssize_t pos = 0;
        while (PyDict_Next(o, &pos, &k, &x)) { K kk{}; V vv{}; if (!caster<K>::load(k, kk) || !caster<V>::load(x, vv)) return false; v.emplace(std::move(kk), std::move(vv)); }
        return true; }
    static PyObject* cast(const M& v) { PyObject* d = PyDict_New(); for (auto const& kv : v) { PyObject *k = caster<K>::cast(kv.first), *x = caster<V>::cast(kv.second); PyDict_SetItem(d, k, x); Py_DECREF(k); Py_DECREF(x); } return d; } };
template <typename K, typename V> struct caster<std::map<K, V>> : map_caster<std::map<K, V>, K, V> {};
template <typename K, typename V> struct caster<std::unordered_map<K, V>> : map_caster<std::unordered_map<K, V>, K, V> {};

template <typename T> struct caster<std::set<T>> {
    static bool load(PyObject* o, std::set<T>& v) {
        if (!PyAnySet_Check(o)) return false; v.clear(); PyObject* it = PyObject_GetIter(o); if (!it) { PyErr_Clear(); return false; }
        bool ok = true; while (PyObject* x = PyIter_Next(it)) { T t{}; ok = ok && caster<T>::load(x, t); Py_DECREF(x); v.insert(std::move(t)); } Py_DECREF(it); return ok; }
    static PyObject* cast(const std::set<T>& v) { PyObject* l = PySet_New(nullptr); for (auto const& x : v) { PyObject* y = caster<T>::cast(x); PySet_Add(l, y); Py_DECREF(y); } return l; } };
template <typename T> struct caster<std::optional<T>> {
    static bool load(PyObject* o, std::optional<T>& v) { if (o == Py_None) { v.reset(); return true; } T t{}; if (!caster<T>::load(o, t)) return false; v = std::move(t); return true; }
    static PyObject* cast(const std::optional<T>& v) { if (!v) Py_RETURN_NONE; return caster<T>::cast(*v); } };

template <typename... A> object handle::operator()(A&&... a) const {
    PyObject* t = PyTuple_New(sizeof...(A)); Py_ssize_t i = 0;
    (PyTuple_SET_ITEM(t, i++, caster<std::decay_t<A>>::cast(a)), ...);
    PyObject* r = PyObject_CallObject(p_, t); Py_DECREF(t); return check_new(r); }

/* what may follow the function in def(): names and defaults of arguments are used, the rest is accepted */
struct arg_v;
struct arg {
    const char* name; arg(const char* n) : name(n) {}
    template <typename T> arg_v operator=(T&& x) const;
    arg& noconvert(bool = true) { return *this; } arg& none(bool = true) { return *this; } };
struct arg_v : arg { object value; arg_v(const arg& a, object v) : arg(a), value(std::move(v)) {} };
struct kw_only {}; struct doc { doc(const char*) {} };
template <typename... T> struct call_guard {}; struct gil_scoped_release {}; struct scoped_ostream_redirect {};
enum class return_value_policy { automatic, automatic_reference, take_ownership, copy, move, reference, reference_internal };
namespace literals { inline arg operator"" _a(const char* n, size_t) { return arg(n); } }
inline object str_object(const char* x) { return check_new(PyUnicode_FromString(x)); }
template <typename T> arg_v arg::operator=(T&& x) const {
    using D = std::decay_t<T>;
    if constexpr (std::is_same_v<D, const char*> || std::is_same_v<D, char*>) return arg_v(*this, str_object(x));
    else if constexpr (std::is_same_v<D, std::nullptr_t>) return arg_v(*this, object(handle(Py_None), object::borrow_t()));
    else return arg_v(*this, check_new(caster<D>::cast(x))); }
struct names { std::vector<std::string> name; std::vector<object> value;
    void add(const arg_v& a) { name.push_back(a.name); value.push_back(a.value); }
    void add(const arg& a) { name.push_back(a.name); value.emplace_back(); }
    template <typename T> void add(const T&) {} };
template <typename F> struct signature : signature<decltype(&F::operator())> {};
template <typename R, typename... A> struct signature<R (*)(A...)> { typedef R (*type)(A...); };
template <typename C, typename R, typename... A> struct signature<R (C::*)(A...) const> { typedef R (*type)(A...); };
template <typename C, typename R, typename... A> struct signature<R (C::*)(A...)> { typedef R (*type)(A...); };

class module_ : public object {
public:
    module_(handle h, borrow_t b) : object(h, b) {} module_(handle h, steal_t s) : object(h, s) {}
    static module_ import(const char* name) { PyObject* m = PyImport_ImportModule(name); if (!m) throw error_already_set(); return module_(m, steal_t()); }
    const char*& doc() { static const char* d; return d; }
    template <typename F, typename... X> module_& def(const char* name, F&& f, const X&... extra) {
        typedef std::decay_t<F> D;
        names ns; (ns.add(extra), ...);
        return define(name, std::decay_t<F>(f), (typename signature<D>::type) nullptr, std::move(ns)); }
private:
    template <typename F, typename R, typename... A> module_& define(const char* name, F f, R (*)(A...), names ns) {
        auto* fn = new std::function<PyObject*(PyObject*, PyObject*)>([f, name, ns](PyObject* args, PyObject* kw) mutable -> PyObject* {
            return invoke<F, R, A...>(f, name, ns, args, kw, std::index_sequence_for<A...>{}); });
        PyCFunctionWithKeywords call = [](PyObject* self, PyObject* args, PyObject* kw) -> PyObject* {
            auto* fn = (std::function<PyObject*(PyObject*, PyObject*)>*)PyCapsule_GetPointer(self, "vpfn");
            try { return (*fn)(args, kw); }
            catch (error_already_set&) { return nullptr; }
            catch (std::bad_alloc& e) { PyErr_SetString(PyExc_MemoryError, e.what()); return nullptr; }
            catch (std::out_of_range& e) { PyErr_SetString(PyExc_IndexError, e.what()); return nullptr; }
            catch (std::invalid_argument& e) { PyErr_SetString(PyExc_ValueError, e.what()); return nullptr; }
            catch (std::exception& e) { PyErr_SetString(PyExc_RuntimeError, e.what()); return nullptr; }
            catch (...) { PyErr_SetString(PyExc_RuntimeError, "Caught an unknown exception!"); return nullptr; } };
        auto* md = new PyMethodDef{name, (PyCFunction)(void*)call, METH_VARARGS | METH_KEYWORDS, ""};
        PyObject* cap = PyCapsule_New(fn, "vpfn", nullptr);
        PyObject* func = PyCFunction_New(md, cap); Py_DECREF(cap);
        PyModule_AddObject(p_, name, func);
        return *this; }
    template <typename F, typename R, typename... A, size_t... I>
    static PyObject* invoke(F& f, const char* name, names& ns, PyObject* args, PyObject* kw, std::index_sequence<I...>) {
        const size_t n = sizeof...(A), given = PyTuple_Size(args);
        std::vector<PyObject*> in(n, nullptr);
        bool ok = given <= n; size_t used = 0;
        for (size_t k = 0; ok && k < n; k++) {
            PyObject* x = k < given ? PyTuple_GET_ITEM(args, k) : nullptr;
            if (!x && kw && k < ns.name.size()) { x = PyDict_GetItemString(kw, ns.name[k].c_str()); used += x != nullptr; }
            if (!x && k < ns.value.size()) x = ns.value[k].ptr();
            in[k] = x; ok = x != nullptr; }
        if (kw && (size_t)PyDict_Size(kw) != used) ok = false;
        if (!ok) { PyErr_Format(PyExc_TypeError, "%s(): incompatible function arguments (expected %d)", name, (int)n); return nullptr; }
        std::tuple<std::decay_t<A>...> vals;
        ok = (caster<std::decay_t<A>>::load(in[I], std::get<I>(vals)) && ...);
        if (!ok) { PyErr_Format(PyExc_TypeError, "%s(): incompatible function arguments.", name); return nullptr; }
        if constexpr (std::is_void<R>::value) { f(static_cast<A>(std::get<I>(vals))...); Py_RETURN_NONE; }
        else { R r = f(static_cast<A>(std::get<I>(vals))...); return caster<std::decay_t<R>>::cast(r); } }
};
typedef module_ module;
} // namespace pybind11
#define PYBIND11_MODULE(NAME, VAR) \
    static void vp_init_##NAME(pybind11::module_& VAR); \
    static PyModuleDef vp_def_##NAME = {PyModuleDef_HEAD_INIT, #NAME, nullptr, -1, nullptr, nullptr, nullptr, nullptr, nullptr}; \
    extern "C" __attribute__((visibility("default"))) PyObject* PyInit_##NAME() { \
        PyObject* m = PyModule_Create(&vp_def_##NAME); if (!m) return nullptr; \
        pybind11::module_ mm(m, pybind11::object::borrow_t()); vp_init_##NAME(mm); return m; } \
    static void vp_init_##NAME(pybind11::module_& VAR)
#endif
