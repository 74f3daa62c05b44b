#pragma once
#include <cmath>
#include <math.h>
#include <algorithm>
#include <functional>
#include <string>
#include <tuple>
#include <vector>
#include <array>
namespace pybind11 {
struct arg { const char *name; template <class T> arg operator=(const T &) const { return *this; } };
namespace literals { inline arg operator""_a(const char *s, unsigned long) { return arg{s}; } }
struct module_ { template <class... A> module_ &def(const char *, A &&...) { return *this; } };
template <class... A> struct init {};
template <class T> struct class_ { class_(module_ &, const char *) {} template <class... A> class_ &def(A &&...) { return *this; } };
template <class T> struct enum_ { enum_(module_ &, const char *) {} enum_ &value(const char *, T) { return *this; } enum_ &export_values() { return *this; } };
template <class T> struct array_t { };
struct vec_ { template <class A> A operator()(const A &a) const { return a; } };
template <class F> vec_ vectorize(F) { return vec_(); }
}
#define PYBIND11_MODULE(name, var) void pybind11_init_##name(pybind11::module_ &var)
