#pragma once
// Records what a module registers: each function's argument names and defaults, callable by keyword from C++.
#include <functional>
#include <map>
#include <memory>
#include <stdexcept>
#include <string>
#include <tuple>
#include <utility>
#include <vector>
namespace pybind11 {
struct Any {
  std::shared_ptr<void> p;
  std::function<bool(bool*)> asBool;
  std::function<bool(int*)> asInt;
  std::function<bool(std::string*)> asStr;
  std::function<bool(std::vector<std::string>*)> asList;
  Any() {}
  Any(bool v) : p(std::make_shared<bool>(v)) { asBool = [v](bool* o) { *o = v; return true; }; asInt = [v](int* o) { *o = v; return true; }; }
  Any(int v) : p(std::make_shared<int>(v)) { asInt = [v](int* o) { *o = v; return true; }; }
  Any(const char* v) : Any(std::string(v)) {}
  Any(const std::string& v) : p(std::make_shared<std::string>(v)) { asStr = [v](std::string* o) { *o = v; return true; }; }
  Any(const std::vector<std::string>& v) : p(std::make_shared<std::vector<std::string>>(v)) { asList = [v](std::vector<std::string>* o) { *o = v; return true; }; }
  void get(bool& o) const { if (!asBool || !asBool(&o)) throw std::runtime_error("TypeError"); }
  void get(int& o) const { if (!asInt || !asInt(&o)) throw std::runtime_error("TypeError"); }
  void get(std::string& o) const { if (!asStr || !asStr(&o)) throw std::runtime_error("TypeError"); }
  void get(std::vector<std::string>& o) const { if (!asList || !asList(&o)) throw std::runtime_error("TypeError"); }
};
struct arg {
  std::string name;
  bool has = false;
  Any def;
  explicit arg(const char* n) : name(n) {}
  template <class T> arg operator=(T&& v) const {
    arg a(*this);
    a.has = true, a.def = Any(std::forward<T>(v));
    return a;
  }
};
struct Fn {
  std::vector<arg> args;
  std::string doc;
  std::function<void(const std::vector<Any>&)> call;
  void operator()(std::map<std::string, Any> kw, const std::vector<Any>& pos = {}) const {
    std::vector<Any> v(pos);
    for (size_t i = pos.size(); i < args.size(); i++) {
      auto it = kw.find(args[i].name);
      if (it != kw.end()) v.push_back(it->second), kw.erase(it);
      else if (args[i].has) v.push_back(args[i].def);
      else throw std::runtime_error("TypeError: missing " + args[i].name);
    }
    if (!kw.empty()) throw std::runtime_error("TypeError: unknown " + kw.begin()->first);
    call(v);
  }
};
struct str_proxy {
  std::string s;
  str_proxy& operator=(const char* v) { s = v; return *this; }
};
class module_ {
  str_proxy doc_;
  static void take(Fn& f, const arg& a) { f.args.push_back(a); }
  static void take(Fn& f, const char* d) { f.doc = d; }
  template <class... A, size_t... I> static void invoke(void (*f)(A...), const std::vector<Any>& v, std::index_sequence<I...>) {
    if (v.size() != sizeof...(A)) throw std::runtime_error("TypeError: argument count");
    std::tuple<std::decay_t<A>...> t;
    (void)std::initializer_list<int>{(v[I].get(std::get<I>(t)), 0)...};
    f(std::get<I>(t)...);
  }

 public:
  std::map<std::string, Fn> fns;
  str_proxy& doc() { return doc_; }
  template <class... A, class... X> module_& def(const char* name, void (*f)(A...), const X&... x) {
    Fn g;
    (void)std::initializer_list<int>{0, (take(g, x), 0)...};
    g.call = [f](const std::vector<Any>& v) { invoke(f, v, std::index_sequence_for<A...>()); };
    fns[name] = g;
    return *this;
  }
};
typedef module_ module;
}
#define PYBIND11_MODULE(name, var) void pybind11_init_##name(pybind11::module_& var)
