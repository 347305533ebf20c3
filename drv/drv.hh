// Replay driver: one JSON request per stdin line, one JSON answer per line on descriptor VP_FD.
#pragma once
#include <functional>
#include <list>
#include <map>
#include <sstream>
#include <string>
#include <utility>
#include <vector>
#include <yaml-cpp/yaml.h>

namespace vp {
struct J {            // a JSON value under construction
    std::string s;
    J() : s("null") {}
    J(bool b) : s(b ? "true" : "false") {}
    J(int i) : s(std::to_string(i)) {}
    J(long i) : s(std::to_string(i)) {}
    J(long long i) : s(std::to_string(i)) {}
    J(unsigned long i) : s(std::to_string(i)) {}
    J(double d) { std::ostringstream o; o.precision(12); o << d; s = o.str(); }
    J(const char* c) : J(std::string(c)) {}
    J(const std::string& t) {
        s = "\"";
        for (char c : t) {
            if (c == '"' || c == '\\') { s += '\\'; s += c; }
            else if (c == '\n') s += "\\n";
            else if ((unsigned char)c < 32) s += ' ';
            else s += c;
        }
        s += "\"";
    }
    template <class A, class B> J(const std::pair<A, B>& p) { s = "[" + J(p.first).s + "," + J(p.second).s + "]"; }
    template <class T> J(const std::vector<T>& v) { seq(v); }
    template <class T> J(const std::list<T>& v) { seq(v); }
    template <class C> void seq(const C& v) {
        s = "[";
        bool first = true;
        for (const auto& x : v) { if (!first) s += ","; first = false; s += J(x).s; }
        s += "]";
    }
};
struct Obj {
    std::string s;
    template <class T> Obj& put(const std::string& k, const T& v) {
        s += (s.empty() ? "" : ",") + J(k).s + ":" + J(v).s;
        return *this;
    }
    operator J() const { J j; j.s = "{" + s + "}"; return j; }
};
typedef YAML::Node In;
typedef std::function<J(const In&)> Op;
std::map<std::string, Op>& ops();
struct Reg { Reg(const std::string& n, Op f) { ops()[n] = f; } };
template <class T> std::vector<T> vec(const In& n) {
    std::vector<T> v;
    for (auto x : n) v.push_back(x.as<T>());
    return v;
}
}
#define VP_OP(name) static ::vp::J vp_op_##name(const ::vp::In&); static ::vp::Reg vp_reg_##name(#name, vp_op_##name); static ::vp::J vp_op_##name(const ::vp::In& a)
