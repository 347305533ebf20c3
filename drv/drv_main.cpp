#include "drv.hh"
#include <cstdlib>
#include <iostream>
#include <typeinfo>
#include <cxxabi.h>
#include <unistd.h>

namespace vp {
std::map<std::string, Op>& ops() { static std::map<std::string, Op> m; return m; }
}
static std::string tname(const std::exception& e) {
    int st = 0;
    char* d = abi::__cxa_demangle(typeid(e).name(), nullptr, nullptr, &st);
    std::string r = d ? d : typeid(e).name();
    free(d);
    return r;
}
int main() {
    int fd = atoi(getenv("VP_FD"));
    std::string line;
    while (std::getline(std::cin, line)) {
        std::string out;
        try {
            YAML::Node q = YAML::Load(line);
            auto it = vp::ops().find(q["op"].as<std::string>());
            if (it == vp::ops().end()) out = "{\"err\":\"DriverError\",\"detail\":\"no such operation\"}";
            else {
                try { out = it->second(q["arg"]).s; }
                catch (const std::exception& e) { out = "{\"err\":" + vp::J(tname(e)).s + ",\"detail\":" + vp::J(e.what()).s + "}"; }
                catch (...) { out = "{\"err\":\"exception\"}"; }
            }
        } catch (const std::exception& e) { out = "{\"err\":\"DriverError\",\"detail\":" + vp::J(e.what()).s + "}"; }
        out += "\n";
        const char* p = out.data(); size_t n = out.size();
        while (n) { ssize_t k = write(fd, p, n); if (k <= 0) return 3; p += k; n -= k; }
    }
    return 0;
}
