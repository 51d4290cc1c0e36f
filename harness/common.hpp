// Shared by all drivers: event log (one JSON object per line) and script reading.
#ifndef MBV_COMMON_HPP
#define MBV_COMMON_HPP
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>
#include <cmath>
#include <mutex>
#include <unistd.h>

namespace mbv {
    inline FILE* out()
    {
        static FILE* f = nullptr;
        if (!f) {
            const char* p = getenv("MBV_TRACE");
            f = p ? fopen(p, "w") : stdout;
            if (!f) {
                std::cerr << "cannot open trace" << std::endl;
                _exit(77);
            }
        }
        return f;
    }
    [[noreturn]] inline void die(const std::string& m)
    {
        std::cerr << m << std::endl;
        fflush(out());
        _exit(77);
    }
    // a very small JSON builder
    struct J {
        std::string s;
        bool first = true;
        J(const std::string& e) : s("{\"e\":\"" + e + "\"") {}
        static std::string str(const std::string& v) { return "\"" + v + "\""; }
        J& raw(const std::string& k, const std::string& v)
        {
            s += ",\"" + k + "\":" + v;
            return *this;
        }
        J& i(const std::string& k, long v) { return raw(k, std::to_string(v)); }
        J& b(const std::string& k, bool v) { return raw(k, v ? "true" : "false"); }
        J& t(const std::string& k, const std::string& v) { return raw(k, str(v)); }
        J& li(const std::string& k, const std::vector<long>& v) { return raw(k, list(v)); }
        static std::string list(const std::vector<long>& v)
        {
            std::string r = "[";
            for (size_t k = 0; k < v.size(); k++)
                r += (k ? "," : "") + std::to_string(v[k]);
            return r + "]";
        }
        static std::string list(const std::vector<std::string>& v) // already JSON
        {
            std::string r = "[";
            for (size_t k = 0; k < v.size(); k++)
                r += (k ? "," : "") + v[k];
            return r + "]";
        }
        void emit()
        {
            static std::mutex m;
            std::lock_guard<std::mutex> g(m);
            s += "}\n";
            fwrite(s.data(), 1, s.size(), out());
            fflush(out());
        }
    };
    // script: one command per line, tokens separated by blanks
    inline bool next_line(std::vector<std::string>& tok)
    {
        std::string l;
        tok.clear();
        while (std::getline(std::cin, l)) {
            std::istringstream is(l);
            std::string t;
            while (is >> t)
                tok.push_back(t);
            if (!tok.empty())
                return true;
        }
        return false;
    }
}
#endif
