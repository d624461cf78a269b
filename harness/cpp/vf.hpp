// Shared by all C++ drivers: reading commands, printing answers.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <iostream>
#include <map>
#include <optional>
#include <sstream>
#include <string>
#include <utility>
#include <vector>
extern "C" {
size_t vf_report(char *buf, size_t cap);
size_t vf_allocs();
void vf_reset();
}
namespace vf {
inline std::string report()
{
    static std::vector<char> buf(1 << 20);
    size_t n = vf_report(buf.data(), buf.size());
    return std::string(buf.data(), n);
}
typedef std::vector<std::string> Cmd;
inline long num(const std::string &s) { return std::stol(s); }
inline std::string join(const std::vector<std::string> &v)
{
    std::string r;
    for (size_t i = 0; i < v.size(); ++i)
        r += (i ? "," : "") + v[i];
    return r;
}
inline std::string quote(const std::string &s)
{
    std::string o = "\"";
    char b[8];
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') {
            o += '\\';
            o += char(c);
        } else if (c < 0x20 || c > 0x7e) {
            snprintf(b, sizeof b, "\\u%04x", c);
            o += b;
        } else
            o += char(c);
    }
    return o + "\"";
}
// step: executes a command, returns the JSON members of the answer. reset: back to the beginning.
inline int loop(const std::function<std::string(const Cmd &)> &step, const std::function<void()> &clean, const std::function<void()> &fresh)
{
    std::string line;
    bool first = true;
    size_t base = 0;
    while (std::getline(std::cin, line)) {
        Cmd c;
        std::istringstream in(line);
        std::string w;
        while (in >> w)
            c.push_back(w);
        if (c.empty())
            continue;
        std::string out;
        if (c[0] == "reset") {
            if (!first)
                clean();
            size_t now = vf_allocs();
            out = "\"allocs\":" + std::to_string(first ? 0 : (long)now - (long)base) + "," + report();
            vf_reset();
            base = vf_allocs();
            fresh();
            first = false;
        } else {
            std::string a = step(c);
            out = a + (a.empty() ? "" : ",") + report();
        }
        std::cout << "@{" << out << "}\n";
        std::cout.flush();
    }
    if (!first)
        clean();
    return 0;
}
} // namespace vf
