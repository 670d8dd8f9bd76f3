// Small strict JSON reader used as an oracle for files written by the library.
#pragma once
#include <cctype>
#include <cstdlib>
#include <stdexcept>
#include <string>
#include <utility>
#include <vector>
namespace vfj {
struct Val {
    char                                     k = 'n';  // n null, b bool, i integer, d real, s string, o object, a array
    bool                                     b = false;
    double                                   d = 0;
    long long                                i = 0;
    std::string                              s;
    std::vector<std::pair<std::string, Val>> o;
    std::vector<Val>                         a;
    const Val *find(const std::string &key) const { for (auto &e : o) if (e.first == key) return &e.second; return nullptr; }
    const Val &at(const std::string &key) const { auto *p = find(key); if (!p) throw std::runtime_error("missing key " + key); return *p; }
    double     num() const { if (k == 'i') return (double)i; if (k == 'd') return d; throw std::runtime_error("not a number"); }
};
struct Parser {
    const std::string &t;
    size_t             p = 0;
    explicit Parser(const std::string &x) : t(x) {}
    void ws() { while (p < t.size() && (t[p] == ' ' || t[p] == '\t' || t[p] == '\n' || t[p] == '\r')) p++; }
    [[noreturn]] void bad(const char *m) { throw std::runtime_error(std::string("invalid JSON at ") + std::to_string(p) + ": " + m); }
    void need(char c) { ws(); if (p >= t.size() || t[p] != c) bad("unexpected character"); p++; }
    std::string str() {
        need('"');
        std::string s;
        while (true) {
            if (p >= t.size()) bad("open string");
            char c = t[p++];
            if (c == '"') return s;
            if (c == '\\') { if (p >= t.size()) bad("escape"); char e = t[p++]; s += e == 'n' ? '\n' : e == 't' ? '\t' : e; }
            else s += c;
        }
    }
    Val value() {
        ws();
        if (p >= t.size()) bad("end of text");
        Val v;
        char c = t[p];
        if (c == '{') {
            v.k = 'o'; p++; ws();
            if (p < t.size() && t[p] == '}') { p++; return v; }
            while (true) {
                std::string key = str();
                need(':');
                v.o.emplace_back(key, value());
                ws();
                if (p < t.size() && t[p] == ',') { p++; continue; }
                need('}');
                return v;
            }
        }
        if (c == '[') {
            v.k = 'a'; p++; ws();
            if (p < t.size() && t[p] == ']') { p++; return v; }
            while (true) {
                v.a.push_back(value());
                ws();
                if (p < t.size() && t[p] == ',') { p++; continue; }
                need(']');
                return v;
            }
        }
        if (c == '"') { v.k = 's'; v.s = str(); return v; }
        for (auto w : {"true", "false", "null"}) {
            if (t.compare(p, std::char_traits<char>::length(w), w) == 0) { p += std::char_traits<char>::length(w); v.k = w[0] == 'n' ? 'n' : 'b'; v.b = w[0] == 't'; return v; }
        }
        size_t q = p;
        while (q < t.size() && (std::isdigit((unsigned char)t[q]) || t[q] == '+' || t[q] == '-' || t[q] == '.' || t[q] == 'e' || t[q] == 'E')) q++;
        if (q == p) bad("value");
        std::string n = t.substr(p, q - p);
        char *      end;
        if (n.find_first_of(".eE") == std::string::npos) { v.k = 'i'; v.i = strtoll(n.c_str(), &end, 10); }
        else { v.k = 'd'; v.d = strtod(n.c_str(), &end); }
        if (*end) bad("number");
        p = q;
        return v;
    }
    Val all() { Val v = value(); ws(); if (p != t.size()) bad("trailing text"); return v; }
};
inline Val parse(const std::string &s) { return Parser(s).all(); }
}  // namespace vfj
