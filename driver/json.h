// A minimal JSON value, parser and printer (numbers: ints, or strings holding C hex floats).
#pragma once
#include <string>
#include <vector>
#include <map>
#include <cstdio>
#include <cstdlib>
#include <cmath>
#include <stdexcept>

struct J
{
    enum K { NUL, BOOL, INT, STR, ARR, OBJ } k = NUL;
    long i = 0;
    std::string s;
    std::vector<J> a;
    std::vector<std::pair<std::string, J>> o;

    J() {}
    J(bool b) : k(BOOL), i(b) {}
    J(int v) : k(INT), i(v) {}
    J(long v) : k(INT), i(v) {}
    J(size_t v) : k(INT), i((long)v) {}
    J(double v) : k(STR)
    {
        if (std::isnan(v)) s = "nan";
        else if (std::isinf(v)) s = v > 0 ? "inf" : "-inf";
        else { char b[64]; snprintf(b, sizeof b, "%a", v); s = b; }
    }
    J(const char* v) : k(STR), s(v) {}
    J(const std::string& v) : k(STR), s(v) {}
    static J arr() { J j; j.k = ARR; return j; }
    static J obj() { J j; j.k = OBJ; return j; }
    template <class T> J(const std::vector<T>& v) : k(ARR) { for (const auto& x : v) a.push_back(J(x)); }

    J& push(const J& v) { a.push_back(v); return *this; }
    J& set(const std::string& key, const J& v)
    {
        for (auto& p : o) if (p.first == key) { p.second = v; return *this; }
        o.push_back({ key, v });
        return *this;
    }
    bool has(const std::string& key) const { for (auto& p : o) if (p.first == key) return true; return false; }
    const J& operator[](const std::string& key) const
    {
        for (auto& p : o) if (p.first == key) return p.second;
        throw std::logic_error("driver: no key " + key);
    }
    const J& operator[](const char* key) const { return (*this)[std::string(key)]; }
    const J& at(size_t n) const { return a.at(n); }
    size_t size() const { return a.size(); }
    double d() const
    {
        if (k == INT) return (double)i;
        if (k == STR) return strtod(s.c_str(), nullptr);
        throw std::logic_error("driver: not a number");
    }
    int n() const { if (k != INT && k != BOOL) throw std::logic_error("driver: not an int"); return (int)i; }
    bool b() const { return i != 0; }

    void print(std::string& out) const
    {
        switch (k)
        {
        case NUL: out += "null"; break;
        case BOOL: out += i ? "true" : "false"; break;
        case INT: out += std::to_string(i); break;
        case STR:
            out += '"';
            for (char c : s) { if (c == '"' || c == '\\') { out += '\\'; out += c; } else if ((unsigned char)c < 32) out += ' '; else out += c; }
            out += '"';
            break;
        case ARR:
            out += '[';
            for (size_t n = 0; n < a.size(); n++) { if (n) out += ','; a[n].print(out); }
            out += ']';
            break;
        case OBJ:
            out += '{';
            for (size_t n = 0; n < o.size(); n++) { if (n) out += ','; out += '"' + o[n].first + "\":"; o[n].second.print(out); }
            out += '}';
            break;
        }
    }

    static J parse(const char*& p)
    {
        while (*p == ' ' || *p == '\n' || *p == '\t' || *p == '\r') p++;
        J j;
        if (*p == '{')
        {
            j.k = OBJ; p++;
            while (true)
            {
                while (*p == ' ' || *p == ',') p++;
                if (*p == '}') { p++; break; }
                J key = parse(p);
                while (*p == ' ' || *p == ':') p++;
                j.o.push_back({ key.s, parse(p) });
            }
        }
        else if (*p == '[')
        {
            j.k = ARR; p++;
            while (true)
            {
                while (*p == ' ' || *p == ',') p++;
                if (*p == ']') { p++; break; }
                j.a.push_back(parse(p));
            }
        }
        else if (*p == '"')
        {
            j.k = STR; p++;
            while (*p && *p != '"') { if (*p == '\\') p++; j.s += *p++; }
            p++;
        }
        else if (*p == 't') { j = J(true); p += 4; }
        else if (*p == 'f') { j = J(false); p += 5; }
        else if (*p == 'n') { p += 4; }
        else
        {
            char* e; long v = strtol(p, &e, 10);
            if (*e == '.' || *e == 'e') { double x = strtod(p, &e); j = J(x); }
            else j = J(v);
            if (e == p) throw std::logic_error("driver: bad json");
            p = e;
        }
        return j;
    }
};
