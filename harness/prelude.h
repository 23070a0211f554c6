// Force-included into every translation unit: the repository's random numbers become arbitrary values, and (in the symbolic build only)
// its file streams work on files in memory, so that contents may be symbolic and paths do not disturb each other.
#pragma once
#include "qsx.h"
#include <random>
template<> template<> inline __attribute__((noinline)) double
std::uniform_real_distribution<double>::operator()<std::mt19937>(std::mt19937& rGen) {
    return a() + qsx_real("random", 0.0, 1.0) * (b() - a());
}
#ifndef QSX_NATIVE
#include <fstream>
#include <map>
#include <sstream>
#include <string>
namespace std {
inline map<string, stringbuf*>& qsx_files() { static map<string, stringbuf*> f; return f; }
class qsx_ofstream : public ostream { public:
    qsx_ofstream() : ostream(nullptr) {}
    explicit qsx_ofstream(const string& n, ios_base::openmode m = ios_base::out) : ostream(nullptr) { open(n, m); }
    explicit qsx_ofstream(const char* n, ios_base::openmode m = ios_base::out) : ostream(nullptr) { open(n, m); }
    void open(const string& n, ios_base::openmode m = ios_base::out) { stringbuf*& b = qsx_files()[n]; if (!b || !(m & ios_base::app)) b = new stringbuf(ios_base::in | ios_base::out); rdbuf(b); clear(); mOpen = true; }
    bool is_open() const { return mOpen; }
    void close() { mOpen = false; }
private: bool mOpen = false; };
class qsx_ifstream : public istream { public:
    qsx_ifstream() : istream(nullptr) {}
    explicit qsx_ifstream(const string& n, ios_base::openmode m = ios_base::in) : istream(nullptr) { open(n, m); }
    explicit qsx_ifstream(const char* n, ios_base::openmode m = ios_base::in) : istream(nullptr) { open(n, m); }
    void open(const string& n, ios_base::openmode = ios_base::in) { auto i = qsx_files().find(n); if (i == qsx_files().end()) { setstate(ios_base::failbit); return; } rdbuf(i->second); clear(); seekg(0); mOpen = true; }
    bool is_open() const { return mOpen; }
    void close() { mOpen = false; }
private: bool mOpen = false; };
}
#define ofstream qsx_ofstream
#define ifstream qsx_ifstream
#endif
