// Symbolic build only: the output streams the repository writes to, modelled as a text in which a floating point number
// is one token (#id#) naming its value, so that a harness can read every printed number back and compare it.  How a
// number is spelt in decimal is outside this model.  The native build uses the real streams.
#pragma once
#include <algorithm>
#include <array>
#include <atomic>
#include <bitset>
#include <chrono>
#include <climits>
#include <complex>
#include <condition_variable>
#include <cstdint>
#include <cstring>
#include <ctime>
#include <deque>
#include <filesystem>
#include <forward_list>
#include <future>
#include <iomanip>
#include <ios>
#include <iostream>
#include <istream>
#include <iterator>
#include <list>
#include <locale>
#include <map>
#include <memory>
#include <mutex>
#include <numeric>
#include <optional>
#include <queue>
#include <random>
#include <regex>
#include <set>
#include <sstream>
#include <stack>
#include <streambuf>
#include <string>
#include <string_view>
#include <thread>
#include <tuple>
#include <typeindex>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <valarray>
#include <variant>
#include <vector>
#include <fstream>
#include <ostream>
extern "C" { long sym_term_id(double v); double sym_term_value(long id); }
#ifdef SYMX_BC
namespace std {
inline string fake_num(unsigned long v) { char b[24]; int n = 24; do { b[--n] = (char)('0' + v % 10); v /= 10; } while (v); return string(b + n, b + 24); }
inline string fake_int(long v) { if (v >= 0) return fake_num((unsigned long)v); string r("-"); r += fake_num(0ul - (unsigned long)v); return r; }
inline string fake_real(double v) { string r("#"); r += fake_num((unsigned long)sym_term_id(v)); r += "#"; return r; }
inline string fake_to_string(int v) { return fake_int(v); } inline string fake_to_string(long v) { return fake_int(v); } inline string fake_to_string(long long v) { return fake_int(v); } inline string fake_to_string(unsigned v) { return fake_num(v); } inline string fake_to_string(unsigned long v) { return fake_num(v); } inline string fake_to_string(unsigned long long v) { return fake_num(v); } inline string fake_to_string(float v) { return fake_real(v); } inline string fake_to_string(double v) { return fake_real(v); }
class fake_ostream { public:
  typedef char char_type; typedef char_traits<char> traits_type; string text;
  fake_ostream() {} fake_ostream(const fake_ostream&) = delete; virtual ~fake_ostream() {}
  fake_ostream& put(char c) { text.push_back(c); return *this; } fake_ostream& write(const char* p, long n) { for (long i = 0; i < n; ++i) text.push_back(p[i]); return *this; } fake_ostream& fake_flush() { return *this; }
  fake_ostream& operator<<(char c) { return put(c); } fake_ostream& operator<<(unsigned char c) { return put((char)c); } fake_ostream& operator<<(signed char c) { return put((char)c); }
  fake_ostream& operator<<(const char* p) { for (; *p; ++p) text.push_back(*p); return *this; } fake_ostream& operator<<(const string& p) { text += p; return *this; } fake_ostream& operator<<(string_view p) { return write(p.data(), (long)p.size()); }
  fake_ostream& operator<<(bool v) { return put(v ? '1' : '0'); }
  fake_ostream& operator<<(short v) { text += fake_int(v); return *this; } fake_ostream& operator<<(int v) { text += fake_int(v); return *this; } fake_ostream& operator<<(long v) { text += fake_int(v); return *this; } fake_ostream& operator<<(long long v) { text += fake_int(v); return *this; }
  fake_ostream& operator<<(unsigned short v) { text += fake_num(v); return *this; } fake_ostream& operator<<(unsigned v) { text += fake_num(v); return *this; } fake_ostream& operator<<(unsigned long v) { text += fake_num(v); return *this; } fake_ostream& operator<<(unsigned long long v) { text += fake_num(v); return *this; }
  fake_ostream& operator<<(float v) { text += fake_real(v); return *this; } fake_ostream& operator<<(double v) { text += fake_real(v); return *this; }
  fake_ostream& operator<<(fake_ostream& (*f)(fake_ostream&)) { return f(*this); } fake_ostream& operator<<(ios_base& (*)(ios_base&)) { return *this; }
  template <class C, class = enable_if_t<is_same_v<C, decltype(setprecision(1))> || is_same_v<C, decltype(setw(1))> || is_same_v<C, decltype(setfill(' '))>>> fake_ostream& operator<<(C) { return *this; }
  long precision() const { return 6; } long precision(long) { return 6; } long width() const { return 0; } long width(long) { return 0; } void setf(ios_base::fmtflags) {} void setf(ios_base::fmtflags, ios_base::fmtflags) {} void unsetf(ios_base::fmtflags) {} ios_base::fmtflags flags() const { return ios_base::fmtflags(); } ios_base::fmtflags flags(ios_base::fmtflags) { return ios_base::fmtflags(); }
  bool good() const { return true; } bool fail() const { return false; } bool bad() const { return false; } explicit operator bool() const { return true; } bool operator!() const { return false; } };
inline fake_ostream& fake_endl(fake_ostream& o) { return o.put('\n'); } inline fake_ostream& fake_flush(fake_ostream& o) { return o; }
class fake_ostringstream : public fake_ostream { public: fake_ostringstream() {} explicit fake_ostringstream(const string& s, ios_base::openmode = ios_base::out) { text = s; } explicit fake_ostringstream(ios_base::openmode) {} string str() const { return text; } void str(const string& s) { text = s; } void clear() {} string_view view() const { return text; } };
inline fake_ostream& fake_cout() { static fake_ostream* o = new fake_ostream(); return *o; } inline fake_ostream& fake_cerr() { static fake_ostream* o = new fake_ostream(); return *o; }
template <class V> class fake_ostream_iterator { fake_ostream* o; const char* d; public: typedef output_iterator_tag iterator_category; typedef void value_type; typedef void difference_type; typedef void pointer; typedef void reference; fake_ostream_iterator(fake_ostream& s, const char* p = nullptr) : o(&s), d(p) {} fake_ostream_iterator& operator=(const V& v) { *o << v; if (d) *o << d; return *this; } fake_ostream_iterator& operator*() { return *this; } fake_ostream_iterator& operator++() { return *this; } fake_ostream_iterator& operator++(int) { return *this; } };
}
#define ostream fake_ostream
#define ostringstream fake_ostringstream
#define stringstream fake_ostringstream
#define ostream_iterator fake_ostream_iterator
#define cout fake_cout()
#define cerr fake_cerr()
#define clog fake_cerr()
#define endl fake_endl
#define flush fake_flush
#define to_string fake_to_string
#endif
