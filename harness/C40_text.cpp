// @bounds shapes of rank 1..5 with dimensions 1..3 and listed wider ones, the shape catalogue (61 shapes, up to 65 elements) and 1030 elements, every element symbolic; broadcast and slice views over listed shape pairs; MNIST pictures of 28x28 with up to 8 symbolic pixels over a fixed pattern, ranks 2..4; training of 1..3 epochs on 1..3 samples with symbolic data and targets; the three log levels with logging compiled in and compiled out
// @assume a number printed to a stream is spelt so that it reads back as the same value (the symbolic build prints a token naming the value; the native replay parses the real text)
// @outside decimal spelling, precision and locale of numbers; NaN and infinity; other devices' output streams
// @flags -I@VERIF@/harness/fakeos
#include "fakeos.hpp"
namespace logOff {
#include "smart_dnn/Debugging/Logger.hpp"
static void all(const std::string& m, int v) { Logger::log(Logger::Level::INFO, m); Logger::log(Logger::Level::WARNING, v); Logger::log(Logger::Level::ERROR, "text"); LOG_INFO(m); LOG_WARNING(v); LOG_ERROR("text"); }
}
#undef LOGGER_HPP
#undef LOG_INFO
#undef LOG_WARNING
#undef LOG_ERROR
#define ENABLE_LOGGING
namespace logOn {
#include "smart_dnn/Debugging/Logger.hpp"
static void all(const std::string& m, int v) { LOG_INFO(m); LOG_WARNING(v); LOG_ERROR("text"); }
}
#undef ENABLE_LOGGING
#undef LOG_INFO
#undef LOG_WARNING
#undef LOG_ERROR
#include "repo.hpp"
#include "smart_dnn/Datasets/MNistLoader.hpp"
typedef Tensor<float> T;
#ifdef SYMX_BC
template <class F> static std::string printed(F f) { std::fake_cout().text = ""; f(); return std::fake_cout().text; }
static float number(const std::string& s, size_t& p) { unsigned long v = 0; if (s[p] == '#') { for (++p; s[p] != '#'; ++p) v = v * 10 + (s[p] - '0'); ++p; return (float)sym_term_value((long)v); } bool neg = s[p] == '-'; if (neg) ++p; for (; p < s.size() && s[p] >= '0' && s[p] <= '9'; ++p) v = v * 10 + (s[p] - '0'); return neg ? -(float)v : (float)v; }
static bool starts(const std::string& s, size_t p) { return s[p] == '#' || (s[p] >= '0' && s[p] <= '9') || (s[p] == '-' && p + 1 < s.size() && s[p + 1] >= '0' && s[p + 1] <= '9'); }
#else
#include <iostream>
#include <cstdio>
#include <unistd.h>
template <class F> static std::string printed(F f) { std::cout.flush(); fflush(stdout); FILE* t = tmpfile(); int keep = dup(1); dup2(fileno(t), 1); try { f(); } catch (...) { std::cout.flush(); fflush(stdout); dup2(keep, 1); close(keep); fclose(t); throw; } std::cout.flush(); fflush(stdout); dup2(keep, 1); close(keep); std::string r; rewind(t); for (int c; (c = fgetc(t)) != EOF;) r.push_back((char)c); fclose(t); return r; }
static float number(const std::string& s, size_t& p) { char* e; float v = std::strtof(s.c_str() + p, &e); p = e - s.c_str(); return v; }
static bool starts(const std::string& s, size_t p) { return isdigit((unsigned char)s[p]) || (s[p] == '-' && p + 1 < s.size() && isdigit((unsigned char)s[p + 1])); }
#endif
static std::vector<float> numbers(const std::string& s, size_t from = 0, size_t to = std::string::npos) { std::vector<float> r; if (to > s.size()) to = s.size(); for (size_t p = from; p < to;) { if (starts(s, p)) r.push_back(number(s, p)); else ++p; } return r; }
static bool has(const std::string& s, const char* n, size_t from = 0) { return s.find(n, from) != std::string::npos; }
static void lists(const std::vector<float>& a, const std::vector<float>& b, const char* m) { sym_assert(a.size() == b.size(), m); for (size_t i = 0; i < a.size() && i < b.size(); ++i) check_eq(a[i], b[i], m); }
static void listsDims(const std::vector<float>& a, const Dims& d, const char* m) { lists(a, std::vector<float>(d.begin(), d.end()), m); }
// [ ... ] following position p
static std::vector<float> bracket(const std::string& s, size_t p, const char* m) { size_t a = s.find('[', p), b = s.find(']', p); sym_assert(a != std::string::npos && b != std::string::npos && a < b, m); return numbers(s, a, b); }
static void rendering(const Dims& d) { T t = symTensor<float>(d, "v"); std::vector<float> v = values(t); Shape sh = t.getShape(); listsDims(numbers(sh.toString()), d, "the text of a shape lists its dimensions"); sym_assert(sh.toString().front() == '(' && sh.toString().back() == ')', "the dimensions are in parentheses");
#ifdef SYMX_BC
  std::fake_ostringstream o;
#else
  std::ostringstream o;
#endif
  o << "x"; o << sh; sym_assert(o.str() == "x" + sh.toString(), "streaming a shape appends the same text");
  std::string ds = t.toDataString(); lists(bracket(ds, 0, "the data text is in brackets"), v, "the data text lists every element in order"); lists(numbers(ds), v, "the data text holds nothing else"); sym_assert(!has(ds, "..."), "the data text is complete");
  std::string f = t.toDetailedString(); size_t p = f.find("Shape"), q = f.find("Data", p == std::string::npos ? 0 : p); sym_assert(p != std::string::npos && q != std::string::npos, "the full text names shape and data"); listsDims(numbers(f, p, q), d, "the full text shows the shape"); std::vector<float> head(v.begin(), v.begin() + std::min<size_t>(10, v.size())); lists(bracket(f, q, "the data is in brackets"), head, "the full text shows the first elements in order"); sym_assert(has(f, "...", q) == (v.size() > 10), "an ellipsis exactly when elements are left out"); checkTensor(t, d, v, "rendering changes nothing"); lists(numbers(t.toDataString()), v, "rendering twice gives the same text"); }
ENTRY(qr_small) { rendering(pickDims(sym_pick("rank", 1, 3), 1, 3)); }
ENTRY(qr_catalogue) { rendering(pickShape(65, 1, 6)); }
ENTRY(qr_long) { static const Dims S[] = {{10}, {11}, {9}, {1030}, {33, 33}, {5, 2}, {2, 5, 1, 1, 1}, {4200}}; rendering(S[sym_pick("shape", 0, 7)]); }
ENTRY(qr_double) { Tensor<double> t = symTensor<double>({2, 6}, "v"); std::vector<double> v = values(t); std::vector<float> n = numbers(t.toDataString()), w(v.begin(), v.end()); lists(n, w, "the data text lists every element in order"); std::string f = t.toDetailedString(); w.resize(10); lists(bracket(f, f.find("Data:"), "brackets"), w, "first ten elements"); }
// the text follows the contents: after writes, reshapes, assignments and moves
ENTRY(qr_history) { T t = symTensor<float>({2, 3}, "v"), u = symTensor<float>({3}, "u"); std::vector<float> v = values(t), w = values(u); t.toDetailedString(); t.toDataString(); Dims d{2, 3}; for (int s = 0; s < 3; ++s) switch (sym_pick("op", 0, 5)) { case 0: t[1] = s + 0.5f; if (v.size() > 1) v[1] = s + 0.5f; break; case 1: if (v.size() == 6) { t.reshape(Shape{3, 2}); d = {3, 2}; } break; case 2: t = u; v = w; d = {3}; break; case 3: { T c = t; c[0] = 99; break; } case 4: { T c = std::move(t); t = c; break; } default: t *= 2.0f; for (float& x : v) x *= 2; } lists(numbers(t.toDataString()), v, "the data text shows the current contents"); std::string f = t.toDetailedString(); listsDims(numbers(f, f.find("Shape"), f.find("Data:")), d, "the full text shows the current shape"); lists(bracket(f, f.find("Data:"), "brackets"), v, "the full text shows the current contents"); }
ENTRY(qr_shape_history) { Shape s{2, 3, 4}; s.toString(); s.reshape(Shape{4, 6}); listsDims(numbers(s.toString()), {4, 6}, "after a reshape"); Shape t{5}; t = s; listsDims(numbers(t.toString()), {4, 6}, "after an assignment"); rejected([&] { s.reshape(Shape{5, 5}); }); listsDims(numbers(s.toString()), {4, 6}, "after a refused reshape"); listsDims(numbers(Shape({1000000, 2000}).toString()), {1000000, 2000}, "large dimensions"); }
// views name both shapes
ENTRY(qr_views) { static const Dims A[] = {{3}, {2, 1}, {1}, {2, 3}, {1, 2, 1}}, B[] = {{2, 3}, {2, 4}, {5, 2}, {2, 3}, {3, 2, 4}}; int k = sym_pick("pair", 0, 4); T a = symTensor<float>(A[k], "a"); BroadcastView<float, CPUDevice> v(a.getData(), Shape(B[k])); Dims both = B[k]; both.insert(both.end(), A[k].begin(), A[k].end()); listsDims(numbers(v.toString()), both, "a broadcast view names its shape and the original one"); }
ENTRY(qr_slices) { T a = symTensor<float>({4, 5}, "a"); int lo = sym_pick("lo", 0, 2), hi = sym_pick("hi", 3, 5), st = sym_pick("step", 1, 2); SliceView<float, CPUDevice> v(a.getData(), {{1, 4}, {lo, hi}}, {1, st}); listsDims(numbers(v.toString()), {3, (hi - lo + st - 1) / st, 4, 5}, "a slice view names its shape and the original one"); }
// MNIST pictures
static void picture(const Dims& d) { static const char* L = " .:-=+*#%@"; T t{Shape(d)}; int n = prodOf(d); float* p = t.getData().data(); static const int AT[] = {0, 27, 28, 55, 391, 756, 783}; std::vector<int> lev(n); for (int i = 0; i < n; ++i) { lev[i] = (i * 3 + i / 28) % 11; p[i] = lev[i] == 10 ? 1.f : (lev[i] + 0.5f) / 10.f; if (lev[i] == 10) lev[i] = 9; } int s = AT[sym_pick("pixel", 0, 6)]; float x = sym_f32("x", 0, 1); p[s] = x; lev[s] = sym_pick("level", 0, 9); int l = lev[s]; sym_assume(x * 10 >= l + 0.001f && (l == 9 || x * 10 <= l + 0.999f)); MNISTLoader<float> M("a", "b"); std::string r = M.toAsciiArt(t); sym_assert(r.size() == 28 * 29, "28 lines of 28 characters"); for (int i = 0; i < 28; ++i) { for (int j = 0; j < 28; ++j) sym_assert(r[i * 29 + j] == L[lev[i * 28 + j]], "each pixel is shown at its place with the character of its level"); sym_assert(r[i * 29 + 28] == '\n', "each row is a line"); } }
ENTRY(qr_picture) { static const Dims S[] = {{28, 28}, {1, 28, 28}, {2, 1, 28, 28}}; picture(S[sym_pick("rank", 0, 2)]); }
// training reports the mean loss of each epoch

ENTRY(qr_loss_report) { rng_symbolic = 0; int n = sym_pick("samples", 1, 3), epochs = sym_pick("epochs", 1, 3); SmartDNN<float> m; FullyConnectedLayer<float> f(1, 1); T W = symTensor<float>({1, 1}, "w", -2, 2), B = symTensor<float>({1, 1}, "b", -2, 2); f.setWeights(W); f.setBiases(B); m.addLayer(std::move(f)); SGDOptions<float> o; o.learningRate = 0.5f; o.momentum = 0; m.compile(MSELoss<float>(), SGDOptimizer<float>(o)); std::vector<T> xs, ts; for (int i = 0; i < n; ++i) { xs.push_back(T(Shape{1, 1}, 0.5f * (i + 1))); ts.push_back(symTensor<float>({1, 1}, "t", -2, 2)); } std::string s = printed([&] { m.train(xs, ts, epochs); });
  std::vector<float> e; float w = W[0], b = B[0]; for (int k = 0; k < epochs; ++k) { float sum = 0; for (int i = 0; i < n; ++i) { float x = 0.5f * (i + 1), d = w * x + b - ts[i][0]; sum += d * d; w -= 0.5f * 2 * d * x; b -= 0.5f * 2 * d; } e.push_back((float)k); e.push_back(sum / n); } lists(numbers(s), e, "training prints each epoch's number and the mean of its losses, in order"); size_t lines = 0; for (char c : s) lines += c == '\n'; sym_assert((int)lines == epochs, "one line per epoch"); }
// the logger
ENTRY(qr_logger) { int v = sym_pick("value", -1, 12); std::string m = sym_pick("message", 0, 1) ? "" : "weights ready"; sym_assert(printed([&] { logOff::all(m, v); }).empty(), "nothing is logged unless logging is enabled"); std::string s = printed([&] { logOn::all(m, v); }), e = "[INFO] " + m + "\n[WARNING] " + (v < 0 ? "-1" : v < 10 ? std::string(1, (char)('0' + v)) : std::string("1") + (char)('0' + v - 10)) + "\n[ERROR] text\n"; sym_assert(s == e, "each message is logged with its level, in order"); }
