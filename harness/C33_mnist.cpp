// @bounds image files with 0..13 records (labels symbolic up to 5 records) of up to 2x3 pixels, up to 3 records of 28x28 (two pixels per record and every 149th symbolic, the others a fixed pattern), 5x7, 40x1 pixels, 64 and 70 records of one pixel, and label files to match, every byte of the contents symbolic; header fields symbolic (magic) or from a list with negative, zero and overflowing values; every truncation point; batch sizes 1..6 and symbolic; requested sample counts -1..4; float and double
// @assume the file system and std::ifstream deliver the bytes of the file in order and report end of file (in the symbolic build they are an in-memory model, in the native replay the real streams on a scratch file)
// @outside larger files; images so large that the allocation fails; text rendering
// @flags -I@VERIF@/harness/fakeio
#include <fstream>
#include "repo.hpp"
#include "smart_dnn/Datasets/MNistLoader.hpp"
typedef std::vector<unsigned char> Bytes;
#ifdef SYMX_BC
std::vector<FakeFile> fakeFiles;
static std::string put(const char* n, const Bytes& b) { fakeFiles.push_back({n, b}); return n; }
#else
#include <cstdio>
#include <cstdlib>
static std::string put(const char* n, const Bytes& b) { const char* d = getenv("SYM_DIR"); std::string p = std::string(d ? d : "/tmp") + "/mnist_" + n; FILE* f = fopen(p.c_str(), "wb"); if (!b.empty()) fwrite(b.data(), 1, b.size(), f); fclose(f); return p; }
#endif
static void be(Bytes& b, unsigned v) { for (int s = 24; s >= 0; s -= 8) b.push_back((unsigned char)(v >> s)); }
static Bytes images(int n, int r, int c, int records) { Bytes b; be(b, 2051); be(b, n); be(b, r); be(b, c); for (int i = 0; i < records * r * c; ++i) b.push_back(sym_u8("pixel", 0, 255)); return b; }
static Bytes labels(int n, int records, int hi = 9) { Bytes b; be(b, 2049); be(b, n); for (int i = 0; i < records; ++i) b.push_back(sym_u8("label", 0, hi)); return b; }
template <class T> void decode(int n, int r, int c, int batch, int limit) {
  Bytes im = images(n, r, c, n), lb = labels(n, n); std::string pi = put("img", im), pl = put("lab", lb); MNISTLoader<T> L(pi, pl, batch, limit); auto d = L.loadData(); int m = limit == -1 ? n : limit, nb = (m + batch - 1) / batch;
  sym_assert((int)d.first.size() == nb, "image batches cover the samples"); sym_assert((int)d.second.size() == nb, "label batches cover the samples");
  for (int k = 0; k < nb; ++k) { int cur = std::min(batch, m - k * batch); std::vector<T> px, oh(cur * 10, T(0)); for (int j = 0; j < cur; ++j) { for (int q = 0; q < r * c; ++q) px.push_back(T(im[16 + (k * batch + j) * r * c + q]) / T(255)); } checkTensor(d.first[k], {cur, 1, r, c}, px, "every pixel is its byte divided by 255");
    checkDims(d.second[k], {cur, 10}, "labels are one-hot rows"); for (int j = 0; j < cur; ++j) for (int q = 0; q < 10; ++q) { T v = d.second[k][j * 10 + q]; int lab = lb[8 + k * batch + j]; sym_assert(lab == q ? v == T(1) : v == T(0), "the label's own column is one and the others zero"); } } }
ENTRY(qr_images) { static const int C[][5] = {{1, 1, 1, 1, -1}, {1, 2, 3, 1, -1}, {2, 2, 1, 1, -1}, {2, 1, 2, 2, -1}, {2, 2, 2, 5, -1}, {0, 2, 2, 1, -1}, {2, 1, 3, 1, 1}, {2, 2, 1, 2, 1}, {1, 1, 1, 2, 0}}; const int* c = C[sym_pick("config", 0, 8)]; decode<float>(c[0], c[1], c[2], c[3], c[4]); }
ENTRY(qr_double) { sym_precise(); decode<double>(1, 2, 2, 1, -1); }
// grouping into batches: labels fixed, pixels symbolic
ENTRY(qr_batches) { int n = sym_pick("n", 0, 5), batch = sym_pick("batch", 1, 6), limit = sym_pick("limit", -1, 4); Bytes im = images(n, 1, 2, n), lb; be(lb, 2049); be(lb, n); for (int i = 0; i < n; ++i) lb.push_back((unsigned char)((i * 3 + 1) % 10)); std::string pi = put("img", im), pl = put("lab", lb); int m = limit == -1 ? n : limit; bool rej = false; try { MNISTLoader<float> L(pi, pl, batch, limit); auto d = L.loadData(); int at = 0; for (size_t k = 0; k < d.first.size(); ++k) { int cur = d.first[k].getShape()[0]; sym_assert(cur == (m - at < batch ? m - at : batch), "batches are full except the last"); for (int j = 0; j < cur; ++j, ++at) { for (int q = 0; q < 2; ++q) check_eq(d.first[k].at({j, 0, 0, q}), (float)im[16 + at * 2 + q] / 255.f, "samples stay in file order"); for (int q = 0; q < 10; ++q) check_eq(d.second[k].at({j, q}), q == (at * 3 + 1) % 10 ? 1.f : 0.f, "labels stay with their images"); } } sym_assert(at == m, "no sample is lost or repeated"); } catch (const std::exception&) { rej = true; } sym_assert(rej == (m > n), "asking for more samples than the file holds is rejected"); }
ENTRY(qr_label_range) { int n = sym_pick("n", 1, 3), batch = sym_pick("batch", 1, 3); Bytes im = images(n, 1, 1, n), lb = labels(n, n, 255); bool bad = false; for (int i = 0; i < n; ++i) bad |= lb[8 + i] > 9; std::string pi = put("img", im), pl = put("lab", lb); MNISTLoader<float> L(pi, pl, batch); bool rej = rejected([&] { L.loadData(); }); sym_assert(rej == bad, "labels above nine are rejected"); }
ENTRY(qr_truncated_images) { Bytes im = images(2, 1, 2, 2), lb = labels(2, 2, 0); int cut = sym_pick("length", 0, 20); im.resize(cut); std::string pi = put("img", im), pl = put("lab", lb); MNISTLoader<float> L(pi, pl, sym_pick("batch", 1, 2)); bool rej = rejected([&] { L.loadData(); }); sym_assert(rej == (cut < 20), "a truncated image file is rejected"); }
ENTRY(qr_truncated_labels) { Bytes im = images(3, 1, 1, 3), lb = labels(3, 3, 0); int cut = sym_pick("length", 0, 11); lb.resize(cut); std::string pi = put("img", im), pl = put("lab", lb); MNISTLoader<float> L(pi, pl, sym_pick("batch", 1, 3)); bool rej = rejected([&] { L.loadData(); }); sym_assert(rej == (cut < 11), "a truncated label file is rejected"); }
ENTRY(qr_trailing) { Bytes im = images(1, 1, 2, 2), lb = labels(1, 3); std::string pi = put("img", im), pl = put("lab", lb); MNISTLoader<float> L(pi, pl); auto d = L.loadData(); sym_assert(d.first.size() == 1 && d.second.size() == 1, "trailing bytes are not samples"); checkTensor(d.first[0], {1, 1, 1, 2}, {(float)im[16] / 255.f, (float)im[17] / 255.f}, "pixels"); }
ENTRY(qr_magic) { Bytes im = images(1, 1, 1, 1), lb = labels(1, 1, 0); bool which = sym_pick("which", 0, 1); Bytes& b = which ? lb : im; unsigned v = 0; for (int i = 0; i < 4; ++i) { b[i] = sym_u8("magic", 0, 255); v = v << 8 | b[i]; } std::string pi = put("img", im), pl = put("lab", lb); MNISTLoader<float> L(pi, pl); bool rej = rejected([&] { L.loadData(); }); sym_assert(rej == (v != (which ? 2049u : 2051u)), "a wrong magic number is rejected"); }
ENTRY(qr_header) { static const int V[] = {-1, 0, 1, 2, 1000, 65536, 2147483647, -2147483647 - 1}; int r = V[sym_pick("rows", 0, 7)], c = V[sym_pick("cols", 0, 7)], batch = sym_pick("batch", 1, 2); Bytes im, lb = labels(1, 1, 0); be(im, 2051); be(im, 1); be(im, r); be(im, c); for (int i = 0; i < 4; ++i) im.push_back(sym_u8("pixel", 0, 255)); if (r > 0 && c > 0 && (long)r * c > 2000000) return;  std::string pi = put("img", im), pl = put("lab", lb); MNISTLoader<float> L(pi, pl, batch); bool rej = rejected([&] { L.loadData(); }); sym_assert(rej == !(r > 0 && c > 0 && (long)r * c <= 4), "image sizes that the file cannot hold are rejected"); }
ENTRY(qr_counts) { static const int V[] = {-1, 0, 1, 2, 3, 2147483647, -2147483647 - 1}; int n = V[sym_pick("images", 0, 6)], m = V[sym_pick("labels", 0, 6)]; Bytes im = images(n, 1, 1, 2), lb = labels(m, 2, 0); std::string pi = put("img", im), pl = put("lab", lb); MNISTLoader<float> L(pi, pl, 1); bool rej = rejected([&] { auto d = L.loadData(); sym_assert((int)d.first.size() == std::max(n, 0) && (int)d.second.size() == std::max(m, 0), "one batch per declared record"); }); sym_assert(rej == (n > 2 || m > 2), "counts beyond the end of the file are rejected"); }
ENTRY(qr_missing) { Bytes im = images(1, 1, 1, 1), lb = labels(1, 1, 0); int k = sym_pick("k", 0, 2); std::string pi = put("img", im), pl = put("lab", lb); if (k != 1) pi = "/nonexistent-dir-of-the-check/none1"; if (k != 0) pl = "/nonexistent-dir-of-the-check/none2"; MNISTLoader<float> L(pi, pl); sym_assert(rejected([&] { L.loadData(); }), "missing files are rejected"); }
ENTRY(qr_batch_size) { int b = sym_i32("batch", -2147483647 - 1, 2147483647); bool rej = rejected([&] { MNISTLoader<float> L("a", "b", b); }); sym_assert(rej == (b <= 0), "batch sizes must be positive"); }
ENTRY(qr_twice) { Bytes im = images(2, 1, 1, 2), lb = labels(2, 2, 0); std::string pi = put("img", im), pl = put("lab", lb); MNISTLoader<float> L(pi, pl, 2); auto a = L.loadData(), b = L.loadData(); sym_assert(a.first.size() == b.first.size(), "loading twice gives the same data"); checkTensor(b.first[0], {2, 1, 1, 1}, values(a.first[0]), "loading twice gives the same data"); checkTensor(b.second[0], {2, 10}, values(a.second[0]), "loading twice gives the same labels"); }
// real image sizes; labels fixed, the first and last pixels and every 149th symbolic
static Bytes pattern(int n, int r, int c) { Bytes b; be(b, 2051); be(b, n); be(b, r); be(b, c); int s = r * c; for (int i = 0; i < n * s; ++i) b.push_back(n * s <= 80 || i % s == 0 || i % s == s - 1 || i % 149 == 31 ? sym_u8("pixel", 0, 255) : (unsigned char)((i * 37 + i / 28) % 256)); return b; }
static void large(int n, int r, int c, int batch, int limit) { Bytes im = pattern(n, r, c), lb; be(lb, 2049); be(lb, n); for (int i = 0; i < n; ++i) lb.push_back((unsigned char)((i * 7 + 3) % 10)); std::string pi = put("img", im), pl = put("lab", lb); MNISTLoader<float> L(pi, pl, batch, limit); auto d = L.loadData(); int m = limit == -1 ? n : limit, at = 0; sym_assert(d.first.size() == d.second.size(), "as many label batches as image batches"); for (size_t k = 0; k < d.first.size(); ++k) { int cur = std::min(batch, m - at); std::vector<float> px, oh(cur * 10, 0.f); for (int j = 0; j < cur; ++j) { for (int q = 0; q < r * c; ++q) px.push_back((float)im[16 + (at + j) * r * c + q] / 255.f); oh[j * 10 + ((at + j) * 7 + 3) % 10] = 1; } checkTensor(d.first[k], {cur, 1, r, c}, px, "every pixel is its byte divided by 255"); checkTensor(d.second[k], {cur, 10}, oh, "labels are one-hot rows in file order"); at += cur; } sym_assert(at == m, "no sample is lost or repeated"); }
ENTRY(qr_real_size) { static const int C[][5] = {{2, 28, 28, 2, -1}, {3, 28, 28, 2, -1}, {3, 5, 7, 3, 2}, {2, 7, 5, 1, -1}, {1, 1, 40, 1, -1}, {1, 40, 1, 4, -1}}; const int* c = C[sym_pick("config", 0, 5)]; large(c[0], c[1], c[2], c[3], c[4]); }
ENTRY(qr_many) { int n = sym_pick("n", 6, 13), batch = sym_pick("batch", 1, 14); large(n, 1, 2, batch, sym_pick("limited", 0, 1) ? n - 3 : -1); }
ENTRY(qr_default_batch) { int n = sym_pick("n", 0, 3); n = n == 0 ? 1 : n == 1 ? 64 : n == 2 ? 70 : 700; Bytes im = images(n, 1, 1, n), lb; be(lb, 2049); be(lb, n); for (int i = 0; i < n; ++i) lb.push_back((unsigned char)(i % 10)); std::string pi = put("img", im), pl = put("lab", lb); MNISTLoader<float> L(pi, pl); auto d = L.loadData(); int at = 0; for (size_t k = 0; k < d.first.size(); ++k) { int cur = d.first[k].getShape()[0]; for (int j = 0; j < cur; ++j, ++at) { check_eq(d.first[k][j], (float)im[16 + at] / 255.f, "samples stay in file order"); sym_assert(d.second[k][j * 10 + at % 10] == 1.f, "labels stay with their images"); } } sym_assert(at == n, "the defaults load every sample"); }
// several loaders, interleaved, over different files
ENTRY(qr_two_loaders) { Bytes a = images(2, 1, 2, 2), la, b = images(1, 2, 1, 1), lb; be(la, 2049); be(la, 2); la.push_back(1); la.push_back(2); be(lb, 2049); be(lb, 1); lb.push_back(3); std::string pa = put("imga", a), pla = put("laba", la), pb = put("imgb", b), plb = put("labb", lb); MNISTLoader<float> L(pa, pla, 2), M(pb, plb, 1); bool first = sym_pick("first", 0, 1); auto d = first ? L.loadData() : M.loadData(); auto e = first ? M.loadData() : L.loadData(); auto& x = first ? d : e; auto& y = first ? e : d; std::vector<float> px, py; for (int i = 0; i < 4; ++i) px.push_back((float)a[16 + i] / 255.f); for (int i = 0; i < 2; ++i) py.push_back((float)b[16 + i] / 255.f); checkTensor(x.first[0], {2, 1, 1, 2}, px, "loaders do not share state"); checkTensor(y.first[0], {1, 1, 2, 1}, py, "loaders do not share state"); sym_assert(x.second[0][1] == 1.f && x.second[0][12] == 1.f && y.second[0][3] == 1.f, "loaders do not share state"); }
// a failed load does not spoil the next one
ENTRY(qr_after_failure) { Bytes im = images(2, 1, 1, 2), lb = labels(2, 2, 0), bad = im; bad.resize(17); std::string pb = put("bad", bad), pi = put("img", im), pl = put("lab", lb); MNISTLoader<float> B(pb, pl, 2); sym_assert(rejected([&] { B.loadData(); }), "truncated"); MNISTLoader<float> L(pi, pl, 2); auto d = L.loadData(); checkTensor(d.first[0], {2, 1, 1, 1}, {(float)im[16] / 255.f, (float)im[17] / 255.f}, "a failed load leaves no trace"); }
ENTRY(tr_images) { decode<float>(sym_pick("n", 1, 2), sym_pick("rows", 1, 3), sym_pick("cols", 1, 3), sym_pick("batch", 1, 3), -1); }
