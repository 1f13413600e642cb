// OKVS (Paxos / Baxos), GF(2^128) arithmetic and bin-size computation: exhaustive over
// bounded instance sizes, parameters, key families and (for the threaded solver) schedules.
#include <cmath>
#include "psilib.h"
#include "psi/algorithm/rr22/okvs/aes_crhash.h"
#include "psi/algorithm/rr22/okvs/baxos.h"
#include "psi/algorithm/rr22/okvs/dense_mtx.h"
#include "psi/algorithm/rr22/okvs/galois128.h"
#include "psi/algorithm/rr22/okvs/paxos.h"
#include "psi/algorithm/rr22/okvs/simple_index.h"
#include "yacl/crypto/tools/prg.h"
using namespace psi::rr22::okvs;
namespace psi::rr22::okvs { void mm_gf128Mul(const yacl::block&, const yacl::block&, yacl::block&, yacl::block&); }
using u128 = uint128_t;
static std::string X(u128 v) { return fmt::format("{:016x}{:016x}", (uint64_t)(v >> 64), (uint64_t)v); }
static u128 U(uint64_t h, uint64_t l) { return ((u128)h << 64) | l; }
static uint64_t M64(uint64_t x) { x += 0x9E3779B97F4A7C15ull; x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull; x = (x ^ (x >> 27)) * 0x94D049BB133111EBull; return x ^ (x >> 31); }
// ---- GF(2^128), x^128 + x^7 + x^2 + x + 1, schoolbook
static u128 RefMul(u128 a, u128 b) {
  u128 hi = 0, lo = 0;
  for (int i = 0; i < 128; ++i) if ((b >> i) & 1) { lo ^= a << i; if (i) hi ^= a >> (128 - i); }
  for (int i = 127; i >= 0; --i) if ((hi >> i) & 1) {   // x^(128+i) = x^i (x^7+x^2+x+1)
    hi ^= (u128)1 << i;
    for (int k : {0, 1, 2, 7}) { int e = i + k; if (e < 128) lo ^= (u128)1 << e; else hi ^= (u128)1 << (e - 128); }
    if (i < 127 && (hi >> (i + 1))) i = 127 + 1;   // cannot happen for i + 7 < 128 + i; keeps the loop total
  }
  return lo;
}
static u128 Val(Galois128 g) { return g.get<u128>(0); }
static std::vector<u128> GfSet() {
  std::vector<u128> s{0, 1, ~(u128)0, U(0, ~0ull), U(~0ull, 0), U(0, 0x87), U(1ull << 63, 1)};
  for (int i = 0; i < 12; ++i) s.push_back(U(M64(2 * i), M64(2 * i + 1)));
  return s;
}
static void GfMono(int i) {   // bilinearity: a product is determined by the products of monomials
  for (int j = 0; j < 128; ++j) {
    u128 a = (u128)1 << i, b = (u128)1 << j, e = RefMul(a, b);
    if (Val(Galois128(a).Mul(Galois128(b))) != e) mc::Fail("mul", fmt::format("x^{} * x^{} = {} expected {}", i, j, X(Val(Galois128(a) * Galois128(b))), X(e)));
    if (cc_gf128Mul(a, b) != e) mc::Fail("mul-portable", fmt::format("portable x^{} * x^{} = {} expected {}", i, j, X(cc_gf128Mul(a, b)), X(e)));
    mc::Nontrivial(i * 1000 + j);
  }
  mc::Count(256);
  u128 a = (u128)1 << i;
  if (Val(Galois128(a).Inv()) == 0 || RefMul(Val(Galois128(a).Inv()), a) != 1) mc::Fail("inv", fmt::format("inverse of x^{}", i));
  mc::Sample(fmt::format("x^{} * x^0..x^127", i));
}
static void GfLaws() {
  auto s = GfSet(); uint64_t n = 0;
  for (auto a : s) for (auto b : s) {
    u128 e = RefMul(a, b);
    if (Val(Galois128(a) * Galois128(b)) != e || Val(Galois128(a) * b) != e) mc::Fail("mul", X(a) + " * " + X(b));
    if (cc_gf128Mul(a, b) != e) mc::Fail("mul-portable", X(a) + " * " + X(b));
    if (b < ((u128)1 << 64) && Val(Galois128(a) * (uint64_t)b) != e) mc::Fail("mul-u64", X(a) + " * " + X(b));
    for (auto c : s) {
      if (Val(Galois128(a) * Galois128(b ^ c)) != (Val(Galois128(a) * Galois128(b)) ^ Val(Galois128(a) * Galois128(c)))) mc::Fail("distributive", X(a) + X(b) + X(c));
      if (Val((Galois128(a) * Galois128(b)) * Galois128(c)) != Val(Galois128(a) * (Galois128(b) * Galois128(c)))) mc::Fail("associative", X(a) + X(b) + X(c));
      ++n;
    }
  }
  for (auto a : s) {
    u128 p = 1;
    for (uint64_t i = 0; i <= 70; ++i) { if (a && Val(Galois128(a).Pow(i)) != p) mc::Fail("pow", fmt::format("{}^{} = {} expected {}", X(a), i, X(Val(Galois128(a).Pow(i))), X(p))); p = RefMul(p, a); ++n; }
    if (!a && Val(Galois128(a).Pow(5)) != 0) mc::Fail("pow", "0^5");
    for (uint64_t i : {~0ull, 1ull << 63, 0x123456789abcdefull}) { u128 q = 1, b2 = a; for (uint64_t k = i; k; k >>= 1) { if (k & 1) q = RefMul(q, b2); b2 = RefMul(b2, b2); } if (a && Val(Galois128(a).Pow(i)) != q) mc::Fail("pow", X(a)); }
    if (a && RefMul(Val(Galois128(a).Inv()), a) != 1) mc::Fail("inv", X(a));
    Galois128 g((uint64_t)(a >> 64), (uint64_t)a);
    if (Val(g) != a || g.get<uint64_t>(0) != (uint64_t)a || g.get<uint64_t>()[1] != (uint64_t)(a >> 64) || g.get<uint32_t>(3) != (uint32_t)(a >> 96)) mc::Fail("repr", X(a));
  }
  mc::Count(n); mc::Sample(fmt::format("{} law instances over {} elements", n, s.size())); mc::Nontrivial(n);
}
// ---- keys
static u128 KeyOf(int fam, uint64_t i) {
  switch (fam) {
    case 0: return i;                         // consecutive integers
    case 1: return U(i, 0);                   // differ in the high word only
    case 2: return ~(u128)0 - i;
    default: return U(M64(i), M64(~i));
  }
}
template <class I> void PaxosN(int fam, uint64_t n, uint64_t w, int dt, uint64_t seed, bool rnd, uint64_t cap) {
  Paxos<I> p; p.Init(cap, w, 40, dt ? PaxosParam::DenseType::GF128 : PaxosParam::DenseType::Binary, U(seed, seed * 7 + 1));
  std::string d = fmt::format("{}-bit index, {} keys of family {} (capacity {}), weight {}, dense {}, seed {}, randomized {}", sizeof(I) * 8, n, fam, cap, w, dt, seed, rnd);
  std::vector<u128> k(n), v(n), out(p.size()), got(n);
  for (uint64_t i = 0; i < n; ++i) { k[i] = KeyOf(fam, i); v[i] = i % 5 == 0 ? 0 : i % 5 == 1 ? ~(u128)0 : U(M64(i * 3), M64(i * 3 + 1)); }
  auto prg = rnd ? std::make_shared<yacl::crypto::Prg<uint8_t>>(seed) : nullptr;
  p.SetInput(k);
  p.Encode(absl::MakeSpan(v), absl::MakeSpan(out), prg);
  p.Decode(absl::MakeSpan(k), absl::MakeSpan(got), absl::MakeSpan(out));
  for (uint64_t i = 0; i < n; ++i) if (got[i] != v[i]) mc::Fail("decode", fmt::format("key {} decodes to {} instead of {}: {}", i, X(got[i]), X(v[i]), d));
  // decoding is per key: any sub-batch gives the same values
  Paxos<I> q; q.Init(cap, w, 40, dt ? PaxosParam::DenseType::GF128 : PaxosParam::DenseType::Binary, U(seed, seed * 7 + 1));
  for (uint64_t len : {(uint64_t)1, std::min<uint64_t>(n, 31), std::min<uint64_t>(n, 33), n}) for (uint64_t off : {(uint64_t)0, n - len}) {
    std::vector<u128> g(len);
    q.Decode(absl::MakeSpan(k).subspan(off, len), absl::MakeSpan(g), absl::MakeSpan(out));
    for (uint64_t i = 0; i < len; ++i) if (g[i] != v[off + i]) mc::Fail("decode-batch", fmt::format("batch {}+{}: {}", off, len, d));
  }
  if (!dt) {
    Paxos<I> u; u.Init(cap, w, 40, PaxosParam::DenseType::Binary, U(seed, 3));
    std::vector<uint64_t> v64(n), o64(u.size()), g64(n);
    for (uint64_t i = 0; i < n; ++i) v64[i] = (uint64_t)v[i];
    u.SetInput(k); u.EncodeU64(absl::MakeSpan(v64), absl::MakeSpan(o64), prg); u.DecodeU64(absl::MakeSpan(k), absl::MakeSpan(g64), absl::MakeSpan(o64));
    if (g64 != v64) mc::Fail("decode-u64", d);
  }
  if (rnd) {
    uint64_t zero = 0; for (auto x : out) zero += x == 0;
    if (zero > 2) mc::Fail("randomize", fmt::format("{} of {} cells are zero in a randomized encoding: {}", zero, out.size(), d));
  }
  mc::Count(4 * n); mc::Nontrivial(lib::H(d)); mc::Sample(d + fmt::format(" -> {} cells", out.size()));
}
// a store with little slack has many rows in the gap: exercises the dense solver
template <class I> void PaxosTight(int fam, uint64_t n, uint64_t pct, int dt, uint64_t seed, bool rnd) {
  PaxosParam pp(n, 3, 40, dt ? PaxosParam::DenseType::GF128 : PaxosParam::DenseType::Binary);
  pp.sparse_size = std::max<uint64_t>(4, n * pct / 100); pp.g = 24; pp.dense_size = dt ? 24 : 64;
  Paxos<I> p; p.Init(n, pp, U(seed, seed * 7 + 1));
  std::string d = fmt::format("tight {}%, {} keys of family {}, dense {}, seed {}, randomized {}", pct, n, fam, dt, seed, rnd);
  std::vector<u128> k(n), v(n), out(p.size()), got(n);
  for (uint64_t i = 0; i < n; ++i) { k[i] = KeyOf(fam, i); v[i] = U(M64(i * 3), M64(i * 3 + 1)); }
  auto prg = rnd ? std::make_shared<yacl::crypto::Prg<uint8_t>>(seed) : nullptr;
  try { p.SetInput(k); p.Encode(absl::MakeSpan(v), absl::MakeSpan(out), prg); } catch (std::exception&) { return; }   // refused: gap too large
  p.Decode(absl::MakeSpan(k), absl::MakeSpan(got), absl::MakeSpan(out));
  for (uint64_t i = 0; i < n; ++i) if (got[i] != v[i]) mc::Fail("decode", fmt::format("key {} decodes to {} instead of {}: {}", i, X(got[i]), X(v[i]), d));
  mc::Count(n); mc::Nontrivial(lib::H(d)); mc::Sample(d);
}
static DenseMtx MtxOf(uint64_t bits, int n) { DenseMtx a(n, n); for (int i = 0; i < n * n; ++i) a(i / n, i % n) = (bits >> i) & 1; return a; }
static void DenseInv(int n) {   // every n x n bit matrix
  uint64_t reg = 0;
  for (uint64_t m = 0; m < (1ull << (n * n)); ++m) {
    uint64_t rows[5]; int rank = 0;
    for (int i = 0; i < n; ++i) rows[i] = (m >> (i * n)) & ((1u << n) - 1);
    for (int c = 0; c < n; ++c) { int p = -1; for (int i = rank; i < n; ++i) if (rows[i] >> c & 1) { p = i; break; } if (p < 0) continue; std::swap(rows[p], rows[rank]); for (int i = 0; i < n; ++i) if (i != rank && (rows[i] >> c & 1)) rows[i] ^= rows[rank]; ++rank; }
    auto src = MtxOf(m, n); auto v = src.Invert();
    if ((v.rows() != 0) != (rank == n)) mc::Fail("invertible", fmt::format("{}x{} matrix {:x} of rank {}", n, n, m, rank));
    if (!v.rows()) continue;
    auto a = MtxOf(m, n); auto p = a.Mult(v);
    for (int i = 0; i < n * n; ++i) if ((int)(uint8_t)p(i / n, i % n) != (i / n == i % n)) mc::Fail("inverse", fmt::format("{}x{} matrix {:x}", n, n, m));
    ++reg;
  }
  mc::Count(1ull << (n * n)); mc::Sample(fmt::format("{} regular {}x{} matrices", reg, n, n)); mc::Nontrivial(reg + n);
}
static void BaxosN(int fam, uint64_t n, uint64_t cap, uint64_t bin, uint64_t w, int dt, uint64_t seed, bool rnd, uint64_t threads, uint64_t dthreads) {
  auto T = dt ? PaxosParam::DenseType::GF128 : PaxosParam::DenseType::Binary;
  Baxos b; b.Init(cap, bin, w, 40, T, U(seed, 5));
  std::string d = fmt::format("{} keys of family {} (capacity {}), bin size {}, weight {}, dense {}, seed {}, randomized {}, {} threads (decode {})", n, fam, cap, bin, w, dt, seed, rnd, threads, dthreads);
  std::vector<u128> k(n), v(n), out(b.size()), got(n);
  for (uint64_t i = 0; i < n; ++i) { k[i] = KeyOf(fam, i); v[i] = i % 3 == 0 ? 0 : U(M64(i * 3), M64(i * 3 + 1)); }
  auto prg = rnd ? std::make_shared<yacl::crypto::Prg<uint8_t>>(seed) : nullptr;
  b.Solve(absl::MakeSpan(k), absl::MakeSpan(v), absl::MakeSpan(out), prg, threads);
  Baxos c; c.Init(cap, bin, w, 40, T, U(seed, 5));
  c.Decode(absl::MakeSpan(k), absl::MakeSpan(got), absl::MakeSpan(out), dthreads);
  for (uint64_t i = 0; i < n; ++i) if (got[i] != v[i]) mc::Fail("baxos-decode", fmt::format("key {} decodes to {} instead of {}: {}", i, X(got[i]), X(v[i]), d));
  for (uint64_t len : {(uint64_t)1, std::min<uint64_t>(n, 40)}) {
    std::vector<u128> g(len); c.Decode(absl::MakeSpan(k).subspan(n - len, len), absl::MakeSpan(g), absl::MakeSpan(out), 1);
    for (uint64_t i = 0; i < len; ++i) if (g[i] != v[n - len + i]) mc::Fail("baxos-decode-batch", d);
  }
  mc::Count(n); mc::Nontrivial(lib::H(d)); mc::Sample(d + fmt::format(" -> {} bins, {} cells", b.num_bins_, out.size())); mc::Out("ok");
}
// ---- bin sizes
static double Lg(double x) { return std::lgamma(x) / std::log(2.0); }
static double Sec(double m, double n, uint64_t B) {   // -log2 of the union bound of P[some bin gets more than B of n balls]
  if (n <= B) return 1e9;
  if (n / m > B) return 0;
  double p = 1 / m, first = 0, s = 0;
  for (uint64_t i = B + 1; i <= n && i < B + 3000; ++i) {
    double t = std::log2(m) + Lg(n + 1) - Lg(i + 1) - Lg(n - i + 1) + i * std::log2(p) + (n - i) * std::log2(1 - p);
    if (i == B + 1) first = t;
    s += std::pow(2, t - first); if (t < first - 60) break;
  }
  return -(first + std::log2(s));
}
static void BinCheck(uint64_t m, uint64_t n, uint64_t ssp, bool approx, double slack, const char* key) {
  uint64_t B = SimpleIndex::GetBinSize(m, n, ssp, approx);
  if (B > n && n > 1 && !approx) mc::Fail("bin-too-big", fmt::format("{} bins {} items: {}", m, n, B));
  double s = Sec(m, n, B);
  if (s < ssp - slack) mc::Fail(key, fmt::format("{} items in {} bins, security {}: bin size {} overflows with probability 2^-{:.2f}", n, m, ssp, B, s));
  mc::Count(1); mc::Nontrivial(m * 1000003 + n * 101 + ssp);
}
int main(int argc, char** argv) {
  mc::Suite s(argc, argv, "okvs");
  std::string what = getenv("OKVS_SET") ? getenv("OKVS_SET") : "all";
  auto on = [&](const char* x) { return what == "all" || what == x; };
  mc::Opts o; o.sched = false; o.cpu_s = 300; int T = s.Tier(0, 1);
  if (on("gf")) { for (int i = 0; i < 128; ++i) s.Add(fmt::format("gf-mono:{}", i), o, [=] { GfMono(i); }); s.Add("gf-laws", o, GfLaws); }
  if (on("paxos")) {
    for (int fam = 0; fam < 4; ++fam) for (uint64_t w : {3, 5}) for (int dt = 0; dt < 2; ++dt) for (int blk = 0; blk < 8; ++blk) for (int r = 0; r < 2; ++r) {
      if (w != 3 && fam != 3 && !T) continue;
      s.Add(fmt::format("{}:f{}w{}d{}b{}", r ? "paxos-rand" : "paxos", fam, w, dt, blk), o, [=] {
        for (uint64_t n = 1 + blk; n <= (T ? 400 : 130); n += 8) for (uint64_t seed = 1; seed <= (T ? 4 : 2); ++seed) {
          PaxosN<uint16_t>(fam, n, w, dt, seed, r, n);
          if (n <= 80) PaxosN<uint8_t>(fam, n, w, dt, seed, r, n);
          if (n % 5 == 0) { PaxosN<uint32_t>(fam, n, w, dt, seed, r, n); PaxosN<uint64_t>(fam, n, w, dt, seed, r, n); }
        }
        for (uint64_t n : {600 + blk, 1500 + 13 * blk}) PaxosN<uint32_t>(fam, n, w, dt, 9, false, n);
      });
    }
    for (int n = 1; n <= 4; ++n) s.Add(fmt::format("dense-inv:{}", n), o, [=] { DenseInv(n); });
    for (int fam = 0; fam < 4; ++fam) for (int dt = 0; dt < 2; ++dt) for (int r : {0}) for (uint64_t pct : {80, 90, 100, 110, 120, 130}) s.Add(fmt::format("paxos-tight:f{}d{}r{}p{}", fam, dt, r, pct), o, [=] {
      for (uint64_t n = 5; n <= (T ? 250 : 70); n += (T ? 1 : 3)) for (uint64_t seed = 1; seed <= (T ? 8 : 3); ++seed) PaxosTight<uint16_t>(fam, n, pct, dt, seed, r);
    });
    for (int fam = 0; fam < 4; ++fam) for (uint64_t bin : {8, 32, 100, 512}) for (int dt = 0; dt < 2; ++dt) for (uint64_t th = 0; th <= 3; ++th) for (int r = 0; r < 2; ++r) {
      mc::Opts ob = o; ob.sched = true; ob.delays = 0;
      s.Add(fmt::format("{}:f{}bin{}d{}t{}", r ? "baxos-rand" : "baxos", fam, bin, dt, th), ob, [=] {
        for (uint64_t n : {1, 2, 7, 8, 9, 31, 32, 33, 64, 65, 96, 127, 128, 129, 200, 256, 300, 512, 700, 1024, 1100}) for (uint64_t seed = 1; seed <= (T ? 5 : 1); ++seed) {
          if (th > 1 && n < th) continue;
          BaxosN(fam, n, n, bin, 3, dt, seed, r, th, (th + 1) % 4);
        }
      });
    }
    for (int t = 2; t <= 3; ++t) { mc::Opts os; os.delays = s.Tier(2, 3); os.split = true; s.Add(fmt::format("baxos-sched:{}", t), os, [=] { BaxosN(3, 64, 64, 32, 3, 1, 1, false, t, t); }); }
  }
  if (on("bins")) {
    for (uint64_t ssp : {40, 50, 60, 80}) {
      s.Add(fmt::format("bins-exact:{}", ssp), o, [=] { for (uint64_t m = 1; m <= 40; ++m) for (uint64_t n = 1; n <= (T ? 400 : 200); n += (n < 40 ? 1 : 7)) BinCheck(m, n, ssp, false, 0.01, "bins-exact"); mc::Sample(fmt::format("exact bin sizes, security {}", ssp)); });
      for (int a = 0; a <= 24; ++a) for (int b = 0; b <= 24; ++b) s.Add(fmt::format("bins-table:{}:{}:{}:", ssp, a, b), o, [=] { BinCheck(1ull << a, 1ull << b, ssp, true, 1, "bins-table"); });
      for (auto [m, n] : {std::pair<uint64_t, uint64_t>{3, 7}, {5, 512}, {7, 1000}}) s.Add(fmt::format("bins-interp:{}:{}:{}:", ssp, m, n), o, [=] { BinCheck(m, n, ssp, true, 1, "bins-interp"); });
    }
    // the ratios the PSI uses: 2^10..2^14 items per bin, split over 1..8 threads
    for (uint64_t bin : {1024, 4096, 16384}) for (uint64_t th : {1, 2, 4, 8}) s.Add(fmt::format("bins-used:{}:{}", bin, th), o, [=] {
      for (uint64_t m = 2; m <= 80; ++m) for (uint64_t k = 0; k < 24; ++k) {
        uint64_t n = bin * (m - 1) + 1 + k * (bin - 1) / 23;
        BinCheck(m, n, 40 + std::log2(m), true, 0, "bins-used");
        BinCheck(m, (n + th - 1) / th, 40, true, 4, "bins-used");
      }
    });
  }
  return s.Run();
}
