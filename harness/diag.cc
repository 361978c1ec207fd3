// Driver for the real diagonalise(): reads matrices, writes the eigensystems it returns.
// Work arrays allocated inside diagonalise() end at an inaccessible page.
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <new>
#include <vector>
#include <string>
#include <fstream>
#include <iostream>
#include <sys/mman.h>
#include <unistd.h>

static bool guard = false;
static size_t guarded = 0;
static const size_t PG = 4096;
struct Hdr { size_t magic, len, size; };
static void *galloc(size_t n) {
  const size_t pages = (n + PG - 1) / PG;
  char *b = (char *)mmap(nullptr, (pages + 2) * PG, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  if (b == MAP_FAILED) throw std::bad_alloc();
  mprotect(b + (pages + 1) * PG, PG, PROT_NONE);
  char *p = b + (pages + 1) * PG - ((n + 7) / 8) * 8;
  if (n % 16 == 0) p = b + (pages + 1) * PG - n;
  memset(b + PG, 0xff, pages * PG);
  Hdr *h = (Hdr *)b;
  h->magic = 0x5eedfeed; h->len = (pages + 2) * PG; h->size = n;
  guarded++;
  return p;
}
// blocks are told apart by address: guarded ones are registered
#include <unordered_map>
template <class T> struct Mal { using value_type = T; Mal() {} template <class U> Mal(const Mal<U> &) {}
  T *allocate(size_t n) { return (T *)malloc(n * sizeof(T)); } void deallocate(T *p, size_t) { free(p); }
  bool operator==(const Mal &) const { return true; } bool operator!=(const Mal &) const { return false; } };
using Reg = std::unordered_map<void *, std::pair<char *, size_t>, std::hash<void *>, std::equal_to<void *>, Mal<std::pair<void *const, std::pair<char *, size_t>>>>;
static Reg &reg() { static Reg *r = new (malloc(sizeof(Reg))) Reg; return *r; }
void *operator new(size_t n) {
  if (guard && n >= 8) {
    guard = false;
    char *p = (char *)galloc(n);
    const size_t pages = (n + PG - 1) / PG;
    reg()[p] = {(char *)(((size_t)p / PG - 0) * PG), pages};
    // base: the header page lies directly below the data pages
    size_t base = ((size_t)p + ((n + 7) / 8) * 8 + PG - 1) / PG * PG - (pages + 1) * PG;
    reg()[p] = {(char *)base, (pages + 2) * PG};
    guard = true;
    return p;
  }
  void *p = malloc(n ? n : 1);
  if (!p) throw std::bad_alloc();
  return p;
}
void operator delete(void *p) noexcept {
  if (!p) return;
  auto it = reg().find(p);
  if (it == reg().end()) { free(p); return; }
  auto [b, len] = it->second;
  for (char *q = b + PG; q < (char *)p; q++) // padding before the block must be untouched
    if (*q != (char)0xff) { fprintf(stderr, "GUARD: write before the start of a work array\n"); _exit(77); }
  reg().erase(it);
  munmap(b, len);
}
void operator delete(void *p, size_t) noexcept { operator delete(p); }

#include "diag.hpp"
using namespace NRG;

template <typename S> int one(std::istream &F, std::ostream &O, uint32_t n, const std::string &routine, double ratio, bool saveram, const std::string &logs) {
  EigenMatrix<S> m(n, n);
  for (uint32_t i = 0; i < n; i++)
    for (uint32_t j = 0; j < n; j++) { S x; F.read((char *)&x, sizeof(S)); m(i, j) = x; }
  DiagParams DP;
  DP.diag = routine; DP.diagratio = ratio; DP.saveram = saveram; DP.logstr = logs;
  int32_t rc = 0;
  RawEigen<S> d;
  std::string what;
  std::ostringstream sink;
  auto *old = std::cout.rdbuf(sink.rdbuf());
  try { guard = true; d = diagonalise(m, DP, -1); guard = false; }
  catch (std::exception &e) { guard = false; rc = 1; what = e.what(); }
  std::cout.rdbuf(old);
  O.write((char *)&rc, 4);
  if (rc) { uint32_t L = what.size(); O.write((char *)&L, 4); O.write(what.data(), L); O.flush(); return 0; }
  uint32_t M = d.val.size(), r = d.vec.rows(), c = d.vec.cols();
  O.write((char *)&M, 4); O.write((char *)&r, 4); O.write((char *)&c, 4);
  for (auto x : d.val) { double y = x; O.write((char *)&y, 8); }
  for (uint32_t i = 0; i < r; i++)
    for (uint32_t j = 0; j < c; j++) { S x = d.vec(i, j); O.write((char *)&x, sizeof(S)); }
  O.flush();
  return 0;
}

int main(int argc, char *argv[]) {
  std::ifstream F(argv[1], std::ios::binary);
  std::ofstream O(argv[2], std::ios::binary);
  uint32_t h[4]; // complex, n, saveram, lengths
  while (F.read((char *)h, 16)) {
    double ratio; F.read((char *)&ratio, 8);
    std::string r(h[3] & 0xff, ' '), l(h[3] >> 8, ' ');
    F.read(r.data(), r.size()); F.read(l.data(), l.size());
    if (h[0]) one<std::complex<double>>(F, O, h[1], r, ratio, h[2], l); else one<double>(F, O, h[1], r, ratio, h[2], l);
  }
  fprintf(stderr, "guarded=%zu\n", guarded);
  return 0;
}
