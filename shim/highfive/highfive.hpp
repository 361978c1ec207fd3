// Minimal stand-in for the part of HighFive 3 that nrgljubljana uses, over the
// HDF5 C API.  HighFive itself is not installed in this sandbox; this lets the
// real engine sources compile unmodified.
#ifndef VERIF_HIGHFIVE_SHIM
#define VERIF_HIGHFIVE_SHIM
#include <hdf5.h>
#include <string>
#include <vector>
#include <stdexcept>
#include <type_traits>
#include <cstdint>
#include <complex>
#include <Eigen/Dense>

namespace HighFive {

struct Exception : std::runtime_error { using std::runtime_error::runtime_error; };
inline hid_t chk(hid_t id, const char *what, const std::string &path = "") {
  if (id < 0) throw Exception(std::string("HDF5 failure: ") + what + " " + path);
  return id;
}

template <typename T> struct is_cplx : std::false_type {};
template <typename T> struct is_cplx<std::complex<T>> : std::true_type {};
template <typename T> hid_t h5type() {
  if constexpr (std::is_same_v<T, double>) return H5T_NATIVE_DOUBLE;
  else if constexpr (std::is_same_v<T, float>) return H5T_NATIVE_FLOAT;
  else if constexpr (std::is_same_v<T, long double>) return H5T_NATIVE_LDOUBLE;
  else if constexpr (std::is_integral_v<T>) {
    if constexpr (std::is_signed_v<T>) {
      if constexpr (sizeof(T) == 1) return H5T_NATIVE_INT8;
      else if constexpr (sizeof(T) == 2) return H5T_NATIVE_INT16;
      else if constexpr (sizeof(T) == 4) return H5T_NATIVE_INT32;
      else return H5T_NATIVE_INT64;
    } else {
      if constexpr (sizeof(T) == 1) return H5T_NATIVE_UINT8;
      else if constexpr (sizeof(T) == 2) return H5T_NATIVE_UINT16;
      else if constexpr (sizeof(T) == 4) return H5T_NATIVE_UINT32;
      else return H5T_NATIVE_UINT64;
    }
  } else if constexpr (is_cplx<T>::value) { // compound {r,i}, as in HighFive
    static const hid_t t = [] {
      using R = typename T::value_type;
      hid_t c = H5Tcreate(H5T_COMPOUND, sizeof(T));
      H5Tinsert(c, "r", 0, h5type<R>());
      H5Tinsert(c, "i", sizeof(R), h5type<R>());
      return c;
    }();
    return t;
  } else static_assert(sizeof(T) == 0, "type not supported by the HighFive stand-in");
}

class File {
public:
  enum AccessMode : unsigned { ReadOnly = 1, ReadWrite = 2, Truncate = 4, Excl = 8, Create = 16, Overwrite = 4, OpenOrCreate = 18 };
  explicit File(const std::string &fn, unsigned mode = ReadOnly) {
    H5Eset_auto2(H5E_DEFAULT, nullptr, nullptr);
    if (mode & Truncate) id = H5Fcreate(fn.c_str(), H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT);
    else if (mode & ReadWrite) {
      id = H5Fopen(fn.c_str(), H5F_ACC_RDWR, H5P_DEFAULT);
      if (id < 0 ) id = H5Fcreate(fn.c_str(), H5F_ACC_EXCL, H5P_DEFAULT, H5P_DEFAULT);
    } else id = H5Fopen(fn.c_str(), H5F_ACC_RDONLY, H5P_DEFAULT);
    chk(id, "open", fn);
  }
  File(const File &) = delete;
  File &operator=(const File &) = delete;
  ~File() { if (id >= 0) H5Fclose(id); }
  void flush() { H5Fflush(id, H5F_SCOPE_GLOBAL); }
  hid_t getId() const { return id; }
private:
  hid_t id = -1;
};

namespace detail {
inline hid_t make_ds(hid_t f, const std::string &path, hid_t type, hid_t space) {
  hid_t lc = chk(H5Pcreate(H5P_LINK_CREATE), "plist");
  H5Pset_create_intermediate_group(lc, 1);
  hid_t ds = H5Dcreate2(f, path.c_str(), type, space, lc, H5P_DEFAULT, H5P_DEFAULT);
  H5Pclose(lc);
  return chk(ds, "create dataset", path);
}
inline void write(hid_t f, const std::string &path, hid_t type, hid_t space, const void *buf, bool empty) {
  hid_t ds = make_ds(f, path, type, space);
  herr_t e = empty ? 0 : H5Dwrite(ds, type, H5S_ALL, H5S_ALL, H5P_DEFAULT, buf);
  H5Dclose(ds);
  if (e < 0) throw Exception("HDF5 write failure " + path);
}
template <typename T> struct is_vec : std::false_type {};
template <typename T> struct is_vec<std::vector<T>> : std::true_type {};
}
} // namespace HighFive

namespace H5Easy {
using HighFive::File;
using HighFive::Exception;

template <typename T> requires std::is_arithmetic_v<T>
void dump(File &f, const std::string &path, const T &x) {
  hid_t sp = H5Screate(H5S_SCALAR);
  HighFive::detail::write(f.getId(), path, HighFive::h5type<T>(), sp, &x, false);
  H5Sclose(sp);
}
template <typename T>
void dump(File &f, const std::string &path, const std::vector<T> &v) {
  hsize_t n = v.size();
  hid_t sp = H5Screate_simple(1, &n, nullptr);
  if constexpr (std::is_same_v<T, std::string>) {
    hid_t t = H5Tcopy(H5T_C_S1);
    H5Tset_size(t, H5T_VARIABLE);
    std::vector<const char *> p;
    for (const auto &s : v) p.push_back(s.c_str());
    HighFive::detail::write(f.getId(), path, t, sp, p.data(), v.empty());
    H5Tclose(t);
  } else
    HighFive::detail::write(f.getId(), path, HighFive::h5type<T>(), sp, v.data(), v.empty());
  H5Sclose(sp);
}
enum class DumpMode { Create = 0, Overwrite = 1 };
template <typename D>
void dump(File &f, const std::string &path, const Eigen::MatrixBase<D> &m_, DumpMode mode = DumpMode::Create) {
  using T = typename D::Scalar;
  Eigen::Matrix<T, Eigen::Dynamic, Eigen::Dynamic, Eigen::RowMajor> m = m_;
  hsize_t n[2] = {(hsize_t)m.rows(), (hsize_t)m.cols()};
  if (mode == DumpMode::Overwrite) { // as in HighFive: only over a dataset of the same shape
    if (hid_t ds = H5Dopen2(f.getId(), path.c_str(), H5P_DEFAULT); ds >= 0) {
      hid_t sp = H5Dget_space(ds);
      hsize_t q[8] = {0, 0};
      const bool ok = H5Sget_simple_extent_ndims(sp) == 2 && H5Sget_simple_extent_dims(sp, q, nullptr) >= 0 && q[0] == n[0] && q[1] == n[1];
      const herr_t e = ok && m.size() ? H5Dwrite(ds, HighFive::h5type<T>(), H5S_ALL, H5S_ALL, H5P_DEFAULT, m.data()) : 0;
      H5Sclose(sp);
      H5Dclose(ds);
      if (!ok || e < 0) throw Exception("H5Easy: cannot overwrite dataset " + path);
      return;
    }
  }
  hid_t sp = H5Screate_simple(2, n, nullptr);
  HighFive::detail::write(f.getId(), path, HighFive::h5type<T>(), sp, m.data(), m.size() == 0);
  H5Sclose(sp);
}
inline void dump(File &f, const std::string &path, const std::string &s) {
  hid_t sp = H5Screate(H5S_SCALAR);
  hid_t t = H5Tcopy(H5T_C_S1);
  H5Tset_size(t, H5T_VARIABLE);
  const char *p = s.c_str();
  HighFive::detail::write(f.getId(), path, t, sp, &p, false);
  H5Tclose(t);
  H5Sclose(sp);
}

template <typename T> T load(const File &f, const std::string &path) {
  hid_t ds = HighFive::chk(H5Dopen2(f.getId(), path.c_str(), H5P_DEFAULT), "open dataset", path);
  hid_t sp = H5Dget_space(ds);
  hsize_t n[8] = {1, 1};
  const int nd = H5Sget_simple_extent_ndims(sp);
  if (nd > 0) H5Sget_simple_extent_dims(sp, n, nullptr);
  T r{};
  herr_t e = 0;
  if constexpr (std::is_arithmetic_v<T>)
    e = H5Dread(ds, HighFive::h5type<T>(), H5S_ALL, H5S_ALL, H5P_DEFAULT, &r);
  else if constexpr (HighFive::detail::is_vec<T>::value) {
    r.resize(n[0]);
    if (n[0]) e = H5Dread(ds, HighFive::h5type<typename T::value_type>(), H5S_ALL, H5S_ALL, H5P_DEFAULT, r.data());
  } else {
    Eigen::Matrix<typename T::Scalar, Eigen::Dynamic, Eigen::Dynamic, Eigen::RowMajor> m(n[0], n[1]);
    if (m.size()) e = H5Dread(ds, HighFive::h5type<typename T::Scalar>(), H5S_ALL, H5S_ALL, H5P_DEFAULT, m.data());
    r = m;
  }
  H5Sclose(sp);
  H5Dclose(ds);
  if (e < 0) throw Exception("HDF5 read failure " + path);
  return r;
}
} // namespace H5Easy
#endif
