// writes a file with datasets of all shapes and types: h5make OUT
#define H5_USE_18_API
#include <hdf5.h>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <vector>
static hid_t f;
static void put(const char *name, int nd, hsize_t a, hsize_t b, hsize_t c, hid_t file_t, hid_t mem_t, const void *data, hid_t where = -1) {
    hsize_t dims[3] = {a, b, c};
    hid_t s = nd ? H5Screate_simple(nd, dims, NULL) : H5Screate(H5S_SCALAR);
    hid_t d = H5Dcreate(where < 0 ? f : where, name, file_t, s, H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT);
    if (d < 0) { fprintf(stderr, "can't make %s\n", name); return; }
    if (data) H5Dwrite(d, mem_t, H5S_ALL, H5S_ALL, H5P_DEFAULT, data);
    H5Dclose(d); H5Sclose(s);
}
int main(int, char **v) {
    f = H5Fcreate(v[1], H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT);
    double nan = NAN, inf = INFINITY;
    double x[] = {nan, inf, -inf, 0.0, -0.0, 1e300, -1e-300, 5e-324, 1.7976931348623157e308, 9.9999995, 9.99999949, -0.29, 123456.75, 1. / 3, -2. / 3, 1e5};
    put("extremes", 2, 4, 4, 1, H5T_IEEE_F64LE, H5T_NATIVE_DOUBLE, x);
    put("column", 2, 16, 1, 1, H5T_IEEE_F64BE, H5T_NATIVE_DOUBLE, x);
    put("single", 2, 8, 2, 1, H5T_IEEE_F32LE, H5T_NATIVE_DOUBLE, x);
    put("norows", 2, 0, 3, 1, H5T_IEEE_F64LE, H5T_NATIVE_DOUBLE, nullptr);
    put("nocols", 2, 3, 0, 1, H5T_IEEE_F64LE, H5T_NATIVE_DOUBLE, nullptr);
    put("unwritten", 2, 3, 2, 1, H5T_IEEE_F64LE, H5T_NATIVE_DOUBLE, nullptr);
    put("flat", 1, 4, 1, 1, H5T_IEEE_F64LE, H5T_NATIVE_DOUBLE, x);
    put("cube", 3, 2, 2, 4, H5T_IEEE_F64LE, H5T_NATIVE_DOUBLE, x);
    put("scalar", 0, 1, 1, 1, H5T_IEEE_F64LE, H5T_NATIVE_DOUBLE, x);
    int32_t i[] = {1, -2, 2147483647, -2147483647 - 1};
    put("integers", 2, 2, 2, 1, H5T_STD_I32LE, H5T_NATIVE_INT32, i);
    put("per %d cent %s", 2, 1, 2, 1, H5T_IEEE_F64LE, H5T_NATIVE_DOUBLE, x + 11);
    put("\xd1\x8f", 2, 2, 1, 1, H5T_IEEE_F64LE, H5T_NATIVE_DOUBLE, x + 11);
    hid_t str = H5Tcopy(H5T_C_S1); H5Tset_size(str, 4);
    put("strings", 2, 2, 1, 1, str, str, "abc\0def");
    std::vector<double> big(3000 * 3);
    for (size_t k = 0; k < big.size(); k++) big[k] = k + 0.5;
    put("long", 2, 3000, 3, 1, H5T_IEEE_F64LE, H5T_NATIVE_DOUBLE, big.data());
    put("wide", 2, 3, 3000, 1, H5T_IEEE_F64LE, H5T_NATIVE_DOUBLE, big.data());
    hid_t g = H5Gcreate(f, "g", H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT), h = H5Gcreate(g, "h", H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT);
    put("extremes", 2, 3, 2, 1, H5T_IEEE_F64LE, H5T_NATIVE_DOUBLE, x + 9, h);
    put("column", 2, 2, 1, 1, H5T_IEEE_F64LE, H5T_NATIVE_DOUBLE, x + 11, g);
    H5Gcreate(f, "empty", H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT);
    H5Tcommit(f, "type", str, H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT);
    return H5Fclose(f) < 0;
}
