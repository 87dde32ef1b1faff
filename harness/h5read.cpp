// prints HDF5 files as JSON lines: {"file":..., "error"?:..., "attrs":{...}, "sets":{path:{"dims":[],"cols":[names],"rows":[[...]]}}, "groups":[...]}
#define H5_USE_18_API
#include <hdf5.h>
#include <cstdio>
#include <cmath>
#include <string>
#include <vector>
#include <cstring>
#include <cstdint>
static void str(const char *s) { putchar('"'); for (; s && *s; s++) { unsigned char c = *s; if (c == '"' || c == '\\') printf("\\%c", c); else if (c < 32 || c > 126) printf("\\u%04x", c); else putchar(c); } putchar('"'); }
static void num(double d) { if (std::isnan(d)) printf("NaN"); else if (std::isinf(d)) printf(d > 0 ? "Infinity" : "-Infinity"); else printf("%.17g", d); }
// one value of type t at p; compounds become lists
static void value(hid_t t, const char *p) {
    switch (H5Tget_class(t)) {
    case H5T_INTEGER: case H5T_ENUM: {
        hid_t b = H5Tget_class(t) == H5T_ENUM ? H5Tget_super(t) : t; size_t n = H5Tget_size(b); bool sg = H5Tget_sign(b) == H5T_SGN_2;
        long long v = n == 1 ? (sg ? *(int8_t *)p : *(uint8_t *)p) : n == 2 ? (sg ? *(int16_t *)p : *(uint16_t *)p) : n == 4 ? (sg ? (long long)*(int32_t *)p : (long long)*(uint32_t *)p) : *(int64_t *)p;
        printf("%lld", v); break; }
    case H5T_FLOAT: if (H5Tget_size(t) == 4) num(*(float *)p); else num(*(double *)p); break;
    case H5T_STRING: if (H5Tis_variable_str(t)) str(*(char **)p); else { std::string s(p, H5Tget_size(t)); str(s.c_str()); } break;
    case H5T_COMPOUND: { putchar('['); int n = H5Tget_nmembers(t); for (int i = 0; i < n; i++) { if (i) putchar(','); hid_t m = H5Tget_member_type(t, i); value(m, p + H5Tget_member_offset(t, i)); H5Tclose(m); } putchar(']'); break; }
    case H5T_REFERENCE: printf("\"ref\""); break;
    default: printf("\"?\"");
    }
}
static std::vector<std::string> groups;
static bool first;
static void attrs(hid_t o) {
    int n = H5Aget_num_attrs(o); putchar('{'); 
    for (int i = 0; i < n; i++) {
        hid_t a = H5Aopen_idx(o, i); char name[256]; H5Aget_name(a, 256, name); if (i) putchar(','); str(name); putchar(':');
        hid_t t = H5Aget_type(a), m = H5Tget_native_type(t, H5T_DIR_DEFAULT), s = H5Aget_space(a);
        size_t np = H5Sget_simple_extent_npoints(s), sz = H5Tget_size(m); std::vector<char> buf(np * sz + 16);
        if (m < 0 || H5Aread(a, m, buf.data()) < 0) {
            // references have no native type of their own
            printf("\"ref\"");
        } else { if (np != 1) putchar('['); for (size_t k = 0; k < np; k++) { if (k) putchar(','); value(m, buf.data() + k * sz); } if (np != 1) putchar(']'); }
        H5Sclose(s); H5Tclose(m); H5Tclose(t); H5Aclose(a);
    }
    putchar('}');
}
static herr_t visit(hid_t g, const char *name, const H5O_info_t *info, void *) {
    if (!strcmp(name, ".")) return 0;
    if (info->type == H5O_TYPE_GROUP) { groups.push_back(name); return 0; }
    if (info->type != H5O_TYPE_DATASET) return 0;
    if (!first) putchar(','); first = false;
    str(name); printf(":{\"dims\":[");
    hid_t d = H5Dopen(g, name, H5P_DEFAULT), s = H5Dget_space(d), t = H5Dget_type(d), m = H5Tget_native_type(t, H5T_DIR_DEFAULT);
    hsize_t dims[8] = {1, 1, 1, 1, 1, 1, 1, 1}; int nd = H5Sget_simple_extent_dims(s, dims, NULL);
    for (int i = 0; i < nd; i++) printf("%s%llu", i ? "," : "", (unsigned long long)dims[i]);
    printf("],\"cols\":["); if (H5Tget_class(m) == H5T_COMPOUND) for (int i = 0; i < H5Tget_nmembers(m); i++) { if (i) putchar(','); char *c = H5Tget_member_name(m, i); str(c); }
    printf("],\"attrs\":"); attrs(d); printf(",\"rows\":[");
    size_t np = H5Sget_simple_extent_npoints(s), sz = H5Tget_size(m); std::vector<char> buf(np * sz + 16);
    if (np && H5Dread(d, m, H5S_ALL, H5S_ALL, H5P_DEFAULT, buf.data()) < 0) { printf("\"unreadable\""); np = 0; }
    size_t w = nd > 1 ? dims[1] : 1;
    for (size_t k = 0; k < np; k++) { if (k) putchar(','); if (nd > 1 && k % w == 0) putchar('['); value(m, buf.data() + k * sz); if (nd > 1 && k % w == w - 1) putchar(']'); }
    printf("]}");
    H5Tclose(m); H5Tclose(t); H5Sclose(s); H5Dclose(d); return 0;
}
int main(int c, char **v) {
    H5Eset_auto(H5E_DEFAULT, NULL, NULL);
    for (int i = 1; i < c; i++) {
        printf("{\"file\":"); str(v[i]);
        hid_t f = H5Fopen(v[i], H5F_ACC_RDONLY, H5P_DEFAULT);
        if (f < 0) { printf(",\"error\":\"open\"}\n"); continue; }
        { hid_t r = H5Gopen(f, "/", H5P_DEFAULT); printf(",\"attrs\":"); attrs(r); H5Gclose(r); } printf(",\"sets\":{"); first = true; groups.clear();
        herr_t e = H5Ovisit(f, H5_INDEX_NAME, H5_ITER_NATIVE, visit, NULL);
        printf("}%s,\"groups\":{", e < 0 ? ",\"error\":\"visit\"" : "");
        for (size_t k = 0; k < groups.size(); k++) { if (k) putchar(','); str(groups[k].c_str()); putchar(':'); hid_t g = H5Oopen(f, groups[k].c_str(), H5P_DEFAULT); attrs(g); H5Oclose(g); }
        printf("}}\n"); H5Fclose(f);
    }
}
