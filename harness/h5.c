/* Reads and writes HDF5 files, independently of the library under test.
   h5 -cat FILE: every 1-3 dimensional numeric dataset and integer attribute;  h5 -put FILE SCRIPT: lines "name nd d1 .. dn v1 v2 ...". */
#include <hdf5.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

static herr_t attr(hid_t loc, const char *name, const H5A_info_t *ai, void *op) {
  hid_t a = H5Aopen(loc, name, H5P_DEFAULT), t = H5Aget_type(a);
  if (H5Tget_class(t) == H5T_INTEGER && H5Aget_storage_size(a) <= 8) {
    long long v = 0; H5Aread(a, H5T_NATIVE_LLONG, &v);
    printf("A %s|%s %lld\n", (const char *)op, name, v);
  }
  H5Tclose(t); H5Aclose(a);
  return 0;
}
static herr_t visit(hid_t root, const char *name, const H5O_info_t *info, void *op) {
  if (info->type == H5O_TYPE_GROUP || info->type == H5O_TYPE_DATASET) {
    hid_t o = H5Oopen(root, name, H5P_DEFAULT);
    hsize_t idx = 0;
    H5Aiterate2(o, H5_INDEX_NAME, H5_ITER_NATIVE, &idx, attr, (void *)name);
    H5Oclose(o);
  }
  if (info->type != H5O_TYPE_DATASET) return 0;
  hid_t d = H5Dopen2(root, name, H5P_DEFAULT), s = H5Dget_space(d), t = H5Dget_type(d);
  int nd = H5Sget_simple_extent_ndims(s); hsize_t dims[8] = {1};
  if (nd >= 0 && nd <= 8 && (H5Tget_class(t) == H5T_FLOAT || H5Tget_class(t) == H5T_INTEGER)) {
    if (nd) H5Sget_simple_extent_dims(s, dims, NULL);
    size_t n = 1; for (int i = 0; i < nd; i++) n *= dims[i];
    double *v = malloc(sizeof(double)*(n + 1));
    if (H5Dread(d, H5T_NATIVE_DOUBLE, H5S_ALL, H5S_ALL, H5P_DEFAULT, v) >= 0) {
      printf("D %s %d", name, nd);
      for (int i = 0; i < nd; i++) printf(" %llu", (unsigned long long)dims[i]);
      for (size_t i = 0; i < n; i++) printf(" %.17g", v[i]);
      printf("\n");
    }
    free(v);
  }
  H5Tclose(t); H5Sclose(s); H5Dclose(d);
  return 0;
}
int main(int argc, char **argv) {
  if (argc < 3) return 2;
  if (!strcmp(argv[1], "-cat")) {
    hid_t f = H5Fopen(argv[2], H5F_ACC_RDONLY, H5P_DEFAULT);
    if (f < 0) return 3;
    H5Ovisit(f, H5_INDEX_NAME, H5_ITER_NATIVE, visit, NULL);
    H5Fclose(f);
    printf("END\n");
    return 0;
  }
  hid_t f = H5Fcreate(argv[2], H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT), lcpl = H5Pcreate(H5P_LINK_CREATE);
  H5Pset_create_intermediate_group(lcpl, 1);
  FILE *s = fopen(argv[3], "r");
  char name[512]; long n; int nd;
  while (s && fscanf(s, "%500s %d", name, &nd) == 2) {
    hsize_t dim[8] = {0}; n = 1;
    if (nd < 1 || nd > 8) return 4;
    for (int i = 0; i < nd; i++) { unsigned long long k; if (fscanf(s, "%llu", &k) != 1) return 4; dim[i] = k; n *= k; }
    double *v = malloc(sizeof(double)*(n + 1));
    for (long i = 0; i < n; i++) if (fscanf(s, "%lf", v + i) != 1) return 4;
    hid_t sp = H5Screate_simple(nd, dim, NULL), d = H5Dcreate2(f, name, H5T_NATIVE_DOUBLE, sp, lcpl, H5P_DEFAULT, H5P_DEFAULT);
    H5Dwrite(d, H5T_NATIVE_DOUBLE, H5S_ALL, H5S_ALL, H5P_DEFAULT, v);
    H5Dclose(d); H5Sclose(sp); free(v);
  }
  H5Fclose(f);
  return s ? 0 : 4;
}
