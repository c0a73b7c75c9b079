// libh5all.so: reads every dataset of an HDF5 file for ctypes.
#include <hdf5.h>
#include <stdlib.h>
#include <string.h>
static char *names[4096]; static void *data[4096]; static long cnt[4096]; static int kind[4096]; static int n;
static herr_t visit(hid_t obj, const char *name, const H5O_info_t *info, void *op) {
  (void) op;
  if (info->type != H5O_TYPE_DATASET || n >= 4096) return 0;
  hid_t d = H5Dopen(obj, name, H5P_DEFAULT), t = H5Dget_type(d), s = H5Dget_space(d);
  long  c = (long) H5Sget_simple_extent_npoints(s);
  size_t sz = H5Tget_size(t);
  H5T_class_t cl = H5Tget_class(t);
  hid_t mt; int k; size_t msz;
  if (cl == H5T_FLOAT) { mt = sz == 4 ? H5T_NATIVE_FLOAT : H5T_NATIVE_DOUBLE; k = sz == 4 ? 0 : 1; msz = sz == 4 ? 4 : 8; }
  else { mt = sz == 1 ? H5T_NATIVE_SCHAR : H5T_NATIVE_INT; k = sz == 1 ? 3 : 2; msz = sz == 1 ? 1 : 4; }
  void *b = malloc(c > 0 ? c * msz : 1);
  int bad = c > 0 && H5Dread(d, mt, H5S_ALL, H5S_ALL, H5P_DEFAULT, b) < 0;
  names[n] = strdup(name); data[n] = b; cnt[n] = bad ? -1 : c; kind[n] = k; n++;
  H5Sclose(s); H5Tclose(t); H5Dclose(d);
  return 0;
}
int h5_open(const char *fn) {
  for (int i = 0; i < n; i++) { free(names[i]); free(data[i]); }
  n = 0;
  H5Eset_auto(H5E_DEFAULT, NULL, NULL);
  hid_t f = H5Fopen(fn, H5F_ACC_RDONLY, H5P_DEFAULT);
  if (f < 0) return -1;
  herr_t r = H5Ovisit1(f, H5_INDEX_NAME, H5_ITER_NATIVE, visit, NULL);
  H5Fclose(f);
  return r < 0 ? -2 : n;
}
const char *h5_name(int i) { return names[i]; }
long h5_count(int i) { return cnt[i]; }
int h5_kind(int i) { return kind[i]; }
void *h5_data(int i) { return data[i]; }
