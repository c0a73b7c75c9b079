/* calls the public set-up helpers with arguments from stdin, one call per line */
#include "mdoodz.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
typedef SetBC (*bcf)(MdoodzInput *, POSITION, Coordinates);
int main(int n, char **a) {
  FILE *in = fopen(a[1], "r"), *out = fopen(a[2], "w");
  char k[8], name[600];
  static bcf f[6] = {SetPureShearBCVx, SetPureShearBCVz, SetSimpleShearBCVx, SetSimpleShearBCVz, SetPureOrSimpleShearBCVx, SetPureOrSimpleShearBCVz};
  static POSITION P[10] = {NE, NW, SE, SW, INTERNAL, N, S, W, E, free_surface};
  MdoodzInput *I = calloc(1, sizeof *I);
  if (n < 3 || !in || !out) return 9;
  while (fscanf(in, "%7s", k) == 1) {
    double v[8];
    if (k[0] == 'F') {
      if (fscanf(in, "%599s", name) != 1) return 9;
      char *r = DefaultTextFilename(name);
      fprintf(out, "%s\n", r);
      continue;
    }
    for (int i = 0; i < 8; i++) if (fscanf(in, "%lf", v + i) != 1) return 9;
    Coordinates c; memset(&c, 0, sizeof c); c.x = v[0]; c.z = v[1];
    if (k[0] == 'E') { Ellipse e = {.centreX = v[2], .centreZ = v[3], .radiusX = v[4], .radiusZ = v[5], .angle = v[6]}; fprintf(out, "%d\n", (int) IsEllipseCoordinates(c, e, v[7])); }
    if (k[0] == 'R') { Rectangle e = {.centreX = v[2], .centreZ = v[3], .sizeX = v[4], .sizeZ = v[5], .angle = v[6]}; fprintf(out, "%d\n", (int) IsRectangleCoordinates(c, e, v[7])); }
    if (k[0] == 'B') {
      I->model.bkg_strain_rate = v[2]; I->model.zmin = v[3]; I->model.zmax = v[4]; I->model.shear_style = (int) v[5];
      SetBC b = f[(int) v[6]](I, P[(int) v[7]], c);
      fprintf(out, "%d %.17g\n", (int) b.type, b.value);
    }
  }
  fclose(out);
  return 0;
}
