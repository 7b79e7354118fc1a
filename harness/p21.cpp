// P21: every Vector4f / Vector4i operation is the lane-wise scalar operation; conversions round to a nearest integer.
#include <cassert>
#include <cstring>
#include "vp.h"
#include "cloudini_lib/intrinsics.hpp"
static bool sameF(float a, float b) {
  uint32_t x, y;
  std::memcpy(&x, &a, 4);
  std::memcpy(&y, &b, 4);
  return x == y || (a != a && b != b);
}
static void eqF(const Vector4f& v, const float* w, const char* msg) {
  for (int i = 0; i < 4; i++) vp_check(sameF(v[(size_t)i], w[i]) && sameF(v.data.v[i], w[i]), msg);
}
static void eqI(const Vector4i& v, const int32_t* w, const char* msg) {
  for (int i = 0; i < 4; i++) vp_check(v[(size_t)i] == w[i] && v.data.v[i] == w[i], msg);
}
extern "C" void vp_main() {
  const long op = vp_param("op", 0);
  float a[4], b[4], w[4];
  int32_t x[4], y[4], z[4];
  if (op < 8) {
    for (int i = 0; i < 4; i++) { a[i] = vp_sym<float>("a"); b[i] = vp_sym<float>("b"); }
    Vector4f A(a[0], a[1], a[2], a[3]), B(b[0], b[1], b[2], b[3]);
    eqF(A, a, "lanes of the constructor");
    switch (op) {
      case 0: { for (int i = 0; i < 4; i++) w[i] = a[i] + b[i]; eqF(A + B, w, "sum"); break; }
      case 1: { for (int i = 0; i < 4; i++) w[i] = a[i] - b[i]; eqF(A - B, w, "difference"); break; }
      case 2: { for (int i = 0; i < 4; i++) w[i] = a[i] * b[i]; eqF(A * B, w, "product"); break; }
      case 3: { for (int i = 0; i < 4; i++) w[i] = a[i] * b[1]; eqF(A * b[1], w, "product with a scalar"); break; }
      case 4: { for (int i = 0; i < 4; i++) w[i] = a[i] / b[i]; eqF(A / B, w, "quotient"); break; }
      case 5: {  // accessors, copies, zero
        Vector4f C(A), D(b[0], b[0], b[0], b[0]);
        D = B;
        eqF(C, a, "copy"); eqF(D, b, "assignment");
        C[2] = b[3]; w[0] = a[0]; w[1] = a[1]; w[2] = b[3]; w[3] = a[3];
        eqF(C, w, "writing one lane leaves the others");
        D.setZero();
        for (int i = 0; i < 4; i++) w[i] = 0;
        eqF(D, w, "zero");
        vp_check(Vector4f::byte_size() == sizeof(Vector4f) && sizeof(Vector4f) == 16, "size");
        break;
      }
      case 6: {  // conversion to integers: nearest, for values inside the integer range
        for (int i = 0; i < 4; i++) vp_assume(a[i] >= -2147483648.0f && a[i] < 2147483648.0f);
        const Vector4i r = cast_vector4f_to_vector4i(A);
        for (int i = 0; i < 4; i++) {
          const double d = (double)r[(size_t)i] - (double)a[i];
          vp_check(d <= 0.5 && d >= -0.5, "nearest integer");
        }
        break;
      }
      case 7: {  // values outside the range in one lane do not disturb the others
        for (int i = 0; i < 4; i++) if (i != 2) vp_assume(a[i] >= -2147483648.0f && a[i] < 2147483648.0f);
        const Vector4i r = cast_vector4f_to_vector4i(A);
        for (int i = 0; i < 4; i++) {
          const double d = (double)r[(size_t)i] - (double)a[i];
          if (i != 2) vp_check(d <= 0.5 && d >= -0.5, "nearest integer beside a lane outside the range");
        }
        break;
      }
    }
  } else {
    for (int i = 0; i < 4; i++) { x[i] = vp_sym<int32_t>("x"); y[i] = vp_sym<int32_t>("y"); }
    Vector4i X(x[0], x[1], x[2], x[3]), Y(y[0], y[1], y[2], y[3]);
    eqI(X, x, "lanes of the constructor");
    switch (op) {  // two's complement arithmetic, as the codec's deltas need it
      case 8: { for (int i = 0; i < 4; i++) z[i] = (int32_t)((uint32_t)x[i] + (uint32_t)y[i]); eqI(X + Y, z, "sum"); break; }
      case 9: { for (int i = 0; i < 4; i++) z[i] = (int32_t)((uint32_t)x[i] - (uint32_t)y[i]); eqI(X - Y, z, "difference"); break; }
      case 10: { for (int i = 0; i < 4; i++) z[i] = (int32_t)((uint32_t)x[i] * (uint32_t)y[i]); eqI(X * Y, z, "product"); break; }
      case 11: { for (int i = 0; i < 4; i++) z[i] = (int32_t)((uint32_t)x[i] * (uint32_t)y[2]); eqI(X * y[2], z, "product with a scalar"); break; }
      case 12: {
        for (int i = 0; i < 4; i++) { vp_assume(y[i] != 0 && !(y[i] == -1 && x[i] == INT32_MIN)); z[i] = x[i] / y[i]; }
        eqI(X / Y, z, "quotient");
        break;
      }
      case 13: {
        Vector4i C(X), D(y[0], y[0], y[0], y[0]);
        D = Y;
        eqI(C, x, "copy"); eqI(D, y, "assignment");
        C[1] = y[3]; z[0] = x[0]; z[1] = y[3]; z[2] = x[2]; z[3] = x[3];
        eqI(C, z, "writing one lane leaves the others");
        D.setZero();
        for (int i = 0; i < 4; i++) z[i] = 0;
        eqI(D, z, "zero");
        break;
      }
      case 14: { for (int i = 0; i < 4; i++) w[i] = (float)x[i]; eqF(cast_vector4i_to_vector4f(X), w, "conversion to float"); break; }
      case 15: {  // a value that was converted comes back when it is exact
        for (int i = 0; i < 4; i++) vp_assume(x[i] > -(1 << 24) && x[i] < (1 << 24));
        eqI(cast_vector4f_to_vector4i(cast_vector4i_to_vector4f(X)), x, "conversion to float and back");
        break;
      }
    }
  }
  vp_reach("done");
}
