#pragma once
#include "PCLPointCloud2.h"
namespace pcl {
// 16-byte aligned points as in PCL: x, y, z and padding; intensity in the second group of four floats
struct alignas(16) PointXYZ {
  float x = 0.f, y = 0.f, z = 0.f, pad = 1.f;
};
struct alignas(16) PointXYZI {
  float x = 0.f, y = 0.f, z = 0.f, pad = 1.f;
  float intensity = 0.f, pad_c[3] = {0.f, 0.f, 0.f};
};
}  // namespace pcl
