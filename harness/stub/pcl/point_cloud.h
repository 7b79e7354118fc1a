#pragma once
#include <algorithm>
#include "PCLPointCloud2.h"
namespace pcl {
template <class PointT>
struct PointCloud {
  PCLHeader header;
  std::vector<PointT> points;
  std::uint32_t width = 0;
  std::uint32_t height = 0;
  bool is_dense = true;
};
}  // namespace pcl
