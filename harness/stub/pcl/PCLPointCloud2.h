// The parts of PCL 1.14 that cloudini's PCL conversion uses: the same members, initial values and enum values, without
// boost, Eigen and the PCL libraries.
#pragma once
#include <cstdint>
#include <iostream>
#include <memory>
#include <string>
#include <vector>
namespace pcl {
using index_t = std::int32_t;
using uindex_t = std::uint32_t;
struct PCLHeader { std::uint32_t seq = 0; std::uint64_t stamp = 0; std::string frame_id; };
struct PCLPointField {
  std::string name;
  uindex_t offset = 0;
  std::uint8_t datatype = 0;
  uindex_t count = 0;
  enum PointFieldTypes { BOOL = 11, INT8 = 1, UINT8 = 2, INT16 = 3, UINT16 = 4, INT32 = 5, UINT32 = 6, INT64 = 9, UINT64 = 10, FLOAT32 = 7, FLOAT64 = 8 };
};
struct PCLPointCloud2 {
  using Ptr = std::shared_ptr<PCLPointCloud2>;
  using ConstPtr = std::shared_ptr<const PCLPointCloud2>;
  PCLHeader header;
  uindex_t height = 0;
  uindex_t width = 0;
  std::vector<PCLPointField> fields;
  std::uint8_t is_bigendian = 0;
  uindex_t point_step = 0;
  uindex_t row_step = 0;
  std::vector<std::uint8_t> data;
  std::uint8_t is_dense = 0;
};
}  // namespace pcl
