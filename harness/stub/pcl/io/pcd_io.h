#pragma once
#include <cstdint>
#include <cstdio>
#include <fstream>
#include <iostream>
#include <string>
#include "../PCLPointCloud2.h"
namespace pcl {
namespace io {
int loadPCDFile(const std::string& file, PCLPointCloud2& cloud);  // the harness's
}
}  // namespace pcl
