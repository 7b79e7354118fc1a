#pragma once
#define RCLCPP_COMPONENTS_REGISTER_NODE(x)
