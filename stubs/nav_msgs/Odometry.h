// Field layout of the middleware message, for analysis only.
#ifndef VERIF_STUB_NAV_MSGS_ODOMETRY_H_
#define VERIF_STUB_NAV_MSGS_ODOMETRY_H_
#include "geometry_msgs/geometry.h"
#include "std_msgs/Header.h"
namespace nav_msgs {
struct Odometry {
  std_msgs::Header header;
  std::string child_frame_id;
  geometry_msgs::PoseWithCovariance pose;
  geometry_msgs::TwistWithCovariance twist;
};
}  // namespace nav_msgs
#endif
