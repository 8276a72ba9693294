// Field layout of the middleware message, for analysis only.
#ifndef VERIF_STUB_SENSOR_MSGS_IMU_H_
#define VERIF_STUB_SENSOR_MSGS_IMU_H_
#include "geometry_msgs/geometry.h"
#include "std_msgs/Header.h"
namespace sensor_msgs {
struct Imu {
  std_msgs::Header header;
  geometry_msgs::Quaternion orientation;
  double orientation_covariance[9];
  geometry_msgs::Vector3 angular_velocity;
  double angular_velocity_covariance[9];
  geometry_msgs::Vector3 linear_acceleration;
  double linear_acceleration_covariance[9];
};
}  // namespace sensor_msgs
#endif
