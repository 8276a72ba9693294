// Field layout of the middleware's time stamp, for analysis only.
#ifndef VERIF_STUB_ROS_TIME_H_
#define VERIF_STUB_ROS_TIME_H_
#include <cstdint>
namespace ros {
struct Time {
  uint32_t sec;
  uint32_t nsec;
};
}  // namespace ros
#endif
