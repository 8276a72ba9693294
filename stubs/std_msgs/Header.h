// Field layout of the middleware message, for analysis only.
#ifndef VERIF_STUB_STD_MSGS_HEADER_H_
#define VERIF_STUB_STD_MSGS_HEADER_H_
#include <string>
#include "ros/time.h"
namespace std_msgs {
struct Header {
  uint32_t seq;
  ros::Time stamp;
  std::string frame_id;
};
}  // namespace std_msgs
#endif
