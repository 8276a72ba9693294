// Field layout of the middleware message, for analysis only.
#ifndef VERIF_STUB_SENSOR_MSGS_NAVSATFIX_H_
#define VERIF_STUB_SENSOR_MSGS_NAVSATFIX_H_
#include "std_msgs/Header.h"
namespace sensor_msgs {
struct NavSatStatus {
  int8_t status;
  uint16_t service;
};
struct NavSatFix {
  std_msgs::Header header;
  NavSatStatus status;
  double latitude;
  double longitude;
  double altitude;
  double position_covariance[9];
  uint8_t position_covariance_type;
};
}  // namespace sensor_msgs
#endif
