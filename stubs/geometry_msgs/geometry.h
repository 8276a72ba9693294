// Field layout of the middleware messages, for analysis only.
#ifndef VERIF_STUB_GEOMETRY_MSGS_H_
#define VERIF_STUB_GEOMETRY_MSGS_H_
namespace geometry_msgs {
struct Vector3 {
  double x, y, z;
};
struct Point {
  double x, y, z;
};
struct Quaternion {
  double x, y, z, w;
};
struct Pose {
  Point position;
  Quaternion orientation;
};
struct Twist {
  Vector3 linear;
  Vector3 angular;
};
struct PoseWithCovariance {
  Pose pose;
  double covariance[36];
};
struct TwistWithCovariance {
  Twist twist;
  double covariance[36];
};
}  // namespace geometry_msgs
#endif
