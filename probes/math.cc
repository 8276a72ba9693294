// Instantiates the templates of the mathematical helpers for the analysis.
#include "common/math.h"

namespace static_map {
namespace common {
template Eigen::Rigid3::Eulers<double> RotationMatrixToEulerAngles<double>(
    const Eigen::Rigid3::Rotation<double>&);
template Eigen::Quaternion<double> EulerAnglesToQuaternion<double>(
    const Eigen::Rigid3::Eulers<double>&);
template Eigen::Rigid3::Rotation<double> EulerAnglesToRotationMatrix<double>(
    const Eigen::Rigid3::Eulers<double>&);
template Eigen::Rigid3::Eulers<double> QuaternionToEulers<double>(
    const Eigen::Quaternion<double>&);
template Eigen::Vector6<double> TransformToVector6<double>(
    const Eigen::Rigid3::Transform<double>&);
template Eigen::Rigid3::Transform<double> Vector6ToTransform<double>(
    const Eigen::Vector6<double>&);
template Eigen::Rigid3::Rotation<double> Rotation<double>(
    const Eigen::Rigid3::Transform<double>&);
template Eigen::Rigid3::Translation<double> Translation<double>(
    const Eigen::Rigid3::Transform<double>&);
template Eigen::Matrix<double, 4, 4> InterpolateTransform<double>(
    const Eigen::Matrix<double, 4, 4>&, const Eigen::Matrix<double, 4, 4>&,
    const float);
template void NormalizeRotation<double>(Eigen::Rigid3::Transform<double>&);
template double NormalizeAngleDifference<double>(double);
template int Clamp<int>(const int, const int, const int);
template double DistanceToLine<3>(const Eigen::Matrix<double, 3, 1>&,
                                  const Eigen::Matrix<double, 3, 1>&,
                                  const Eigen::Matrix<double, 3, 1>&);
}  // namespace common
}  // namespace static_map
