#pragma once
#include <sm/kinematics/kin_base.hpp>
namespace sm { namespace kinematics {
/// T_0_1, the rigid motion with p0 = T_0_1 p1 in the least squares sense
inline Eigen::Matrix4d threePointSvd(const Eigen::MatrixXd& p0, const Eigen::MatrixXd& p1) {
  if (p0.rows() != 3 || p1.rows() != 3 || p0.cols() != p1.cols() || p0.cols() == 0) throw std::runtime_error("threePointSvd: sizes");
  const Eigen::Vector3d c0 = p0.rowwise().mean(), c1 = p1.rowwise().mean(); const Eigen::Matrix3d H = (p1.colwise() - c1) * (p0.colwise() - c0).transpose();
  Eigen::JacobiSVD<Eigen::MatrixXd> s(H, Eigen::ComputeFullU | Eigen::ComputeFullV); Eigen::Matrix3d S = Eigen::Matrix3d::Identity(); if ((s.matrixV() * s.matrixU().transpose()).determinant() < 0) S(2, 2) = -1;
  const Eigen::Matrix3d R = s.matrixV() * S * s.matrixU().transpose(); return rt2Transform(R, c0 - R * c1); }
}}
