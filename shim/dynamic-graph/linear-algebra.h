#ifndef DGSHIM_LINALG_H
#define DGSHIM_LINALG_H
#include <Eigen/Core>
#include <Eigen/Geometry>
namespace dynamicgraph {
typedef Eigen::VectorXd Vector;
typedef Eigen::MatrixXd Matrix;
typedef Eigen::Matrix<double, 4, 4> Matrix4d_;
}  // namespace dynamicgraph
#endif
