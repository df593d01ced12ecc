#ifndef DGSHIM_CASTER_H
#define DGSHIM_CASTER_H
#include <iostream>
#include <sstream>
#include <string>
#include <typeinfo>
#include <boost/any.hpp>
#include <dynamic-graph/linear-algebra.h>
#include <dynamic-graph/exception-abstract.h>
#include <dynamic-graph/eigen-io.h>
namespace dynamicgraph {
template <typename T> struct signal_io_base {
  typedef T type;
  static void disp(const T &value, std::ostream &os) { os << value << std::endl; }
  static T cast(std::istringstream &stringValue) { T t; stringValue >> t; return t; }
  static void trace(const T &value, std::ostream &os) { disp(value, os); }
};
template <typename T> struct signal_io_unimplemented {
  inline static void disp(const T &, std::ostream &) { throw std::logic_error("this disp is not implemented."); }
  inline static T cast(std::istringstream &) { throw std::logic_error("this cast is not implemented."); }
  inline static void trace(const T &, std::ostream &) { throw std::logic_error("this trace is not implemented."); }
};
template <typename T> struct signal_io : signal_io_base<T> {};
template <> struct signal_io<Vector> : signal_io_base<Vector> {
  static void disp(const Vector &value, std::ostream &os) {
    os << value.format(Eigen::IOFormat(Eigen::StreamPrecision, Eigen::DontAlignCols, " ", " ", "", "", "", "")); }
};
typedef Eigen::Transform<double, 3, Eigen::Affine> MatrixHomogeneous_;
}  // namespace dynamicgraph
#endif
