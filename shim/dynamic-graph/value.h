#ifndef DGSHIM_VALUE_H
#define DGSHIM_VALUE_H
#include <cassert>
#include <cmath>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>
#include <dynamic-graph/linear-algebra.h>
#include <dynamic-graph/exception-abstract.h>
namespace dynamicgraph { namespace command {
class Value;
typedef std::vector<Value> Values;
class EitherType { public: EitherType(const Value &v); ~EitherType();
  operator bool() const; operator unsigned() const; operator int() const; operator float() const; operator double() const;
  operator std::string() const; operator Vector() const; operator Eigen::MatrixXd() const; operator Eigen::Matrix4d() const; operator Values() const;
 private: const Value *value_; };
class Value {
 public:
  enum Type { NONE, BOOL, UNSIGNED, INT, FLOAT, DOUBLE, STRING, VECTOR, MATRIX, MATRIX4D, VALUES, NB_TYPES };
  Value() : t(NONE), d(0) {}
  explicit Value(const bool &v) : t(BOOL), d(v) {}
  explicit Value(const unsigned &v) : t(UNSIGNED), d(v) {}
  explicit Value(const int &v) : t(INT), d(v) {}
  explicit Value(const float &v) : t(FLOAT), d(v) {}
  explicit Value(const double &v) : t(DOUBLE), d(v) {}
  explicit Value(const char *v) : t(STRING), d(0), s(v) {}
  explicit Value(const std::string &v) : t(STRING), d(0), s(v) {}
  explicit Value(const Vector &v) : t(VECTOR), d(0), v(v) {}
  explicit Value(const Eigen::MatrixXd &v) : t(MATRIX), d(0), m(v) {}
  explicit Value(const Eigen::Matrix4d &v) : t(MATRIX4D), d(0), m(v) {}
  explicit Value(const Values &v);
  Value(const Value &o);
  Value &operator=(const Value &o);
  ~Value();
  Type type() const { return t; }
  const EitherType value() const { return EitherType(*this); }
  static std::string typeName(Type type) { static const char *n[] = {"none", "bool", "unsigned int", "int", "float", "double", "string", "vector", "matrixXd", "matrix4d", "values", "?"}; return n[type]; }
  double num() const { return d; }
  Type t; double d; std::string s; Vector v; Eigen::MatrixXd m; Values *vs = 0;
  bool boolValue() const { return d != 0; }
  [[noreturn]] void bad(const char *w) const { throw ExceptionAbstract(ExceptionAbstract::TOOLS, std::string("value is not ") + w); }
};
inline Value::Value(const Values &x) : t(VALUES), d(0), vs(new Values(x)) {}
inline Value::Value(const Value &o) : t(o.t), d(o.d), s(o.s), v(o.v), m(o.m), vs(o.vs ? new Values(*o.vs) : 0) {}
inline Value &Value::operator=(const Value &o) { if (this != &o) { Values *n = o.vs ? new Values(*o.vs) : 0; t = o.t; d = o.d; s = o.s; v = o.v; m = o.m; delete vs; vs = n; } return *this; }
inline Value::~Value() { delete vs; }
inline EitherType::EitherType(const Value &v) : value_(new Value(v)) {}
inline EitherType::~EitherType() { delete value_; }
inline EitherType::operator bool() const { if (value_->t == Value::BOOL || value_->t == Value::INT || value_->t == Value::UNSIGNED) return value_->d != 0; value_->bad("a bool"); }
inline EitherType::operator unsigned() const { if ((value_->t == Value::UNSIGNED || value_->t == Value::INT) && value_->d >= 0) return (unsigned)value_->d; value_->bad("an unsigned int"); }
inline EitherType::operator int() const { if (value_->t == Value::UNSIGNED || value_->t == Value::INT) return (int)value_->d; value_->bad("an int"); }
inline EitherType::operator float() const { if (value_->t >= Value::UNSIGNED && value_->t <= Value::DOUBLE) return (float)value_->d; value_->bad("a float"); }
inline EitherType::operator double() const { if (value_->t >= Value::UNSIGNED && value_->t <= Value::DOUBLE) return value_->d; value_->bad("a double"); }
inline EitherType::operator std::string() const { if (value_->t == Value::STRING) return value_->s; value_->bad("a string"); }
inline EitherType::operator Vector() const { if (value_->t == Value::VECTOR) return value_->v; value_->bad("a vector"); }
inline EitherType::operator Eigen::MatrixXd() const { if (value_->t == Value::MATRIX || value_->t == Value::MATRIX4D) return value_->m; value_->bad("a matrix"); }
inline EitherType::operator Eigen::Matrix4d() const { if (value_->t == Value::MATRIX4D || (value_->t == Value::MATRIX && value_->m.rows() == 4 && value_->m.cols() == 4)) return value_->m; value_->bad("a matrix4d"); }
inline EitherType::operator Values() const { if (value_->t == Value::VALUES) return *value_->vs; value_->bad("values"); }
template <typename T> struct ValueHelper { static const Value::Type TypeID; };
template <> struct ValueHelper<bool> { static const Value::Type TypeID = Value::BOOL; };
template <> struct ValueHelper<unsigned> { static const Value::Type TypeID = Value::UNSIGNED; };
template <> struct ValueHelper<int> { static const Value::Type TypeID = Value::INT; };
template <> struct ValueHelper<float> { static const Value::Type TypeID = Value::FLOAT; };
template <> struct ValueHelper<double> { static const Value::Type TypeID = Value::DOUBLE; };
template <> struct ValueHelper<std::string> { static const Value::Type TypeID = Value::STRING; };
template <> struct ValueHelper<Vector> { static const Value::Type TypeID = Value::VECTOR; };
template <> struct ValueHelper<Eigen::MatrixXd> { static const Value::Type TypeID = Value::MATRIX; };
template <> struct ValueHelper<Eigen::Matrix4d> { static const Value::Type TypeID = Value::MATRIX4D; };
template <> struct ValueHelper<Values> { static const Value::Type TypeID = Value::VALUES; };
} }  // namespace dynamicgraph::command
#endif
