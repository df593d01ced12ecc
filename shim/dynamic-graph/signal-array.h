#ifndef DGSHIM_SIGARRAY_H
#define DGSHIM_SIGARRAY_H
#include <dynamic-graph/signal-base.h>
#include <vector>
namespace dynamicgraph {
template <typename Time> class SignalArray_const {
 public:
  static const int DEFAULT_SIZE = 20;
 protected:
  std::vector<const SignalBase<Time> *> const_array;
 public:
  SignalArray_const<Time>() {}
  explicit SignalArray_const<Time>(const int &) {}
  SignalArray_const<Time>(const SignalBase<Time> &sig) { const_array.push_back(&sig); }
  virtual ~SignalArray_const<Time>() {}
  virtual SignalArray_const<Time> &operator<<(const SignalBase<Time> &sig) { const_array.push_back(&sig); return *this; }
  virtual SignalArray_const<Time> operator<<(const SignalBase<Time> &sig) const { SignalArray_const<Time> r(*this); r << sig; return r; }
  const SignalBase<Time> &operator[](const unsigned int &i) const { return *const_array[i]; }
  std::size_t getSize() const { return const_array.size(); }
};
template <typename Time> class SignalArray : public SignalArray_const<Time> {
 protected:
  using SignalArray_const<Time>::const_array;
  mutable std::vector<SignalBase<Time> *> array;
 public:
  SignalArray<Time>(const int &) : SignalArray_const<Time>(0) {}
  SignalArray<Time>() {}
  SignalArray<Time>(SignalBase<Time> &sig) : SignalArray_const<Time>(sig) { array.push_back(&sig); }
  using SignalArray_const<Time>::operator<<;
  SignalArray<Time> &operator<<(SignalBase<Time> &sig) { const_array.push_back(&sig); array.push_back(&sig); return *this; }
  SignalArray<Time> operator<<(SignalBase<Time> &sig) const { SignalArray<Time> r(*this); r << sig; return r; }
  SignalBase<Time> &operator[](const unsigned int &i) const { return *array[i]; }
};
template <typename Time> SignalArray_const<Time> operator<<(const SignalBase<Time> &sig1, const SignalBase<Time> &sig2) { SignalArray_const<Time> res(sig1); res << sig2; return res; }
template <typename Time> SignalArray<Time> operator<<(SignalBase<Time> &sig1, SignalBase<Time> &sig2) { SignalArray<Time> res(sig1); res << sig2; return res; }
static const SignalArray<int> sotNOSIGNAL(0);
}  // namespace dynamicgraph
#endif
