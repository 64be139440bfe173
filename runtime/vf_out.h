// An output stream whose contents can be read back.
#ifndef VF_OUT_H_
#define VF_OUT_H_
#include <ostream>
#include <sstream>
#include <string>
class VfOut {
 public:
  std::ostream& os() { return s_; }
  std::string str() const { return s_.str(); }
 private:
  std::ostringstream s_;
};
#endif
