// Stand-in for the protobuf descriptor classes: just the parts the repository consults, settable by a harness.
#ifndef VF_PROTO_DESCRIPTOR_H
#define VF_PROTO_DESCRIPTOR_H
#include <string>
#include <vector>
namespace google::protobuf {
class FieldDescriptor;
class Descriptor;
class FileDescriptor {
 public:
  std::string package_;
  const std::string& package() const { return package_; }
};
class OneofDescriptor {
 public:
  std::string name_;
  std::vector<const FieldDescriptor*> fields_;
  const std::string& name() const { return name_; }
  int field_count() const { return (int)fields_.size(); }
  const FieldDescriptor* field(int i) const { return fields_[i]; }
  const Descriptor* containing_type() const { return nullptr; }
};
class FieldDescriptor {
 public:
  enum CppType {
    CPPTYPE_INT32 = 1, CPPTYPE_INT64 = 2, CPPTYPE_UINT32 = 3, CPPTYPE_UINT64 = 4, CPPTYPE_DOUBLE = 5,
    CPPTYPE_FLOAT = 6, CPPTYPE_BOOL = 7, CPPTYPE_ENUM = 8, CPPTYPE_STRING = 9, CPPTYPE_MESSAGE = 10, MAX_CPPTYPE = 10,
  };
  std::string name_, full_name_;
  CppType type_ = CPPTYPE_INT32;
  int index_ = 0;
  const OneofDescriptor* oneof_ = nullptr;
  const FileDescriptor* file_ = nullptr;
  const std::string& name() const { return name_; }
  const std::string& full_name() const { return full_name_; }
  CppType cpp_type() const { return type_; }
  int index() const { return index_; }
  const OneofDescriptor* containing_oneof() const { return oneof_; }
  const FileDescriptor* file() const { return file_; }
};
class Descriptor {
 public:
  std::string name_;
  const std::string& name() const { return name_; }
  const Descriptor* containing_type() const { return nullptr; }
};
class EnumValueDescriptor {
 public:
  int number_ = 0;
  int number() const { return number_; }
};
}  // namespace google::protobuf
#endif
