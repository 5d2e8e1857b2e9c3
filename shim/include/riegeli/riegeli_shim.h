#pragma once
#include <string>
#include "absl/status/status.h"
#include "absl/strings/string_view.h"
#include "google/protobuf/message_lite.h"
namespace riegeli {
struct StringWriter { explicit StringWriter(std::string*) {} };
struct StringReader { explicit StringReader(absl::string_view) {} };
class RecordWriterBase {
 public:
  struct Options { absl::Status FromString(absl::string_view); };
  bool WriteRecord(const google::protobuf::MessageLite&);
  absl::Status status() const; bool ok() const; bool Close();
};
class RecordWriter : public RecordWriterBase { public: RecordWriter(StringWriter, Options); };
class RecordReaderBase {
 public:
  bool ReadRecord(google::protobuf::MessageLite&);
  absl::Status status() const; bool ok() const; bool Close();
};
class RecordReader : public RecordReaderBase { public: explicit RecordReader(StringReader); };
}
