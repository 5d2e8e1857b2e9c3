#!/bin/bash
# genpb.sh REPO OUTDIR: generates C++ protobuf code and adapts setters to string_view.
set -e
cd "$1"; mkdir -p "$2"
protoc -I. --cpp_out="$2" $(find arolla py -name '*.proto' | sort)
find "$2" -name '*.pb.h' | xargs sed -i 's/\.Set(static_cast<ArgT0 &&>(arg0), args\.\.\./.Set(::google::protobuf::internal::ShimStr(std::forward<ArgT0>(arg0)), args.../; s/^#include <string>$/#include <string>\n#include "pb_shim.h"/'
