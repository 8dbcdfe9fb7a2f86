module reduction.dev/reduction-protocol

go 1.24

require google.golang.org/protobuf v1.36.3
