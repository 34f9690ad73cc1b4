module github.com/golang/protobuf

go 1.13
