module verifgen

go 1.23

require google.golang.org/protobuf v1.36.9
