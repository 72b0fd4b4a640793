module verif/harness

go 1.23

require (
	github.com/prospik/libsignal-protocol-go v0.0.0
	github.com/RadicalApp/complete v0.0.0-20170329192659-17e6c0ee499b
	github.com/golang/protobuf v1.3.1
	golang.org/x/crypto v0.0.0-20200820211705-5c72a883971a
)

replace github.com/prospik/libsignal-protocol-go => /repo
