module verif

go 1.23

require (
	filippo.io/edwards25519 v1.1.0
	github.com/RTann/libsignal-go/protocol v0.0.0
	golang.org/x/crypto v0.33.0
	google.golang.org/protobuf v1.34.2
	pgregory.net/rapid v1.3.0
)

require (
	github.com/davecgh/go-spew v1.1.1 // indirect
	github.com/golang/glog v1.2.4 // indirect
	github.com/google/uuid v1.6.0 // indirect
	github.com/pmezard/go-difflib v1.0.0 // indirect
	github.com/stretchr/testify v1.10.0 // indirect
	golang.org/x/mod v0.24.0 // indirect
	golang.org/x/sync v0.12.0 // indirect
	golang.org/x/tools v0.31.0 // indirect
	gopkg.in/yaml.v3 v3.0.1 // indirect
)

replace github.com/RTann/libsignal-go/protocol => /repo/protocol
