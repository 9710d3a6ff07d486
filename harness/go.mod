module verif

go 1.25

require github.com/stampzilla/gozwave v0.0.0
replace github.com/stampzilla/gozwave => /repo
replace github.com/tarm/serial => ./serialstub

require (
	github.com/davecgh/go-spew v1.1.1
	github.com/gin-gonic/gin v1.3.0
	github.com/pborman/uuid v1.2.0
	github.com/sirupsen/logrus v1.3.0
	github.com/stretchr/testify v1.3.0
	github.com/tarm/serial v0.0.0-20180830185346-98f6abe2eb07
)

require (
	github.com/gin-contrib/sse v0.1.0 // indirect
	github.com/golang/protobuf v1.2.0 // indirect
	github.com/google/uuid v1.0.0 // indirect
	github.com/json-iterator/go v1.1.5 // indirect
	github.com/konsorten/go-windows-terminal-sequences v1.0.1 // indirect
	github.com/mattn/go-isatty v0.0.4 // indirect
	github.com/modern-go/concurrent v0.0.0-20180306012644-bacd9c7ef1dd // indirect
	github.com/modern-go/reflect2 v1.0.2 // indirect
	github.com/pmezard/go-difflib v1.0.0 // indirect
	github.com/stretchr/objx v0.1.1 // indirect
	github.com/ugorji/go v1.1.1 // indirect
	golang.org/x/crypto v0.0.0-20180904163835-0709b304e793 // indirect
	golang.org/x/sys v0.0.0-20180905080454-ebe1bf3edb33 // indirect
	gopkg.in/go-playground/validator.v8 v8.18.2 // indirect
	gopkg.in/yaml.v2 v2.4.0 // indirect
)
