module github.com/tarm/serial

go 1.12
