// Package serial stands in for github.com/tarm/serial while recordings are
// checked: ports come from Hook.
package serial

import (
	"errors"
	"io"
	"time"
)

const DefaultSize = 8

type StopBits byte
type Parity byte

const (
	Stop1     StopBits = 1
	Stop1Half StopBits = 15
	Stop2     StopBits = 2
)

const (
	ParityNone  Parity = 'N'
	ParityOdd   Parity = 'O'
	ParityEven  Parity = 'E'
	ParityMark  Parity = 'M'
	ParitySpace Parity = 'S'
)

type Config struct {
	Name        string
	Baud        int
	ReadTimeout time.Duration
	Size        byte
	Parity      Parity
	StopBits    StopBits
}

var ErrBadSize error = errors.New("unsupported serial data size")
var ErrBadStopBits error = errors.New("unsupported stop bit setting")
var ErrBadParity error = errors.New("unsupported parity setting")

var Hook = func(name string, baud int) (io.ReadWriteCloser, error) { return nil, errors.New("no port") }

func OpenPort(c *Config) (*Port, error) {
	f, err := Hook(c.Name, c.Baud)
	if err != nil {
		return nil, err
	}
	return &Port{f: f}, nil
}

type Port struct{ f io.ReadWriteCloser }

func (p *Port) Read(b []byte) (n int, err error)  { return p.f.Read(b) }
func (p *Port) Write(b []byte) (n int, err error) { return p.f.Write(b) }
func (p *Port) Close() (err error)                { return p.f.Close() }
func (p *Port) Flush() error                      { return nil }
