package main

import (
	"crypto/aes"
	"crypto/cipher"
	crand "crypto/rand"
	"crypto/sha256"
	"encoding/binary"
	"fmt"
	"io"
	"runtime/debug"
	"strings"

	"github.com/prospik/libsignal-protocol-go/logger"
)

type quiet struct{}

func (quiet) Debug(c, m string)   {}
func (quiet) Info(c, m string)    {}
func (quiet) Warning(c, m string) {}
func (quiet) Error(c, m string)   {}
func (quiet) Configure(s string)  {}

func silence() {
	var l logger.Loggable = quiet{}
	logger.Setup(&l)
}

// seedRandom makes everything the library draws reproducible.
func seedRandom(parts ...interface{}) io.Reader {
	h := sha256.Sum256([]byte(fmt.Sprintln(parts...)))
	b, _ := aes.NewCipher(h[:16])
	r := &cipher.StreamReader{S: cipher.NewCTR(b, h[16:]), R: zeros{}}
	if !conc {
		crand.Reader = r
	}
	return r
}

type zeros struct{}

func (zeros) Read(p []byte) (int, error) {
	for i := range p {
		p[i] = 0
	}
	return len(p), nil
}

// pick is a number below n that only depends on its arguments.
func pick(n int, parts ...interface{}) int {
	h := sha256.Sum256([]byte(fmt.Sprintln(parts...)))
	return int(binary.BigEndian.Uint32(h[:4]) % uint32(n))
}

func prand(n int, parts ...interface{}) []byte {
	h := sha256.Sum256([]byte(fmt.Sprintln(parts...)))
	b, _ := aes.NewCipher(h[:16])
	out := make([]byte, n)
	cipher.NewCTR(b, h[16:]).XORKeyStream(out, out)
	return out
}

type result struct {
	err     error
	crashed bool
	pan     string
}

func (r result) ok() bool { return r.err == nil && !r.crashed && r.pan == "" }

// guard runs a call of the library.
func guard(f func() error) (r result) {
	defer func() {
		if x := recover(); x != nil {
			if _, ok := x.(crashSignal); ok {
				r.crashed = true
				return
			}
			if u, ok := x.(unknownName); ok {
				panic(u)
			}
			r.pan = fmt.Sprint(x) + " " + where(string(debug.Stack()))
		}
	}()
	r.err = f()
	return
}

func where(st string) string {
	for _, l := range strings.Split(st, "\n") {
		if strings.Contains(l, "libsignal-protocol-go/") && !strings.Contains(l, "\t") {
			return strings.TrimSpace(l)
		}
	}
	return ""
}

type Mism struct {
	Class  string   `json:"class"`
	Step   int      `json:"step"`
	Detail string   `json:"detail"`
	Tags   []string `json:"tags,omitempty"`
}
