package main

// Replays the pairs of Safety on the fingerprint package.

import (
	"bytes"
	"encoding/json"
	"fmt"

	"github.com/prospik/libsignal-protocol-go/fingerprint"
)

func safetyTrace(n int, b []byte, seed int) {
	caseReport("safety", n, b, seed, safetyCheck(n, b, seed))
}

func safetyCheck(n int, b []byte, seed int) (ms []Mism) {
	var c struct {
		Kind          string `json:"kind"`
		Local, Remote []int
		Number        []int
	}
	check(json.Unmarshal(b, &c))
	tally(1, 0, "")
	tally(0, 0, "safety number "+c.Kind)
	conv := func(x []int) []byte {
		out := make([]byte, len(x), len(x)+3)
		for i := range x {
			out[i] = byte(x[i])
		}
		return out
	}
	bad := func(class, f string, a ...interface{}) {
		ms = append(ms, Mism{Class: class, Detail: fmt.Sprintf(f, a...)})
	}
	l, r := conv(c.Local), conv(c.Remote)
	want := ""
	for _, g := range c.Number {
		want += fmt.Sprintf("%05d", g)
	}
	for _, x := range [][2][]byte{{l, r}, {r, l}} {
		var d *fingerprint.Display
		for i := 0; i < 2; i++ {
			var got string
			tally(0, 1, "")
			res := guard(func() error {
				if d == nil {
					d = fingerprint.NewFingerprint(fingerprint.NewDisplay(x[0], x[1])).Display()
				}
				got = d.DisplayText()
				return nil
			})
			if res.pan != "" {
				bad("panic:safety", "%s", res.pan)
			} else if got != want {
				bad("safety:number", "%s instead of %s", got, want)
			}
		}
	}
	if !bytes.Equal(l, conv(c.Local)) || !bytes.Equal(r, conv(c.Remote)) {
		bad("safety:alias", "a fingerprint was changed")
	}
	return
}
