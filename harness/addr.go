package main

// Replays Address: the texts of all the addresses are different.

import (
	"encoding/json"
	"fmt"
	"strconv"
	"strings"

	"github.com/prospik/libsignal-protocol-go/protocol"
)

var addrTexts = map[string]string{}

func addrTrace(n int, b []byte, seed int) {
	var c struct{ Name, Dev []string }
	check(json.Unmarshal(b, &c))
	sum.Traces++
	sum.Steps++
	name := strings.Join(c.Name, "")
	dev, err := strconv.ParseUint(strings.Join(c.Dev, ""), 10, 32)
	check(err)
	var ms []Mism
	r := guard(func() error {
		a := protocol.NewSignalAddress(name, uint32(dev))
		t := a.String()
		if o, ok := addrTexts[t]; ok && o != string(b) {
			ms = append(ms, Mism{Class: "addr:same", Detail: fmt.Sprintf("%q device %d and %s have the same text %q", name, dev, o, t)})
		}
		addrTexts[t] = string(b)
		if a.Name() != name || a.DeviceID() != uint32(dev) || protocol.NewSignalAddress(name, uint32(dev)).String() != t {
			ms = append(ms, Mism{Class: "addr:parts", Detail: fmt.Sprintf("%q device %d: %q %d", name, dev, a.Name(), a.DeviceID())})
		}
		sk := protocol.NewSenderKeyName(name, a)
		if sk.GroupID() != name || sk.Sender().String() != t {
			ms = append(ms, Mism{Class: "addr:parts", Detail: "a sender key name does not keep its parts"})
		}
		return nil
	})
	if r.pan != "" {
		ms = append(ms, Mism{Class: "panic:addr", Detail: r.pan})
	}
	if len(ms) > 0 {
		report("addr", fmt.Sprint(n), "", seed, ms, nil, caseBody{n, b})
	}
}
