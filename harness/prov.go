package main

// Replays the cases of Prov on provision.Decrypt.

import (
	"bytes"
	"crypto/aes"
	"crypto/cipher"
	"crypto/sha256"
	"encoding/base64"
	"encoding/json"
	"fmt"

	"github.com/prospik/libsignal-protocol-go/provision"
)

type provCase struct {
	Len  int    `json:"len"`
	Made string `json:"made"`
	Tam  []struct {
		F  string `json:"f"`
		H  string `json:"h"`
		At int    `json:"at"`
	} `json:"tam"`
	Stage  string `json:"stage"`
	Result string `json:"result"`
	Text   string `json:"text"`
}

type provEnv struct {
	eph         *KP
	v           byte
	iv, ct, mac []byte
	text        string
}

func (e *provEnv) body() []byte {
	return append(append(append([]byte{e.v}, e.iv...), e.ct...), e.mac...)
}

func rawCBC(key, iv, b []byte) []byte {
	blk, err := aes.NewCipher(key)
	check(err)
	out := append([]byte{}, b...)
	cipher.NewCBCEncrypter(blk, iv).CryptBlocks(out, out)
	return out
}

// seal makes an envelope to dev.
func seal(dev *KP, made string, n int, parts ...interface{}) *provEnv {
	e := &provEnv{eph: newKP(append(parts, "eph")...), v: 1, iv: prand(16, append(parts, "iv")...)}
	text := make([]byte, n)
	for i, b := range prand(n, append(parts, "text")...) {
		// mostly printable, sometimes bytes that could be taken for padding or are not UTF-8
		if i%3 != 0 {
			b = 32 + b%95
		} else if b < 64 {
			b = 1 + b%16
		}
		text[i] = b
	}
	e.text = string(text)
	k := hkdf(x25519(e.eph.priv, dev.pub), nil, []byte("Mixin Provisioning Message"), 64)
	pad := 16 - n%16
	padded := append([]byte(e.text), bytes.Repeat([]byte{byte(pad)}, pad)...)
	last := len(padded) - 1
	switch made {
	case "v0":
		e.v = 0
	case "v2":
		e.v = 2
	case "pad0":
		padded[last] = 0
	case "pad17":
		padded[last] = 17
	case "padmix":
		padded[last] = 16
		padded[last-1] = 15
	case "padlong":
		padded[last] = 255
	}
	e.ct = rawCBC(k[:32], e.iv, padded)
	if made == "noblock" {
		e.ct = nil
	}
	if made == "ragged" {
		e.ct = append(e.ct, 1, 2, 3)
	}
	e.mac = hmac256(k[32:], append(append([]byte{e.v}, e.iv...), e.ct...))
	return e
}

// provInput makes the arguments of Decrypt for a case.
func provInput(c *provCase, made string, n, seed int) (priv, content string, own, other *provEnv) {
	dev := newKP("dev", n, seed)
	own = seal(dev, made, c.Len, "own", n, seed)
	other = seal(dev, "honest", c.Len, "other", n, seed)
	has := map[string]string{}
	at := map[string]int{}
	for _, t := range c.Tam {
		has[t.F], at[t.F] = t.H, t.At
	}
	e := *own
	e.iv, e.ct, e.mac = append([]byte{}, e.iv...), append([]byte{}, e.ct...), append([]byte{}, e.mac...)
	if has["body"] == "other" {
		e.v, e.iv, e.ct, e.mac = other.v, append([]byte{}, other.iv...), append([]byte{}, other.ct...), append([]byte{}, other.mac...)
	}
	switch has["v"] {
	case "zero":
		e.v = 0
	case "two":
		e.v = 2
	case "high":
		e.v = 129
	}
	switch has["iv"] {
	case "other":
		e.iv = other.iv
	case "zero":
		e.iv = make([]byte, 16)
	}
	switch has["ct"] {
	case "other":
		e.ct = other.ct
	case "swap":
		x := append([]byte{}, e.ct[:16]...)
		copy(e.ct[:16], e.ct[len(e.ct)-16:])
		copy(e.ct[len(e.ct)-16:], x)
	case "copy":
		copy(e.ct[len(e.ct)-16:], e.ct[:16])
	case "drop":
		if len(e.ct) < 16 {
			e.ct = []byte{1}
		} else {
			e.ct = e.ct[:len(e.ct)-16]
		}
	case "append":
		e.ct = append(e.ct, prand(16, "append", n, seed)...)
	}
	switch has["mac"] {
	case "other":
		e.mac = other.mac
	case "zero":
		e.mac = make([]byte, 32)
	case "short":
		e.mac = e.mac[:31]
	case "long":
		e.mac = append(e.mac, 0)
	case "plain":
		h := sha256.Sum256(append(append([]byte{e.v}, e.iv...), e.ct...))
		e.mac = h[:]
	}
	body := e.body()
	switch has["body"] {
	case "empty":
		body = nil
	case "one":
		body = body[:1]
	case "head":
		body = body[1:]
	case "shift":
		body = append([]byte{1}, body...)
	}
	if has["bodybit"] != "" {
		body[at["bodybit"]/8] ^= 1 << (at["bodybit"] % 8)
	}
	if has["cut"] != "" {
		body = body[:at["cut"]]
	}
	eph := e.eph.ser()
	switch has["eph"] {
	case "other":
		eph = other.eph.ser()
	case "zero":
		eph = append([]byte{5}, make([]byte, 32)...)
	case "short":
		eph = eph[:32]
	case "empty":
		eph = []byte{}
	case "missing":
		eph = nil
	case "type":
		eph[0] = 6
	case "top":
		eph[32] |= 0x80
	case "trail":
		eph = append(eph, 7)
	}
	if has["ephbit"] != "" {
		eph[at["ephbit"]/8] ^= 1 << (at["ephbit"] % 8)
	}
	if has["ephcut"] != "" {
		eph = eph[:at["ephcut"]]
	}
	m := map[string]interface{}{"public_key": eph, "body": body}
	switch has["json"] {
	case "nobody":
		delete(m, "body")
	case "nopub":
		delete(m, "public_key")
	case "extra":
		m["x"] = []int{1}
	case "number":
		m["body"] = 5
	}
	js, err := json.Marshal(m)
	check(err)
	switch has["json"] {
	case "garbage":
		js = prand(40, "garbage", n, seed)
	case "array":
		js = []byte("[" + string(js) + "]")
	case "null":
		js = []byte("null")
	case "tail":
		js = append(js, '}')
	}
	content = base64.StdEncoding.EncodeToString(js)
	switch has["b64"] {
	case "bad":
		content = content[:len(content)/2] + "*" + content[len(content)/2+1:]
	case "empty":
		content = ""
	case "cut":
		content = content[:len(content)/4*2+1]
	case "tail":
		content += "!"
	case "more":
		content += "A"
	}
	k := dev.priv
	switch has["priv"] {
	case "other":
		k = newKP("otherdev", n, seed).priv
	case "empty":
		k = nil
	}
	priv = base64.StdEncoding.EncodeToString(k)
	if has["priv"] == "bad64" {
		priv = priv[:20] + "!" + priv[21:]
	}
	if has["priv"] == "tail" {
		priv += "!"
	}
	return
}

func provTrace(n int, b []byte, seed int) { caseReport("prov", n, b, seed, provCheck(n, b, seed)) }

func provCheck(n int, b []byte, seed int) (ms []Mism) {
	var c provCase
	check(json.Unmarshal(b, &c))
	tally(1, 0, "")
	tally(0, 1, "open "+c.Stage)
	bad := func(class, f string, a ...interface{}) {
		ms = append(ms, Mism{Class: class, Detail: fmt.Sprintf(f, a...) + fmt.Sprintf(" [%d bytes, made %s, changed %v]", c.Len, c.Made, c.Tam)})
	}
	open := func(made string) (string, result, *provEnv, *provEnv) {
		priv, content, own, other := provInput(&c, made, n, seed)
		var text string
		r := guard(func() (err error) { text, err = provision.Decrypt(priv, content); return })
		return text, r, own, other
	}
	text, r, own, other := open(c.Made)
	want := map[string]string{"own": own.text, "other": other.text}[c.Text]
	switch {
	case r.pan != "":
		bad("panic:prov", "%s", r.pan)
	case c.Result == "error" && r.err == nil:
		bad("prov:accept:"+c.Stage, "opened to %q", text)
	case c.Result == "error" && text != "":
		bad("prov:leak", "an error, but also the text %q", text)
	case c.Result == "text" && r.err != nil:
		bad("prov:reject", "%v", r.err)
	case c.Result != "error" && r.err == nil && text != want:
		bad("prov:text", "%q instead of %q", text, want)
	}
	// With a wrong code the error does not tell whether the padding would have been right.
	if len(ms) == 0 && c.Stage == "mac" && c.Made == "honest" {
		for _, made := range []string{"padmix", "pad0"} {
			_, r2, _, _ := open(made)
			if r2.pan != "" {
				bad("panic:prov", "%s", r2.pan)
			} else if r2.err == nil {
				bad("prov:accept:mac", "opened (%s)", made)
			} else if r2.err.Error() != r.err.Error() {
				bad("prov:oracle", "error %q with good padding, %q with bad padding", r.err, r2.err)
			}
		}
	}
	return
}
