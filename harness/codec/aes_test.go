// Package codec checks the AES, digest, base64, JSON and classification helpers (C24, C25, C37).
package codec

import (
	"bytes"
	"crypto/aes"
	"crypto/cipher"
	"errors"
	"fmt"
	"math/rand"
	"testing"

	"github.com/ahKevinXy/go-web-tools/help/utils"
	"pgregory.net/rapid"
	"vharness/vt"
)

func TestMain(m *testing.M) { vt.Main(m) }

func TestC24(t *testing.T) {
	vt.Check(t, "encrypt", "message of 0 to 70000 bytes (rarely 2 MiB, block edges biased) and a 16-, 24- or 32-byte key, both inside larger buffers (sometimes one buffer), compared with an independent CBC/PKCS#7 reference, decrypted again; both buffers compared byte for byte afterwards; non-trivial: message of at least one block",
		6000, 300000, encrypt)
	vt.Check(t, "bad ciphertext", "ciphertexts whose last block decrypts to drawn padding (valid, over-long, zero, inconsistent, whole-message), truncated, extended, altered and random ones, each decided by the reference; non-trivial: the reference refuses it",
		8000, 400000, badCiphertext)
	vt.Check(t, "bad key", "keys of 0 to 80 bytes with another length, for both directions and any data; non-trivial: data of at least one block",
		2000, 50000, badKey)
	vt.Check(t, "huge", "messages of 2 to 48 MiB (thorough: 512 MiB) encrypted, compared with the standard library's CBC and decrypted again; non-trivial: all",
		3, 30, hugeMessages)
}

func hugeMessages(rt *rapid.T, c *vt.C) {
	most := 24
	if vt.Thorough() {
		most = 28
	}
	n := 1 << rapid.IntRange(21, most).Draw(rt, "log size")
	if rapid.Bool().Draw(rt, "odd") {
		n += int(vt.Mix(rapid.Uint64().Draw(rt, "more")) % uint64(2*n))
	} else {
		n += rapid.IntRange(-16, 16).Draw(rt, "off")
	}
	msg, k := make([]byte, n), key(rt)
	rand.New(rand.NewSource(rapid.Int64().Draw(rt, "content"))).Read(msg)
	c.Logf("%d bytes with a key of %d", n, len(k))
	c.NT()
	was := bytes.Clone(msg)
	got, err := utils.AesEncrypt(msg, k)
	if err != nil {
		rt.Fatalf("encrypting %d bytes: %v", n, err)
	}
	pad := 16 - n%16
	want := append(was[:n:n], bytes.Repeat([]byte{byte(pad)}, pad)...)
	cipher.NewCBCEncrypter(must(aes.NewCipher(k)), k[:16]).CryptBlocks(want, want)
	if !bytes.Equal(got, want) {
		rt.Fatalf("encrypting %d bytes gives %d others than expected", n, len(got))
	}
	back, err := utils.AesDecrypt(got, k)
	if err != nil || !bytes.Equal(back, was) || !bytes.Equal(msg, was) {
		rt.Fatalf("decrypting %d bytes gives %d others than the message, %v", n, len(back), err)
	}
}

// refEncrypt is CBC with PKCS#7 padding written out block by block.
func refEncrypt(msg, key []byte) []byte {
	n := 16 - len(msg)%16
	p := append(append([]byte{}, msg...), bytes.Repeat([]byte{byte(n)}, n)...)
	return refCBC(p, key)
}

func refCBC(p, key []byte) []byte {
	blk, err := aes.NewCipher(key)
	if err != nil {
		vt.Harness("reference key: %v", err)
	}
	prev := append([]byte{}, key[:16]...)
	out := make([]byte, 0, len(p))
	for i := 0; i < len(p); i += 16 {
		x := make([]byte, 16)
		for j := range x {
			x[j] = p[i+j] ^ prev[j]
		}
		blk.Encrypt(prev, x)
		out = append(out, prev...)
	}
	return out
}

func refDecrypt(ct, key []byte) ([]byte, error) {
	blk, err := aes.NewCipher(key)
	if err != nil || len(ct) == 0 || len(ct)%16 != 0 {
		return nil, errors.New("refused")
	}
	prev := key[:16]
	var p []byte
	for i := 0; i < len(ct); i += 16 {
		x := make([]byte, 16)
		blk.Decrypt(x, ct[i:i+16])
		for j := range x {
			x[j] ^= prev[j]
		}
		p = append(p, x...)
		prev = ct[i : i+16]
	}
	n := int(p[len(p)-1])
	if n < 1 || n > 16 {
		return nil, errors.New("refused")
	}
	for _, b := range p[len(p)-n:] {
		if int(b) != n {
			return nil, errors.New("refused")
		}
	}
	return p[:len(p)-n], nil
}

// guarded places two arguments inside larger buffers (or one shared buffer) and reports changes.
type guarded struct {
	a, b     []byte
	buf, was [][]byte
}

func guard(rt *rapid.T, a, b []byte) *guarded {
	g := &guarded{}
	spare := vt.Pick(rt, "spare", 0, 1, 15, 16, 17, 64)
	junk := func(n int) []byte { return bytes.Repeat([]byte{0xA5}, n) }
	place := func(x []byte) []byte {
		buf := append(append(junk(8), x...), junk(spare)...)
		g.buf = append(g.buf, buf)
		return buf[8 : 8+len(x) : len(buf)]
	}
	switch vt.Weighted(rt, "layout", 4, 1, 1) {
	case 0:
		g.a, g.b = place(a), place(b)
	case 1: // a directly before b: writing into a's spare capacity changes b
		buf := append(append([]byte{}, a...), b...)
		g.buf = [][]byte{buf}
		g.a, g.b = buf[:len(a)], buf[len(a):]
	case 2:
		buf := append(append([]byte{}, b...), a...)
		g.buf = [][]byte{buf}
		g.b, g.a = buf[:len(b)], buf[len(b):]
	}
	if len(a) == 0 && rapid.Bool().Draw(rt, "nil") {
		g.a = nil
	}
	for _, x := range g.buf {
		g.was = append(g.was, bytes.Clone(x))
	}
	return g
}

func (g *guarded) check(rt *rapid.T, what string) {
	for i := range g.buf {
		if !bytes.Equal(g.buf[i], g.was[i]) {
			rt.Fatalf("%s changed its arguments' memory: %.99x, was %.99x", what, g.buf[i], g.was[i])
		}
	}
}

func call(rt *rapid.T, what string, f func([]byte, []byte) ([]byte, error), a, k []byte) (out []byte, err error) {
	if v, p := vt.Panics(func() { out, err = f(a, k) }); p {
		rt.Fatalf("%s of %d bytes with a %d-byte key panicked: %v", what, len(a), len(k), v)
	}
	return
}

func key(rt *rapid.T) []byte {
	k := vt.Fill(rt, vt.Pick(rt, "key size", 16, 24, 32))
	if rapid.IntRange(0, 5).Draw(rt, "flat") == 0 {
		clear(k)
	}
	return k
}

func encrypt(rt *rapid.T, c *vt.C) {
	msg, k := vt.Big(70000, 1<<21, 300).Draw(rt, "message"), key(rt)
	if rapid.IntRange(0, 3).Draw(rt, "padlike") == 0 && len(msg) > 0 { // ends like padding
		n := rapid.IntRange(1, min(16, len(msg))).Draw(rt, "tail")
		copy(msg[len(msg)-n:], bytes.Repeat([]byte{byte(n)}, n))
	}
	c.Logf("AesEncrypt(%d bytes %.32x…, key %x)", len(msg), msg, k)
	c.NTIf(len(msg) >= 16)
	c.LabelIf(len(msg)%16 == 0, "whole blocks")
	want := refEncrypt(msg, k)
	g := guard(rt, msg, k)
	ct, err := call(rt, "encrypting", utils.AesEncrypt, g.a, g.b)
	g.check(rt, "encrypting")
	if err != nil {
		rt.Fatalf("encrypting %d bytes with a %d-byte key: %v", len(msg), len(k), err)
	}
	if !bytes.Equal(ct, want) {
		rt.Fatalf("ciphertext of %d bytes %.99x with key %x is %.99x, want %.99x", len(msg), msg, k, ct, want)
	}
	g2 := guard(rt, ct, k)
	pt, err := call(rt, "decrypting", utils.AesDecrypt, g2.a, g2.b)
	g2.check(rt, "decrypting")
	if err != nil || !bytes.Equal(pt, msg) {
		rt.Fatalf("decrypting gives %.99x, %v; message was %.99x", pt, err, msg)
	}
	// the results are the caller's: writing to them must not reach the arguments
	for i := range pt[:cap(pt)] {
		pt[:cap(pt)][i] ^= 0xff
	}
	for i := range ct[:cap(ct)] {
		ct[:cap(ct)][i] ^= 0xff
	}
	g.check(rt, "writing to the ciphertext")
	g2.check(rt, "writing to the plaintext")
}

func badCiphertext(rt *rapid.T, c *vt.C) {
	k := key(rt)
	var ct []byte
	kind := vt.Weighted(rt, "kind", 6, 3, 3, 2, 2)
	switch kind {
	case 0: // a drawn last block
		n := rapid.IntRange(0, 3).Draw(rt, "blocks")
		p := vt.Fill(rt, 16*(n+1))
		last := vt.Pick(rt, "pad", 0, 1, 2, 3, 7, 8, 15, 16, 17, 18, 31, 32, 48, 64, 127, 128, 254, 255)
		run := min(len(p), vt.Pick(rt, "run", 1, max(1, last-1), max(1, last), last+1, 16))
		for i := 0; i < run; i++ {
			p[len(p)-1-i] = byte(last)
		}
		if rapid.IntRange(0, 2).Draw(rt, "spoil") == 0 && run > 1 {
			p[len(p)-1-rapid.IntRange(1, run-1).Draw(rt, "at")] ^= byte(rapid.IntRange(1, 255).Draw(rt, "flip"))
		}
		ct = refCBC(p, k)
	case 1: // truncated or extended
		ct = refEncrypt(vt.Fill(rt, rapid.IntRange(0, 40).Draw(rt, "len")), k)
		if rapid.Bool().Draw(rt, "cut") {
			ct = ct[:rapid.IntRange(0, len(ct)-1).Draw(rt, "to")]
		} else {
			ct = append(ct, vt.Fill(rt, rapid.IntRange(1, 33).Draw(rt, "more"))...)
		}
	case 2: // altered
		ct = refEncrypt(vt.Fill(rt, rapid.IntRange(0, 60).Draw(rt, "len")), k)
		ct[rapid.IntRange(0, len(ct)-1).Draw(rt, "at")] ^= byte(rapid.IntRange(1, 255).Draw(rt, "flip"))
	case 3:
		ct = vt.Bytes(100).Draw(rt, "random")
	case 4: // another key
		ct = refEncrypt(vt.Fill(rt, rapid.IntRange(0, 60).Draw(rt, "len")), key(rt))
	}
	want, refuse := refDecrypt(ct, k)
	c.Logf("AesDecrypt(%x, key %x)", ct, k)
	c.Label(fmt.Sprintf("kind %d, refused %v", kind, refuse != nil))
	c.NTIf(refuse != nil)
	g := guard(rt, ct, k)
	got, err := call(rt, "decrypting", utils.AesDecrypt, g.a, g.b)
	g.check(rt, "decrypting")
	if refuse != nil {
		if err == nil || len(got) > 0 {
			rt.Fatalf("decrypting %x with key %x gives %x, %v; it is not a padded message", ct, k, got, err)
		}
	} else if err != nil || !bytes.Equal(got, want) {
		rt.Fatalf("decrypting %x with key %x gives %x, %v; want %x", ct, k, got, err, want)
	}
}

func badKey(rt *rapid.T, c *vt.C) {
	n := rapid.IntRange(0, 80).Filter(func(n int) bool { return n != 16 && n != 24 && n != 32 }).Draw(rt, "key size")
	k, data := vt.Fill(rt, n), vt.Bytes(100).Draw(rt, "data")
	if rapid.Bool().Draw(rt, "blocks") {
		data = vt.Fill(rt, 16*rapid.IntRange(0, 4).Draw(rt, "n"))
	}
	if n == 0 && rapid.Bool().Draw(rt, "nil key") {
		k = nil
	}
	c.Logf("key of %d bytes, data %x", n, data)
	c.NTIf(len(data) >= 16)
	g := guard(rt, data, k)
	for what, f := range map[string]func([]byte, []byte) ([]byte, error){"encrypting": utils.AesEncrypt, "decrypting": utils.AesDecrypt} {
		out, err := call(rt, what, f, g.a, g.b)
		if err == nil || len(out) > 0 {
			rt.Fatalf("%s with a %d-byte key gives %x, %v", what, n, out, err)
		}
		g.check(rt, what)
	}
}
