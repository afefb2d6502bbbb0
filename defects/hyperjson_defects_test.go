package hyperjson

// Demonstrations of the defects repaired in /repo (run through an overlay, see run.sh).

import (
	"strings"
	"testing"
	"time"
	"unsafe"
)

func within(t *testing.T, d time.Duration, f func()) {
	done := make(chan struct{})
	go func() { f(); close(done) }()
	select {
	case <-done:
	case <-time.After(d):
		t.Fatal("does not terminate")
	}
}

// D1: a token that fills the whole buffer made the parser spin forever
func TestDefect_TokenLargerThanBuffer(t *testing.T) {
	within(t, 2*time.Second, func() {
		p := NewWithReader(strings.NewReader(`"`+strings.Repeat("x", 10000)+`"`), make([]byte, 8192))
		tok, err := p.ReadString()
		if err != nil || len(tok.Value) != 10000 {
			t.Error(len(tok.Value), err)
		}
	})
}

// D2: skipping deeply nested values overflowed the stack (fatal, not recoverable)
func TestDefect_DeepNesting(t *testing.T) {
	p := NewWithReader(strings.NewReader(strings.Repeat("[", 20_000_000)), make([]byte, 8192))
	if err := p.Skip(); err == nil {
		t.Fatal("expected error")
	}
}

// D3: escapes
func TestDefect_Escapes(t *testing.T) {
	p := NewWithReader(strings.NewReader(`"a\nb\tc\rd\be\ff\"\\\/ \ud83d\ude00 \u00e4"`), nil)
	tok, err := p.ReadString()
	if err != nil || string(tok.Value) != "a\nb\tc\rd\be\ff\"\\/ \U0001F600 \u00e4" {
		t.Fatalf("%q %v", tok.Value, err)
	}
}

// D4: a number that does not fit was silently wrapped
func TestDefect_Overflow(t *testing.T) {
	var target uint64
	p := NewWithReader(strings.NewReader(`18446744073709551617 `), nil)
	if err := Uint64ValueDecoder(unsafe.Pointer(&target), p); err == nil {
		t.Fatal("wrapped to", target)
	}
	p = NewWithReader(strings.NewReader(`18446744073709551615 `), nil)
	if err := Uint64ValueDecoder(unsafe.Pointer(&target), p); err != nil || target != 18446744073709551615 {
		t.Fatal(target, err)
	}
}

// D5: valid exponents were rejected
func TestDefect_Exponent(t *testing.T) {
	for _, s := range []string{`[1E5]`, `[1e+5]`, `[-1.5E-7]`} {
		if err := NewWithReader(strings.NewReader(s), nil).Skip(); err != nil {
			t.Fatal(s, err)
		}
	}
}

// only the first character of null, true and false was looked at.
func TestDefect_Literals(t *testing.T) {
	for _, doc := range []string{`[nope, 1]`, `[trap]`, `[fable]`, `[n,"a"]`} {
		p := NewWithReader(strings.NewReader(doc), make([]byte, 64))
		if err := p.Skip(); err == nil {
			t.Errorf("%s is accepted", doc)
		}
	}
	for _, doc := range []string{`[null]`, `[true,false,null]`} {
		p := NewWithReader(strings.NewReader(doc), make([]byte, 2))
		if err := p.Skip(); err != nil {
			t.Errorf("%s: %s", doc, err)
		}
	}
}
