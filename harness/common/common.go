// Package zzverif holds the parts the bounded harnesses share.
package zzverif

import (
	"fmt"
	"math/rand"
	"os"
	"strconv"
	"sync"
	"testing"
	"time"
)

// Seed is VERIF_SEED.
func Seed() int64 {
	n, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		return 1
	}
	return n
}

// Thorough tells whether VERIF_TIER is thorough.
func Thorough() bool { return os.Getenv("VERIF_TIER") == "thorough" }

// N scales a number of cases by the tier.
func N(quick int) int {
	if Thorough() {
		return quick * 10
	}
	return quick
}

// Rng makes a random source of its own for a test.
func Rng(t *testing.T) *rand.Rand {
	h := Seed()
	for _, c := range t.Name() {
		h = h*31 + int64(c)
	}
	return rand.New(rand.NewSource(h))
}

var mu sync.Mutex

func put(line string) {
	mu.Lock()
	defer mu.Unlock()
	fn := os.Getenv("VERIF_OUT")
	if fn == "" {
		return
	}
	f, err := os.OpenFile(fn, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0o644)
	if err != nil {
		return
	}
	defer f.Close()
	fmt.Fprintln(f, line)
}

// Cases adds n to the number of cases tried.
func Cases(n int) { put(fmt.Sprintf("cases %d", n)) }

// Fail reports a failing input.
func Fail(t *testing.T, key, format string, args ...any) {
	t.Helper()
	put("failure " + key)
	t.Fatalf(key+": "+format, args...)
}

// Panics runs f and returns the panic value, if any.
func Panics(f func()) (p any) {
	defer func() { p = recover() }()
	f()
	return nil
}

// Within runs f and reports whether it ended in time.
func Within(d time.Duration, f func()) bool {
	c := make(chan struct{})
	go func() { defer close(c); f() }()
	select {
	case <-c:
		return true
	case <-time.After(d):
		return false
	}
}

// Min is the smaller number.
func Min[T int | int64 | uint64](a, b T) T {
	if a < b {
		return a
	}
	return b
}
