// Package v provides the inputs and assertions of the verification harness.
// Under the symbolic engine every function here is replaced by a primitive;
// natively, inputs come from a model file and assertions end the process.
package v

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	"os"
	"sync"
	"syscall"
)

type model struct {
	Fn     string            `json:"fn"`
	Params map[string]int64  `json:"params"`
	Ints   map[string]int64  `json:"ints"`
	Strs   map[string]string `json:"strs"`
}

var (
	cur   model
	count = map[string]int{}
)

// Load reads a model file and returns the harness function to run.
func Load(path string) (string, error) {
	b, err := os.ReadFile(path)
	if err != nil {
		return "", err
	}
	if err := json.Unmarshal(b, &cur); err != nil {
		return "", err
	}
	return cur.Fn, nil
}

func key(name string) string {
	k := fmt.Sprintf("%s#%d", name, count[name])
	count[name]++
	return k
}

// Int is an integer input in [lo, hi].
func Int(name string, lo, hi int) int {
	x, ok := cur.Ints[key(name)]
	if !ok {
		return lo
	}
	if x < int64(lo) || x > int64(hi) {
		fmt.Println("OUT-OF-RANGE " + name)
		os.Exit(5)
	}
	return int(x)
}

// U16 is a uint16 input in [lo, hi].
func U16(name string, lo, hi uint16) uint16 { return uint16(Int(name, int(lo), int(hi))) }

// Bool is a boolean input.
func Bool(name string) bool { return cur.Ints[key(name)] != 0 }

// Choose is an input in [0, n) that the engine splits into one path each.
func Choose(name string, n int) int { return Int(name, 0, n-1) }

// Rune is a code point input in [lo, hi], surrogates excluded; with a negative
// lo it is any 32-bit value.
func Rune(name string, lo, hi rune) rune {
	x, ok := cur.Ints[key(name)]
	if !ok {
		return lo
	}
	return rune(x)
}

// RuneStr is the UTF-8 text of one code point.
func RuneStr(r rune) string { return string(r) }

// Bytes is an input string of exactly n bytes.
func Bytes(name string, n int) string {
	x, err := hex.DecodeString(cur.Strs[key(name)])
	if err != nil || len(x) != n {
		x = append(x, make([]byte, n)...)[:n]
	}
	return string(x)
}

// BytesIn is an input string of exactly n bytes, each one of alphabet's.
func BytesIn(name string, n int, alphabet string) string {
	x, _ := hex.DecodeString(cur.Strs[key(name)])
	for len(x) < n {
		x = append(x, alphabet[0])
	}
	return string(x[:n])
}

// Assume restricts the inputs.
func Assume(c bool) {
	if !c {
		os.Exit(4)
	}
}

// Assert states the property.
func Assert(c bool, msg string) {
	if !c {
		fmt.Println("FAIL " + msg)
		os.Exit(3)
	}
}

// Reach marks a point that must be reachable.
func Reach(label string) {}

// ObsInt and ObsStr publish values compared between engine and real code.
func ObsInt(name string, x int)    { fmt.Printf("OBS %s %d\n", name, x) }
func ObsStr(name string, x string) { fmt.Printf("OBS %s %x\n", name, x) }

// Param is a concrete bound of the job.
func Param(name string) int { return int(cur.Params[name]) }

// Env sets an environment variable for the process started by Start.
func Env(name, val string) {
	if err := os.Setenv(name, val); err != nil {
		fmt.Println("ENV " + err.Error())
		os.Exit(4)
	}
}

// Unset removes an environment variable.
func Unset(name string) { os.Unsetenv(name) }

// Start begins a new process with the current environment: package
// initialisers run again.
func Start() {
	if os.Getenv("VERIF_STARTED") != "" {
		return
	}
	os.Setenv("VERIF_STARTED", "1")
	err := syscall.Exec("/proc/self/exe", os.Args, os.Environ())
	fmt.Println("EXEC", err)
	os.Exit(5)
}

// Symbolic reports whether the engine is running the harness.
func Symbolic() bool { return false }

func parThread(t int) {}

// Par runs f and g concurrently. The engine logs both and decides their
// interleavings.
func Par(f, g func()) {
	if Symbolic() {
		parThread(1)
		f()
		parThread(2)
		g()
		parThread(0)
		return
	}
	par(f, g)
}

func par(f, g func()) {
	var wg sync.WaitGroup
	wg.Add(2)
	go func() { defer wg.Done(); f() }()
	go func() { defer wg.Done(); g() }()
	wg.Wait()
}
