// Package vh holds what the replay harnesses share. It is laid over the repository at test time.
package vh

import (
	"fmt"
	"math/rand"
	"os"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"
)

var (
	mu     sync.Mutex
	fails  = map[string]int{}
	nfails int
)

// Seed is the seed of this run.
func Seed() int64 {
	n, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		return 1
	}
	return n
}

// Thorough reports whether this is the thorough tier.
func Thorough() bool { return os.Getenv("VERIF_TIER") == "thorough" }

// N scales a number of cases to the tier.
func N(quick, thorough int) int {
	if Thorough() {
		return thorough
	}
	return quick
}

// Rand gives a generator that depends on the seed and a salt.
func Rand(salt int64) *rand.Rand { return rand.New(rand.NewSource(Seed()*1000003 + salt)) }

// Fail reports a failing input. At most three per key are printed.
func Fail(t *testing.T, key, f string, a ...interface{}) {
	t.Helper()
	mu.Lock()
	defer mu.Unlock()
	fails[key]++
	nfails++
	if fails[key] <= 3 {
		fmt.Printf("@@FAIL %s | %s\n", key, strings.Replace(fmt.Sprintf(f, a...), "\n", "\\n", -1))
	}
	t.Fail()
}

// TooMany reports whether enough failures were seen to stop.
func TooMany() bool {
	mu.Lock()
	defer mu.Unlock()
	return nfails > 20
}

// Stat adds to a counter of the run.
func Stat(name string, n int) { fmt.Printf("@@STAT %s=%d\n", name, n) }

// Sample shows one case of the run.
func Sample(f string, a ...interface{}) {
	fmt.Printf("@@SAMPLE %s\n", strings.Replace(fmt.Sprintf(f, a...), "\n", "\\n", -1))
}

// Done marks a test that ran to its end.
func Done() { fmt.Println("@@DONE") }

// Current records the input under test, for crashes that cannot be recovered from.
func Current(f string, a ...interface{}) {
	if p := os.Getenv("VERIF_CURRENT"); p != "" {
		os.WriteFile(p, []byte(fmt.Sprintf(f, a...)), 0o644)
	}
}

// Try runs f and gives the panic it ended with, or "".
func Try(f func()) (msg string) {
	defer func() {
		if e := recover(); e != nil {
			st := strings.Split(string(debug.Stack()), "\n")
			where := ""
			for i, l := range st {
				if strings.Contains(l, "panic.go") && i+2 < len(st) {
					for _, m := range st[i+1:] {
						if strings.Contains(m, "katydid") && strings.Contains(m, ".go:") && !strings.Contains(m, "zz_") {
							where = strings.TrimSpace(m)
							break
						}
					}
				}
			}
			msg = fmt.Sprintf("panic: %v at %s", e, where)
		}
	}()
	f()
	return ""
}

// Limit runs f, which must end within d; it reports a failing input otherwise and stops the process.
func Limit(t *testing.T, d time.Duration, key, input string, f func()) {
	done := make(chan struct{})
	go func() {
		select {
		case <-done:
		case <-time.After(d):
			fmt.Printf("@@FAIL %s | no result within %v on %s\n", key, d, strings.Replace(input, "\n", "\\n", -1))
			os.Exit(1)
		}
	}()
	f()
	close(done)
}

func init() { debug.SetMaxStack(64 << 20) }
