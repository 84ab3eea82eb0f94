package c06

import (
	"bufio"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"strings"
	"testing"
	"time"

	"github.com/katydid/katydid/relapse/auto"
	"github.com/katydid/katydid/zzverif/rgen"
	"github.com/katydid/katydid/zzverif/vh"
)

// one checks one grammar on some trees and prints what it counted.
func one(t *testing.T, i int) {
	r := rand.New(rand.NewSource(vh.Seed()*1000003 + 6000000 + int64(i)))
	g := rgen.Grammar(r, 3)
	record := i%4 == 0
	if record {
		g = rgen.Record(r, 3)
	} else if i%4 == 1 {
		g = rgen.CollideGrammar(r, 2)
	}
	if g.Size() > 5 {
		fmt.Println("COUNT toobig")
		return
	}
	vh.Current("%s", g)
	var a *auto.Auto
	var err error
	// the number of states can be infinite: such a compilation does not end and is left out.
	stop := time.AfterFunc(700*time.Millisecond, func() { os.Exit(77) })
	p := vh.Try(func() {
		if record {
			a, err = auto.CompileRecord(g.Ast())
		} else {
			a, err = auto.Compile(g.Ast())
		}
	})
	stop.Stop()
	if p != "" || err != nil {
		vh.Fail(t, "compile", "%s: %s %v", g, p, err)
		return
	}
	for j := 0; j < 10; j++ {
		ts := g.Forest(r)
		if record && !rgen.Unique(ts) {
			continue
		}
		var want, got bool
		if vh.Try(func() { want = g.Match(ts) }) != "" {
			fmt.Println("COUNT skipped")
			continue
		}
		w := rgen.Walk(ts)
		if r.Intn(12) == 0 {
			w.Fail = 1 + r.Intn(4)
		}
		if p := vh.Try(func() { got, err = a.Validate(w) }); p != "" {
			vh.Fail(t, "panic", "%s on [%s]: %s", g, rgen.Show(ts), p)
			break
		}
		if err != nil {
			if err != rgen.ErrInjected && !g.MayErr() {
				vh.Fail(t, "error", "%s on [%s]: error %v", g, rgen.Show(ts), err)
			}
			fmt.Println("COUNT skipped")
			continue
		}
		fmt.Println("COUNT trees")
		if want {
			fmt.Println("COUNT accepted")
		}
		if i < 3 && j == 0 {
			vh.Sample("%s on [%s]: %v", g, rgen.Show(ts), want)
		}
		if got != want {
			vh.Fail(t, "verdict", "record %v: %s on [%s]: %v, want %v", record, g, rgen.Show(ts), got, want)
			break
		}
		if w.Depth() != 0 {
			vh.Fail(t, "depth", "%s on [%s]: parser left %d levels down", g, rgen.Show(ts), w.Depth())
			break
		}
	}
}

// TestVerifChild checks the grammars from a number on; it is run by TestVerifAuto.
func TestVerifChild(t *testing.T) {
	var from, to int
	if _, err := fmt.Sscanf(os.Getenv("C06_CHUNK"), "%d-%d", &from, &to); err != nil {
		return
	}
	for i := from; i < to && !vh.TooMany(); i++ {
		fmt.Println("AT", i)
		one(t, i)
	}
	fmt.Println("AT", to)
}

func TestVerifAuto(t *testing.T) {
	if os.Getenv("C06_CHUNK") != "" {
		return
	}
	total := vh.N(8000, 80000)
	const workers = 4
	type res struct {
		n     map[string]int
		lines []string
		fail  bool
	}
	out := make(chan res)
	for k := 0; k < workers; k++ {
		go func(at, to int) {
			rs := res{n: map[string]int{}}
			for at < to {
				cmd := exec.Command(os.Args[0], "-test.run", "TestVerifChild")
				cmd.Env = append(os.Environ(), fmt.Sprintf("C06_CHUNK=%d-%d", at, to))
				cmd.Stderr = os.Stderr
				o, err := cmd.StdoutPipe()
				if err == nil {
					err = cmd.Start()
				}
				if err != nil {
					rs.lines = append(rs.lines, fmt.Sprintf("cannot start: %v", err))
					rs.fail = true
					break
				}
				last := at
				var tail []string
				sc := bufio.NewScanner(o)
				sc.Buffer(nil, 1<<26)
				for sc.Scan() {
					l := sc.Text()
					switch {
					case strings.HasPrefix(l, "AT "):
						fmt.Sscanf(l, "AT %d", &last)
					case strings.HasPrefix(l, "COUNT "):
						rs.n[l[6:]]++
					case strings.HasPrefix(l, "@@SAMPLE"), strings.HasPrefix(l, "@@FAIL"):
						rs.lines = append(rs.lines, l)
					default:
						tail = append(tail, l)
					}
				}
				err = cmd.Wait()
				if ee, ok := err.(*exec.ExitError); ok && ee.ExitCode() == 77 {
					rs.n["unfinished"]++
					at = last + 1
					continue
				}
				if err != nil {
					rs.fail = true
					if len(tail) > 40 {
						tail = tail[:40]
					}
					rs.lines = append(rs.lines, strings.Join(tail, "\n"))
					if last < to {
						at = last + 1
						if len(rs.lines) > 40 {
							break
						}
						continue
					}
				}
				break
			}
			out <- rs
		}(total*k/workers, total*(k+1)/workers)
	}
	n := map[string]int{}
	for k := 0; k < workers; k++ {
		rs := <-out
		for _, l := range rs.lines {
			fmt.Println(l)
		}
		if rs.fail {
			t.Fail()
		}
		for s, c := range rs.n {
			n[s] += c
		}
	}
	for _, s := range []string{"trees", "accepted", "skipped", "toobig", "unfinished"} {
		vh.Stat(s, n[s])
	}
	vh.Done()
}
