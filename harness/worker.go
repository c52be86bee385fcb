package main

import (
	"bytes"
	"fmt"
	"io"
	"os"
	"os/exec"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// A fatal crash of the code under test (stack overflow, concurrent map use, …)
// cannot be recovered from inside the process, so the check itself runs in a
// child and this supervisor judges how the child ended. Only a crash whose
// failing goroutine was inside the code under test is a violation.

const repoPath = "github.com/kunitsucom/ddlctl/"

// crashSite finds the innermost function outside the runtime of the goroutine
// that failed; ok tells that it belongs to the code under test.
func crashSite(dump string) (site string, ok bool) {
	i := strings.Index(dump, "fatal error: ")
	if p := strings.Index(dump, "panic: "); i < 0 || p >= 0 && p < i {
		i = p
	}
	if i < 0 {
		return "", false
	}
	dump = dump[i:]
	if j := strings.Index(dump, "\ngoroutine "); j >= 0 {
		dump = dump[j+1:]
	}
	lines := strings.Split(dump, "\n")
	for n, l := range lines {
		if n > 0 && l == "" {
			break
		}
		if n == 0 || strings.HasPrefix(l, "\t") || strings.HasPrefix(l, "created by") {
			continue
		}
		if strings.HasPrefix(l, repoPath) && !strings.HasPrefix(l, repoPath+"verifharness") {
			return l, true
		}
		if strings.HasPrefix(l, "main.") {
			return l, false
		}
	}
	return "", false
}

func supervise(id, tier string) {
	cmd := exec.Command(os.Args[0], os.Args[1:]...)
	cmd.Env = append(os.Environ(), "VERIF_CHILD=1")
	cmd.Stdout = os.Stdout
	var tail bytes.Buffer
	pr, pw := io.Pipe()
	cmd.Stderr = pw
	done := make(chan struct{})
	go func() {
		defer close(done)
		buf := make([]byte, 64<<10)
		for {
			n, err := pr.Read(buf)
			os.Stderr.Write(buf[:n])
			if tail.Len() < 1<<20 {
				tail.Write(buf[:n])
			}
			if err != nil {
				return
			}
		}
	}()
	err := cmd.Run()
	pw.Close()
	<-done
	if err == nil {
		os.Exit(0)
	}
	code := 2
	if cmd.ProcessState != nil {
		code = cmd.ProcessState.ExitCode()
	}
	if code == 1 {
		os.Exit(1)
	}
	if site, ok := crashSite(tail.String()); ok {
		p, _ := props[id]
		c := newCtx(id, tier, p)
		what := tail.String()
		if i := strings.Index(what, "fatal error: "); i >= 0 {
			what = what[i:]
		}
		first, _, _ := strings.Cut(what, "\n")
		c.violate("crash", "the process dies: "+first+" in "+site, clip(what, 20000))
		c.eval("crash")
		c.writeEvidence(p)
		os.Exit(1)
	}
	if code < 0 {
		code = 2
	}
	os.Exit(code)
}

// In-flight calls into the code under test: a call that does not return within
// callLimit, or during which memory grows beyond memLimit, is a violation
// (ordinary calls take milliseconds).

const (
	callLimit = 150 * time.Second
	memLimit  = 20 << 30
)

type flight struct {
	start time.Time
	what  string
	input string
}

var (
	flights  sync.Map
	flightID atomic.Int64
)

func enter(what, input string) int64 {
	id := flightID.Add(1)
	flights.Store(id, flight{time.Now(), what, input})
	return id
}

func leave(id int64) { flights.Delete(id) }

func (c *Ctx) watch(p prop) {
	for {
		time.Sleep(500 * time.Millisecond)
		var old flight
		flights.Range(func(_, v any) bool {
			f := v.(flight)
			if old.start.IsZero() || f.start.Before(old.start) {
				old = f
			}
			return true
		})
		if old.start.IsZero() {
			continue
		}
		age := time.Since(old.start)
		bad := ""
		if age > callLimit {
			bad = fmt.Sprintf("%s gives no result within %v", old.what, callLimit)
		} else if age > 5*time.Second {
			var ms runtime.MemStats
			runtime.ReadMemStats(&ms)
			if ms.HeapAlloc > memLimit {
				bad = fmt.Sprintf("%s takes more than %d GB of memory without giving a result", old.what, memLimit>>30)
			}
		}
		if bad != "" {
			c.violate("no result", bad, old.input)
			c.eval("no result")
			c.writeEvidence(p)
			os.Exit(1)
		}
	}
}
