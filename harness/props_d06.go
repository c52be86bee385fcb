package main

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"reflect"
	"strings"
	"sync"
)

// D06: rendering and comparing are pure, deterministic and safe to run concurrently.
// The check is built with -race; run.sh sends race reports to $VERIF_BUILD/race.*.

func init() {
	props["D06"] = prop{"exploration", "distinct pairs of schema texts on which purity, repetition and concurrent use (under the race detector) were monitored", runD06}
}

// deepDump prints a value with everything visible that is reachable from it.
func deepDump(v any) string {
	var b strings.Builder
	seen := map[uintptr]bool{}
	var walk func(v reflect.Value, depth int)
	walk = func(v reflect.Value, depth int) {
		if !v.IsValid() {
			b.WriteString("invalid")
			return
		}
		if depth > 60 {
			b.WriteString("…")
			return
		}
		switch v.Kind() {
		case reflect.Ptr:
			if v.IsNil() {
				b.WriteString("nil")
				return
			}
			if seen[v.Pointer()] {
				b.WriteString("↺")
				return
			}
			seen[v.Pointer()] = true
			b.WriteString("&")
			walk(v.Elem(), depth+1)
			delete(seen, v.Pointer())
		case reflect.Interface:
			if v.IsNil() {
				b.WriteString("nil")
				return
			}
			b.WriteString(v.Elem().Type().String())
			walk(v.Elem(), depth+1)
		case reflect.Struct:
			b.WriteString(v.Type().Name() + "{")
			for i := 0; i < v.NumField(); i++ {
				if !v.Type().Field(i).IsExported() {
					continue // internal caches are not part of the value
				}
				b.WriteString(v.Type().Field(i).Name + ":")
				walk(v.Field(i), depth+1)
				b.WriteString(" ")
			}
			b.WriteString("}\n")
		case reflect.Slice, reflect.Array:
			if v.Kind() == reflect.Slice && v.IsNil() {
				b.WriteString("[]")
				return
			}
			b.WriteString("[")
			for i := 0; i < v.Len(); i++ {
				walk(v.Index(i), depth+1)
				b.WriteString(",")
			}
			b.WriteString("]")
		case reflect.Map:
			b.WriteString(fmt.Sprintf("map%d", v.Len()))
		case reflect.String:
			fmt.Fprintf(&b, "%q", v.String())
		case reflect.Bool:
			fmt.Fprint(&b, v.Bool())
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			fmt.Fprint(&b, v.Int())
		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
			fmt.Fprint(&b, v.Uint())
		case reflect.Float32, reflect.Float64:
			fmt.Fprint(&b, v.Float())
		default:
			b.WriteString(v.Kind().String())
		}
	}
	walk(reflect.ValueOf(v), 0)
	return b.String()
}

func (x *DDL) dump() string {
	switch x.d {
	case PG:
		return deepDump(x.pg)
	case CR:
		return deepDump(x.cr)
	case MY:
		return deepDump(x.my)
	default:
		return deepDump(x.sp)
	}
}

func dumpDiff(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	lo := i - 80
	if lo < 0 {
		lo = 0
	}
	return fmt.Sprintf("…%s  ≠  …%s", clip(a[lo:], 200), clip(b[lo:], 200))
}

func diffText(d Dialect, x, y *DDL) (string, error) {
	df, no, err := repoDiff(d, x, y)
	if err != nil {
		return "", err
	}
	if no {
		return "(no difference)", nil
	}
	return repoString(df)
}

func runD06(c *Ctx) {
	for _, d := range allDialects {
		d := d
		stream := "pure-" + d.String()
		c.parallel(stream, c.n(500, 25000), func(i int, r *rand.Rand) {
			p := c.makePair(r, d, r.Intn(6), i%2 == 0)
			if p == nil {
				return
			}
			c.pure(p, caseKey(stream, i), i == 1, r)
		})
		stream2 := "unrelated-" + d.String()
		c.parallel(stream2, c.n(200, 8000), func(i int, r *rand.Rand) {
			p := c.unrelated(r, d)
			if p == nil {
				return
			}
			c.pure(p, caseKey(stream2, i), false, r)
		})
	}
	// race reports of the whole run
	logs, _ := filepath.Glob(filepath.Join(os.Getenv("VERIF_BUILD"), "race.*"))
	for _, l := range logs {
		b, _ := os.ReadFile(l)
		if strings.Contains(string(b), "DATA RACE") {
			c.violate("race", "the race detector reports a data race between concurrent uses of the same schema: "+clip(string(b), 800), string(b))
		}
	}
	c.count("race_detector_enabled", boolInt(raceEnabled()))
}

func boolInt(b bool) int64 {
	if b {
		return 1
	}
	return 0
}

func raceEnabled() bool { return os.Getenv("GORACE") != "" }

func (c *Ctx) pure(p *pair, key string, sample bool, r *rand.Rand) {
	var err error
	d := p.d
	if p.x, err = repoParse(d, p.t1); err != nil {
		return
	}
	if p.y, err = repoParse(d, p.t2); err != nil {
		return
	}
	dx, dy := p.x.dump(), p.y.dump()
	same := func(what string) bool {
		if n := p.x.dump(); n != dx {
			c.violate(key, what+" changes the before schema: "+dumpDiff(dx, n), p.detail(""))
			return false
		}
		if n := p.y.dump(); n != dy {
			c.violate(key, what+" changes the after schema: "+dumpDiff(dy, n), p.detail(""))
			return false
		}
		return true
	}
	s1, e1 := repoString(p.x)
	s2, e2 := repoString(p.y)
	if e1 != nil || e2 != nil || !same("rendering") {
		return
	}
	fwd, e1 := diffText(d, p.x, p.y)
	if e1 == nil && !same("comparing") {
		return
	}
	bwd, e2 := diffText(d, p.y, p.x)
	if e2 == nil && !same("comparing") {
		return
	}
	if e1 != nil || e2 != nil {
		return
	}
	// the library's table comparison, also between tables of different names
	if len(p.m1.Tables) > 0 && len(p.m2.Tables) > 0 {
		t1, te := repoDiffTables(p.x, p.y)
		if isPanic(te) {
			c.violate(key, "comparing two tables panics: "+te.Error(), p.detail(""))
			return
		}
		if !same("comparing two tables") {
			return
		}
		if t2, te2 := repoDiffTables(p.x, p.y); t1 != t2 || (te == nil) != (te2 == nil) {
			c.violate(key, "the same table comparison gives different texts: "+dumpDiff(t1, t2), p.detail(""))
			return
		}
	}
	// a diff is a value of its own: rendering it twice gives the same text
	if df, no, err := repoDiff(d, p.x, p.y); err == nil && !no {
		a, _ := repoString(df)
		dd := df.dump()
		b, _ := repoString(df)
		if a != b || df.dump() != dd {
			c.violate(key, "rendering the diff twice gives different texts: "+dumpDiff(a, b), p.detail(a))
			return
		}
	}
	// repetition on the same and on freshly parsed objects
	for k := 0; k < 3; k++ {
		x, y := p.x, p.y
		if k > 0 {
			if x, err = repoParse(d, p.t1); err != nil {
				c.violate(key, "the same text is accepted once and rejected once: "+err.Error(), p.detail(""))
				return
			}
			y, _ = repoParse(d, p.t2)
			if n := x.dump(); n != dx {
				c.violate(key, "the same text parses differently: "+dumpDiff(dx, n), p.detail(""))
				return
			}
		}
		f, _ := diffText(d, x, y)
		b, _ := diffText(d, y, x)
		if f != fwd || b != bwd {
			c.violate(key, "the same comparison gives different texts: "+dumpDiff(fwd+bwd, f+b), p.detail(fwd+"\n--- again:\n"+f))
			return
		}
		c.count("repetitions", 1)
	}
	// concurrent use of the same objects
	const workers = 6
	sx, sy := p.x, p.y
	if r.Intn(4) > 0 { // objects that nothing has used yet
		sx, _ = repoParse(d, p.t1)
		sy, _ = repoParse(d, p.t2)
		c.count("concurrent_first_uses", 1)
	}
	res := make([][4]string, workers)
	var wg sync.WaitGroup
	start := make(chan struct{})
	for w := 0; w < workers; w++ {
		wg.Add(1)
		ord := r.Perm(4)
		go func(w int) {
			defer wg.Done()
			<-start
			for _, op := range ord {
				switch op {
				case 0:
					res[w][0], _ = diffText(d, sx, sy)
				case 1:
					res[w][1], _ = diffText(d, sy, sx)
				case 2:
					res[w][2], _ = repoString(sx)
				case 3:
					if z, err := repoParse(d, p.t2); err == nil {
						res[w][3], _ = repoString(z)
					}
				}
			}
		}(w)
	}
	close(start)
	wg.Wait()
	for w := range res {
		if want := [4]string{fwd, bwd, s1, s2}; res[w] != want {
			c.violate(key, "concurrent use gives another result: "+dumpDiff(strings.Join(want[:], "\n"), strings.Join(res[w][:], "\n")), p.detail(fwd))
			return
		}
	}
	if !same("concurrent use") {
		return
	}
	if n := sx.dump() + sy.dump(); n != dx+dy {
		c.violate(key, "concurrent use changes a schema: "+dumpDiff(dx+dy, n), p.detail(""))
		return
	}
	c.count("concurrent_operations", workers*4)
	c.eval(d.String() + p.t1 + "\x00" + p.t2)
	if sample {
		c.sample("before:\n"+p.t1+"\nafter:\n"+p.t2, fwd)
	}
}
