package main

// Recorded findings are probed on every run: a probe that still fails prints a
// KNOWN-FINDING line, one that no longer fails prints nothing.

func dialectOf(s string) Dialect {
	for d := PG; d <= SP; d++ {
		if d.String() == s {
			return d
		}
	}
	panic("unknown dialect " + s)
}

// probePairs runs the recorded before/after pairs of this property.
func (c *Ctx) probePairs(judge func(p *pair, key string)) {
	for _, f := range c.findings {
		if f.Kind != "pair" {
			continue
		}
		p := &pair{d: dialectOf(f.Dialect), t1: f.Before, t2: f.After, probe: true, tags: []string{"recorded finding"}}
		if !p.load(c, f.Key) {
			c.count("recorded_findings_not_loaded", 1)
			continue
		}
		judge(p, f.Key)
		c.count("recorded_findings_probed", 1)
	}
}
