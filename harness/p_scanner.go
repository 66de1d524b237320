package main

import (
	"fmt"
	"regexp"
	"strings"

	"github.com/arr-ai/wbnf/parser"
	"pgregory.net/rapid"
)

// --- scanners (C17) --------------------------------------------------------------------

// ScanOp is an operation on the scanners of a pool. Its numbers are taken modulo what there is.
type ScanOp struct {
	Op      string
	X       int
	A, B    int
	S       Bytes
	Others  []int
	NoMatch bool // EatRegexp without a match to fill
}

type ScanCase struct {
	Sources []Bytes
	Files   []string
	Ops     []ScanOp
}

var scanREs = []string{`\Aa`, `\A[a-c]+`, `\A(a)(b)?`, `\A\s*(\S)`, `\A(?:(a)|(b)|(\n))`, `\A`, `\A(.*?)\n`, `\Aé`, `\A(a(b)*)*`, `\A[^a]`, `\A(?m:$)`, `\A\b`}

var scanREsCompiled = func() (out []*regexp.Regexp) {
	for _, s := range scanREs {
		out = append(out, regexp.MustCompile(s))
	}
	return
}()

func genScan(t *rapid.T) ScanCase {
	var c ScanCase
	pieces := []string{"a", "b", "ab", "\n", " ", "é", "1", "c\n\n", "\r\n", "\xff", "%s"}
	for i := rng(t, 1, 3, "sources"); i > 0; i-- {
		var sb strings.Builder
		for n := uni(t, 12, "length"); n > 0; n-- {
			sb.WriteString(pick(t, pieces, "piece"))
		}
		if len(c.Sources) > 0 && pct(t, 15, "same text") {
			c.Sources = append(c.Sources, c.Sources[0])
		} else {
			c.Sources = append(c.Sources, Bytes(sb.String()))
		}
		c.Files = append(c.Files, pick(t, []string{"", "", "f.txt", "g.txt"}, "file"))
	}
	ops := []string{"slice", "slice", "skip", "eat", "eat", "string", "string", "regexp", "regexp", "regexp", "merge", "merge", "contains", "at", "strip", "context", "context"}
	for i := rng(t, 1, 14, "ops"); i > 0; i-- {
		op := ScanOp{Op: pick(t, ops, "op"), X: uni(t, 100, "x"), A: uni(t, 1000, "a"), B: uni(t, 1000, "b")}
		switch op.Op {
		case "string":
			op.S = Bytes(pick(t, append([]string{"", "abc"}, pieces...), "string"))
		case "merge":
			for j := uni(t, 4, "merged"); j > 0; j-- {
				op.Others = append(op.Others, uni(t, 100, "other"))
			}
		case "regexp":
			op.NoMatch = pct(t, 20, "no match")
		}
		c.Ops = append(c.Ops, op)
	}
	return c
}

// mScanner is the model of a scanner: a range of a source of which the range [Keep0, Keep1) was kept.
type mScanner struct {
	src          int
	lo, hi       int
	keep0, keep1 int
	stripped     bool
}

func checkScan(c ScanCase, o *Obs) error {
	type pair struct {
		s *parser.Scanner
		m mScanner
	}
	var pool []*pair
	add := func(s *parser.Scanner, m mScanner) { pool = append(pool, &pair{s, m}) }
	for i, src := range c.Sources {
		if c.Files[i] != "" {
			add(parser.NewScannerWithFilename(string(src), c.Files[i]), mScanner{i, 0, len(src), 0, len(src), false})
		} else {
			add(parser.NewScanner(string(src)), mScanner{i, 0, len(src), 0, len(src), false})
		}
	}
	var log []string
	say := func(format string, args ...any) { log = append(log, fmt.Sprintf(format, args...)) }
	fail := func(format string, args ...any) error {
		return fmt.Errorf("sources %q %q\n%s\n%s", c.Sources, c.Files, strings.Join(log, "\n"), fmt.Sprintf(format, args...))
	}
	text := func(m mScanner) string { return string(c.Sources[m.src])[m.lo:m.hi] }
	// sameSource: a source is identified by its text and file name.
	sameSource := func(a, b mScanner) bool {
		if a.stripped != b.stripped {
			return false
		}
		if a.stripped {
			sa, sb := string(c.Sources[a.src]), string(c.Sources[b.src])
			la, ca := position(sa, a.keep0)
			lb, cb := position(sb, b.keep0)
			return c.Files[a.src] == c.Files[b.src] && a.keep0 == b.keep0 && sa[a.keep0:a.keep1] == sb[b.keep0:b.keep1] && la == lb && ca == cb
		}
		return c.Files[a.src] == c.Files[b.src] && string(c.Sources[a.src]) == string(c.Sources[b.src])
	}
	check := func(what string, s parser.Scanner, m mScanner) error {
		src := string(c.Sources[m.src])
		if got := s.String(); got != text(m) {
			return fail("%s has text %q, not %q", what, got, text(m))
		}
		if s.Offset() != m.lo || s.IsNil() {
			return fail("%s has offset %d, not %d", what, s.Offset(), m.lo)
		}
		line, col := s.Position()
		if wl, wc := position(src, m.lo); line != wl || col != wc {
			return fail("%s is at %d:%d, not %d:%d", what, line, col, wl, wc)
		}
		if s.Filename() != c.Files[m.src] {
			return fail("%s is of file %q", what, s.Filename())
		}
		if got := fmt.Sprintf("%v|%s|%q", s, s, s); got != fmt.Sprintf("%s|%[1]s|%[1]q", text(m)) {
			return fail("%s is formatted as %s", what, got)
		}
		if !s.Contains(s) {
			return fail("%s doesn't contain itself", what)
		}
		return nil
	}
	matched := 0
	for i, op := range c.Ops {
		p := pool[op.X%len(pool)]
		x := op.X % len(pool)
		n := p.m.hi - p.m.lo
		switch op.Op {
		case "slice":
			a := op.A % (n + 1)
			b := a + op.B%(n-a+1)
			say("#%d = #%d.Slice(%d, %d)", len(pool), x, a, b)
			m := p.m
			m.lo, m.hi = p.m.lo+a, p.m.lo+b
			add(p.s.Slice(a, b), m)
		case "skip":
			a := op.A % (n + 1)
			say("#%d = #%d.Skip(%d)", len(pool), x, a)
			m := p.m
			m.lo += a
			add(p.s.Skip(a), m)
		case "eat":
			a := op.A % (n + 1)
			say("#%d = what #%d.Eat(%d) eats", len(pool), x, a)
			var eaten parser.Scanner
			if got := p.s.Eat(a, &eaten); got != p.s {
				return fail("Eat returned another scanner")
			}
			m := p.m
			m.hi = m.lo + a
			p.m.lo += a
			add(&eaten, m)
		case "string":
			var eaten parser.Scanner
			want := strings.HasPrefix(text(p.m), string(op.S))
			say("#%d.EatString(%q)", x, op.S)
			if got := p.s.EatString(string(op.S), &eaten); got != want {
				return fail("EatString returned %v", got)
			}
			if want {
				matched++
				m := p.m
				m.hi = m.lo + len(op.S)
				p.m.lo = m.hi
				add(&eaten, m)
			} else if !eaten.IsNil() {
				return fail("EatString filled in %v", eaten)
			}
		case "regexp":
			re := scanREsCompiled[op.A%len(scanREs)]
			room := op.B % 5
			say("#%d.EatRegexp(%v) with room for %d captures", x, re, room)
			var match parser.Scanner
			mp := &match
			if op.NoMatch {
				mp = nil
			}
			captures := make([]parser.Scanner, room)
			loc := re.FindStringSubmatchIndex(text(p.m))
			count, ok := p.s.EatRegexp(re, mp, captures)
			if ok != (loc != nil) {
				return fail("EatRegexp returned %v", ok)
			}
			wantCount := 0
			if ok {
				wantCount = minInt(room, re.NumSubexp())
			}
			if count != wantCount {
				return fail("EatRegexp returned %d captures, not %d", count, wantCount)
			}
			if !ok {
				if !match.IsNil() {
					return fail("EatRegexp filled in %v", match)
				}
				break
			}
			matched++
			m := p.m
			m.hi = m.lo + loc[1]
			for j := 0; j < count; j++ {
				if loc[2*j+2] < 0 {
					if !captures[j].IsNil() {
						return fail("capture %d is %q at %d", j, captures[j].String(), captures[j].Offset())
					}
					continue
				}
				cm := p.m
				cm.lo, cm.hi = p.m.lo+loc[2*j+2], p.m.lo+loc[2*j+3]
				add(&captures[j], cm)
			}
			for j := count; j < room; j++ {
				if !captures[j].IsNil() {
					return fail("capture %d was set", j)
				}
			}
			p.m.lo += loc[1]
			if mp != nil {
				add(&match, m)
			}
		case "merge":
			var items []parser.Scanner
			var ms []mScanner
			for _, y := range op.Others {
				items = append(items, *pool[y%len(pool)].s)
				ms = append(ms, pool[y%len(pool)].m)
			}
			say("#%d = MergeScanners(%v)", len(pool), op.Others)
			got, err := parser.MergeScanners(items...)
			ok := len(ms) > 0
			for _, m := range ms {
				ok = ok && sameSource(m, ms[0])
			}
			if ok != (err == nil) {
				return fail("MergeScanners of %+v: error %v", ms, err)
			}
			if err != nil {
				_ = err.Error()
				if !got.IsNil() {
					return fail("MergeScanners failed and returned %v", got)
				}
				break
			}
			m := ms[0]
			for _, y := range ms {
				m.lo = minInt(m.lo, y.lo)
				m.hi = maxInt(m.hi, y.hi)
			}
			if len(ms) > 1 && m != ms[0] {
				o.Label("merged")
			}
			add(&got, m)
		case "contains":
			q := pool[op.A%len(pool)]
			want := sameSource(p.m, q.m) && p.m.lo <= q.m.lo && q.m.hi <= p.m.hi
			if got := p.s.Contains(*q.s); got != want {
				return fail("#%d.Contains(#%d) is %v", x, op.A%len(pool), got)
			}
			o.Label("contains: %v", want)
		case "at":
			src := op.A % len(c.Sources)
			if c.Files[src] != "" {
				break
			}
			text := string(c.Sources[src])
			lo := op.B % (len(text) + 1)
			size := op.X % (len(text) - lo + 1)
			say("#%d = NewScannerAt(%q, %d, %d)", len(pool), text, lo, size)
			add(parser.NewScannerAt(text, lo, size), mScanner{src, lo, lo + size, 0, len(text), false})
		case "strip":
			say("#%d = #%d.StripSource()", len(pool), x)
			s := p.s.StripSource()
			m := p.m
			m.keep0, m.keep1, m.stripped = m.lo, m.hi, true
			add(&s, m)
			o.Label("stripped")
		case "context":
			limit := op.A%4 - 1
			say("#%d.Context(%d)", x, limit)
			src := string(c.Sources[p.m.src])
			above, below := src[p.m.keep0:p.m.lo], src[p.m.hi:p.m.keep1]
			if limit >= 0 {
				// The lines in view are limited on either side. Above, these are whole lines; below, the rest of the current one counts.
				if a := strings.Split(above, "\n"); len(a) > limit {
					above = strings.Join(a[len(a)-limit-1:], "\n")
				}
				if b := strings.Split(below, "\n"); len(b) > limit {
					below = strings.Join(b[:limit], "\n")
				}
			}
			line, col := position(src, p.m.lo)
			want := fmt.Sprintf("\n\033[1;37m%s:%d:%d:\033[0m\n%s\033[1;31m%s\033[0m%s", c.Files[p.m.src], line, col, above, text(p.m), below)
			if got := p.s.Context(limit); got != want {
				return fail("the context is %q, not %q", got, want)
			}
		}
		for j, p := range pool {
			if err := check(fmt.Sprintf("after operation %d, #%d", i+1, j), *p.s, p.m); err != nil {
				return err
			}
		}
	}
	if matched > 0 && len(pool) >= len(c.Sources)+3 {
		o.NonTrivial()
	}
	return nil
}

func init() {
	register("C17", "A case is up to 3 sources and up to 14 operations on scanners of them, compared with a model of ranges after each step. It "+
		"is non-trivial if something was matched and at least 3 scanners were made.",
		opts{part: "scanners", quick: 300000, thorough: 20000000}, genScan, checkScan)
}
