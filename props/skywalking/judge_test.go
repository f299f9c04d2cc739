package skywalking

import (
	"fmt"
	"maps"
	"regexp"
	"slices"
	"sort"
	"strings"
	"testing"

	"gearsverif/pbt"

	"github.com/SkyAPM/go2sky"
	"github.com/SkyAPM/go2sky/propagation"
)

func part(name, rule string, judge func(o *pbt.Outcome, plain, traced *world)) pbt.Part[tCase] {
	return pbt.Part[tCase]{
		Name: name, Rule: rule, Quick: 6000, Deep: 60000, Bubble: true, Leave: true, Gen: genTraffic,
		Run: func(c tCase) (o pbt.Outcome) {
			plain, traced := newWorld(&c, false), newWorld(&c, true)
			if traced.problem != "" {
				o.Fail("%s", traced.problem)
				return
			}
			plain.run()
			traced.t0 = ms()
			traced.run()
			for _, w := range []*world{plain, traced} {
				if w.problem != "" {
					o.Fail("%s", w.problem)
					return
				}
			}
			judge(&o, plain, traced)
			ops := 0
			for _, r := range c.Reqs {
				ops += len(r.Ops)
				o.LabelIf(r.Parallel && len(r.Ops) > 1, "parallel operations")
				o.LabelIf(r.Sw8 == "valid", "continued trace")
				o.LabelIf(r.Sw8 != "" && !validSw8(r.Sw8), "malformed header")
				o.LabelIf(r.How != "body", r.How)
			}
			o.Label("mode " + c.Mode)
			o.LabelIf(len(traced.wants) > 0, "spans")
			o.LabelIf(c.Addr == "", "no Redis span possible")
			o.Nontrivial = ops > 0
			return
		},
	}
}

const traffic = "an application with one to four overlapping web requests, each with up to five operations (Redis commands, pipelines and transactions, outgoing requests to a downstream application), run as written and again with tracing in some mode, on a fake clock; "

func TestC32(t *testing.T) {
	pbt.Run(t, "C32", part("transparency", traffic+"answers, results, errors, downstream requests and times must be the same; non-trivial with at least one operation", judgeTransparency))
}

func TestC33(t *testing.T) {
	pbt.Run(t, "C33", part("spans", traffic+"the spans reported must be exactly those the traffic calls for (type, name, peer, tags, failure, parent, times); non-trivial with at least one operation", judgeSpans))
	pbt.Run(t, "C33", pbt.Part[cCase]{
		Name: "collector", Quick: 240, Deep: 4000, Gen: genCollector, Run: runCollector,
		Rule: "one to three applications with generated configurations (with a collector, one that refuses connections, none, no configuration) and up to five web requests each; a SkyWalking server must receive exactly the spans of those configured with it, under their service and instance; non-trivial with two spans",
	})
}

func TestC34(t *testing.T) {
	pbt.Run(t, "C34", part("contents", traffic+"every argument, body and error text carries a marker that is searched in all spans; non-trivial with at least one operation", judgeContents))
}

func judgeTransparency(o *pbt.Outcome, plain, traced *world) {
	for id := range plain.c.Reqs {
		if plain.runs[id] != traced.runs[id] {
			o.Fail("request %d: handler ran %d times with tracing, %d without", id, traced.runs[id], plain.runs[id])
		}
	}
	var keys []string
	for k := range plain.results {
		keys = append(keys, k)
	}
	for k := range traced.results {
		if _, ok := plain.results[k]; !ok {
			keys = append(keys, k)
		}
	}
	sort.Strings(keys)
	for _, k := range keys {
		if p, q := plain.results[k], traced.results[k]; p != q {
			o.Fail("%s: with tracing\n  %s\nwithout\n  %s", k, q, p)
			return
		}
	}
	if traced.rep == nil {
		return
	}
	ends := map[string]int64{}
	for _, e := range traced.wants {
		if e.Kind == "local" || e.Kind == "entry" {
			ends[e.Key] = e.End
		}
	}
	for _, s := range traced.rep.spans {
		if end, ok := ends[known(s)]; ok && s.EndTime() < end {
			o.Fail("%s was ended by another, %dms before its own end", known(s), end-s.EndTime())
			return
		}
	}
}

type spanID struct {
	seg string
	id  int32
}

func tagsOf(s go2sky.ReportedSpan) map[string]string {
	m := map[string]string{}
	for _, kv := range s.Tags() {
		if _, ok := m[kv.Key]; ok {
			m[kv.Key] += " AND " + kv.Value
			continue
		}
		m[kv.Key] = kv.Value
	}
	return m
}

var idOf = regexp.MustCompile(`\?id=(\d+)$`)
var keyOf = regexp.MustCompile(`\?key=op(\d+\.\d+)$`)

// known names a span whose identity can be read off it.
func known(s go2sky.ReportedSpan) string {
	url := tagsOf(s)["url"]
	entry := s.SpanType() == 0
	if m := idOf.FindStringSubmatch(url); m != nil && entry {
		return "entry" + m[1]
	}
	if m := keyOf.FindStringSubmatch(url); m != nil {
		if entry {
			return "down op " + m[1]
		}
		return "op " + m[1]
	}
	if strings.HasPrefix(s.OperationName(), "outer") {
		return s.OperationName()
	}
	return ""
}

type index struct {
	by map[spanID]go2sky.ReportedSpan
}

func (x index) parent(s go2sky.ReportedSpan) string {
	p := ""
	c := s.Context()
	if c.ParentSpanID >= 0 {
		up, ok := x.by[spanID{c.ParentSegmentID, c.ParentSpanID}]
		if !ok {
			return "a span never reported"
		}
		if up.Context().TraceID != c.TraceID {
			return "a span of another trace"
		}
		if p = known(up); p == "" {
			p = "R|" + up.OperationName() + "|" + up.Peer() + "|" + x.parent(up)
		}
	}
	for _, ref := range s.Refs() {
		if ref.TraceID == refTrace && ref.ParentSegmentID == refSegment && ref.ParentSpanID == 5 {
			p += "ref"
			if c.ParentSpanID < 0 && c.TraceID != refTrace {
				p += " in another trace"
			}
			continue
		}
		up, ok := x.by[spanID{ref.ParentSegmentID, ref.ParentSpanID}]
		if !ok || up.Context().TraceID != ref.TraceID || c.TraceID != ref.TraceID {
			p += "unknown caller"
			continue
		}
		p += "sent:" + known(up)
	}
	return p
}

func line(kind, op, peer string, tags map[string]string, failed bool, start, end int64, parent string) string {
	var ts []string
	for k, v := range tags {
		ts = append(ts, k+"="+v)
	}
	sort.Strings(ts)
	return fmt.Sprintf("%s %q peer=%q %q failed=%v %d-%d of %q", kind, op, peer, ts, failed, start, end, parent)
}

func judgeSpans(o *pbt.Outcome, _, w *world) {
	t0 := w.t0
	x := index{map[spanID]go2sky.ReportedSpan{}}
	for _, s := range w.rep.spans {
		id := spanID{s.Context().SegmentID, s.Context().SpanID}
		if x.by[id] != nil {
			o.Fail("span reported twice: %s", s.OperationName())
			return
		}
		x.by[id] = s
	}
	noStatus := map[string]bool{}
	var want, got []string
	for _, e := range w.wants {
		kind := map[string]string{"entry": "entry", "local": "local"}[e.Kind]
		if kind == "" {
			kind = "exit"
		}
		if _, ok := e.Tags["status_code"]; !ok {
			noStatus[e.Key] = e.Kind == "entry"
		}
		want = append(want, line(kind, e.Op, e.Peer, e.Tags, e.Failed, e.Start-t0, e.End-t0, e.Parent))
	}
	clients := map[string]go2sky.ReportedSpan{}
	for _, s := range w.rep.spans {
		tags := tagsOf(s)
		delete(tags, "db.statement") // judged with the contents
		k := known(s)
		if noStatus[k] {
			delete(tags, "status_code")
		}
		kind := map[int32]string{0: "entry", 1: "exit", 2: "local"}[int32(s.SpanType())]
		got = append(got, line(kind, s.OperationName(), s.Peer(), tags, s.IsError(), s.StartTime()-t0, s.EndTime()-t0, x.parent(s)))
		if kind == "exit" && k != "" {
			clients[k] = s
		}
	}
	sort.Strings(want)
	sort.Strings(got)
	if !slices.Equal(want, got) {
		missing, extra := minus(want, got), minus(got, want)
		o.Fail("%d spans reported, %d called for\nmissing: %s\nextra: %s", len(got), len(want), first(missing), first(extra))
		return
	}
	for key, s := range clients {
		h, ok := w.sw8[key]
		if !ok {
			continue // never reached the other side
		}
		var sc propagation.SpanContext
		if err := sc.DecodeSW8(h); err != nil {
			o.Fail("%s: injected %q: %v", key, h, err)
			return
		}
		c := s.Context()
		if sc.TraceID != c.TraceID || sc.ParentSegmentID != c.SegmentID || sc.ParentSpanID != c.SpanID || sc.AddressUsedAtClient != s.Peer() ||
			sc.ParentService != w.rep.service || sc.ParentServiceInstance != w.rep.instance || sc.Sample != 1 {
			o.Fail("%s: the injected context %+v does not name the sending span", key, sc)
			return
		}
		var id, i int
		fmt.Sscanf(key, "op %d.%d", &id, &i)
		parent, _ := w.entryOf(id)
		if r := w.c.Reqs[id]; strings.HasPrefix(parent, "entry") && r.Ops[i].Ctx == "request" && !r.Local && validSw8(r.Sw8) && strings.HasPrefix(r.Corr, "YQ==") {
			// what came with the context goes on with it
			sc.DecodeSW8Correlation(w.corr[key])
			got := sc.CorrelationContext
			sc.DecodeSW8Correlation(r.Corr)
			if !maps.Equal(got, sc.CorrelationContext) {
				o.Fail("%s: the incoming context carried %v, the outgoing one %v", key, sc.CorrelationContext, got)
				return
			}
		}
	}
	if w.c.Mode == "on" {
		if s := w.c.Space + "::" + w.c.Name; w.rep.service != s {
			o.Fail("reported as service %q, configured %q", w.rep.service, s)
		}
		if w.c.Instance != "" && w.rep.instance != w.c.Instance {
			o.Fail("reported as instance %q, configured %q", w.rep.instance, w.c.Instance)
		}
	}
}

func minus(a, b []string) (out []string) {
	left := map[string]int{}
	for _, s := range b {
		left[s]++
	}
	for _, s := range a {
		if left[s]--; left[s] < 0 {
			out = append(out, s)
		}
	}
	return
}

func first(s []string) string {
	if len(s) == 0 {
		return "none"
	}
	return s[0]
}

var marker = regexp.MustCompile(`q\d+z`)

func judgeContents(o *pbt.Outcome, _, w *world) {
	byKey := map[string]want{}
	var redis []want
	var all []string
	for _, e := range w.wants {
		if e.Kind == "redis" {
			redis = append(redis, e)
		} else {
			byKey[e.Key] = e
		}
		all = append(all, e.May...)
	}
	check := func(s go2sky.ReportedSpan, may []string) bool {
		allowed := map[string]bool{}
		for _, m := range may {
			for _, k := range marker.FindAllString(m, -1) {
				allowed[k] = true
			}
		}
		ts, _ := texts(s)
		for _, text := range ts {
			for _, k := range marker.FindAllString(text, -1) {
				if !allowed[k] {
					return false
				}
			}
		}
		return true
	}
	complete := func(s go2sky.ReportedSpan, e want) string {
		_, logs := texts(s)
		for _, m := range e.Must {
			if !strings.Contains(logs, m) {
				return m
			}
		}
		st := tagsOf(s)["db.statement"]
		if e.Kind == "redis" {
			if !w.c.RArgs {
				if st != e.Op {
					return "statement " + e.Op
				}
				return ""
			}
			for _, m := range e.Statement {
				if !strings.Contains(strings.ToLower(st), strings.ToLower(m)) {
					return m
				}
			}
		}
		return ""
	}
	var exits []go2sky.ReportedSpan
	for _, s := range w.rep.spans {
		k := known(s)
		e, ok := byKey[k]
		switch {
		case ok:
			if !check(s, e.May) {
				ts, _ := texts(s)
				o.Fail("%s: span contains what no option asked for: %q", k, ts)
				return
			}
			if m := complete(s, e); m != "" {
				ts, _ := texts(s)
				o.Fail("%s: span should contain %q, it has %q", k, m, ts)
				return
			}
		case k == "":
			exits = append(exits, s)
		default:
			if !check(s, all) {
				o.Fail("%s: unexpected span with contents", k)
				return
			}
		}
	}
	// Redis spans are told apart by name, peer and time, then by what they contain.
	type group struct {
		op, peer string
		start    int64
	}
	wants, spans := map[group][]want{}, map[group][]go2sky.ReportedSpan{}
	for _, e := range redis {
		g := group{e.Op, e.Peer, e.Start}
		wants[g] = append(wants[g], e)
	}
	for _, s := range exits {
		g := group{s.OperationName(), s.Peer(), s.StartTime()}
		spans[g] = append(spans[g], s)
	}
	for g, ss := range spans {
		ws := wants[g]
		if len(ws) != len(ss) {
			for _, s := range ss {
				if !check(s, all) {
					o.Fail("unexpected span %q with contents", s.OperationName())
					return
				}
			}
			continue
		}
		fits := func(s go2sky.ReportedSpan, e want) bool { return check(s, e.May) && complete(s, e) == "" }
		if !matching(len(ss), func(i, j int) bool { return fits(ss[i], ws[j]) }) {
			ts, _ := texts(ss[0])
			o.Fail("Redis span %q contains too much or too little: %q (args %v, errors %v; arguments %q, errors %q)", g.op, ts, w.c.RArgs, w.c.RLogError, ws[0].Statement, ws[0].Must)
			return
		}
	}
}

// matching says whether n spans and n expectations fit pairwise.
func matching(n int, fits func(i, j int) bool) bool {
	to := make([]int, n)
	for j := range to {
		to[j] = -1
	}
	var try func(i int, seen []bool) bool
	try = func(i int, seen []bool) bool {
		for j := range n {
			if !seen[j] && fits(i, j) {
				seen[j] = true
				if to[j] < 0 || try(to[j], seen) {
					to[j] = i
					return true
				}
			}
		}
		return false
	}
	for i := range n {
		if !try(i, make([]bool, n)) {
			return false
		}
	}
	return true
}
