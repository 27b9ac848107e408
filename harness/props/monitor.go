package props

import (
	"github.com/VolantMQ/vlapi/vlmonitoring"
	"vlverif/harness/sym"
)

// M01_counter: concurrent additions to a counter are all kept, and each caller learns a total.
func M01_counter() {
	var c vlmonitoring.Counter
	s := sym.U64("start")
	c.AddU64(s)
	n := sym.Bound("threads adding to a counter", 4, 5)
	add := make([]uint64, n)
	ret := make([]uint64, n)
	fs := make([]func(), n)
	total := s
	for i := range fs {
		i := i
		add[i] = sym.U64("add")
		total += add[i]
		fs[i] = func() { ret[i] = c.AddU64(add[i]) }
	}
	sym.Par(fs...)
	sym.Assert(c.Load() == total && c.Get() == total, "a counter loses an addition")
	last, first := false, false
	for i := range fs {
		last = sym.Or(last, ret[i] == total)
		first = sym.Or(first, ret[i] == s+add[i])
	}
	sym.Assert(sym.And(last, first), "an addition returns a total that never was")
	sym.Reach("added")
}

// M01_flow: both directions of a flow counter, from several threads.
func M01_flow() {
	var c vlmonitoring.FlowCounter
	n := sym.Bound("threads adding to a flow counter", 4, 5)
	var fs []func()
	var sent, recv uint64
	for i := 0; i < n; i++ {
		x := sym.U64("add")
		if sym.Choose("direction", 2) == 0 {
			sent += x
			fs = append(fs, func() { c.SentAddU64(x) })
		} else {
			recv += x
			fs = append(fs, func() { c.RecvAddU64(x) })
		}
	}
	sym.Par(fs...)
	sym.Assert(c.Sent.Load() == sent, "a sent counter is wrong")
	sym.Assert(c.Recv.Load() == recv, "a received counter is wrong")
	sym.Reach("added")
}

// M01_watch: whoever reads a counter sees a total of completed additions, and never a falling one.
func M01_watch() {
	var c vlmonitoring.Counter
	s, a, b := sym.U64("start"), sym.U64("a"), sym.U64("b")
	_ = sum(sum(s, a), b)
	c.AddU64(s)
	var v [2]uint64
	sym.Par(func() { c.AddU64(a) }, func() { c.AddU64(b) }, func() {
		v[0] = c.Load()
		v[1] = c.Load()
	})
	for _, x := range v {
		sym.Assert(sym.Or(x == s, x == s+a, x == s+b, x == s+a+b), "a counter shows a total that never was")
	}
	sym.Assert(v[0] <= v[1], "a counter falls")
	sym.Assert(c.Load() == s+a+b, "a counter loses an addition")
	sym.Reach("watched")
}

// sum is a+b; only values that do not exceed 64 bits are looked at.
func sum(a, b uint64) uint64 {
	sym.Assume(a+b >= a)
	return a + b
}

// M02_peak: concurrent additions to a gauge; the peak is the highest value.
func M02_peak() {
	var m vlmonitoring.Max
	s, p := sym.U64("start"), sym.U64("peak")
	_ = sum(s, p)
	m.AddU64(s)
	m.AddU64(p)
	m.SubU64(p) // value s, peak s+p
	n := sym.Bound("threads adding to a gauge", 2, 3)
	total := s
	var fs []func()
	for i := 0; i < n; i++ {
		x := sym.U64("add")
		total = sum(total, x)
		fs = append(fs, func() { m.AddU64(x) })
	}
	sym.Par(fs...)
	r := m.Load()
	sym.Assert(r.Get() == total, "a gauge loses an addition")
	want := s + p
	if total > want {
		want = total
		sym.Reach("new peak")
	} else {
		sym.Reach("old peak")
	}
	sym.Assert(r.Max == want, "the peak of a gauge is wrong")
}

// M02_updown: additions and subtractions at the same time.
func M02_updown() {
	var m vlmonitoring.Max
	s := sym.U64("start")
	m.AddU64(s)
	x, y, z := sym.U64("a"), sym.U64("b"), sym.U64("sub")
	sym.Assume(z <= s)
	_ = sum(sum(s, x), y)
	sym.Par(func() { m.AddU64(x) }, func() { m.AddU64(y) }, func() { m.SubU64(z) })
	r := m.Load()
	sym.Assert(r.Get() == s+x+y-z, "a gauge loses an update")
	sym.Assert(r.Max >= s && r.Max >= s+x-z && r.Max >= s+y-z && r.Max >= s+x+y-z, "the peak of a gauge is lost")
	sym.Assert(r.Max <= s+x+y, "the peak of a gauge was never reached")
	sym.Reach("updated")
}

// M02_watch: a value that some thread has read is no higher than the peak in the end.
func M02_watch() {
	var m vlmonitoring.Max
	s, x, z := sym.U64("start"), sym.U64("a"), sym.U64("sub")
	sym.Assume(z <= s)
	m.AddU64(s)
	var v uint64
	fs := []func(){
		func() { m.AddU64(x) },
		func() {
			r := m.Load()
			v = r.Get()
			m.SubU64(z)
		},
	}
	y := uint64(0)
	if sym.Choose("third thread", sym.Bound("threads besides one reader that subtracts", 1, 2)) == 1 {
		y = sym.U64("b")
		fs = append(fs, func() { m.AddU64(y) })
	}
	_ = sum(sum(s, x), y)
	sym.Par(fs...)
	r := m.Load()
	sym.Assert(r.Get() == s+x+y-z, "a gauge loses an update")
	sym.Assert(r.Max >= v, "the peak of a gauge is lower than a value it had")
	sym.Assert(r.Max <= s+x+y, "the peak of a gauge was never reached")
	sym.Reach("watched")
}

// M02_busy: an addition that meets many updates of another thread is not lost either.
func M02_busy() {
	var m vlmonitoring.Max
	m.AddU64(100)
	x := sym.U64("a")
	sym.Assume(sym.And(x >= 2, x <= 1000))
	var v uint64
	n := sym.Bound("updates of the busy thread", 3, 4)
	sym.Par(func() { m.AddU64(x) }, func() {
		m.AddU64(1)
		r := m.Load()
		v = r.Get()
		m.SubU64(90)
		for i := 1; i < n; i++ {
			m.AddU64(1)
		}
	})
	r := m.Load()
	sym.Assert(r.Get() == x+10+uint64(n), "a gauge loses an update")
	sym.Assert(r.Max >= v && r.Max >= x+10+uint64(n), "the peak of a gauge is lower than a value it had")
	sym.Assert(r.Max <= 101+x, "the peak of a gauge was never reached")
	sym.Reach("updated")
}

// M02_history: the value and the peak after any sequence of updates of one thread.
func M02_history() {
	var m vlmonitoring.Max
	n := sym.Bound("gauge updates", 4, 7)
	var val, peak uint64
	for i := 0; i < n; i++ {
		x := sym.U64("n")
		if sym.Choose("op", 2) == 0 {
			m.AddU64(x)
			val = sum(val, x)
			if val > peak {
				peak = val
			}
		} else {
			sym.Assume(x <= val)
			m.SubU64(x)
			val -= x
		}
		r := m.Load()
		sym.Assert(r.Get() == val && m.Get() == val, "the value of a gauge is wrong")
		sym.Assert(r.Max == peak && m.Max == peak, "the peak of a gauge is wrong")
	}
	sym.Reach("updated")
}

// M03_counter: a reader that takes differences while others add neither loses nor repeats anything.
func M03_counter() {
	var c, prev vlmonitoring.Counter
	a, b := sym.U64("a"), sym.U64("b")
	var seen uint64
	take := func() {
		d := c.Diff(&prev)
		seen += d.Load()
	}
	sym.Par(func() { c.AddU64(a); c.AddU64(b) }, func() { take(); take() })
	sym.Assert(seen == prev.Load(), "the differences taken do not add up to what was seen")
	take()
	sym.Assert(seen == a+b, "a difference is lost or counted twice")
	d := c.Diff(&prev)
	sym.Assert(d.Load() == 0, "a difference is taken twice")
	sym.Assert(c.Load() == a+b, "taking a difference changes the counter")
	sym.Reach("added")
}

// M03_flow: the same for flow counters.
func M03_flow() {
	var c, prev vlmonitoring.FlowCounter
	a, b := sym.U64("a"), sym.U64("b")
	var sent, recv uint64
	take := func() {
		d := c.Diff(&prev)
		sent += d.Sent.Load()
		recv += d.Recv.Load()
	}
	sym.Par(func() { c.SentAddU64(a); c.RecvAddU64(b) }, func() { take(); take() })
	take()
	sym.Assert(sent == a, "a sent difference is lost or counted twice")
	sym.Assert(recv == b, "a received difference is lost or counted twice")
	sym.Assert(c.Sent.Load() == a && c.Recv.Load() == b, "taking a difference changes the counter")
	sym.Reach("added")
}

// M03_history: differences of one thread, one by one.
func M03_history() {
	var c, prev vlmonitoring.Counter
	var last uint64
	for i := 0; i < sym.Bound("differences", 4, 8); i++ {
		x := sym.U64("n")
		c.AddU64(x)
		if sym.Choose("diff", 2) == 0 {
			d := c.Diff(&prev)
			sym.Assert(d.Load() == c.Load()-last, "a difference is wrong")
			last = c.Load()
		}
		sym.Assert(prev.Load() == last, "the last value taken is wrong")
	}
	sym.Reach("added")
}

// M03_flow_history: differences of a flow counter one by one, from arbitrary earlier states, wherever the counters stand.
func M03_flow_history() {
	var c, prev vlmonitoring.FlowCounter
	c.SentAddU64(sym.U64("sent"))
	c.RecvAddU64(sym.U64("recv"))
	if sym.Choose("snapshot", 2) == 0 {
		c.Diff(&prev)
	}
	lastS, lastR := prev.Sent.Load(), prev.Recv.Load()
	for i := 0; i < sym.Bound("differences of a flow counter", 3, 4); i++ {
		switch sym.Choose("added", 3) {
		case 0:
			c.SentAddU64(sym.U64("n"))
		case 1:
			c.RecvAddU64(sym.U64("n"))
		case 2:
			c.SentAddU64(sym.U64("n"))
			c.RecvAddU64(sym.U64("m"))
		}
		s, r := c.Sent.Load(), c.Recv.Load()
		d := c.Diff(&prev)
		sym.Assert(sym.And(d.Sent.Load() == s-lastS, d.Recv.Load() == r-lastR), "a difference is wrong")
		sym.Assert(sym.And(c.Sent.Load() == s, c.Recv.Load() == r), "taking a difference changes the counter")
		sym.Assert(sym.And(prev.Sent.Load() == s, prev.Recv.Load() == r), "the last value taken is wrong")
		lastS, lastR = s, r
	}
	sym.Reach("added")
}

// M04_fields: the counters of the statistics are separate.
func M04_fields() {
	var s vlmonitoring.Stats
	p := &s.Packets
	one := []*vlmonitoring.Counter{&p.Connect, &p.ConnAck, &p.Sub, &p.SubAck, &p.UnSub, &p.UnSubAck, &p.PingReq, &p.PingResp, &p.Unknown,
		&p.Rejected, &s.Clients.Expired, &s.Clients.Rejected}
	for _, f := range []*vlmonitoring.FlowCounter{&s.Bytes.FlowCounter, &p.Total, &p.Publish, &p.Puback, &p.Pubrec, &p.Pubrel, &p.Pubcomp, &p.Disconnect, &p.Auth} {
		one = append(one, &f.Sent, &f.Recv)
	}
	max := []*vlmonitoring.Max{&p.UnAckSent, &p.UnAckRecv, &p.Retained, &p.Stored, &s.Clients.Connected, &s.Clients.Persisted, &s.Clients.Total, &s.Subs.Total}
	w1 := make([]uint64, len(one))
	w2 := make([]uint64, len(max))
	for i := range one {
		w1[i] = sym.U64("n")
		one[i].AddU64(w1[i])
	}
	for i := range max {
		w2[i] = sym.U64("n")
		max[i].AddU64(w2[i])
	}
	for i := range one {
		sym.Assert(one[i].Load() == w1[i] && one[i].Get() == w1[i], "a counter of the statistics is wrong")
	}
	for i := range max {
		r := max[i].Load()
		sym.Assert(r.Get() == w2[i] && r.Max == w2[i], "a gauge of the statistics is wrong")
	}
	sym.Reach("added")
}

// M04_ops: several operations one after the other, on counters that already count.
func M04_ops() {
	var s vlmonitoring.Stats
	p := &s.Packets
	flows := []*vlmonitoring.FlowCounter{&s.Bytes.FlowCounter, &p.Total, &p.Publish, &p.Puback, &p.Pubrec, &p.Pubrel, &p.Pubcomp, &p.Disconnect, &p.Auth}
	ones := []*vlmonitoring.Counter{&p.Connect, &p.ConnAck, &p.Sub, &p.SubAck, &p.UnSub, &p.UnSubAck, &p.PingReq, &p.PingResp, &p.Unknown,
		&p.Rejected, &s.Clients.Expired, &s.Clients.Rejected}
	max := []*vlmonitoring.Max{&p.UnAckSent, &p.UnAckRecv, &p.Retained, &p.Stored, &s.Clients.Connected, &s.Clients.Persisted, &s.Clients.Total, &s.Subs.Total}
	var sent, recv, value, peak, one [12]uint64
	for i, f := range flows {
		sent[i], recv[i] = sym.U64("start"), sym.U64("start")
		sym.Assert(f.SentAddU64(sent[i]) == sent[i] && f.RecvAddU64(recv[i]) == recv[i], "a sum is wrong")
	}
	for i, c := range ones {
		one[i] = sym.U64("start")
		sym.Assert(c.AddU64(one[i]) == one[i], "a sum is wrong")
	}
	n := sym.Bound("operations", 2, 3)
	a := sym.Choose("counter", len(flows))
	b := (a + 1) % len(max)
	for i, m := range max {
		value[i] = uint64(i) + 1
		if i == b {
			value[i] = sym.U64("start")
		}
		m.AddU64(value[i])
		peak[i] = value[i]
	}
	prev := vlmonitoring.FlowCounter{}
	var ps, pr uint64
	for i := 0; i < n; i++ {
		x := sym.U64("n")
		switch sym.Choose("operation", 6) {
		case 0:
			sent[a] += x
			sym.Assert(flows[a].SentAddU64(x) == sent[a], "a sum is wrong")
		case 1:
			recv[a] += x
			sym.Assert(flows[a].RecvAddU64(x) == recv[a], "a sum is wrong")
		case 2:
			one[a] += x
			sym.Assert(ones[a].AddU64(x) == one[a], "a sum is wrong")
		case 3:
			max[b].AddU64(x)
			value[b] += x
			if value[b] > peak[b] {
				peak[b] = value[b]
			}
		case 4:
			max[b].SubU64(x)
			value[b] -= x
		default:
			d := flows[a].Diff(&prev)
			sym.Assert(d.Sent.Get() == sent[a]-ps && d.Recv.Get() == recv[a]-pr, "a difference is wrong")
			ps, pr = sent[a], recv[a]
		}
		for i, f := range flows {
			sym.Assert(sym.And(f.Sent.Load() == sent[i], f.Recv.Load() == recv[i]), "a counter of the statistics is wrong")
		}
		for i, c := range ones {
			sym.Assert(c.Load() == one[i], "a counter of the statistics is wrong")
		}
		for i, m := range max {
			r := m.Load()
			sym.Assert(sym.And(r.Get() == value[i], r.Max == peak[i]), "a gauge of the statistics is wrong")
		}
	}
	sym.Reach("counted")
}
