package s06

import (
	"sync"
	"testing"
	"time"

	"verif/vt"

	"github.com/mutecomm/mute/serviceguard/client"
	"pgregory.net/rapid"
)

// within fails if f does not end.
func within(rt *rapid.T, d time.Duration, what string, f func()) {
	done := make(chan string, 1)
	go func() { done <- vt.Try(f) }()
	select {
	case p := <-done:
		if p != "" {
			rt.Fatalf("%s: %s", what, p)
		}
	case <-time.After(d):
		rt.Fatalf("%s does not end", what)
	}
}

// until waits for a condition.
func until(rt *rapid.T, what string, f func() bool) {
	for end := time.Now().Add(60 * time.Second); time.Now().Before(end); time.Sleep(20 * time.Millisecond) {
		if f() {
			return
		}
	}
	rt.Fatalf("the runner never %s", what)
}

// TestRunner lets the background runner complete what was interrupted, renew
// what expires and fill the wallet, and stops and starts it.
func TestRunner(t *testing.T) {
	vt.Check(t, "the runner had interrupted or expiring tokens to care for", 2, 60, func(rt *rapid.T, c *vt.Case) {
		w := newWorld(rt)
		defer func() {
			done := make(chan bool)
			go func() { w.c.StopRunner(); w.close(); close(done) }()
			select {
			case <-done:
			case <-time.After(30 * time.Second): // a case that failed before
			}
		}()
		// tokens that expire soon
		soon := rapid.IntRange(0, 2).Draw(rt, "expiring")
		for i := range w.s.keys {
			w.s.keys[i] = w.s.issuers[i].NewKey(usageOf(i), 3*86400)
			w.s.all = append(w.s.all, w.s.keys[i])
		}
		for i := 0; i < soon; i++ {
			w.run("WalletToken", func() { w.c.WalletToken(rapid.SampledFrom(usages).Draw(rt, "usage"), nil) })
			w.audit("WalletToken", true, nil)
		}
		for i := range w.s.keys {
			w.s.rotate(i)
		}
		// interrupted reissues
		stuck := rapid.IntRange(0, 2).Draw(rt, "interrupted")
		for i := 0; i < stuck; i++ {
			o := w.owners[i].Pub
			w.s.faults = []fault{{at: "ServiceGuard.Reissue", kind: rapid.SampledFrom([]string{"before", "after"}).Draw(rt, "drop")}}
			w.run("WalletToken", func() { w.c.WalletToken(rapid.SampledFrom(usages).Draw(rt, "usage"), o) })
			w.audit("WalletToken", true, o)
			w.s.faults = nil
		}
		u, u2 := rapid.SampledFrom(usages).Draw(rt, "usage"), rapid.SampledFrom(usages).Draw(rt, "usage2")
		o, o2 := w.owners[0].Pub, w.owners[1].Pub
		high := int64(rapid.IntRange(1, 4).Draw(rt, "high"))
		target := func(n int64) {
			within(rt, 30*time.Second, "SetTarget", func() {
				w.c.SetTarget(map[[32]byte]client.Target{*o: {Usage: u, LowWaterMark: n, HighWaterMark: n}, *o2: {Usage: u2, LowWaterMark: 1, HighWaterMark: n}})
			})
		}
		filled := func(n int64) bool { return w.c.GetBalance(u, o) >= n && w.c.GetBalance(u2, o2) >= 1 }
		w.s.mu.Lock()
		w.s.faults = rapid.SliceOfN(rapid.Custom(drawFault), 0, 4).Draw(rt, "faults")
		for i := range w.s.faults {
			w.s.faults[i].at = ""
			if k := w.s.faults[i].kind; k == "error" || k == "error after" || k == "wrong" {
				w.s.faults[i].kind = "before"
			}
		}
		w.s.mu.Unlock()
		target(high)
		w.c.Runner()
		mode := rapid.SampledFrom([]string{"twice", "restarted", "both", "plain"}).Draw(rt, "mode")
		if mode == "twice" || mode == "both" {
			time.Sleep(20 * time.Millisecond)
			w.c.Runner()
			time.Sleep(20 * time.Millisecond)
			target(high)
		}
		until(rt, "completed interrupted reissues", func() bool { return w.store.Storage.GetInReissue() == nil })
		until(rt, "filled the wallet", func() bool { return filled(high) })
		until(rt, "renewed expiring tokens", func() bool { return w.store.Storage.GetExpire() == nil })
		restarts := 0
		if mode == "restarted" || mode == "both" {
			restarts = 1
		}
		for i := 0; i < restarts; i++ {
			within(rt, 30*time.Second, "StopRunner", w.c.StopRunner)
			time.Sleep(4 * time.Second)
			high += int64(i) + 1
			target(high)
			time.Sleep(3500 * time.Millisecond)
			if filled(high) {
				rt.Fatalf("the runner was stopped but fills the wallet")
			}
			w.c.Runner()
			until(rt, "worked again", func() bool { return filled(high) })
		}
		within(rt, 60*time.Second, "GoOffline", w.c.GoOffline)
		time.Sleep(4 * time.Second)
		w.s.mu.Lock()
		n := w.s.requests
		w.s.mu.Unlock()
		target(high + 5)
		time.Sleep(500 * time.Millisecond)
		w.s.mu.Lock()
		if w.s.requests != n {
			w.s.mu.Unlock()
			rt.Fatalf("%d requests while offline", w.s.requests-n)
		}
		w.s.mu.Unlock()
		w.anyOwner = true
		w.audit("the runner", true, nil)
		w.anyOwner = false
		w.recover()
		c.Label("expiring %d, interrupted %d, restarts %d", soon, stuck, restarts)
		if soon+stuck > 0 {
			c.NonTrivial(soon, stuck, high, u, u2)
		}
	})
}

// TestConcurrent gets tokens at the same time.
func TestConcurrent(t *testing.T) {
	vt.Check(t, "tokens were fetched at the same time", 60, 2000, func(rt *rapid.T, c *vt.Case) {
		w := newWorld(rt)
		defer func() { w.close() }()
		u, o := rapid.SampledFrom(usages).Draw(rt, "usage"), w.owners[0].Pub
		stock := rapid.IntRange(0, 6).Draw(rt, "stock")
		for i := 0; i < stock; i++ {
			to := o
			if rapid.IntRange(0, 3).Draw(rt, "own") == 0 {
				to = nil
			}
			w.run("WalletToken", func() { w.c.WalletToken(u, to) })
			w.audit("WalletToken", true, to)
		}
		n := rapid.IntRange(2, 6).Draw(rt, "clients")
		w.s.funds = 0 // calls of the wallet server do not overlap
		var wg sync.WaitGroup
		toks, errs := make([]*client.TokenEntry, n), make([]error, n)
		w.run("GetToken", func() {
			start := make(chan bool)
			for i := 0; i < n; i++ {
				i := i
				wg.Add(1)
				go func() {
					defer wg.Done()
					<-start
					toks[i], errs[i] = w.c.GetToken(u, o)
				}()
			}
			close(start)
			wg.Wait()
		})
		got := 0
		for i := range toks {
			switch {
			case errs[i] == nil && toks[i] == nil:
				rt.Fatalf("GetToken returned nothing")
			case errs[i] == nil:
				if w.isOut(toks[i].Hash) {
					rt.Fatalf("token %x was handed out twice", toks[i].Hash)
				}
				w.out[string(toks[i].Hash)] = true
				got++
			default:
				w.s.requests = 0
				w.c.LastError = errStore
				w.classified("GetToken", errs[i])
			}
		}
		if stock > 0 && got == 0 {
			rt.Fatalf("%d tokens in the wallet, nobody got one: %v", stock, errs)
		}
		w.audit("GetToken", true, o)
		for i := range toks {
			if errs[i] == nil {
				w.genuine("GetToken", toks[i].Hash, u, o)
			}
		}
		w.recover()
		if got > 1 {
			c.NonTrivial(stock, n, got, u)
		}
		c.Label("%d of %d", got, n)
	})
}
