// Package f01 decides property F01: signed configuration maps verify only for
// exactly their content and are never rolled back.
package f01

import (
	"crypto/ed25519"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"reflect"
	"testing"
	"time"

	"verif/vt"

	"github.com/mutecomm/mute/configclient/sortedmap"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) { vt.Main(m) }

var (
	words = []string{"", "a", "b", "ab", "ba", "abc", "\x00", "\x00\x00\x00\x00\x00\x00\x00\x01", "CACertHash", "mixclient.Sender", "ü", "日本", "\"", "\n", "aa", "1", "a\x00b", "\U0001F600"}
	text  = rapid.Custom(func(t *rapid.T) string {
		switch rapid.IntRange(0, 3).Draw(t, "textkind") {
		case 0, 1:
			return rapid.SampledFrom(words).Draw(t, "word")
		case 2:
			return rapid.StringN(0, 12, 40).Draw(t, "string")
		}
		return string(vt.Expand(rapid.IntRange(0, 600).Draw(t, "len"), rapid.Uint32().Draw(t, "seed"), 1))
	})
	// raw is text that need not be UTF-8
	raw = rapid.Custom(func(t *rapid.T) string {
		if rapid.IntRange(0, 4).Draw(t, "rawkind") == 0 {
			return string(rapid.SliceOfN(rapid.Byte(), 0, 20).Draw(t, "bytes"))
		}
		return text.Draw(t, "text")
	})
)

func drawMap(t *rapid.T, s *rapid.Generator[string]) sortedmap.StringMap {
	return sortedmap.StringMap(rapid.MapOfN(s, s, 0, 8).Draw(t, "map"))
}

// change returns a different map.
func change(t *rapid.T, in sortedmap.StringMap, s *rapid.Generator[string]) (sortedmap.StringMap, string) {
	for {
		out := sortedmap.StringMap{}
		for k, v := range in {
			out[k] = v
		}
		sorted := in.Sort()
		pick := func(l string) sortedmap.StringStruct { return sorted[vt.Uniform(t, len(sorted), l)] }
		kind := rapid.SampledFrom([]string{"add", "remove", "value", "key", "swap", "border", "neighbour", "glue", "other"}).Draw(t, "change")
		if len(in) == 0 && kind != "other" {
			kind = "add"
		}
		switch kind {
		case "add":
			out[s.Draw(t, "key")] = s.Draw(t, "val")
		case "remove":
			delete(out, pick("which").K)
		case "value":
			e := pick("which")
			b, _ := vt.Mutation(t, []byte(e.V), "value")
			out[e.K] = string(b)
		case "key":
			e := pick("which")
			b, _ := vt.Mutation(t, []byte(e.K), "key")
			delete(out, e.K)
			out[string(b)] = e.V
		case "swap": // values of two keys
			a, b := pick("a"), pick("b")
			out[a.K], out[b.K] = b.V, a.V
		case "border": // bytes move between key and value
			e := pick("which")
			all := e.K + e.V
			n := rapid.IntRange(0, len(all)).Draw(t, "border")
			delete(out, e.K)
			out[all[:n]] = all[n:]
		case "neighbour": // bytes move from a value to the next key
			if len(sorted) > 1 {
				i := vt.Uniform(t, len(sorted)-1, "which")
				a, b := sorted[i], sorted[i+1]
				all := a.V + b.K
				n := rapid.IntRange(0, len(all)).Draw(t, "border")
				delete(out, b.K)
				out[a.K] = all[:n]
				out[all[n:]] = b.V
			}
		case "glue": // one entry instead of two
			if len(sorted) > 1 {
				i := vt.Uniform(t, len(sorted)-1, "which")
				a, b := sorted[i], sorted[i+1]
				delete(out, b.K)
				out[a.K] = a.V + b.K + b.V
			}
		case "other":
			out = drawMap(t, s)
		}
		if len(in) != len(out) || !same(in, out) {
			return out, kind
		}
	}
}

func same(a, b sortedmap.StringMap) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if w, ok := b[k]; !ok || v != w {
			return false
		}
	}
	return true
}

// signer is a key pair.
type signer struct {
	pub  []byte
	priv [ed25519.PrivateKeySize]byte
}

func newSigner(seed uint64) *signer {
	s := new(signer)
	pub, priv, err := ed25519.GenerateKey(vt.NewDetRand(seed))
	vt.InfraIf(err)
	s.pub = pub
	copy(s.priv[:], priv)
	return s
}

// TestVerify signs maps and verifies what was signed and what was not.
func TestVerify(t *testing.T) {
	vt.Check(t, "the map verified differs from the signed one", 3000, 200000, func(rt *rapid.T, c *vt.Case) {
		trusted, other := newSigner(1), newSigner(2)
		m := drawMap(rt, raw)
		date := rapid.Uint64().Draw(rt, "date")
		sorted := m.Sort()
		if !same(sorted.ToMap(), m) || len(sorted) != len(m) {
			rt.Fatalf("%q sorted is %q", m, sorted)
		}
		for i := 1; i < len(sorted); i++ {
			if sorted[i-1].K >= sorted[i].K {
				rt.Fatalf("not sorted: %q", sorted)
			}
		}
		sig := append([]byte{}, sorted.Sign(date, &trusted.priv)...)
		// the order of insertion does not matter
		again := sortedmap.StringMap{}
		for i := len(sorted) - 1; i >= 0; i-- {
			again[sorted[i].K] = sorted[i].V
		}
		if !again.Sort().Verify(date, trusted.pub, sig) {
			rt.Fatalf("the signature of %q does not verify", m)
		}
		// a signature of something else
		pub, what := trusted.pub, ""
		m2, date2, sig2 := m, date, sig
		switch kind := rapid.IntRange(0, 10).Draw(rt, "what"); {
		case kind < 5:
			m2, what = change(rt, m, raw)
		case kind == 5:
			date2, what = rapid.Uint64().Draw(rt, "date2"), "date"
			if rapid.Bool().Draw(rt, "bit") {
				date2 = date ^ 1<<uint(rapid.IntRange(0, 63).Draw(rt, "bit"))
			}
			if date2 == date {
				return
			}
		case kind == 6:
			sig2, what = vt.Mutation(rt, sig, "sig")
		case kind == 7:
			pub, what = other.pub, "another key"
		case kind == 8:
			sig2, what = m.Sort().Sign(date, &other.priv), "signature by another key"
		case kind == 10: // other things signed by the key
			what = "signature of something else"
			image := m.Sort().Image()
			var be [8]byte
			binary.BigEndian.PutUint64(be[:], date)
			sig2 = ed25519.Sign(trusted.priv[:], rapid.SampledFrom([][]byte{image, be[:], nil, append(be[:], image...), image[:32], append(image[:len(image):len(image)], be[:4]...), append(append(image[:len(image):len(image)], be[:]...), 0)}).Draw(rt, "else"))
		case kind == 9:
			what = "key of another length"
			switch rapid.IntRange(0, 2).Draw(rt, "length") {
			case 0:
				pub = trusted.pub[:rapid.IntRange(0, 31).Draw(rt, "keep")]
			case 1:
				pub = append(append([]byte{}, trusted.pub...), rapid.SliceOfN(rapid.Byte(), 1, 10).Draw(rt, "more")...)
			default: // no key: forged for a key of small order
				pub = nil
				sig2 = make([]byte, 64)
				if rapid.Bool().Draw(rt, "one") {
					sig2[0] = 1
				}
			}
		}
		ok := false
		if p := vt.Try(func() { ok = m2.Sort().Verify(date2, pub, sig2) }); p != "" {
			rt.Fatalf("%s: %s", what, p)
		}
		if ok {
			rt.Fatalf("signature of %q, date %d verifies for %q, date %d (%s)", m, date, m2, date2, what)
		}
		c.Label("%s", what)
		c.NonTrivial(m, m2, date, date2, what)
	})
}

// TestSwallow verifies maps in which a value swallows the encoding of the
// entries after it, which is distinguished by all bytes of the lengths only.
func TestSwallow(t *testing.T) {
	vt.Check(t, "a value contains the encoding of the following entries", 200, 5000, func(rt *rapid.T, c *vt.Case) {
		trusted := newSigner(1)
		m := sortedmap.StringMap(rapid.MapOfN(raw, raw, 2, 6).Draw(rt, "map"))
		sorted := m.Sort()
		// the last entry makes the encoding swallowed a multiple of this long
		mod := rapid.SampledFrom([]int{1, 1, 128, 256, 256, 1024, 65536}).Draw(rt, "mod")
		first := rapid.IntRange(0, len(sorted)-2).Draw(rt, "first")
		width := rapid.SampledFrom([]int{8, 8, 8, 4, 2, 1}).Draw(rt, "width")
		lens := func(s string) string {
			var be [8]byte
			binary.BigEndian.PutUint64(be[:], uint64(len(s)))
			return string(be[8-width:]) + s
		}
		enc := ""
		for _, e := range sorted[first+1:] {
			enc += lens(e.K) + lens(e.V)
		}
		pad := (mod - len(enc)%mod) % mod
		last := sorted[len(sorted)-1].K
		m[last] += string(vt.Expand(pad, rapid.Uint32().Draw(rt, "pad"), 1))
		sorted = m.Sort()
		swallowed := sortedmap.StringMap{}
		for _, e := range sorted[:first+1] {
			swallowed[e.K] = e.V
		}
		v := swallowed[sorted[first].K]
		for _, e := range sorted[first+1:] {
			v += lens(e.K) + lens(e.V)
		}
		swallowed[sorted[first].K] = v
		sig := append([]byte{}, sorted.Sign(7, &trusted.priv)...)
		if !sorted.Verify(7, trusted.pub, sig) {
			rt.Fatalf("the signature of %q does not verify", m)
		}
		if swallowed.Sort().Verify(7, trusted.pub, sig) {
			rt.Fatalf("the signature of %q verifies for %q", m, swallowed)
		}
		sig = append(sig[:0:0], swallowed.Sort().Sign(7, &trusted.priv)...)
		if sorted.Verify(7, trusted.pub, sig) {
			rt.Fatalf("the signature of %q verifies for %q", swallowed, m)
		}
		c.Label("mod %d, width %d", mod, width)
		c.NonTrivial(m, first, width)
	})
}

// signed is something the trusted key signed.
type signed struct {
	m    sortedmap.StringMap
	date uint64
}

// offsets of signing times that are fresh, and that are not
var (
	freshAge = []int64{0, 0, 1, 10, 600, 3600, 3601, 7200, 14000, 14390, -10, -600, -14000}
	staleAge = []int64{14410, 20000, 86400, 82800, 1 << 31, 1 << 40, -14500, -86400, -1 << 33}
)

// TestOffers offers sequences of certificates to a client that holds one.
func TestOffers(t *testing.T) {
	vt.Check(t, "a certificate was offered that must be refused while one was held", 1200, 60000, func(rt *rapid.T, c *vt.Case) {
		trusted, other := newSigner(1), newSigner(2)
		now := uint64(time.Now().Unix())
		var all []signed
		var last uint64
		n := rapid.IntRange(1, 8).Draw(rt, "offers")
		held, refused := 0, 0
		var key []string
		for i := 0; i < n; i++ {
			m := drawMap(rt, text)
			kind := rapid.SampledFrom([]string{"good", "good", "good", "generated", "same date", "older", "stale", "other key", "unsigned", "altered map", "altered date", "mixed", "mutated", "garbage", "duplicate"}).Draw(rt, "kind")
			age := rapid.SampledFrom(freshAge).Draw(rt, "age")
			date := now - uint64(age)
			by, want := trusted, true
			switch kind {
			case "same date":
				if last > 0 {
					date = last
				}
			case "older":
				if last > 0 {
					date = last - uint64(rapid.IntRange(1, 100).Draw(rt, "older"))
				}
			case "stale":
				date = now - uint64(rapid.SampledFrom(staleAge).Draw(rt, "age"))
				want = false
			case "other key":
				by, want = other, false
			}
			sm := &sortedmap.SignedMap{Config: m, SignDate: date}
			sm.Signature = append([]byte{}, m.Sort().Sign(date, &by.priv)...)
			if by == trusted {
				all = append(all, signed{m, date})
			}
			switch kind {
			case "unsigned":
				sm.Signature = nil
			case "altered map":
				sm.Config, _ = change(rt, m, text)
			case "altered date":
				sm.SignDate = now - uint64(rapid.SampledFrom(freshAge).Draw(rt, "age2"))
			case "mixed": // entries of several certificates
				merged := sortedmap.StringMap{}
				for _, s := range all {
					for k, v := range s.m {
						merged[k] = v
					}
				}
				sm.Config = merged
			}
			cert, err := sm.Marshal()
			vt.InfraIf(err)
			if kind == "generated" {
				date = uint64(time.Now().Unix())
				if cert, err = m.GenerateCertificate(&trusted.priv); err != nil {
					rt.Fatalf("GenerateCertificate(%q): %s", m, err)
				}
				g, err := sortedmap.Unmarshal(cert)
				if err != nil || g.SignDate-date > 5 {
					rt.Fatalf("GenerateCertificate(%q): %s", m, cert)
				}
				date = g.SignDate
				all = append(all, signed{m, date})
				sm = g
			}
			desc := kind
			switch kind {
			case "mutated":
				var d string
				cert, d = vt.MutateJSON(rt, cert, "cert")
				desc += " " + d
			case "garbage":
				cert, _ = vt.Mutation(rt, cert, "cert")
			case "duplicate": // a second map in the same document
				more, _ := json.Marshal(drawMap(rt, text))
				name := rapid.SampledFrom([]string{"Config", "config", "CONFIG"}).Draw(rt, "name")
				if rapid.Bool().Draw(rt, "front") {
					cert = []byte(fmt.Sprintf("{%q:%s,%s", name, more, cert[1:]))
				} else {
					cert = []byte(fmt.Sprintf("%s,%q:%s}", cert[:len(cert)-1], name, more))
				}
			}
			var got *sortedmap.SignedMap
			if p := vt.Try(func() { got, err = sortedmap.Certify(last, trusted.pub, cert) }); p != "" {
				rt.Fatalf("Certify(%s): %s", desc, p)
			}
			if err != nil {
				exact := kind != "mutated" && kind != "garbage" && kind != "duplicate"
				if want && exact && same(sm.Config, m) && sm.SignDate == date && date >= last && sm.Signature != nil {
					rt.Fatalf("%s certificate of %d (last %d, now %d) refused: %s\n%s", kind, date, last, now, err, cert)
				}
				refused++
				key = append(key, "no "+desc)
				continue
			}
			if got == nil {
				rt.Fatalf("Certify returned nothing")
			}
			if !isSigned(all, got.Config, got.SignDate) {
				rt.Fatalf("%s: accepted what nobody signed: %q of %d\n%s", desc, got.Config, got.SignDate, cert)
			}
			if got.SignDate < last {
				rt.Fatalf("%s: accepted a certificate of %d after one of %d", desc, got.SignDate, last)
			}
			if age := int64(now) - int64(got.SignDate); age > 14400 || age < -14410 {
				rt.Fatalf("%s: accepted a certificate of %d seconds ago", desc, age)
			}
			if !want {
				rt.Fatalf("%s: accepted", desc)
			}
			// what was accepted can be passed on
			enc, err := got.Marshal()
			if err != nil {
				rt.Fatal(err)
			}
			re, err := sortedmap.Certify(last, trusted.pub, enc)
			if err != nil || !reflect.DeepEqual(re, got) {
				rt.Fatalf("accepted certificate %q does not certify again: %v", got.Config, err)
			}
			last = got.SignDate
			held++
			key = append(key, desc)
		}
		if held > 0 && refused > 0 {
			c.NonTrivial(key)
		}
		c.Label("held %d", held)
	})
}

func isSigned(all []signed, m sortedmap.StringMap, date uint64) bool {
	for _, s := range all {
		if s.date == date && same(s.m, m) {
			return true
		}
	}
	return false
}
