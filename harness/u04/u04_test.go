// Package u04 decides property U04: identity mapping is a canonical form.
package u04

import (
	"strings"
	"testing"

	"verif/vt"

	"github.com/mutecomm/mute/uid/identity"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) { vt.Main(m) }

// canonicalLocal is the documented form of a mapped local part.
func canonicalLocal(lp string) bool {
	if len(lp) < 3 || len(lp) > 64 {
		return false
	}
	for i := 0; i < len(lp); i++ {
		b := lp[i]
		switch {
		case b >= 'a' && b <= 'z' && b != 'j', b >= '2' && b <= '9':
		case b == '-' || b == '.':
			if i == 0 || i == len(lp)-1 || lp[i-1] == '-' || lp[i-1] == '.' {
				return false
			}
		default:
			return false
		}
	}
	return true
}

func canonical(id string) bool {
	p := strings.Split(id, "@")
	return len(p) == 2 && len(id) <= identity.MaxLen && canonicalLocal(p[0]) && strings.ToLower(p[1]) == p[1]
}

// refLocal maps a local part consisting of ASCII only.
func refLocal(lp string) (string, bool) {
	lp = strings.Trim(lp, " \t\n\r\v\f")
	var b []byte
	for i := 0; i < len(lp); i++ {
		c := lp[i]
		if c >= 'A' && c <= 'Z' {
			c += 'a' - 'A'
		}
		switch c {
		case '0':
			c = 'o'
		case '1':
			c = 'l'
		case 'j':
			c = 'i'
		}
		b = append(b, c)
	}
	return string(b), canonicalLocal(string(b))
}

func ascii(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] >= 0x80 {
			return false
		}
	}
	return true
}

var chunk = rapid.OneOf(
	rapid.StringMatching(`[a-zA-Z0-9]{1,8}`),
	rapid.StringMatching(`[a-z2-9]{1,30}`),
	rapid.SampledFrom([]string{"-", ".", "--", "..", "-.", ".-", "@", "@@", " ", "\t", "\n", "0", "1", "j", "J", "I", "l", "O", "é", "K", "ſ", "İ", "Ⱥ", "\xff", "\x00", "+", "_", "\u00a0", "ß"}),
	rapid.StringN(0, 4, 12),
)

func part(rt *rapid.T, label string) string {
	s := strings.Join(rapid.SliceOfN(chunk, 0, 8).Draw(rt, label), "")
	switch rapid.IntRange(0, 9).Draw(rt, label+"len") {
	case 0: // around a length limit
		n := rapid.SampledFrom([]int{2, 3, 63, 64, 65, 180, 189, 190, 250, 253, 254, 255}).Draw(rt, label+"n")
		if len(s) == 0 {
			s = "a"
		}
		s = strings.Repeat(s, n/len(s)+1)[:n]
	case 1:
		s = " " + s + " "
	}
	return s
}

func wellformed(rt *rapid.T, label string) string {
	lp := rapid.StringMatching(`[a-zA-Z0-9]{1,4}([-.]?[a-zA-Z0-9]{1,8}){1,5}`).Draw(rt, label+"lp")
	return lp + "@" + rapid.StringMatching(`[a-zA-Z0-9-]{1,10}(\.[A-Za-z0-9]{1,6}){0,3}`).Draw(rt, label+"dom")
}

func gen(rt *rapid.T, label string) string {
	switch rapid.IntRange(0, 5).Draw(rt, label+"kind") {
	case 0:
		return rapid.String().Draw(rt, label)
	case 1, 2:
		return part(rt, label+"l") + "@" + part(rt, label+"d")
	case 3: // exactly around the total limit
		s := wellformed(rt, label)
		n := identity.MaxLen + rapid.IntRange(-3, 3).Draw(rt, label+"d") - len(s)
		if n > 0 {
			c := rapid.SampledFrom([]string{"x", "X", "Ⱥ", "\xff", "É"}).Draw(rt, label+"fill")
			s += strings.Repeat(c, n/len(c))
			s += strings.Repeat("y", identity.MaxLen-min(identity.MaxLen, len(s)))
		}
		return s
	}
	return wellformed(rt, label)
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

// TestMap: the result of Map, MapPlus, IsMapped and MapLocalpart on one string.
func TestMap(t *testing.T) {
	vt.Check(t, "strings from arbitrary text, well- and ill-formed identities around all limits; oracle: independent canonical-form predicate and ASCII reference mapping; non-trivial: mapping succeeded or exactly one '@'", 40000, 2000000, func(rt *rapid.T, c *vt.Case) {
		s := gen(rt, "s")
		var m string
		var err error
		if p := vt.Try(func() { m, err = identity.Map(s) }); p != "" {
			rt.Fatalf("Map(%q): %s", s, p)
		}
		m2, dom, err2 := identity.MapPlus(s)
		if (err == nil) != (err2 == nil) || err == nil && (m2 != m || dom != m[strings.Index(m, "@")+1:]) {
			rt.Fatalf("Map(%q) = %q, %v but MapPlus = %q, %q, %v", s, m, err, m2, dom, err2)
		}
		isErr := identity.IsMapped(s)
		if (isErr == nil) != (err == nil && m == s) {
			rt.Fatalf("IsMapped(%q) = %v, Map = %q, %v", s, isErr, m, err)
		}
		if (isErr == nil) != canonical(s) {
			rt.Fatalf("IsMapped(%q) = %v, but canonical form is %v", s, isErr, canonical(s))
		}
		if strings.Count(s, "@") == 1 {
			c.NonTrivial(s)
			i := strings.Index(s, "@")
			if ascii(s) && len(s) <= identity.MaxLen {
				lp, ok := refLocal(s[:i])
				if ok != (err == nil) || ok && m != lp+"@"+strings.ToLower(s[i+1:]) {
					rt.Fatalf("Map(%q) = %q, %v; reference %q, %v", s, m, err, lp, ok)
				}
				got, errL := identity.MapLocalpart(s[:i])
				if ok != (errL == nil) || ok && got != lp {
					rt.Fatalf("MapLocalpart(%q) = %q, %v; reference %q %v", s[:i], got, errL, lp, ok)
				}
			}
			l, d, errS := identity.Split(s)
			if errS != nil || l != s[:i] || d != s[i+1:] {
				rt.Fatalf("Split(%q) = %q, %q, %v", s, l, d, errS)
			}
		} else {
			if err == nil {
				rt.Fatalf("Map(%q) = %q without exactly one '@'", s, m)
			}
			if _, _, e := identity.Split(s); e == nil {
				rt.Fatalf("Split(%q) succeeded", s)
			}
		}
		if err != nil {
			c.Label("refused")
			if m != "" {
				rt.Fatalf("Map(%q) failed with result %q", s, m)
			}
			return
		}
		c.Label("mapped")
		c.NonTrivial(s)
		if !canonical(m) {
			rt.Fatalf("Map(%q) = %q is not canonical", s, m)
		}
		again, err := identity.Map(m)
		if err != nil || again != m {
			rt.Fatalf("Map(%q) = %q, mapped again %q, %v", s, m, again, err)
		}
		if identity.IsMapped(m) != nil {
			rt.Fatalf("result %q not reported as mapped", m)
		}
		c.Sample("%.80q -> %.80q", s, m)
	})
}

// TestEquivalence: identities map together exactly when they differ only in
// case, surrounding spaces of the local part and look-alike characters.
func TestEquivalence(t *testing.T) {
	fold := func(s string) string {
		i := strings.Index(s, "@")
		lp, _ := refLocal(s[:i])
		return lp + "@" + strings.ToLower(s[i+1:])
	}
	vt.Check(t, "well-formed identity and a variant: look-alikes, case and spaces changed (must map together), or one character changed otherwise (must not); non-trivial: both map", 20000, 500000, func(rt *rapid.T, c *vt.Case) {
		a := wellformed(rt, "a")
		b := []byte(a)
		at := strings.Index(a, "@")
		n := rapid.IntRange(0, 5).Draw(rt, "edits")
		for k := 0; k < n; k++ {
			i := rapid.IntRange(0, len(b)-1).Draw(rt, "pos")
			if b[i] == '@' {
				continue
			}
			switch rapid.IntRange(0, 3).Draw(rt, "edit") {
			case 0: // case
				if b[i]|0x20 >= 'a' && b[i]|0x20 <= 'z' {
					b[i] ^= 0x20
				}
			case 1, 2: // look-alike
				if i < at {
					switch b[i] | 0x20 {
					case 'o':
						b[i] = '0'
					case 'l':
						b[i] = '1'
					case 'i':
						b[i] = 'J'
					case 'j':
						b[i] = 'i'
					}
					switch b[i] {
					case '0':
						b[i] = 'o'
					case '1':
						b[i] = 'L'
					}
				}
			case 3:
				if rapid.IntRange(0, 3).Draw(rt, "real") == 0 {
					b[i] = rapid.SampledFrom([]byte("abjiolOL012-.xyzXYZ")).Draw(rt, "char")
				}
			}
		}
		s := string(b)
		if rapid.IntRange(0, 4).Draw(rt, "space") == 0 {
			s = " " + s[:at] + "\t" + s[at:]
		}
		ma, ea := identity.Map(a)
		ms, es := identity.Map(s)
		if ea != nil || es != nil {
			return
		}
		if (ma == ms) != (fold(a) == fold(s)) {
			rt.Fatalf("%q -> %q, %q -> %q", a, ma, s, ms)
		}
		c.Label("together=%v", ma == ms)
		if s != a {
			c.NonTrivial(a, s)
		}
		c.Sample("%q %q -> %q %q", a, s, ma, ms)
	})
}
