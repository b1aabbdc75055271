// Package p04 decides property P04: the text editor buffer keeps the text and
// its coordinates consistent.
package p04

import (
	"bytes"
	"errors"
	"fmt"
	"strings"
	"testing"
	"unicode/utf8"

	"verif/vt"

	"github.com/gdamore/tcell"
	"github.com/gdamore/tcell/views"
	"github.com/mattn/go-runewidth"
	"github.com/mutecomm/mute/tui/editor"
	"github.com/mutecomm/mute/tui/textbuffer"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) { vt.Main(m) }

var alphabet = []rune("ab z\t\r\x00\x1b\x7f\u00adäß\u0301\u0308\u20dd\u200b\u200d\ufeff世界한ａ\U0001F600\U0001F468\u2028\u00a0¡┃\ufffd\U0010ffff\u0e33")

var text = rapid.Custom(func(t *rapid.T) string {
	var b strings.Builder
	n := rapid.IntRange(0, 7).Draw(t, "lines")
	for i := 0; i <= n; i++ {
		if i > 0 {
			b.WriteByte('\n')
		}
		switch rapid.IntRange(0, 4).Draw(t, "linekind") {
		case 0:
		case 1:
			b.WriteString(strings.Replace(rapid.StringN(0, 15, 60).Draw(t, "line"), "\n", "", -1))
		case 2:
			b.WriteString(rapid.StringMatching(`[ -~]{0,30}`).Draw(t, "ascii"))
		default:
			b.WriteString(rapid.StringOfN(rapid.RuneFrom(alphabet), 0, 15, -1).Draw(t, "mixed"))
		}
	}
	s := b.String()
	if rapid.IntRange(0, 9).Draw(t, "raw") == 0 { // not UTF-8
		m, _ := vt.Mutation(t, []byte(s), "raw")
		s = string(m)
	}
	return s
})

// refCell is a cell of the reference layout.
type refCell struct {
	char  []rune
	width int
	index int // of the character
}

type refLine struct {
	runes []rune
	chars [][]rune
	cells []refCell
}

// layout is the reference layout: every rune of width 0 belongs to the
// character before it, a line never starts with one (a space is put in front).
func layout(s string) (lines []refLine) {
	for _, l := range strings.Split(s, "\n") {
		var rl refLine
		for i, r := range []rune(l) {
			if runewidth.RuneWidth(r) == 0 {
				if i == 0 {
					rl.chars = append(rl.chars, []rune{' '})
				}
				rl.chars[len(rl.chars)-1] = append(rl.chars[len(rl.chars)-1], r)
			} else {
				rl.chars = append(rl.chars, []rune{r})
			}
		}
		for i, c := range rl.chars {
			rl.runes = append(rl.runes, c...)
			if w := runewidth.RuneWidth(c[0]); w == 2 {
				rl.cells = append(rl.cells, refCell{c, 2, i}, refCell{c, 0, i})
			} else {
				rl.cells = append(rl.cells, refCell{c, 1, i})
			}
		}
		lines = append(lines, rl)
	}
	return
}

func plain(lines []refLine) string {
	var l []string
	for _, x := range lines {
		l = append(l, string(x.runes))
	}
	return strings.Join(l, "\n")
}

func maxCells(lines []refLine) (max int) {
	for _, l := range lines {
		if len(l.cells) > max {
			max = len(l.cells)
		}
	}
	return
}

var coordinate = rapid.OneOf(rapid.IntRange(-3, 40), rapid.SampledFrom([]int{-1, -1 << 31, 1<<31 - 1, -1 << 63, 1<<63 - 1, 1 << 20}))

// TestBuffer compares the buffer with the reference layout.
func TestBuffer(t *testing.T) {
	vt.Check(t, "there are wide or combining characters", 5000, 400000, func(rt *rapid.T, c *vt.Case) {
		s := text.Draw(rt, "text")
		in := []byte(s)
		var tb *textbuffer.TextBuffer
		if p := vt.Try(func() { tb = textbuffer.New(in) }); p != "" {
			rt.Fatalf("New(%q): %s", s, p)
		}
		for i := range in {
			in[i] = 'x' // the buffer does not depend on the slice any more
		}
		ref := layout(s)
		var out bytes.Buffer
		if err := tb.Write(&out); err != nil {
			rt.Fatal(err)
		}
		if want := plain(ref); out.String() != want {
			rt.Fatalf("text %q is read back as %q, not %q", s, out.String(), want)
		}
		if valid := utf8.ValidString(s); valid && plain(ref) != s {
			rest := strings.Split(s, "\n")
			for i, l := range strings.Split(out.String(), "\n") {
				if l != rest[i] && l != " "+rest[i] {
					rt.Fatalf("line %q is read back as %q", rest[i], l)
				}
			}
		}
		if tb.Lines() != len(ref) || tb.MaxLineLenCell() != maxCells(ref) {
			rt.Fatalf("%q: %d lines of up to %d cells, not %d of %d", s, tb.Lines(), tb.MaxLineLenCell(), len(ref), maxCells(ref))
		}
		check := func(x, y int) {
			if p := vt.Try(func() {
				var l refLine
				if y >= 0 && y < len(ref) {
					l = ref[y]
				}
				if a, b, d := tb.LineLenRune(y), tb.LineLenChar(y), tb.LineLenCell(y); a != len(l.runes) || b != len(l.chars) || d != len(l.cells) {
					rt.Fatalf("%q: line %d has %d runes, %d characters and %d cells, not %d, %d and %d", s, y, a, b, d, len(l.runes), len(l.chars), len(l.cells))
				}
				r := utf8.RuneError
				if x >= 0 && x < len(l.runes) {
					r = l.runes[x]
				}
				if got := tb.GetRune(x, y); got != r {
					rt.Fatalf("%q: rune %d of line %d is %q, not %q", s, x, y, got, r)
				}
				var ch []rune
				if x >= 0 && x < len(l.chars) {
					ch = l.chars[x]
				}
				if got := tb.GetChar(x, y); string(got) != string(ch) {
					rt.Fatalf("%q: character %d of line %d is %q, not %q", s, x, y, string(got), string(ch))
				}
				var ce refCell
				if x >= 0 && x < len(l.cells) {
					ce = l.cells[x]
				}
				if got, w := tb.GetCell(x, y); string(got) != string(ce.char) || w != ce.width {
					rt.Fatalf("%q: cell %d of line %d is %q of width %d, not %q of %d", s, x, y, string(got), w, string(ce.char), ce.width)
				}
			}); p != "" {
				rt.Fatalf("%q at %d, %d: %s", s, x, y, p)
			}
		}
		for y := -1; y <= len(ref); y++ {
			for x := -1; x <= maxCells(ref)+2; x++ {
				check(x, y)
			}
		}
		check(coordinate.Draw(rt, "x"), coordinate.Draw(rt, "y"))
		// writing fails
		if n := out.Len(); n > 0 {
			if err := tb.Write(&limited{vt.Uniform(rt, n, "fail")}); err == nil {
				rt.Fatalf("%q: writing failed unnoticed", s)
			}
		}
		wide, comb := false, false
		for _, l := range ref {
			wide = wide || len(l.cells) != len(l.chars)
			comb = comb || len(l.runes) != len(l.chars)
		}
		if wide || comb {
			c.NonTrivial(s)
		}
		c.Label("wide %v, combining %v", wide, comb)
	})
}

type limited struct{ n int }

func (l *limited) Write(p []byte) (int, error) {
	if l.n -= len(p); l.n < 0 {
		return 0, errors.New("injected")
	}
	return len(p), nil
}

// screen is the view the editor draws on.
type screen struct {
	w, h  int
	cells map[[2]int]string
	bad   string
}

func (s *screen) SetContent(x, y int, ch rune, comb []rune, style tcell.Style) {
	if x < 0 || y < 0 || x >= s.w || y >= s.h {
		s.bad = fmt.Sprintf("content at %d, %d", x, y)
		return
	}
	_, _, attr := style.Decompose()
	s.cells[[2]int{x, y}] = content(string(append([]rune{ch}, comb...)), attr&tcell.AttrReverse != 0)
}

func content(s string, cursor bool) string {
	if cursor {
		return s + "\x00cursor"
	}
	return s
}

func (s *screen) Size() (int, int)      { return s.w, s.h }
func (s *screen) Resize(x, y, w, h int) {}
func (s *screen) Clear()                { s.Fill(' ', tcell.StyleDefault) }
func (s *screen) Fill(r rune, st tcell.Style) {
	for y := 0; y < s.h; y++ {
		for x := 0; x < s.w; x++ {
			s.SetContent(x, y, r, nil, st)
		}
	}
}

// watcher counts cursor events.
type watcher struct {
	n    int
	last [2]int
}

func (w *watcher) HandleEvent(ev tcell.Event) bool {
	if ev, ok := ev.(*editor.CursorEvent); ok {
		w.n++
		x, y := ev.Widget().(*editor.Editor).GetCursor()
		w.last = [2]int{x, y}
		return true
	}
	return false
}

var _ views.View = &screen{}

// key is a key the editor knows.
type key struct {
	k tcell.Key
	r rune
}

var keys = []key{{tcell.KeyUp, 0}, {tcell.KeyDown, 0}, {tcell.KeyLeft, 0}, {tcell.KeyRight, 0}, {tcell.KeyPgUp, 0}, {tcell.KeyPgDn, 0}, {tcell.KeyHome, 0}, {tcell.KeyEnd, 0},
	{tcell.KeyCtrlP, 0}, {tcell.KeyCtrlN, 0}, {tcell.KeyCtrlF, 0}, {tcell.KeyCtrlB, 0},
	{tcell.KeyRune, 'g'}, {tcell.KeyRune, 'k'}, {tcell.KeyRune, 'j'}, {tcell.KeyRune, 'l'}, {tcell.KeyRune, 'h'}, {tcell.KeyRune, ' '}}

// TestEditor moves the cursor and scrolls.
func TestEditor(t *testing.T) {
	vt.CheckSteps(t, "the text is larger than the screen and the cursor moved", 800, 50000, 25, func(rt *rapid.T, c *vt.Case) {
		e := editor.New()
		w := &watcher{}
		e.Watch(w)
		var sc *screen
		s := ""
		ref := layout(s)
		enabled, hidden := false, false
		x, y := 0, 0 // reference cursor
		width, height := 0, 0
		moved, larger := false, false
		var hist []string
		limit := func() {
			max := func(v, n int) int {
				if v > n-1 {
					v = n - 1
				}
				if v < 0 {
					v = 0
				}
				return v
			}
			x, y = max(x, width), max(y, height)
		}
		try := func(what string, f func()) {
			hist = append(hist, what)
			if p := vt.Try(f); p != "" {
				rt.Fatalf("%q: %s: %s", s, strings.Join(hist, ", "), p)
			}
		}
		must := false // the cursor has to be visible
		rt.Repeat(map[string]func(*rapid.T){
			"content": func(rt *rapid.T) {
				s = text.Draw(rt, "text")
				ref = layout(s)
				width, height = maxCells(ref), len(ref)
				try(fmt.Sprintf("text %q", s), func() { e.SetContent([]byte(s)) })
				limit()
				must = false
			},
			"view": func(rt *rapid.T) {
				sc = &screen{w: rapid.IntRange(1, 12).Draw(rt, "w"), h: rapid.IntRange(1, 5).Draw(rt, "h"), cells: map[[2]int]string{}}
				try(fmt.Sprintf("view of %d, %d", sc.w, sc.h), func() { e.SetView(sc) })
				must = enabled
			},
			"resize": func(rt *rapid.T) {
				if sc == nil {
					return
				}
				sc.w, sc.h = rapid.IntRange(1, 12).Draw(rt, "w"), rapid.IntRange(1, 5).Draw(rt, "h")
				sc.cells = map[[2]int]string{}
				try(fmt.Sprintf("resize to %d, %d", sc.w, sc.h), func() { e.Resize() })
				must = enabled
			},
			"cursor": func(rt *rapid.T) {
				enabled, hidden = rapid.IntRange(0, 3).Draw(rt, "enabled") > 0, rapid.IntRange(0, 5).Draw(rt, "hidden") == 0
				try(fmt.Sprintf("enable %v, hide %v", enabled, hidden), func() {
					e.EnableCursor(enabled)
					e.HideCursor(hidden)
					e.MakeCursorVisible()
				})
				must = enabled
			},
			"set": func(rt *rapid.T) {
				x, y = coordinate.Draw(rt, "x"), coordinate.Draw(rt, "y")
				n := w.n
				try(fmt.Sprintf("set %d, %d", x, y), func() { e.SetCursor(x, y) })
				limit()
				if w.n == n || w.last != [2]int{x, y} {
					rt.Fatalf("%q: %s: %d events, last %v", s, strings.Join(hist, ", "), w.n-n, w.last)
				}
				must = false
			},
			"key": func(rt *rapid.T) {
				k := rapid.SampledFrom(keys).Draw(rt, "key")
				dy := 0
				if sc != nil {
					dy = sc.h
				}
				handled := false
				try(fmt.Sprintf("key %v %q", k.k, k.r), func() { handled = e.HandleEvent(tcell.NewEventKey(k.k, k.r, 0)) })
				if !handled {
					rt.Fatalf("key %v not handled", k)
				}
				if !enabled {
					return
				}
				ox, oy := x, y
				switch {
				case k.k == tcell.KeyUp, k.k == tcell.KeyCtrlP, k.r == 'k':
					y--
				case k.k == tcell.KeyDown, k.k == tcell.KeyCtrlN, k.r == 'j':
					y++
				case k.k == tcell.KeyLeft, k.k == tcell.KeyCtrlB, k.r == 'h':
					x--
				case k.k == tcell.KeyRight, k.k == tcell.KeyCtrlF, k.r == 'l':
					x++
				case k.k == tcell.KeyPgUp:
					y -= dy
				case k.k == tcell.KeyPgDn, k.r == ' ':
					y += dy
				case k.k == tcell.KeyHome, k.r == 'g':
					x, y = 0, 0
				case k.k == tcell.KeyEnd:
					x, y = width, height
				}
				limit()
				moved = moved || x != ox || y != oy
				must = true
			},
			"": func(rt *rapid.T) {
				if gx, gy := e.GetCursor(); gx != x || gy != y {
					rt.Fatalf("%q: %s: cursor at %d, %d, not %d, %d", s, strings.Join(hist, ", "), gx, gy, x, y)
				}
				if sc == nil {
					try("draw", e.Draw)
					hist = hist[:len(hist)-1]
					return
				}
				try("draw", e.Draw)
				hist = hist[:len(hist)-1]
				if sc.bad != "" {
					rt.Fatalf("%q: %s: %s", s, strings.Join(hist, ", "), sc.bad)
				}
				larger = larger || width > sc.w || height > sc.h
				// some part of the text is shown
				for oy := 0; oy == 0 || oy <= height-sc.h; oy++ {
					for ox := 0; ox == 0 || ox <= width-sc.w; ox++ {
						if must && (x < ox || x >= ox+sc.w || y < oy || y >= oy+sc.h) {
							continue
						}
						if shows(sc, ref, ox, oy, x, y, enabled && !hidden) {
							return
						}
					}
				}
				rt.Fatalf("%q: %s: screen of %d, %d shows %q (cursor %d, %d)", s, strings.Join(hist, ", "), sc.w, sc.h, sc.cells, x, y)
			},
		})
		if moved && larger {
			c.NonTrivial(hist)
		}
		c.Label("moved %v, larger %v", moved, larger)
	})
}

// shows tells whether the screen shows the text from a position on.
func shows(sc *screen, ref []refLine, ox, oy, cx, cy int, cursor bool) bool {
	for sy := 0; sy < sc.h; sy++ {
		for sx := 0; sx < sc.w; sx++ {
			x, y := ox+sx, oy+sy
			want := " "
			at := cursor && x == cx && y == cy
			if y < len(ref) && x < len(ref[y].cells) {
				switch ce := ref[y].cells[x]; ce.width {
				case 0: // second half: not drawn
					at = false
				default:
					want = string(ce.char)
				}
			}
			if sc.cells[[2]int{sx, sy}] != content(want, at) {
				return false
			}
		}
	}
	return true
}
