// Package p01 decides property P01: composed mail messages parse back.
package p01

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"io/ioutil"
	"mime"
	"path/filepath"
	"reflect"
	"strings"
	"testing"
	"unicode/utf8"

	"verif/vt"

	ctrlmail "github.com/mutecomm/mute/ctrlengine/mail"
	mutemime "github.com/mutecomm/mute/msg/mime"
	"github.com/mutecomm/mute/msg/msgid"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) { vt.Main(m) }

var names = []string{"alice@mute.berlin", "bob@mute.one", "carol.long-name@example.org", "dan@a.b", "eve-2@sub.domain.mute.one"}

func header(t *rapid.T) mutemime.Header {
	h := mutemime.Header{From: rapid.SampledFrom(names).Draw(t, "from"), To: rapid.SampledFrom(names).Draw(t, "to")}
	id := func() string {
		s, err := msgid.Generate(h.From, vt.NewDetRand(uint64(rapid.Uint32().Draw(t, "id"))))
		vt.InfraIf(err)
		return s
	}
	h.MessageID = id()
	if rapid.Bool().Draw(t, "reply") {
		h.InReplyTo = id()
	}
	switch rapid.IntRange(0, 5).Draw(t, "cc") {
	case 0:
		h.Cc = []string{}
	case 1, 2:
		h.Cc = rapid.SliceOfN(rapid.SampledFrom(names), 1, 4).Draw(t, "ccs")
	case 3:
		h.Cc = rapid.SliceOfN(rapid.SampledFrom(names), 40, 80).Draw(t, "ccs")
	}
	return h
}

// line is a line of text without a line break.
var line = rapid.Custom(func(t *rapid.T) string {
	switch rapid.IntRange(0, 6).Draw(t, "line") {
	case 0:
		return rapid.SampledFrom([]string{"", " ", "  x", "x  ", "\t", "\tx", "a\tb", "=?utf-8?q?a?=", "=?utf-8?b?YQ==?= x", "a =?utf-8?q?b?= c", "=?iso-8859-1?q?=E4?=", "=?x?q?a?=", "?=", "=?", "_", "a_b=20", "\"quoted\"", "a\rb", "\x00", "\x7f", "\x1b[31m", "\u00a0", "\u2028", "\ufeff", "e\u0301", ".", "--", "From: x", ":", "a:b", "\v", "日本語のメール"}).Draw(t, "special")
	case 1:
		return rapid.StringMatching(`[ -~]{0,80}`).Draw(t, "ascii")
	case 2:
		return strings.Map(noBreak, rapid.String().Draw(t, "unicode"))
	case 3: // long
		w := rapid.SampledFrom([]string{"a", "ü", "word ", "語", "\U0001F600", "=", "ä ", "?", "_ "}).Draw(t, "w")
		return strings.Repeat(w, rapid.IntRange(1, 400).Draw(t, "n"))
	case 4:
		n := rapid.IntRange(1, 6).Draw(t, "words")
		var b strings.Builder
		for i := 0; i < n; i++ {
			b.WriteString(rapid.SampledFrom([]string{"hello", " ", "ü", "=?utf-8?q?", "?=", "world", "\t", "=", "日本", "  ", ","}).Draw(t, "piece"))
		}
		return b.String()
	default:
		return rapid.StringOfN(rapid.RuneFrom([]rune("ab äöü日 =?_-\t\"")), 0, 120, -1).Draw(t, "mixed")
	}
})

func noBreak(r rune) rune {
	if r == '\n' || r == utf8.RuneError {
		return '.'
	}
	return r
}

// text is a message.
var text = rapid.Custom(func(t *rapid.T) string {
	l := rapid.SliceOfN(line, 1, 6).Draw(t, "lines")
	s := strings.Join(l, rapid.SampledFrom([]string{"\n", "\n", "\n", "\r\n"}).Draw(t, "break"))
	if rapid.Bool().Draw(t, "last") {
		s += "\n"
	}
	return s
})

type att struct {
	name, ct string
	inline   bool
	data     []byte
}

func attachment(t *rapid.T) att {
	a := att{inline: rapid.Bool().Draw(t, "inline"), data: vt.Bytes(5000, 0, 57, 76, 1000, 4096).Draw(t, "data")}
	if vt.Uniform(t, 60, "large") == 0 {
		a.data = vt.Expand(rapid.IntRange(5000, 400000).Draw(t, "largelen"), rapid.Uint32().Draw(t, "largeseed"), 0)
	}
	switch rapid.IntRange(0, 3).Draw(t, "namekind") {
	case 0:
		a.name = rapid.SampledFrom([]string{"message.txt", "a.pdf", "x", ".hidden", "a.tar.gz", "UPPER.JPG", "noext.", "a b.txt", "a;b.txt", "a\"b.txt", "a\\b", "q=1.png", "ü.txt", "日本.png", "a'b", "(x).html", "a,b", "%41.txt", "utf-8''x", "a\nb.txt", "a\r\nX-Evil: 1", "a\tb", "=?utf-8?q?a?=.txt", " lead", "trail ", "a/../b.txt", "/etc/passwd", "dir/file.c", "*", "filename=x", "<a>", "a@b:c?d"}).Draw(t, "name")
	case 1:
		a.name = rapid.StringMatching(`[a-z0-9_-]{1,20}(\.[a-z]{1,4})?`).Draw(t, "name")
	case 2:
		a.name = strings.TrimRight(rapid.StringN(1, 30, 90).Draw(t, "name"), "/")
	default:
		a.name = strings.Repeat(rapid.SampledFrom([]string{"long", "ü", " ", "日"}).Draw(t, "w"), rapid.IntRange(1, 60).Draw(t, "n")) + ".txt"
	}
	if a.name == "" || !utf8.ValidString(a.name) {
		a.name = "x"
	}
	a.ct = rapid.SampledFrom([]string{"", "", "application/octet-stream", "text/plain", "text/html; charset=utf-8", "image/png", "application/x-a.b+c"}).Draw(t, "type")
	return a
}

// compose writes a message.
func compose(h mutemime.Header, msg string, atts []att) (string, error) {
	var l []*mutemime.Attachment
	for _, a := range atts {
		l = append(l, &mutemime.Attachment{Filename: a.name, Reader: bytes.NewReader(a.data), ContentType: a.ct, Inline: a.inline})
	}
	var b bytes.Buffer
	err := mutemime.New(&b, h, msg, l)
	return b.String(), err
}

func sameHeader(a, b *mutemime.Header) bool {
	x, y := *a, *b
	if len(x.Cc) == 0 && len(y.Cc) == 0 {
		x.Cc, y.Cc = nil, nil
	}
	return reflect.DeepEqual(x, y)
}

// parse compares what is parsed with what was composed.
func parse(rt *rapid.T, r io.Reader, h mutemime.Header, msg string, atts []att) {
	var (
		ph       *mutemime.Header
		subject  string
		message  string
		got      []*mutemime.Attachment
		err      error
		wantSubj = msg
	)
	if i := strings.IndexByte(msg, '\n'); i >= 0 {
		wantSubj = msg[:i]
	}
	wantSubj = strings.TrimRight(wantSubj, "\r")
	if p := vt.Try(func() { ph, subject, message, got, err = mutemime.Parse(r) }); p != "" {
		rt.Fatalf("Parse: %s", p)
	}
	if err != nil {
		rt.Fatalf("message %+v %q %s does not parse: %s", h, msg, describe(atts), err)
	}
	if !sameHeader(ph, &h) {
		rt.Fatalf("header %+v parses as %+v", h, *ph)
	}
	if subject != wantSubj {
		rt.Fatalf("subject %q parses as %q", wantSubj, subject)
	}
	if message != msg {
		rt.Fatalf("message %q parses as %q", msg, message)
	}
	if len(got) != len(atts) {
		rt.Fatalf("%d attachments (%s) parse as %d", len(atts), describe(atts), len(got))
	}
	for i, g := range got {
		a := atts[i]
		data, err := ioutil.ReadAll(g.Reader)
		if err != nil || !bytes.Equal(data, a.data) {
			rt.Fatalf("attachment %d (%s): %d bytes differ from %d: %v", i, describe(atts), len(data), len(a.data), err)
		}
		if want := filepath.Base(a.name); g.Filename != want {
			rt.Fatalf("attachment %d: name %q parses as %q", i, want, g.Filename)
		}
		if g.Inline != a.inline {
			rt.Fatalf("attachment %d (%s): inline is %v", i, describe(atts), g.Inline)
		}
		ct := a.ct
		if ct == "" {
			ct = mime.TypeByExtension(filepath.Ext(filepath.Base(a.name)))
		}
		if ct == "" {
			ct = "application/octet-stream"
		}
		if g.ContentType != ct {
			rt.Fatalf("attachment %d (%s): type %q, not %q", i, describe(atts), g.ContentType, ct)
		}
	}
}

func describe(atts []att) string {
	var s []string
	for _, a := range atts {
		s = append(s, fmt.Sprintf("%q %q %v %d bytes", a.name, a.ct, a.inline, len(a.data)))
	}
	return strings.Join(s, "; ")
}

// TestRoundTrip composes and parses messages, whole and in chunks.
func TestRoundTrip(t *testing.T) {
	vt.Check(t, "the subject needs encoding, or there are attachments or chunks", 2500, 150000, func(rt *rapid.T, c *vt.Case) {
		h := header(rt)
		msg := text.Draw(rt, "message")
		var atts []att
		for i, n := 0, rapid.SampledFrom([]int{0, 0, 1, 2, 5}).Draw(rt, "attachments"); i < n; i++ {
			atts = append(atts, attachment(rt))
		}
		enc, err := compose(h, msg, atts)
		if err != nil {
			rt.Fatalf("message %+v %q %s: %s", h, msg, describe(atts), err)
		}
		parse(rt, strings.NewReader(enc), h, msg, atts)
		if rapid.Bool().Draw(rt, "slow") {
			parse(rt, oneByte{strings.NewReader(enc)}, h, msg, atts)
		}
		chunks := 0
		if rapid.IntRange(0, 1).Draw(rt, "chunked") == 1 {
			size := uint64(rapid.IntRange(len(enc)/20+1, len(enc)+200).Draw(rt, "size"))
			if rapid.IntRange(0, 20).Draw(rt, "exact") == 0 {
				size = uint64(len(enc))
			}
			chunks = chunked(rt, h, enc, size)
		}
		ascii := true
		for _, r := range msg {
			if r < ' ' || r > '~' {
				ascii = false
			}
		}
		if !ascii || len(atts) > 0 || chunks > 1 {
			c.NonTrivial(msg, describe(atts), chunks)
		}
		c.Label("attachments %d", len(atts))
		c.Sample("%q with %s in %d chunks", msg, describe(atts), chunks)
	})
}

// oneByte reads byte by byte.
type oneByte struct{ r io.Reader }

func (o oneByte) Read(p []byte) (int, error) {
	if len(p) > 1 {
		p = p[:1]
	}
	return o.r.Read(p)
}

// chunked splits enc into chunks and puts it together again.
func chunked(rt *rapid.T, h mutemime.Header, enc string, size uint64) int {
	var chunks []string
	var err error
	if p := vt.Try(func() { chunks, err = mutemime.EncodeChunks(h, enc, size) }); p != "" {
		rt.Fatalf("EncodeChunks(%d bytes, %d): %s", len(enc), size, p)
	}
	if err != nil {
		rt.Fatalf("EncodeChunks(%d bytes, %d): %s", len(enc), size, err)
	}
	if want := (uint64(len(enc)) + size - 1) / size; uint64(len(chunks)) != want && size < 1<<40 || len(enc) > 0 && size >= 1<<40 && len(chunks) != 1 {
		rt.Fatalf("%d bytes in %d chunks of %d", len(enc), len(chunks), size)
	}
	pieces := make([]string, len(chunks))
	for _, i := range rapid.Permutation(seq(len(chunks))).Draw(rt, "order") {
		var (
			hd           *mutemime.Header
			part         string
			piece, count uint64
		)
		if p := vt.Try(func() { hd, part, piece, count, err = mutemime.DecodeChunk(chunks[i]) }); p != "" {
			rt.Fatalf("DecodeChunk: %s", p)
		}
		if err != nil {
			rt.Fatalf("chunk %d: %s", i, err)
		}
		if !sameHeader(hd, &h) {
			rt.Fatalf("chunk %d: header %+v decodes as %+v", i, h, *hd)
		}
		if piece != uint64(i+1) || count != uint64(len(chunks)) {
			rt.Fatalf("chunk %d of %d is %d of %d", i+1, len(chunks), piece, count)
		}
		if uint64(len(part)) > size {
			rt.Fatalf("chunk of %d bytes, not %d", len(part), size)
		}
		pieces[piece-1] = part
	}
	if got := strings.Join(pieces, ""); got != enc {
		rt.Fatalf("the chunks of %q are %q", enc, got)
	}
	return len(chunks)
}

func seq(n int) []int {
	l := make([]int, n)
	for i := range l {
		l[i] = i
	}
	return l
}

// TestChunks splits arbitrary text.
func TestChunks(t *testing.T) {
	vt.Check(t, "there is more than one chunk", 2000, 150000, func(rt *rapid.T, c *vt.Case) {
		h := header(rt)
		var enc string
		if rapid.Bool().Draw(rt, "random") {
			enc = string(vt.Bytes(400).Draw(rt, "enc"))
		} else {
			enc = strings.Join(rapid.SliceOfN(rapid.SampledFrom([]string{"\r\n", "\n", "\r", "-", "--", "--boundary", "a", " ", "\t", ".", "=", "\x00"}), 0, 60).Draw(rt, "pieces"), "")
		}
		size := rapid.OneOf(rapid.Uint64Range(1, 20), rapid.Uint64Range(20, 500), rapid.SampledFrom([]uint64{1 << 31, 1 << 32, 1 << 62, 1<<63 - 1, 1 << 63, 1<<64 - 1})).Draw(rt, "size")
		if uint64(len(enc))/size > 60 {
			size = uint64(len(enc))/60 + 1
		}
		n := chunked(rt, h, enc, size)
		if n > 1 {
			c.NonTrivial(enc, size)
		}
		var err error
		if p := vt.Try(func() { _, err = mutemime.EncodeChunks(h, enc, 0) }); p != "" {
			rt.Fatalf("chunks of size 0: %s", p)
		}
		if err == nil && len(enc) > 0 {
			rt.Fatalf("%d bytes were split into chunks of size 0", len(enc))
		}
	})
}

// TestSplit splits and joins subjects and bodies.
func TestSplit(t *testing.T) {
	vt.Check(t, "the message has several lines", 5000, 300000, func(rt *rapid.T, c *vt.Case) {
		subject := strings.TrimRight(line.Draw(rt, "subject"), "\r")
		body := text.Draw(rt, "body")
		cr := rapid.SampledFrom([]string{"", "", "\r"}).Draw(rt, "cr")
		s, b := mutemime.SplitMessage(subject + cr + "\n" + body)
		if s != subject || b != body {
			rt.Fatalf("%q and %q are split into %q and %q", subject, body, s, b)
		}
		s, b = mutemime.SplitMessage(subject)
		if s != subject || b != "" {
			rt.Fatalf("%q is split into %q and %q", subject, s, b)
		}
		if strings.Contains(body, "\n") {
			c.NonTrivial(subject, body)
		}
	})
}

var errFault = errors.New("injected")

type limited struct {
	n int
}

func (l *limited) Write(p []byte) (int, error) {
	if len(p) > l.n {
		n := l.n
		l.n = 0
		return n, errFault
	}
	l.n -= len(p)
	return len(p), nil
}

// TestFaults composes with attachments that cannot be read and outputs that
// cannot be written.
func TestFaults(t *testing.T) {
	vt.Check(t, "reading an attachment or writing failed", 1000, 50000, func(rt *rapid.T, c *vt.Case) {
		h := header(rt)
		msg := text.Draw(rt, "message")
		a := attachment(rt)
		enc, err := compose(h, msg, []att{a})
		if err != nil {
			rt.Fatal(err)
		}
		at := vt.Uniform(rt, len(enc), "at")
		l := []*mutemime.Attachment{{Filename: a.name, Reader: bytes.NewReader(a.data), ContentType: a.ct, Inline: a.inline}}
		if err := mutemime.New(&limited{at}, h, msg, l); err == nil {
			rt.Fatalf("writing failed after %d of %d bytes unnoticed", at, len(enc))
		}
		n := rapid.IntRange(0, len(a.data)).Draw(rt, "n")
		l[0].Reader = io.MultiReader(bytes.NewReader(a.data[:n]), failing{})
		if err := mutemime.New(ioutil.Discard, h, msg, l); err == nil {
			rt.Fatalf("reading failed after %d of %d bytes unnoticed", n, len(a.data))
		}
		if at > len(enc)-80 { // within the last line
			at = len(enc) - 80
		}
		if _, _, _, _, err := mutemime.Parse(io.MultiReader(strings.NewReader(enc[:at]), failing{})); err == nil {
			rt.Fatalf("reading the message failed after %d of %d bytes unnoticed", at, len(enc))
		}
		c.NonTrivial(at, n, a.name)
	})
}

type failing struct{}

func (failing) Read([]byte) (int, error) { return 0, errFault }

// TestMail parses plain mail for sending.
func TestMail(t *testing.T) {
	vt.Check(t, "the subject needs encoding or the body has several lines", 3000, 150000, func(rt *rapid.T, c *vt.Case) {
		to := rapid.SampledFrom(names).Draw(rt, "to")
		subject := line.Draw(rt, "subject")
		subject = strings.Map(func(r rune) rune {
			if r == '\r' {
				return -1
			}
			return r
		}, subject)
		ambiguous := strings.TrimSpace(subject) != subject || strings.Contains(subject, "=?") // needs more than the usual encoding
		body := text.Draw(rt, "body")
		nl := rapid.SampledFrom([]string{"\r\n", "\n"}).Draw(rt, "nl")
		lines := []string{"To: " + to, "From: someone@example.com", "Date: Mon, 2 Jan 2006 15:04:05 -0700", "X-Long: a" + nl + " b"}
		enc := mime.QEncoding
		if rapid.Bool().Draw(rt, "b") {
			enc = mime.BEncoding
		}
		has := rapid.IntRange(0, 9).Draw(rt, "subject") > 0
		if has {
			lines = append(lines, "Subject: "+strings.Replace(enc.Encode("utf-8", subject), "\r\n", nl, -1))
		} else {
			subject = ""
		}
		lines = rapid.Permutation(lines).Draw(rt, "headers")
		var recipient, message string
		var err error
		in := strings.Join(lines, nl) + nl + nl + body
		if p := vt.Try(func() { recipient, message, err = ctrlmail.Parse(strings.NewReader(in)) }); p != "" {
			rt.Fatalf("Parse(%q): %s", in, p)
		}
		if err != nil {
			rt.Fatalf("Parse(%q): %s", in, err)
		}
		if recipient != to {
			rt.Fatalf("mail to %q is for %q", to, recipient)
		}
		if !ambiguous || !has {
			if message != subject+"\n"+body {
				rt.Fatalf("subject %q and body %q make message %q", subject, body, message)
			}
		} else if !strings.HasSuffix(message, "\n"+body) {
			rt.Fatalf("body %q is part of message %q", body, message)
		}
		at := vt.Uniform(rt, len(in), "at")
		if _, _, err := ctrlmail.Parse(io.MultiReader(strings.NewReader(in[:at]), failing{})); err == nil {
			rt.Fatalf("reading failed after %d of %d bytes unnoticed", at, len(in))
		}
		if strings.Contains(body, "\n") || subject != "" {
			c.NonTrivial(subject, body)
		}
	})
}
