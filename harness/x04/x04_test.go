// Package x04 decides property X04: prepared mix envelopes keep their content
// and are classified correctly.
package x04

import (
	"bytes"
	"crypto/tls"
	"errors"
	"fmt"
	"net/mail"
	"reflect"
	"strconv"
	"strings"
	"testing"

	"verif/mixkit"
	"verif/netkit"
	"verif/vt"

	"github.com/mutecomm/mute/mix/client"
	"github.com/mutecomm/mute/mix/nymaddr"
	"github.com/mutecomm/mute/mix/smtpclient"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) { vt.Main(m) }

var errs = []error{nil, client.ErrNIL, client.ErrAlreadySent, client.ErrMaxSize, smtpclient.ErrNoTLS, smtpclient.ErrFinal, smtpclient.ErrRetry, nymaddr.ErrExpired}

func drawErr(rt *rapid.T) error {
	if rapid.IntRange(0, 2).Draw(rt, "errkind") == 0 {
		s := rapid.String().Draw(rt, "errtext")
		if s == "" || s == "nil" {
			s = "x"
		}
		return errors.New(s)
	}
	return rapid.SampledFrom(errs).Draw(rt, "err")
}

func drawOut(rt *rapid.T) *client.MessageOutput {
	opt := func(label string, max int) []byte {
		if rapid.IntRange(0, 3).Draw(rt, label+"nil") == 0 {
			return nil
		}
		return vt.Bytes(max, 1, 32, 127, 128, 255, 256).Draw(rt, label)
	}
	return &client.MessageOutput{
		Message: opt("message", 4000), To: rapid.String().Draw(rt, "to"), From: rapid.String().Draw(rt, "from"),
		RevokeID: opt("revoke", 64), SMTPPort: rapid.IntRange(-1, 70000).Draw(rt, "port"), SmartHost: rapid.String().Draw(rt, "host"),
		CACert: opt("ca", 2000), Error: drawErr(rt), Resend: rapid.Bool().Draw(rt, "resend"),
	}
}

// same compares two envelopes. The encoding does not tell empty byte fields
// from missing ones, which all mean the same.
func same(a, b *client.MessageOutput) string {
	x, y := *a, *b
	if fmt.Sprint(x.Error) != fmt.Sprint(y.Error) {
		return "Error"
	}
	x.Error, y.Error = nil, nil
	for _, p := range []*[]byte{&x.Message, &x.RevokeID, &x.CACert, &y.Message, &y.RevokeID, &y.CACert} {
		if len(*p) == 0 {
			*p = nil
		}
	}
	if !reflect.DeepEqual(x, y) {
		return fmt.Sprintf("%+v became %+v", x, y)
	}
	return ""
}

// TestMarshal encodes and decodes envelopes.
func TestMarshal(t *testing.T) {
	vt.Check(t, "an envelope was restored completely, or a damaged one refused", 20000, 400000, func(rt *rapid.T, c *vt.Case) {
		mo := drawOut(rt)
		enc := mo.Marshal()
		if enc == nil {
			rt.Fatalf("envelope %+v cannot be encoded", mo)
		}
		got := enc.Unmarshal()
		if d := same(mo, got); d != "" {
			rt.Fatalf("envelope changed: %s", d)
		}
		if (mo.CACert == nil) != (got.CACert == nil) && len(mo.CACert) == 0 && got.CACert != nil {
			rt.Fatal("an envelope without CA certificate got an empty one: delivery would fail")
		}
		if mo.Error != nil {
			for _, e := range errs {
				if mo.Error == e && got.Error != e {
					rt.Fatalf("error %v was not restored as such", e)
				}
			}
		}
		c.Eval(1)
		// damage
		cut := rapid.IntRange(0, len(enc)-1).Draw(rt, "cut")
		got = client.MessageMarshalled(enc[:cut]).Unmarshal()
		if got.Error == nil || got.Resend {
			rt.Fatalf("envelope cut to %d of %d bytes is accepted", cut, len(enc))
		}
		if out, err := got.Deliver(); err == nil || err == client.ErrAlreadySent || out.Resend {
			rt.Fatalf("delivering a cut envelope: %v", err)
		}
		mut, _ := vt.Mutation(rt, enc, "mut")
		if p := vt.Try(func() { client.MessageMarshalled(mut).Unmarshal() }); p != "" {
			rt.Fatalf("damaged envelope: %s", p)
		}
		c.Label("error %t, CA %t", mo.Error != nil, mo.CACert != nil)
		c.NonTrivial(len(mo.Message), len(mo.To), mo.Error != nil, mo.CACert != nil, mo.Resend)
	})
}

// TestInvalidText encodes envelopes whose error text came from a server.
func TestInvalidText(t *testing.T) {
	vt.Check(t, "an envelope with an error text of arbitrary bytes kept all other parts", 2000, 40000, func(rt *rapid.T, c *vt.Case) {
		mo := drawOut(rt)
		mo.Error = errors.New("550 " + string(vt.Bytes(40).Draw(rt, "text")) + "\xe4")
		enc := mo.Marshal()
		if enc == nil {
			rt.Fatalf("envelope with error %q cannot be encoded", mo.Error)
		}
		got := enc.Unmarshal()
		if got.Error == nil || !strings.HasPrefix(got.Error.Error(), "550 ") {
			rt.Fatalf("error %q became %v", mo.Error, got.Error)
		}
		got.Error = mo.Error
		if d := same(mo, got); d != "" {
			rt.Fatalf("envelope changed: %s", d)
		}
		c.Eval(1)
		c.NonTrivial(mo.Error.Error())
	})
}

// TestMail writes and reads mails.
func TestMail(t *testing.T) {
	vt.Check(t, "a mail yielded exactly its body and addresses, or was refused for its size", 4000, 80000, func(rt *rapid.T, c *vt.Case) {
		n := rapid.SampledFrom([]int{0, 1, 2, 3, 53, 54, 55, 71, 72, 108, 1000, 50000, 190000, 194000, 194278, 194279, 194280, 194281, 194290, 194400, 210000}).Draw(rt, "len")
		if rapid.Bool().Draw(rt, "small") {
			n = rapid.IntRange(0, 2000).Draw(rt, "anylen")
		}
		body := vt.Expand(n, rapid.Uint32().Draw(rt, "seed"), rapid.IntRange(0, 3).Draw(rt, "kind"))
		from := rapid.StringMatching(`[a-z0-9]{1,20}(\.[a-z0-9]{1,9})?@[a-z0-9]{1,20}\.[a-z]{2,5}`).Draw(rt, "from")
		to := rapid.StringMatching(`[a-z0-9]{1,64}(\.[a-z0-9]{1,9})?@[a-z0-9]{1,20}\.[a-z]{2,5}`).Draw(rt, "to")
		m := client.WriteMail(from, to, body)
		for i, l := range strings.Split(string(m), "\r\n") {
			if len(l) > 998 || strings.ContainsAny(l, "\r\n") {
				rt.Fatalf("line %d is no line of a mail", i)
			}
		}
		// encoded size, with line breaks
		size := (n + 2) / 3 * 4
		if size > 72 {
			size += (size - 1) / 72 * 2
		}
		got, err := client.ReadMail(m)
		c.Eval(1)
		if size > client.MaxMessageSize {
			if err == nil {
				rt.Fatalf("mail with %d encoded bytes was accepted", size)
			}
			c.Label("too large")
			c.NonTrivial(n)
			return
		}
		if err != nil {
			rt.Fatalf("mail with %d bytes: %v", n, err)
		}
		if !bytes.Equal(got, body) {
			rt.Fatalf("mail with %d bytes yields %d others", n, len(got))
		}
		pm, err := mail.ReadMessage(bytes.NewReader(m))
		if err != nil {
			rt.Fatal(err)
		}
		f, err1 := pm.Header.AddressList("From")
		to2, err2 := pm.Header.AddressList("To")
		if err1 != nil || err2 != nil || len(f) != 1 || len(to2) != 1 {
			rt.Fatalf("mail headers: %v %v", err1, err2)
		}
		_, errd := pm.Header.Date()
		if f[0].Address != from {
			rt.Fatalf("mail is from %s, not %s", f[0].Address, from)
		}
		if to2[0].Address != to {
			rt.Fatalf("mail is to %s, not %s", to2[0].Address, to)
		}
		if errd != nil {
			rt.Fatal(errd)
		}
		c.NonTrivial(n, len(from), len(to))
		// damage
		mut, d := vt.Mutation(rt, m, "mut")
		var mg []byte
		var merr error
		if p := vt.Try(func() { mg, merr = client.ReadMail(mut) }); p != "" {
			rt.Fatalf("damaged mail (%s): %s", d, p)
		}
		_, _ = mg, merr
		if i := bytes.Index(m, []byte("\r\n\r\n")); i >= 0 && n > 3 {
			// a byte that cannot be part of an encoded body
			dam := append([]byte{}, m...)
			pos := i + 4 + rapid.IntRange(0, len(m)-i-5).Draw(rt, "pos")
			if dam[pos] != '\r' && dam[pos] != '\n' {
				dam[pos] = rapid.SampledFrom([]byte("!-_*\x00\xff.\t ")).Draw(rt, "badbyte")
				if g, err := client.ReadMail(dam); err == nil && bytes.Equal(dam, m) == false {
					rt.Fatalf("mail with %q inside its body yields %d bytes", dam[pos], len(g))
				}
			}
		}
	})
}

var (
	ca, otherCA = netkit.NewCA(), netkit.NewCA()
)

// steps of a delivery in the order they happen
var order = []string{"connect", "ehlo", "starttls", "handshake", "ehlo2", "mail", "rcpt", "data", "body"}

func drawAction(rt *rapid.T, label string) netkit.Action {
	switch rapid.IntRange(0, 3).Draw(rt, label+"kind") {
	case 0:
		return netkit.Action{Drop: true}
	case 1:
		return netkit.Action{Code: rapid.SampledFrom([]int{400, 421, 450, 451, 452, 454, 499}).Draw(rt, label+"code"), Text: drawText(rt, label)}
	default:
		return netkit.Action{Code: rapid.SampledFrom([]int{500, 501, 530, 535, 550, 552, 554, 571, 599}).Draw(rt, label+"code"), Text: drawText(rt, label)}
	}
}

func drawText(rt *rapid.T, label string) []string {
	return rapid.SampledFrom([][]string{nil, {""}, {"no"}, {"421 later"}, {"550 never"}, {"first", "second"}, {"", "x"}, {"5.1.1 unknown", "4.2.1 try"}, {"Empf\xe4nger unbekannt"}, {" indented"}, {strings.Repeat("long ", 60)}}).Draw(rt, label+"text")
}

// want is the class of result a delivery must have.
type want int

const (
	success want = iota
	retry        // error, sending again can help
	final        // error, sending again is useless
	either       // error of either class
	unknown      // the connection was lost while the server took the mail
)

// outcome computes what a delivery must lead to.
func outcome(at map[string]netkit.Action, offered, caGiven, trusted bool) (w want, accepted bool) {
	classify := func(a netkit.Action) want {
		if a.Drop || a.Code < 500 {
			return retry
		}
		return final
	}
	if a, ok := at["connect"]; ok {
		_ = a
		if classify(a) == final {
			return either, false
		}
		return retry, false
	}
	tlsOn := offered
	if a, ok := at["ehlo"]; ok {
		if a.Drop {
			return retry, false
		}
		// the client falls back to HELO, which offers nothing
		if b, ok := at["helo"]; ok {
			return classify(b), false
		}
		tlsOn = false
	}
	if caGiven && !tlsOn {
		return final, false
	}
	if tlsOn {
		if a, ok := at["starttls"]; ok {
			return classify(a), false
		}
		if at["handshake"].Drop {
			return retry, false
		}
		if !trusted {
			return either, false
		}
		if a, ok := at["ehlo2"]; ok {
			return classify(a), false
		}
	}
	for _, s := range []string{"mail", "rcpt", "data", "body"} {
		if a, ok := at[s]; ok {
			return classify(a), false
		}
	}
	return success, true
}

// TestDeliver delivers envelopes, with any number of retries, restarts and
// failing servers.
func TestDeliver(t *testing.T) {
	hosts := []string{"127.0.0.1", "127.0.0.2", "127.0.0.10"}
	port, ls := netkit.Ports(hosts...)
	portN, _ := strconv.Atoi(port)
	var srv []*netkit.MailServer
	for _, l := range ls {
		s := netkit.ServeMail(l)
		defer s.Close()
		srv = append(srv, s)
	}
	vt.Check(t, "a delivery was attempted against a server that failed at some step, or succeeded, possibly after retries", 2500, 60000, func(rt *rapid.T, c *vt.Case) {
		hi := rapid.SampledFrom([]int{0, 0, 0, 1, 1, 2}).Draw(rt, "host")
		s := srv[hi]
		var body []byte
		var msg []byte
		from := rapid.StringMatching(`[a-z0-9]{1,20}@[a-z0-9]{1,20}\.[a-z]{2,5}`).Draw(rt, "from")
		to := rapid.StringMatching(`[a-z0-9]{1,64}@[a-z0-9]{1,20}\.[a-z]{2,5}`).Draw(rt, "to")
		mailForm := rapid.IntRange(0, 3).Draw(rt, "form") > 0
		if mailForm {
			body = vt.Expand(rapid.SampledFrom([]int{0, 1, 54, 100, 5000, 60000}).Draw(rt, "len"), rapid.Uint32().Draw(rt, "seed"), 0)
			msg = client.WriteMail(from, to, body)
		} else {
			ls := rapid.SliceOfN(rapid.SampledFrom([]string{"", ".", "..", ".x", "line", "QUIT", "a.b"}), 1, 8).Draw(rt, "lines")
			msg = []byte("Subject: x\r\n\r\n" + strings.Join(ls, "\r\n") + "\r\n")
		}
		mo := &client.MessageOutput{Message: msg, To: to, From: from, RevokeID: []byte("revoke"), SMTPPort: portN, SmartHost: hosts[hi], Resend: true}
		caGiven := rapid.IntRange(0, 3).Draw(rt, "cagiven") > 0
		if caGiven {
			mo.CACert = ca.PEM
			if rapid.IntRange(0, 7).Draw(rt, "wrongca") == 0 {
				mo.CACert = otherCA.PEM
			}
		}
		trusted := caGiven && bytes.Equal(mo.CACert, ca.PEM) && hi != 2
		restart := func() {
			if !rapid.Bool().Draw(rt, "restart") {
				return
			}
			n := mo.Marshal().Unmarshal()
			if d := same(mo, n); d != "" && mo.Error == nil {
				rt.Fatalf("envelope changed while stored: %s", d)
			}
			mo = n
		}
		restart()
		total := 0
		for try := 0; try < 4; try++ {
			var cert *tls.Certificate
			offered := rapid.IntRange(0, 4).Draw(rt, "offered") > 0
			if offered {
				cert = &ca.Cert
				if !caGiven && try > 0 {
					cert, offered = nil, false
				}
			}
			at := map[string]netkit.Action{}
			if try < 3 && rapid.IntRange(0, 5).Draw(rt, "fails") > 0 {
				st := rapid.SampledFrom(order).Draw(rt, "step")
				at[st] = drawAction(rt, "action")
				if st == "ehlo" && rapid.Bool().Draw(rt, "heloToo") {
					at["helo"] = drawAction(rt, "helo")
				}
				if st == "handshake" {
					at[st] = netkit.Action{Drop: true}
				}
			}
			for _, st := range []string{"quit", "rset"} {
				if rapid.IntRange(0, 3).Draw(rt, st+"fails") == 0 {
					at[st] = drawAction(rt, st)
				}
			}
			// a server that took the mail but whose answer is lost
			s.Set(at, cert, "")
			w, accepted := outcome(at, offered, caGiven, trusted)
			out, err := mo.Deliver()
			mails, clear, steps := s.Seen()
			c.Eval(1)
			what := fmt.Sprintf("server %v, TLS offered %t, CA %t, trusted %t, steps %v: error %v, resend %t", at, offered, caGiven, trusted, steps, err, mo.Resend)
			if out != mo {
				rt.Fatalf("%s: another envelope was returned", what)
			}
			if caGiven && len(clear) > 0 {
				rt.Fatalf("%s: sent in clear: %q", what, clear)
			}
			if caGiven && !trusted && len(mails) > 0 {
				rt.Fatalf("%s: mail went to a server that cannot be verified", what)
			}
			if (len(mails) == 1) != accepted || len(mails) > 1 {
				rt.Fatalf("%s: server took %d mails", what, len(mails))
			}
			total += len(mails)
			if (err == nil) != (w == success) {
				rt.Fatalf("%s: wrong result", what)
			}
			if mo.Error != err {
				rt.Fatalf("%s: envelope holds error %v", what, mo.Error)
			}
			for _, m := range mails {
				if m.From != from || m.To != to {
					rt.Fatalf("%s: mail is from %s to %s", what, m.From, m.To)
				}
				if caGiven && !m.TLS {
					rt.Fatalf("%s: mail came in clear", what)
				}
				if mailForm {
					if got, err := client.ReadMail(m.Data); err != nil || !bytes.Equal(got, body) {
						rt.Fatalf("%s: server has other mail: %v", what, err)
					}
				} else if !bytes.Equal(bytes.ReplaceAll(msg, []byte("\r\n"), []byte("\n")), bytes.ReplaceAll(m.Data, []byte("\r\n"), []byte("\n"))) {
					rt.Fatalf("%s: server has other text %q", what, m.Data)
				}
			}
			if w == retry && !mo.Resend {
				rt.Fatalf("%s: gave up on a temporary failure", what)
			}
			if w == final && mo.Resend {
				rt.Fatalf("%s: keeps trying after a final failure", what)
			}
			if mo.Resend && (!bytes.Equal(mo.Message, msg) || mo.To != to || mo.From != from || mo.SmartHost != hosts[hi] || mo.SMTPPort != portN) {
				rt.Fatalf("%s: envelope to be sent again has changed", what)
			}
			if string(mo.RevokeID) != "revoke" {
				rt.Fatalf("%s: revocation ID is gone", what)
			}
			c.Label("result %d", w)
			c.NonTrivial(fmt.Sprint(at), offered, caGiven, trusted, try)
			restart()
			if !mo.Resend {
				// never again, and never a success
				s.Set(nil, &ca.Cert, "")
				_, err := mo.Deliver()
				mails, _, steps := s.Seen()
				if err == nil || len(mails) > 0 || len(steps) > 0 {
					rt.Fatalf("%s: delivering once more: error %v, %d mails", what, err, len(mails))
				}
				if (err == client.ErrAlreadySent) != (w == success) {
					rt.Fatalf("%s: delivering once more reports %v", what, err)
				}
				break
			}
		}
		if total > 1 {
			rt.Fatalf("mail was taken %d times", total)
		}
	})
}

// TestAuth uses the mail client with a user and password.
func TestAuth(t *testing.T) {
	hosts := []string{"127.0.0.1", "127.0.0.2"}
	port, ls := netkit.Ports(hosts...)
	portN, _ := strconv.Atoi(port)
	var srv []*netkit.MailServer
	for _, l := range ls {
		s := netkit.ServeMail(l)
		defer s.Close()
		srv = append(srv, s)
	}
	vt.Check(t, "mail was sent with authentication, or refused for lack of it", 600, 12000, func(rt *rapid.T, c *vt.Case) {
		hi := rapid.IntRange(0, 1).Draw(rt, "host")
		s := srv[hi]
		auth := rapid.SampledFrom([]string{"", "PLAIN", "CRAM-MD5", "CRAM-MD5 PLAIN", "LOGIN"}).Draw(rt, "auth")
		mc := &smtpclient.MailClient{Port: portN, SmartHost: hosts[hi], User: "someone", Password: "secretpassword", HeloHost: rapid.SampledFrom([]string{"", "here.example"}).Draw(rt, "helo")}
		offered := rapid.Bool().Draw(rt, "offered")
		var cert *tls.Certificate
		if offered {
			cert = &ca.Cert
			mc.CACert = ca.PEM
		}
		at := map[string]netkit.Action{}
		if rapid.Bool().Draw(rt, "fails") {
			at["auth"] = drawAction(rt, "action")
		}
		s.Set(at, cert, auth)
		err := mc.SendMail("b@x.org", "a@x.org", []byte("Subject: x\r\n\r\ny\r\n"))
		mails, clear, steps := s.Seen()
		c.Eval(1)
		what := fmt.Sprintf("AUTH %q, %v, TLS %t, steps %v: %v", auth, at, offered, steps, err)
		possible := auth == "PLAIN" || strings.Contains(auth, "CRAM")
		if hi == 1 && !offered && auth == "PLAIN" {
			possible = false // a password must not go out in clear
			for _, l := range clear {
				if strings.Contains(strings.ToUpper(l), "AUTH") && l != "AUTH *" && !strings.HasSuffix(l, "*") {
					rt.Fatalf("%s: password sent in clear: %q", what, l)
				}
			}
		}
		a, fails := at["auth"]
		if !possible || fails {
			if err == nil || len(mails) > 0 {
				rt.Fatalf("%s: mail was sent", what)
			}
			if possible && !a.Drop && (a.Code >= 500) != (err == smtpclient.ErrFinal) {
				rt.Fatalf("%s: wrong class", what)
			}
			if possible && a.Code > 0 && mc.LastErrorCode != a.Code {
				rt.Fatalf("%s: reported code %d", what, mc.LastErrorCode)
			}
			if (auth == "" || auth == "LOGIN") && err != smtpclient.ErrFinal {
				rt.Fatalf("%s: wrong class", what)
			}
		} else if err != nil || len(mails) != 1 {
			rt.Fatalf("%s: mail was not sent", what)
		}
		c.Label("sent %t", err == nil)
		c.NonTrivial(auth, fmt.Sprint(at), offered, hi)
	})
}

// TestCreate prepares messages for nym addresses and delivers them to the mix.
func TestCreate(t *testing.T) {
	port, ls := netkit.Ports("127.0.0.1")
	portN, _ := strconv.Atoi(port)
	s := netkit.ServeMail(ls[0])
	defer s.Close()
	vt.Check(t, "a prepared message was delivered and opened by the mix, or refused", 600, 12000, func(rt *rapid.T, c *vt.Case) {
		mix := mixkit.NewMix("mix@mix0.mute.one", vt.TempDir(), 1000)
		tmp := mixkit.Template(rt, mixkit.Candidates(mix), 500, 900, -50)
		mailbox := mixkit.Mailbox(rt, "mailbox")
		addr, err := tmp.NewAddress(mailbox, vt.Expand(32, rapid.Uint32().Draw(rt, "nym"), 0))
		if err != nil {
			rt.Fatal(err)
		}
		good := true
		if rapid.IntRange(0, 4).Draw(rt, "damaged") == 0 {
			addr = addr[:rapid.IntRange(0, len(addr)-1).Draw(rt, "cut")]
			good = false
		}
		msg := vt.Expand(rapid.SampledFrom([]int{4096, 5000, 30000, 60000}).Draw(rt, "len"), rapid.Uint32().Draw(rt, "seed"), 0)
		token := vt.Expand(rapid.SampledFrom([]int{1, 100, 300}).Draw(rt, "tokenlen"), rapid.Uint32().Draw(rt, "token"), 0)
		for len(token) > 0 && token[0] == 0 {
			token[0] = 1
		}
		min := rapid.Int32Range(0, 1000).Draw(rt, "min")
		in := client.MessageInput{SenderMinDelay: min, SenderMaxDelay: min + rapid.Int32Range(0, 1000).Draw(rt, "spread"), Token: token, NymAddress: addr, Message: msg, SMTPPort: portN, SmartHost: "127.0.0.1", CACert: ca.PEM}
		var mo *client.MessageOutput
		if p := vt.Try(func() { mo = in.Create() }); p != "" {
			rt.Fatalf("creating: %s", p)
		}
		c.Eval(1)
		s.Set(nil, &ca.Cert, "")
		if mo.Error != nil {
			if good && tmp.Expire > 0 {
				// only an expired address may be refused
				if mo.Error != nymaddr.ErrExpired {
					rt.Fatalf("creating: %v", mo.Error)
				}
			}
			mo = mo.Marshal().Unmarshal()
			_, err := mo.Deliver()
			if mails, _, _ := s.Seen(); err == nil || err == client.ErrAlreadySent || len(mails) > 0 {
				rt.Fatalf("delivering what could not be created: %v", err)
			}
			c.Label("refused")
			c.NonTrivial(len(addr))
			return
		}
		if !good {
			rt.Fatalf("message created for a cut address")
		}
		rev := mo.RevokeID
		mo = mo.Marshal().Unmarshal()
		if _, err := mo.Deliver(); err != nil {
			rt.Fatal(err)
		}
		mails, _, _ := s.Seen()
		if len(mails) != 1 || mails[0].To != mix.Addr || mails[0].From != client.DefaultSender {
			rt.Fatalf("server has %d mails", len(mails))
		}
		env, err := client.ReadMail(mails[0].Data)
		if err != nil {
			rt.Fatal(err)
		}
		r, err := mixkit.Receive(mix.KL.GetPrivateKey, env)
		if err != nil {
			rt.Fatal(err)
		}
		h := r.MixHeader
		if !bytes.Equal(h.Token, token) || h.SenderMinDelay != in.SenderMinDelay || h.SenderMaxDelay != in.SenderMaxDelay || !bytes.Equal(h.RevokeID, rev) || !bytes.Equal(h.Address, addr) {
			rt.Fatalf("mix reads header %+v", h)
		}
		c.Label("delivered")
		c.NonTrivial(len(msg), len(token), min)
	})
}
