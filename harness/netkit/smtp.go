package netkit

import (
	"bufio"
	"bytes"
	"crypto/tls"
	"encoding/base64"
	"fmt"
	"io"
	"net"
	"net/textproto"
	"strings"
	"sync"
	"time"
)

// Action is what a mail server does at one step of the dialogue. The zero
// Action is the normal reply.
type Action struct {
	Code int      // reply code, 0 for the normal one
	Text []string // reply lines
	Drop bool     // close the connection instead of replying
}

// Mail is a mail a server has accepted.
type Mail struct {
	From, To string
	Data     []byte
	TLS      bool
}

// MailServer is a mail server whose behaviour is set by the test. The steps
// are connect, ehlo, helo, starttls, handshake, ehlo2, auth, mail, rcpt, data,
// body, quit, rset.
type MailServer struct {
	mu    sync.Mutex
	At    map[string]Action
	Seq   []map[string]Action // behaviour of the next connections, before At
	TLS   *tls.Certificate    // nil: STARTTLS is not offered
	Auth  string              // AUTH extension offered
	Mails []Mail              // accepted mails
	Clear []string            // commands and data seen outside of TLS
	Steps []string            // steps reached
	Done  sync.WaitGroup
	l     net.Listener
}

// ServeMail runs a mail server on l.
func ServeMail(l net.Listener) *MailServer {
	s := &MailServer{l: l}
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			s.mu.Lock()
			s.Done.Add(1)
			s.mu.Unlock()
			go func() {
				defer s.Done.Done()
				defer c.Close()
				c.SetDeadline(time.Now().Add(20 * time.Second))
				s.handle(c)
			}()
		}
	}()
	return s
}

// Set replaces the behaviour of the server and forgets what it has seen.
func (s *MailServer) Set(at map[string]Action, cert *tls.Certificate, auth string) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.At, s.TLS, s.Auth, s.Seq = at, cert, auth, nil
	s.Mails, s.Clear, s.Steps = nil, nil, nil
}

// Seen waits for all dialogues to end and returns what the server has seen.
func (s *MailServer) Seen() (mails []Mail, clear, steps []string) {
	s.Done.Wait()
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.Mails, s.Clear, s.Steps
}

// Close stops the server.
func (s *MailServer) Close() { s.l.Close() }

func reply(w io.Writer, code int, text []string) bool {
	if len(text) == 0 {
		text = []string{""}
	}
	var b bytes.Buffer
	for i, t := range text {
		sep := "-"
		if i == len(text)-1 {
			sep = " "
		}
		fmt.Fprintf(&b, "%03d%s%s\r\n", code, sep, t)
	}
	_, err := w.Write(b.Bytes())
	return err == nil
}

func (s *MailServer) handle(c net.Conn) {
	s.mu.Lock()
	at := s.At
	if len(s.Seq) > 0 {
		at, s.Seq = s.Seq[0], s.Seq[1:]
	}
	s.mu.Unlock()
	// step returns whether the dialogue goes on and whether it was accepted
	step := func(name string, code int, text ...string) (on, ok bool) {
		s.mu.Lock()
		a := at[name]
		s.Steps = append(s.Steps, name)
		s.mu.Unlock()
		if a.Drop {
			return false, false
		}
		if a.Code != 0 {
			return reply(c, a.Code, a.Text), a.Code/100 == code/100
		}
		return reply(c, code, text), true
	}
	secure := false
	rd := textproto.NewReader(bufio.NewReader(c))
	s.mu.Lock()
	cert, auth := s.TLS, s.Auth
	s.mu.Unlock()
	if on, _ := step("connect", 220, "test ESMTP"); !on {
		return
	}
	var from, to string
	for {
		line, err := rd.ReadLine()
		if err != nil {
			return
		}
		cmd := strings.ToUpper(line)
		if i := strings.IndexAny(cmd, " :"); i >= 0 {
			cmd = cmd[:i]
		}
		if !secure && cmd != "EHLO" && cmd != "HELO" && cmd != "STARTTLS" && cmd != "QUIT" {
			s.mu.Lock()
			s.Clear = append(s.Clear, line)
			s.mu.Unlock()
		}
		on := true
		switch cmd {
		case "EHLO":
			name := "ehlo"
			lines := []string{"test", "PIPELINING"}
			if secure {
				name = "ehlo2"
			} else if cert != nil {
				lines = append(lines, "STARTTLS")
			}
			if auth != "" {
				lines = append(lines, "AUTH "+auth)
			}
			lines = append(lines, "HELP")
			on, _ = step(name, 250, lines...)
		case "HELO":
			on, _ = step("helo", 250, "test")
		case "STARTTLS":
			var ok bool
			on, ok = step("starttls", 220, "go on")
			if ok && on && cert != nil {
				if at["handshake"].Drop {
					return
				}
				tc := tls.Server(c, &tls.Config{Certificates: []tls.Certificate{*cert}})
				if tc.Handshake() != nil {
					return
				}
				c, secure = tc, true
				rd = textproto.NewReader(bufio.NewReader(c))
			}
		case "AUTH":
			if strings.Contains(strings.ToUpper(line), "CRAM-MD5") {
				if !reply(c, 334, []string{base64.StdEncoding.EncodeToString([]byte("<challenge>"))}) {
					return
				}
				l, err := rd.ReadLine()
				if err != nil {
					return
				}
				if l == "*" {
					on = reply(c, 501, []string{"cancelled"})
					break
				}
			}
			on, _ = step("auth", 235, "ok")
		case "MAIL":
			var ok bool
			if on, ok = step("mail", 250, "ok"); ok {
				from = angle(line)
			}
		case "RCPT":
			var ok bool
			if on, ok = step("rcpt", 250, "ok"); ok {
				to = angle(line)
			}
		case "DATA":
			var ok bool
			if on, ok = step("data", 354, "go"); !ok || !on {
				break
			}
			data, err := rd.ReadDotBytes()
			if err != nil {
				return
			}
			a := at["body"]
			if !a.Drop && (a.Code == 0 || a.Code/100 == 2) {
				s.mu.Lock()
				s.Mails = append(s.Mails, Mail{from, to, data, secure})
				s.mu.Unlock()
			}
			on, _ = step("body", 250, "accepted")
		case "RSET":
			on, _ = step("rset", 250, "ok")
		case "QUIT":
			step("quit", 221, "bye")
			return
		default:
			on = reply(c, 500, []string{"what?"})
		}
		if !on {
			return
		}
	}
}

func angle(line string) string {
	i, j := strings.Index(line, "<"), strings.LastIndex(line, ">")
	if i < 0 || j < i {
		return line
	}
	return line[i+1 : j]
}

// SetSeq sets the behaviour of the next connections.
func (s *MailServer) SetSeq(seq []map[string]Action) {
	s.mu.Lock()
	s.Seq = seq
	s.mu.Unlock()
}
