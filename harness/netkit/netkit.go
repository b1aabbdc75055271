// Package netkit provides TLS servers on loopback addresses with certificates
// of a throw-away authority.
package netkit

import (
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/asn1"
	"encoding/pem"
	"io"
	stdlog "log"
	"math/big"
	"net"
	"net/http"
	"strconv"
	"time"

	"verif/vt"
)

// CA is a certificate authority whose one certificate is valid for all
// loopback names used.
type CA struct {
	PEM  []byte
	Cert tls.Certificate
}

// NewCA makes an authority and a server certificate for localhost and
// 127.0.0.1 to 127.0.0.9.
func NewCA() *CA { return NewBigCA(0) }

// NewBigCA creates an authority whose certificate has more than n bytes.
func NewBigCA(n int) *CA {
	key, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	vt.InfraIf(err)
	tmpl := &x509.Certificate{
		SerialNumber: big.NewInt(time.Now().UnixNano()), Subject: pkix.Name{CommonName: "verif"},
		NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(240 * time.Hour),
		IsCA: true, BasicConstraintsValid: true, KeyUsage: x509.KeyUsageCertSign | x509.KeyUsageDigitalSignature,
		ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth}, DNSNames: []string{"localhost"},
	}
	for i := 1; i < 10; i++ {
		tmpl.IPAddresses = append(tmpl.IPAddresses, net.IPv4(127, 0, 0, byte(i)))
	}
	if n > 0 {
		tmpl.ExtraExtensions = []pkix.Extension{{Id: asn1.ObjectIdentifier{1, 3, 6, 1, 4, 1, 99999, 1}, Value: make([]byte, n)}}
	}
	der, err := x509.CreateCertificate(rand.Reader, tmpl, tmpl, &key.PublicKey, key)
	vt.InfraIf(err)
	return &CA{pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der}), tls.Certificate{Certificate: [][]byte{der}, PrivateKey: key}}
}

// Quiet discards the messages of servers.
var Quiet = stdlog.New(io.Discard, "", 0)

// Ports finds a port that is free on all the given addresses and listens.
func Ports(hosts ...string) (port string, ls []net.Listener) {
	for try := 0; try < 50; try++ {
		l, err := net.Listen("tcp", net.JoinHostPort(hosts[0], "0"))
		vt.InfraIf(err)
		ls = []net.Listener{l}
		p := l.Addr().(*net.TCPAddr).Port
		ok := true
		for _, h := range hosts[1:] {
			l, err := net.Listen("tcp", net.JoinHostPort(h, strconv.Itoa(p)))
			if err != nil {
				ok = false
				break
			}
			ls = append(ls, l)
		}
		if ok {
			return strconv.Itoa(p), ls
		}
		for _, l := range ls {
			l.Close()
		}
	}
	panic("netkit: no free port")
}

// Serve runs an HTTPS server on l.
func (ca *CA) Serve(l net.Listener, h http.Handler) *http.Server {
	s := &http.Server{Handler: h, ErrorLog: Quiet}
	s.SetKeepAlivesEnabled(false)
	go s.Serve(tls.NewListener(l, &tls.Config{Certificates: []tls.Certificate{ca.Cert}}))
	return s
}
