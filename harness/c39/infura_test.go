package c39

import (
	"bufio"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/base64"
	"encoding/pem"
	"fmt"
	"io"
	"math/big"
	"net"
	"net/http"
	"net/url"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"vharness/rpcsim"
)

// The public node of main net is reached through a proxy that answers in its
// place, with a certificate that the daemon is told to trust; the user name
// given to the proxy picks the node.
var (
	infuraProxy, infuraCert string
	infuraNodes             sync.Map
	infuraN                 int64
)

func infura(h func(*rpcsim.Req) (string, string)) string {
	id := fmt.Sprintf("n%d", atomic.AddInt64(&infuraN, 1))
	infuraNodes.Store(id, h)
	return id
}

func startInfura(dir string) error {
	key, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	if err != nil {
		return err
	}
	tm := &x509.Certificate{SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: "api.infura.io"}, DNSNames: []string{"api.infura.io"},
		NotBefore: time.Now().Add(-24 * time.Hour), NotAfter: time.Now().Add(240 * time.Hour), IsCA: true, BasicConstraintsValid: true,
		KeyUsage: x509.KeyUsageDigitalSignature | x509.KeyUsageCertSign, ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth}}
	der, err := x509.CreateCertificate(rand.Reader, tm, tm, key.Public(), key)
	if err != nil {
		return err
	}
	infuraCert = filepath.Join(dir, "ca.pem")
	if err := os.WriteFile(infuraCert, pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der}), 0644); err != nil {
		return err
	}
	os.Chmod(infuraCert, 0644)
	conf := &tls.Config{Certificates: []tls.Certificate{{Certificate: [][]byte{der}, PrivateKey: key}}}
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		return err
	}
	infuraProxy = l.Addr().String()
	go func() {
		for {
			k, err := l.Accept()
			if err != nil {
				return
			}
			go func() {
				defer k.Close()
				req, err := http.ReadRequest(bufio.NewReader(k))
				if err != nil {
					return
				}
				b, _ := base64.StdEncoding.DecodeString(strings.TrimPrefix(req.Header.Get("Proxy-Authorization"), "Basic "))
				h, ok := infuraNodes.Load(strings.Split(string(b), ":")[0])
				if !ok || req.Method != "CONNECT" || req.Host != "api.infura.io:443" {
					io.WriteString(k, "HTTP/1.1 502 Bad Gateway\r\n\r\n")
					return
				}
				io.WriteString(k, "HTTP/1.1 200 OK\r\n\r\n")
				t := tls.Server(k, conf)
				defer t.Close()
				r := bufio.NewReader(t)
				for {
					req, err := http.ReadRequest(r)
					if err != nil {
						return
					}
					body := answerInfura(h.(func(*rpcsim.Req) (string, string)), req)
					st := "200 OK"
					if body == "" {
						st = "404 Not Found"
					}
					if _, err := fmt.Fprintf(t, "HTTP/1.1 %s\r\nContent-Type: application/json\r\nContent-Length: %d\r\n\r\n%s", st, len(body), body); err != nil {
						return
					}
				}
			}()
		}
	}()
	return nil
}

func answerInfura(h func(*rpcsim.Req) (string, string), req *http.Request) string {
	const base = "/v1/jsonrpc/mainnet"
	if !strings.HasPrefix(req.URL.Path, base) {
		return ""
	}
	raw, _ := io.ReadAll(req.Body)
	if req.Method == "GET" {
		q, err := url.ParseQuery(req.URL.RawQuery)
		if err != nil {
			return ""
		}
		ps := q.Get("params")
		if ps == "null" || ps == "" {
			ps = "[]"
		}
		raw = []byte(fmt.Sprintf(`{"jsonrpc":"2.0","id":1,"method":%q,"params":%s}`, strings.TrimPrefix(req.URL.Path, base+"/"), ps))
	}
	q, err := rpcsim.ParseReq(raw)
	if err != nil {
		return ""
	}
	res, msg := h(q)
	if msg != "" {
		return fmt.Sprintf(`{"jsonrpc":"2.0","id":%s,"error":{"code":-32000,"message":%q}}`, q.ID, msg)
	}
	return fmt.Sprintf(`{"jsonrpc":"2.0","id":%s,"result":%s}`, q.ID, res)
}
