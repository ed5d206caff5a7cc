// dir: cran
package cran

import (
	"crypto/ecdsa"
	"crypto/elliptic"
	crand "crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/pem"
	"fmt"
	"io/ioutil"
	"log"
	"math/big"
	"net"
	"net/http"
	"net/http/httptest"
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"sync/atomic"
	"testing"
	"time"

	"github.com/metrumresearchgroup/pkgr/desc"
	"github.com/sirupsen/logrus"
	"github.com/spf13/afero"
)

// Servers on the loopback interface: one whose certificate is trusted, and ones whose certificate must not be accepted
// (nobody vouches for it, it is out of date, it is for another host), and one without TLS.

func tlCert(serial int64, host string, expired bool) (tls.Certificate, []byte) {
	k, err := ecdsa.GenerateKey(elliptic.P256(), crand.Reader)
	if err != nil {
		panic(err)
	}
	c := &x509.Certificate{SerialNumber: big.NewInt(serial), Subject: pkix.Name{CommonName: fmt.Sprint("verif", serial)}, NotBefore: time.Now().Add(-48 * time.Hour), NotAfter: time.Now().Add(48 * time.Hour),
		KeyUsage: x509.KeyUsageDigitalSignature | x509.KeyUsageCertSign, ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth}, BasicConstraintsValid: true, IsCA: true}
	if expired {
		c.NotAfter = time.Now().Add(-24 * time.Hour)
	}
	if host == "" {
		c.IPAddresses = []net.IP{net.ParseIP("127.0.0.1")}
	} else {
		c.DNSNames = []string{host}
	}
	der, err := x509.CreateCertificate(crand.Reader, c, c, &k.PublicKey, k)
	if err != nil {
		panic(err)
	}
	return tls.Certificate{Certificate: [][]byte{der}, PrivateKey: k}, pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der})
}

type tlServer struct {
	*httptest.Server
	bad func(path string) string // what goes wrong for this path
}

func tlServe(cert *tls.Certificate) *tlServer {
	s := &tlServer{}
	s.Server = httptest.NewUnstartedServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		body := tlBody(r.URL.Path)
		k := ""
		if s.bad != nil {
			k = s.bad(r.URL.Path)
		}
		switch k {
		case "":
			fmt.Fprint(w, body)
		case "chunked":
			fmt.Fprint(w, body[:len(body)/2])
			w.(http.Flusher).Flush()
			fmt.Fprint(w, body[len(body)/2:])
		case "cut": // the connection is lost on the way
			w.Header().Set("Content-Length", fmt.Sprint(len(body)))
			fmt.Fprint(w, body[:len(body)/2])
			panic(http.ErrAbortHandler)
		case "cutchunk":
			fmt.Fprint(w, body[:len(body)/2])
			w.(http.Flusher).Flush()
			panic(http.ErrAbortHandler)
		case "drop":
			panic(http.ErrAbortHandler)
		default:
			var c int
			fmt.Sscan(k, &c)
			w.WriteHeader(c)
			if c != 204 && c != 304 {
				fmt.Fprint(w, "sorry, no such thing here")
			}
		}
	}))
	s.Config.ErrorLog = log.New(ioutil.Discard, "", 0)
	if cert == nil {
		s.Start()
	} else {
		s.TLS = &tls.Config{Certificates: []tls.Certificate{*cert}}
		s.StartTLS()
	}
	return s
}

func tlBody(path string) string {
	if strings.HasSuffix(path, "/PACKAGES") {
		return "Package: R6\nVersion: 1.0\nNeedsCompilation: no\n\nPackage: ab\nVersion: 2.0\nDepends: R6\n"
	}
	return "this is what the server has at " + path + strings.Repeat(".", len(path)*500)
}

type tlServers struct{ good, self, old, other, plain *tlServer }

func tlStart(dir string) *tlServers {
	good, ca := tlCert(1, "", false)
	self, _ := tlCert(2, "", false)
	old, ca2 := tlCert(3, "", true)
	other, ca3 := tlCert(4, "packages.example.org", false)
	os.MkdirAll(filepath.Join(dir, "none"), 0755)
	f := filepath.Join(dir, "roots.pem")
	ioutil.WriteFile(f, append(append(ca, ca2...), ca3...), 0644)
	os.Setenv("SSL_CERT_FILE", f)
	os.Setenv("SSL_CERT_DIR", filepath.Join(dir, "none"))
	return &tlServers{tlServe(&good), tlServe(&self), tlServe(&old), tlServe(&other), tlServe(nil)}
}

var tlDir, tlAll = func() (string, *tlServers) {
	if os.Getenv("VERIF_SCRATCH") == "" {
		return "", nil
	}
	d, err := ioutil.TempDir(os.Getenv("VERIF_SCRATCH"), "tls")
	if err != nil {
		panic(err)
	}
	return d, tlStart(d)
}()

func (s *tlServers) pick(k string) *tlServer {
	return map[string]*tlServer{"good": s.good, "self": s.self, "old": s.old, "other": s.other, "plain": s.plain}[k]
}

// fatal: log.Fatal ends the process; here it ends the goroutine and is noted
func tlFatal() *int32 {
	n := new(int32)
	logrus.StandardLogger().ExitFunc = func(int) {
		atomic.AddInt32(n, 1)
		runtime.Goexit()
	}
	return n
}

type tlCase struct {
	Server   string
	Bad      string
	NoSecure bool
	Type     SourceType
	Before   []string // earlier requests of this process
}

func (c tlCase) ok() bool {
	return (c.Bad == "" || c.Bad == "chunked") && (c.NoSecure || c.Server == "good" || c.Server == "plain")
}

func (v *verifRun) tlCase0() tlCase {
	return tlCase{v.Pick("good", "self", "old", "other", "plain"), v.Pick("", "", "", "chunked", "cut", "cutchunk", "drop", "404", "403", "500", "503", "204", "202", "206"), v.R.Intn(2) == 0, SourceType(v.R.Intn(3)), nil}
}

// A package counts as downloaded exactly when it was delivered, completely, by a server that is trusted or need not be.
func TestVerifC18Download(t *testing.T) {
	v := verifStart(t)
	defer v.Done()
	n := tlFatal()
	rv := RVersion{3, 6, 1}
	for i := 0; i < v.N(300) && v.More(); i++ {
		dir := v.Scratch()
		fs := afero.NewOsFs()
		var cases []tlCase
		for k := 2 + v.R.Intn(5); k > 0; k-- {
			cases = append(cases, v.tlCase0())
		}
		v.Case(cases, func() {
			for _, c := range cases {
				s := tlAll.pick(c.Server)
				c := c
				s.bad = func(string) string { return c.Bad }
				d := PkgDl{Package: desc.Desc{Package: "R6", Version: "1.0"}, Config: PkgConfig{Repo: RepoURL{Name: "r", URL: s.URL}, Type: c.Type}}
				dest := filepath.Join(dir, "R6_1.0.tar.gz")
				have, _ := ioutil.ReadFile(dest)
				var dl Download
				var err error
				if !v.Within(20*time.Second, func() { dl, err = DownloadPackage(fs, d, dest, rv, c.NoSecure) }) || atomic.LoadInt32(n) > 0 {
					v.Fail(cases, "%+v: the download did not end", c)
					return
				}
				b, _ := ioutil.ReadFile(dest)
				if have != nil { // it was there already
					if err != nil || dl.New || string(b) != string(have) {
						v.Fail(cases, "%+v: error %v, new %v for a package that was there", c, err, dl.New)
					}
					continue
				}
				if c.ok() != (err == nil) {
					v.Fail(cases, "%+v: error %v", c, err)
					return
				}
				if err != nil {
					if b != nil {
						v.Fail(cases, "%+v: error, but there is a file", c)
						return
					}
					continue
				}
				if len(b) == 0 || !strings.HasPrefix(string(b), "this is what the server has at /") || len(b) != int(dl.Size) || strings.Contains(string(b), "sorry") || !tlComplete(string(b)) {
					v.Fail(cases, "%+v: downloaded %d bytes, but the file has: %.80s", c, dl.Size, b)
				}
				if v.R.Intn(2) == 0 {
					os.Remove(dest)
				}
			}
		})
		v.Drop(dir)
	}
}

func tlComplete(b string) bool {
	p := strings.TrimRight(strings.TrimPrefix(b, "this is what the server has at "), ".")
	return b == tlBody(p)
}

// Many at a time: recorded are the delivered ones.
func TestVerifC18Downloads(t *testing.T) {
	v := verifStart(t)
	defer v.Done()
	n := tlFatal()
	rv := RVersion{3, 6, 1}
	for i := 0; i < v.N(60) && v.More(); i++ {
		dir := v.Scratch()
		noSecure := v.R.Intn(2) == 0
		var ds []PkgDl
		cases := map[string]tlCase{}
		bad := map[string]string{}
		for k := 1 + v.R.Intn(12); k > 0; k-- {
			c := v.tlCase0()
			c.NoSecure = noSecure
			name := fmt.Sprintf("p%d", k)
			cases[name] = c
			bad[name] = c.Bad
			s := tlAll.pick(c.Server)
			s.bad = func(path string) string { return bad[strings.Split(path[strings.LastIndex(path, "/")+1:], "_")[0]] }
			ds = append(ds, PkgDl{Package: desc.Desc{Package: name, Version: "1.0"}, Config: PkgConfig{Repo: RepoURL{Name: c.Server, URL: s.URL}, Type: c.Type}})
		}
		v.Case(cases, func() {
			var m *PkgMap
			var err error
			if !v.Within(30*time.Second, func() { m, err = DownloadPackages(afero.NewOsFs(), ds, filepath.Join(dir, "c"), rv, noSecure) }) || atomic.LoadInt32(n) > 0 {
				v.Fail(cases, "the downloads did not end")
				return
			}
			if err != nil {
				v.Fail(cases, "%v", err)
				return
			}
			for p, c := range cases {
				dl, ok := m.Get(p)
				if ok != c.ok() {
					v.Fail(cases, "%s recorded as downloaded: %v", p, ok)
					continue
				}
				if b, _ := ioutil.ReadFile(dl.Path); ok && !tlComplete(string(b)) {
					v.Fail(cases, "%s: the file has: %.80s", p, b)
				}
			}
		})
		v.Drop(dir)
	}
}

// Package lists: taken from a server that is trusted or need not be, and otherwise the run reports an error or ends.
func TestVerifC18List(t *testing.T) {
	v := verifStart(t)
	defer v.Done()
	n := tlFatal()
	for i := 0; i < v.N(60) && v.More(); i++ {
		c := v.tlCase0()
		s := tlAll.pick(c.Server)
		c.Type = Source
		s.bad = func(string) string { return c.Bad }
		v.Case(c, func() {
			atomic.StoreInt32(n, 0)
			var db *PkgNexus
			var err error
			url := RepoURL{Name: "r", URL: fmt.Sprintf("%s/list%d", s.URL, i)}
			done := make(chan bool, 1)
			go func() {
				defer func() { done <- true }()
				db, err = NewPkgDb([]RepoURL{url}, Source, &InstallConfig{Packages: map[string]PkgConfig{}, Repos: map[string]RepoConfig{}}, RVersion{3, 6, 1}, c.NoSecure)
			}()
			ended := false
			for k := 0; k < 1000 && !ended && atomic.LoadInt32(n) == 0; k++ {
				select {
				case <-done:
					ended = true
				case <-time.After(10 * time.Millisecond):
				}
			}
			if !ended && atomic.LoadInt32(n) == 0 {
				v.Fail(c, "the package list was never obtained, and there was no error")
				return
			}
			got := ended && err == nil
			if got != c.ok() {
				v.Fail(c, "list accepted: %v (error %v)", got, err)
				return
			}
			if got {
				d, cfg, ok := db.GetPackage("ab")
				if !ok || d.Version != "2.0" || cfg.Repo.URL != url.URL {
					v.Fail(c, "the list was accepted, but the package is %v %v %v", d, cfg, ok)
				}
			}
		})
	}
}
