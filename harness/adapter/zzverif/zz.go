// Package zzverif is what the verification harnesses are written with. Under
// the symbolic engine the functions marked "engine" are replaced; natively they
// take their values from a recorded case, so that a case found by the engine is
// run against the real code.
package zzverif

import (
	"crypto"
	"crypto/hmac"
	"crypto/rand"
	"crypto/rsa"
	_ "crypto/sha256"
	_ "crypto/sha512"
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/big"
	mrand "math/rand"
	"net/http"
	"os"
	"reflect"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/dgrijalva/jwt-go/v4"
	"github.com/gogo/protobuf/types"
	"go.uber.org/zap"
	"go.uber.org/zap/zapcore"
	policy "istio.io/api/policy/v1beta1"
)

// ---- inputs (engine) --------------------------------------------------------

// String is any printable ASCII text of at most max bytes.
func String(label string, max int) string { return input(label).str() }

// Bytes is any byte sequence of at most max bytes.
func Bytes(label string, max int) string { return input(label).str() }

// StringIn is any text over the given characters.
func StringIn(label, chars string, min, max int) string {
	s := input(label).str()
	if s == "" && min > 0 {
		s = strings.Repeat(chars[:1], min)
	}
	return s
}

// Digit is any base64 digit, of the standard or of the URL alphabet, and its
// value (engine).
func Digit(label string, std bool) (string, int) {
	alph := "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_"
	if std {
		alph = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"
	}
	s := StringIn(label, alph, 1, 1)
	return s, strings.Index(alph, s)
}

func Int(label string, lo, hi int) int {
	v := input(label)
	if v.Val == nil {
		return lo
	}
	return v.int()
}

func Bool(label string) bool { b, _ := input(label).Val.(bool); return b }

// Choose explores every value in [0,n).
func Choose(label string, n int) int { return input(label).int() }

func Assume(c bool) {
	if !c {
		panic(assumeFailed{})
	}
}

// ---- claims (engine) ----------------------------------------------------------

func Assert(c bool, label string) {
	if !c {
		mu.Lock()
		defer mu.Unlock()
		for _, f := range cur.Fails {
			if f == label {
				return
			}
		}
		cur.Fails = append(cur.Fails, label)
	}
}

// Reach marks a situation the harness must be able to produce.
func Reach(label string) {
	mu.Lock()
	defer mu.Unlock()
	for _, r := range cur.Reached {
		if r == label {
			return
		}
	}
	cur.Reached = append(cur.Reached, label)
}

// Observe records a value that the engine and the real run must agree on.
func Observe(label string, v interface{}) {
	mu.Lock()
	defer mu.Unlock()
	cur.Obs = append(cur.Obs, obs{label, show(v)})
}

// And, Or, Implies and Iff do not fork.
func And(cs ...bool) bool {
	for _, c := range cs {
		if !c {
			return false
		}
	}
	return true
}
func Or(cs ...bool) bool {
	for _, c := range cs {
		if c {
			return true
		}
	}
	return false
}
func Implies(a, b bool) bool { return !a || b }
func Iff(a, b bool) bool     { return a == b }
func IteStr(c bool, a, b string) string {
	if c {
		return a
	}
	return b
}
func IteInt(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}

// DeepEqual compares without forking.
func DeepEqual(a, b interface{}) bool { return reflect.DeepEqual(a, b) }

// Fork makes a condition concrete.
func Fork(c bool) bool { return c }

// Advance puts the clock forward that tokens are judged by (engine). The clock
// of cookies stays natively.
func Advance(seconds int) {
	mu.Lock()
	advanced += time.Duration(seconds) * time.Second
	d := advanced
	mu.Unlock()
	jwt.TimeFunc = func() time.Time { return time.Now().Add(d) }
}

var advanced time.Duration

// Now is the time tokens are judged by.
func Now() time.Time {
	mu.Lock()
	defer mu.Unlock()
	return time.Now().Add(advanced)
}

// Thorough tells whether the deeper bounds apply (engine).
func Thorough() bool {
	mu.Lock()
	defer mu.Unlock()
	b, _ := vals["thorough"].Val.(bool)
	return b
}

// Symbolic tells whether the engine is running.
func Symbolic() bool { return false }

// ---- concurrency (engine) --------------------------------------------------------

var wg sync.WaitGroup

func Go(f func()) {
	wg.Add(1)
	go func() {
		defer wg.Done()
		defer func() {
			if r := recover(); r != nil {
				mu.Lock()
				cur.Panic = fmt.Sprint(r)
				mu.Unlock()
			}
		}()
		f()
	}()
}

func Join() { wg.Wait() }

// Yield is a point at which other goroutines may run.
func Yield() {
	if jitter {
		switch mrand.Intn(3) {
		case 0:
			runtime.Gosched()
		case 1:
			time.Sleep(time.Duration(mrand.Intn(300)) * time.Microsecond)
		}
	}
}

// Pause is put before every statement of the compiled code when a schedule is
// looked for.
func Pause() {
	if jitter {
		switch mrand.Intn(32) {
		case 0, 1:
			runtime.Gosched()
		case 2:
			time.Sleep(time.Duration(mrand.Intn(300)) * time.Microsecond)
		}
	}
}

// ---- HTTP --------------------------------------------------------------------------

var savedTransport = http.DefaultTransport

// SetTransport installs the stub that answers HTTP requests (engine).
func SetTransport(rt http.RoundTripper) { http.DefaultTransport = rt }

// ---- log -----------------------------------------------------------------------

type logBuffer struct{ strings.Builder }

func (b *logBuffer) Write(p []byte) (int, error) {
	mu.Lock()
	defer mu.Unlock()
	return b.Builder.Write(p)
}
func (b *logBuffer) Sync() error { return nil }

var logged *logBuffer

// CaptureLog keeps what is logged at level info and above, with the encoding
// that is the default of the adapter (engine).
func CaptureLog() {
	logged = &logBuffer{}
	zap.ReplaceGlobals(zap.New(zapcore.NewCore(zapcore.NewConsoleEncoder(zap.NewProductionEncoderConfig()), logged, zap.InfoLevel)))
}

// TakeLog is what has been logged since CaptureLog or the last TakeLog (engine).
func TakeLog() string {
	if logged == nil {
		return ""
	}
	mu.Lock()
	defer mu.Unlock()
	s := logged.Builder.String()
	logged.Builder.Reset()
	return s
}

type failingReader struct{}

func (failingReader) Read([]byte) (int, error) { return 0, errors.New("random source failed") }

var savedRandom = rand.Reader

// FailRandom makes the system's random source fail (engine).
func FailRandom(on bool) {
	if on {
		rand.Reader = failingReader{}
	} else {
		rand.Reader = savedRandom
	}
}

type seededReader struct{ n uint64 }

func (r *seededReader) Read(b []byte) (int, error) {
	for i := range b {
		r.n++
		z := r.n * 0x9e3779b97f4a7c15
		z = (z ^ z>>30) * 0xbf58476d1ce4e5b9
		b[i] = byte(z >> 40)
	}
	return len(b), nil
}

// SeedRandom makes the system's random source begin the sequence of that
// number (engine).
func SeedRandom(n int) {
	rand.Reader = &seededReader{uint64(n) << 20}
}

// Reader is a response body.
type Reader struct {
	B    []byte
	used bool
	at   int
	// Closed counts the calls of Close.
	Closed int
}

func (r *Reader) Read(p []byte) (int, error) {
	if r.at >= len(r.B) {
		return 0, io.EOF
	}
	n := copy(p, r.B[r.at:])
	r.at += n
	return n, nil
}

func (r *Reader) Close() error { r.Closed++; return nil }

// Deadline is how long a request may take, in seconds; 0 when it may take for
// ever.
func Deadline(req *http.Request) int {
	d, ok := req.Context().Deadline()
	if !ok {
		return 0
	}
	return int(time.Until(d)/time.Second) + 1
}

// Response answers an HTTP request.
func Response(req *http.Request, status int, body []byte) *http.Response {
	return &http.Response{
		StatusCode: status,
		Status:     "status",
		Proto:      "HTTP/1.1",
		ProtoMajor: 1,
		ProtoMinor: 1,
		Header:     http.Header{},
		Body:       &Reader{B: body},
		Request:    req,
	}
}

// Transport answers requests with a function. Requests without an http(s) URL
// and a host fail as they do with the real transport.
type Transport struct {
	F func(req *http.Request) (*http.Response, error)
}

func (t *Transport) RoundTrip(req *http.Request) (*http.Response, error) {
	Yield()
	if req.URL == nil || (req.URL.Scheme != "http" && req.URL.Scheme != "https") {
		return nil, errors.New("unsupported protocol scheme")
	}
	if req.URL.Host == "" {
		return nil, errors.New("http: no Host in request URL")
	}
	return t.F(req)
}

// ---- documents ------------------------------------------------------------------------

// J is a JSON document. K is one of null bool number string array object
// invalid (not JSON) empty (no text).
type J struct {
	K    string
	S    string
	N    int
	H    bool // adds one half to N
	B    bool
	A    []*J
	Keys []string
}

func JS(s string) *J         { return &J{K: "string", S: s} }
func JN(n int, half bool) *J { return &J{K: "number", N: n, H: half} }
func JB(b bool) *J           { return &J{K: "bool", B: b} }
func JNull() *J              { return &J{K: "null"} }
func JInvalid() *J           { return &J{K: "invalid"} }
func JEmpty() *J             { return &J{K: "empty"} }
func JA(e ...*J) *J          { return &J{K: "array", A: e} }
func JO() *J                 { return &J{K: "object"} }

// With adds a member to an object.
func (j *J) With(k string, v *J) *J {
	j.Keys = append(j.Keys, k)
	j.A = append(j.A, v)
	return j
}

func (j *J) text() string {
	if j == nil {
		return "null"
	}
	switch j.K {
	case "bool":
		return strconv.FormatBool(j.B)
	case "number":
		f := float64(j.N)
		if j.H {
			f += 0.5
		}
		return strconv.FormatFloat(f, 'f', -1, 64)
	case "string":
		b, _ := json.Marshal(j.S)
		return string(b)
	case "array":
		var l []string
		for _, e := range j.A {
			l = append(l, e.text())
		}
		return "[" + strings.Join(l, ",") + "]"
	case "object":
		var l []string
		for i, e := range j.A {
			k, _ := json.Marshal(j.Keys[i])
			l = append(l, string(k)+":"+e.text())
		}
		return "{" + strings.Join(l, ",") + "}"
	case "invalid":
		return "<html>not json"
	case "empty":
		return ""
	}
	return "null"
}

// Body is the text of a document (engine).
func Body(j *J) []byte { return []byte(j.text()) }

// ---- tokens ---------------------------------------------------------------------------

// Tok describes a token. Sign is the algorithm that really made the signature
// ("" for a meaningless one, "none" for an empty one), Tamper is 1 when the
// signature and 2 when the payload was altered afterwards.
type Tok struct {
	Head   *J
	Claims *J
	Sign   string
	Key    int
	Tamper int
}

// Modulus is the modulus of fixture key i in hexadecimal and its exponent.
func Modulus(i int) (string, int) { return fixtures[i].n, 65537 }

// KeyN is the modulus of a fixture key as published in a JWK.
func KeyN(i int) string {
	b, _ := hex.DecodeString(evenHex(fixtures[i].n))
	return base64.RawURLEncoding.EncodeToString(b)
}

func evenHex(s string) string {
	if len(s)%2 == 1 {
		return "0" + s
	}
	return s
}

// KeyE is the exponent of every fixture key as published in a JWK.
const KeyE = "AQAB"

// PubKey is a fixture key.
func PubKey(i int) *rsa.PublicKey {
	b, _ := hex.DecodeString(evenHex(fixtures[i].n))
	n := new(big.Int)
	n.SetBytes(b)
	return &rsa.PublicKey{N: n, E: 65537}
}

// SameKey tells whether a decoded key is fixture key i.
func SameKey(k crypto.PublicKey, i int) bool {
	p, ok := k.(*rsa.PublicKey)
	if !ok || p == nil || p.N == nil {
		return false
	}
	return p.N.Cmp(PubKey(i).N) == 0 && p.E == 65537
}

// Token makes a token.
func Token(t Tok) string {
	n, e := Modulus(t.Key)
	return rawToken(t.Head, t.Claims, t.Sign, t.Key, t.Tamper, evenHex(n), e)
}

// rawToken (engine)
func rawToken(head, claims *J, sign string, key int, tamper int, modulus string, exp int) string {
	enc := base64.RawURLEncoding
	h := enc.EncodeToString([]byte(head.text()))
	p := enc.EncodeToString([]byte(claims.text()))
	text := h + "." + p
	signed := text
	if tamper == 2 {
		signed = h + "." + enc.EncodeToString([]byte(`{"other":1}`))
	}
	var sig []byte
	hashOf := func(c crypto.Hash) []byte {
		x := c.New()
		x.Write([]byte(signed))
		return x.Sum(nil)
	}
	k := privateKey(key)
	hash := map[string]crypto.Hash{"256": crypto.SHA256, "384": crypto.SHA384, "512": crypto.SHA512}
	var err error
	switch {
	case sign == "none":
		return text + "."
	case strings.HasPrefix(sign, "RS"):
		c := hash[sign[2:]]
		sig, err = rsa.SignPKCS1v15(rand.Reader, k, c, hashOf(c))
	case strings.HasPrefix(sign, "PS"):
		c := hash[sign[2:]]
		sig, err = rsa.SignPSS(rand.Reader, k, c, hashOf(c), &rsa.PSSOptions{SaltLength: rsa.PSSSaltLengthAuto})
	case strings.HasPrefix(sign, "HS"):
		m := hmac.New(hash[sign[2:]].New, k.N.Bytes())
		m.Write([]byte(signed))
		sig = m.Sum(nil)
	default:
		sig = make([]byte, 128)
		rand.Read(sig)
	}
	if err != nil {
		panic(err)
	}
	if tamper == 1 {
		sig[len(sig)/2] ^= 0x20
	}
	return text + "." + enc.EncodeToString(sig)
}

func privateKey(i int) *rsa.PrivateKey {
	n := func(s string) *big.Int { z, _ := new(big.Int).SetString(s, 16); return z }
	f := fixtures[i]
	k := &rsa.PrivateKey{PublicKey: rsa.PublicKey{N: n(f.n), E: 65537}, D: n(f.d), Primes: []*big.Int{n(f.p), n(f.q)}}
	k.Precompute()
	return k
}

// UnpackDetail gives the direct response packed into a status detail (engine).
func UnpackDetail(a *types.Any) *policy.DirectHttpResponse {
	if a == nil {
		return nil
	}
	r := &policy.DirectHttpResponse{}
	if err := types.UnmarshalAny(a, r); err != nil {
		return nil
	}
	return r
}

// ---- replay -------------------------------------------------------------------------------

type assumeFailed struct{}

type inputVal struct {
	Label string      `json:"label"`
	Kind  string      `json:"kind"`
	Val   interface{} `json:"val"`
}

func (v inputVal) str() string {
	s, _ := v.Val.(string)
	b := make([]byte, 0, len(s))
	for _, r := range s {
		b = append(b, byte(r))
	}
	return string(b)
}

func (v inputVal) int() int {
	s, _ := v.Val.(string)
	n, _ := strconv.Atoi(s)
	return n
}

type obs struct {
	Label string `json:"label"`
	Val   string `json:"val"`
}

type caseIn struct {
	Harness string     `json:"harness"`
	Inputs  []inputVal `json:"inputs"`
	Repeat  int        `json:"repeat"`
}

type caseOut struct {
	Fails   []string `json:"fails"`
	Reached []string `json:"reached"`
	Obs     []obs    `json:"obs"`
	Panic   string   `json:"panic"`
	Assume  bool     `json:"assume"`
	Hang    bool     `json:"hang"`
	Missing []string `json:"missing"`
	Runs    int      `json:"runs"`
}

var (
	mu     sync.Mutex
	cur    *caseOut
	vals   map[string]inputVal
	counts map[string]int
	jitter bool
)

func input(label string) inputVal {
	mu.Lock()
	defer mu.Unlock()
	counts[label]++
	if n := counts[label]; n > 1 {
		label = fmt.Sprintf("%s#%d", label, n)
	}
	v, ok := vals[label]
	if !ok {
		cur.Missing = append(cur.Missing, label)
	}
	return v
}

func show(v interface{}) string {
	switch x := v.(type) {
	case string:
		r := make([]rune, len(x))
		for i := 0; i < len(x); i++ {
			r[i] = rune(x[i])
		}
		return fmt.Sprintf("%q", string(r))
	}
	return fmt.Sprint(v)
}

func runCase(f func(), in caseIn) (out *caseOut) {
	mu.Lock()
	out = &caseOut{}
	cur = out
	vals = map[string]inputVal{}
	counts = map[string]int{}
	for _, v := range in.Inputs {
		vals[v.Label] = v
	}
	if advanced != 0 {
		advanced, jwt.TimeFunc = 0, time.Now
	}
	mu.Unlock()
	http.DefaultTransport = savedTransport
	rand.Reader = savedRandom
	defer func() {
		if logged != nil {
			logged = nil
			zap.ReplaceGlobals(zap.NewNop())
		}
		http.DefaultTransport = savedTransport
		rand.Reader = savedRandom
	}()
	done := make(chan struct{})
	go func() {
		defer close(done)
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(assumeFailed); ok {
					out.Assume = true
					return
				}
				mu.Lock()
				out.Panic = fmt.Sprint(r)
				mu.Unlock()
			}
		}()
		f()
	}()
	select {
	case <-done:
	case <-time.After(20 * time.Second):
		mu.Lock()
		out.Hang = true
		mu.Unlock()
	}
	return out
}

// Replay runs the recorded cases.
func Replay(harness map[string]func()) error {
	b, err := os.ReadFile(os.Getenv("ZZVERIF_IN"))
	if err != nil {
		return err
	}
	var cases []caseIn
	if err := json.Unmarshal(b, &cases); err != nil {
		return err
	}
	res := make([]*caseOut, len(cases))
	write := func() error {
		b, err := json.Marshal(res)
		if err != nil {
			return err
		}
		return os.WriteFile(os.Getenv("ZZVERIF_OUT"), b, 0644)
	}
	for i, c := range cases {
		f := harness[c.Harness]
		if f == nil {
			return fmt.Errorf("no harness %s", c.Harness)
		}
		n := c.Repeat
		if n < 1 {
			n = 1
		}
		jitter = n > 1
		start := time.Now()
		for k := 0; k < n; k++ {
			res[i] = runCase(f, c)
			res[i].Runs = k + 1
			if len(res[i].Fails) > 0 || res[i].Panic != "" || res[i].Hang || time.Since(start) > 30*time.Second {
				break
			}
		}
		if err := write(); err != nil {
			return err
		}
		if res[i].Hang {
			os.Exit(3)
		}
	}
	return nil
}

// SetCookie reads a Set-Cookie header. life is the number of seconds for which
// the browser keeps the cookie, 0 when it has no end.
func SetCookie(h string) (c *http.Cookie, life int) {
	l := (&http.Response{Header: http.Header{"Set-Cookie": {h}}}).Cookies()
	if len(l) != 1 {
		return nil, 0
	}
	c = l[0]
	switch {
	case c.MaxAge != 0:
		life = c.MaxAge
	case !c.Expires.IsZero():
		life = int(c.Expires.Unix() - time.Now().Unix())
		if life == 0 {
			life = -1
		}
	}
	return c, life
}
