package networking

import (
	"errors"
	"net/http"
	"strconv"
	"time"

	zz "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/zzverif"
)

// zzDoc is a document that is valid when its name is not empty.
type zzDoc struct {
	Name  string `json:"name"`
	Count int    `json:"count"`
	valid int
}

func (d *zzDoc) OK() error {
	d.valid++
	if d.Name == "" {
		return errors.New("missing name")
	}
	return nil
}

// zzBody is the body of an answer: good tells whether it is a valid document,
// bad whether it is none at all.
func zzBody(label string) (body []byte, name string, count int, good, bad bool) {
	switch zz.Choose(label, 7) {
	case 0:
		return zz.Body(zz.JInvalid()), "", 0, false, true
	case 1:
		return zz.Body(zz.JEmpty()), "", 0, false, true
	case 2:
		return zz.Body(zz.JO().With("name", zz.JN(1, false))), "", 0, false, true
	case 3:
		return zz.Body(zz.JO().With("count", zz.JS("x")).With("name", zz.JS("a"))), "", 0, false, true
	case 4:
		return zz.Body(zz.JO().With("other", zz.JS("a"))), "", 0, false, false
	case 5:
		return zz.Body(zz.JA()), "", 0, false, true
	}
	name = zz.String(label+".name", 100)
	count = zz.Int(label+".count", -1000, 1000)
	return zz.Body(zz.JO().With("name", zz.JS(name)).With("count", zz.JN(count, false))), name, count, name != "", false
}

// A response is used only when it decodes and validates.
//
//verif:bound=any_2xx,4xx_or_5xx_status,_7_kinds_of_body,_names_of_at_most_100_characters budget=60 tbudget=100
func Verif_C21_response() {
	c := New()
	sent := 0
	header := true
	var status int
	var fail, good, bad bool
	var name string
	var count int
	zz.SetTransport(&zz.Transport{F: func(req *http.Request) (*http.Response, error) {
		sent++
		header = zz.And(header, req.Header.Get("x-filter-type") == "IstioAdapter", len(req.Header["X-Filter-Type"]) == 1)
		if zz.Choose("reach", 2) == 0 {
			fail = true
			return nil, errors.New("connection refused")
		}
		status = zz.Int("status", 200, 599)
		zz.Assume(zz.Or(status < 300, status > 399))
		var b []byte
		b, name, count, good, bad = zzBody("body")
		return zz.Response(req, status, b), nil
	}})
	method := []string{"GET", "POST"}[zz.Choose("method", 2)]
	req, err := http.NewRequest(method, "https://idp.example/doc", nil)
	if err != nil {
		panic(err)
	}
	if zz.Choose("preset", 2) == 1 {
		req.Header.Set("x-filter-type", "other")
	}
	var s, f *zzDoc
	var si, fi OK
	which := zz.Choose("targets", 4)
	if which&1 == 1 {
		s = &zzDoc{Name: "before"}
		si = s
	}
	if which&2 == 2 {
		f = &zzDoc{Name: "before"}
		fi = f
	}
	res, err := c.Do(req, si, fi)
	zz.Assert(sent == 1, "the request was not sent exactly once")
	zz.Assert(header, "the request does not carry the adapter's marker header")
	if fail {
		zz.Reach("transport failure")
		zz.Assert(err != nil, "a transport failure was not reported")
		zz.Assert(s == nil || s.Name == "before", "content without a response")
		return
	}
	if zz.Fork(status <= 299) {
		zz.Assert(f == nil || f.Name == "before" && f.valid == 0, "the failure document was filled from a success")
		if s != nil {
			// a member missing from the document keeps its value
			zz.Assert(zz.Implies(good, err == nil), "a valid document was refused")
			zz.Assert(zz.Implies(bad, err != nil), "a document that cannot be decoded is not reported")
			if good && err == nil {
				zz.Reach("success")
				zz.Assert(zz.And(s.Name == name, s.Count == count), "the document was decoded to something else")
				zz.Assert(s.valid > 0, "the document was not validated")
			}
		}
	} else {
		zz.Assert(s == nil || s.Name == "before" && s.valid == 0, "success content from a failed response")
		if f != nil {
			zz.Assert(zz.Implies(good, err == nil), "a valid error document was refused")
			zz.Assert(zz.Implies(bad, err != nil), "an error document that cannot be decoded is not reported")
			if good && err == nil {
				zz.Reach("failure document")
				zz.Assert(zz.And(f.Name == name, f.Count == count), "the error document was decoded to something else")
			}
		}
	}
	if err == nil {
		zz.Assert(res != nil && res.StatusCode == status, "the status is lost")
	}
}

// A document that does not decode or validate is an error whatever the status.
//
//verif:bound=any_2xx,4xx_or_5xx_status,_7_kinds_of_body budget=60 tbudget=100
func Verif_C21_invalid() {
	c := New()
	var good bool
	zz.SetTransport(&zz.Transport{F: func(req *http.Request) (*http.Response, error) {
		status := zz.Int("status", 200, 599)
		zz.Assume(zz.Or(status < 300, status > 399))
		var b []byte
		b, _, _, good, _ = zzBody("body")
		return zz.Response(req, status, b), nil
	}})
	req, err := http.NewRequest("GET", "https://idp.example/doc", nil)
	if err != nil {
		panic(err)
	}
	s, f := &zzDoc{}, &zzDoc{}
	_, err = c.Do(req, s, f)
	zz.Observe("err", err != nil)
	zz.Assert(zz.Iff(err == nil, good), "an invalid document is not reported as an error")
	if err != nil {
		zz.Reach("refused")
	}
}

// Retried operations run until the first success.
//
//verif:bound=at_most_6_(9)_attempts,_any_outcome_of_each budget=60 tbudget=100
func Verif_C21_retry() {
	max := 6
	if zz.Thorough() {
		max = 9
	}
	attempts := 1 + zz.Choose("attempts", max)
	calls, succeeded := 0, false
	var last error
	r, err := Retry(attempts, time.Nanosecond, func() (interface{}, error) {
		calls++
		if succeeded {
			zz.Assert(false, "called again after a success")
		}
		if zz.Bool("ok" + strconv.Itoa(calls)) {
			succeeded = true
			last = nil
			if zz.Choose("nil", 2) == 1 {
				return nil, nil
			}
			return calls, nil
		}
		last = errors.New("failed " + strconv.Itoa(calls))
		return "partial", last
	})
	zz.Observe("calls", calls)
	zz.Assert(calls >= 1 && calls <= attempts, "more attempts than given")
	zz.Assert(err == last, "not the last error")
	if succeeded {
		zz.Reach("success")
		if r != nil {
			zz.Assert(r.(int) == calls, "not the first success")
		}
	} else {
		zz.Reach("exhausted")
		zz.Assert(calls == attempts, "given up before the last attempt")
		zz.Assert(err != nil, "failure lost")
	}
}
