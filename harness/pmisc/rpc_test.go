package pmisc

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math"
	"net/http"
	"net/http/httptest"
	"reflect"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"pgregory.net/rapid"

	"github.com/keyfuse/tokucore/xrpc"

	"verif/kit"
)

type obj = map[string]any

func str(t *rapid.T, label string) string {
	switch rapid.IntRange(0, 5).Draw(t, label+".k") {
	case 0:
		return ""
	case 1:
		return rapid.StringN(0, 12, -1).Draw(t, label)
	case 2:
		return fmt.Sprintf("%x", kit.Uniform(t, rapid.IntRange(1, 300).Draw(t, label+".n"), label))
	}
	return fmt.Sprintf("%x", kit.Uniform(t, 32, label))
}

func signed(t *rapid.T, bits int, label string) int64 {
	lo, hi := int64(math.MinInt64)>>(64-bits), int64(math.MaxInt64)>>(64-bits)
	return rapid.OneOf(rapid.SampledFrom([]int64{0, 1, -1, lo, hi}), rapid.Int64Range(lo, hi), rapid.Int64Range(0, 800000)).Draw(t, label)
}

func unsigned(t *rapid.T, bits int, label string) uint64 {
	hi := uint64(math.MaxUint64) >> (64 - bits)
	return rapid.OneOf(rapid.SampledFrom([]uint64{0, 1, hi, hi>>1 + 1}), rapid.Uint64Range(0, hi)).Draw(t, label)
}

func float(t *rapid.T, label string) float64 {
	return rapid.OneOf(rapid.SampledFrom([]float64{0, 1, 0.1, 1e-8, 20999999.9769, 21e6, 119116256505723.5, 1.7976931348623157e308, 5e-324}), rapid.Float64Range(0, 1e15), rapid.Map(rapid.Uint64Range(0, 21e14), func(v uint64) float64 { return float64(v) / 1e8 })).Draw(t, label)
}

// the results the typed methods have to return
type wBlockHeaderResult struct {
	Hash              string
	Confirmations     int64
	Height            int64
	Version           int64
	VersionHex        string
	MerkleRoot        string
	Time              uint64
	MedianTime        int64
	Nonce             int64
	Bits              string
	Difficulty        float64
	ChainWork         string
	PreviousBlockHash string
	NextBlockHash     string
}
type wBlockResult struct {
	Hash          string
	Confirmations int64
	StrippedSize  int32
	Size          int32
	Weight        int32
	Height        int64
	Version       int32
	VersionHex    string
	MerkleRoot    string
	Tx            []wTransactionResult
	NTx           uint32
	Time          int64
	Nonce         uint32
	Bits          string
	Difficulty    float64
	ChainWork     string
	PreviousHash  string
	NextHash      string
}
type wScriptSig struct {
	Asm string
	Hex string
}
type wVin struct {
	Coinbase  string
	Txid      string
	Vout      int
	ScriptSig wScriptSig
	Sequence  uint32
}
type wScriptPubKey struct {
	Asm       string
	Hex       string
	ReqSigs   int
	Type      string
	Addresses []string
}
type wVout struct {
	Value        float64
	N            int
	ScriptPubKey wScriptPubKey
}
type wTransactionResult struct {
	Hex      string
	Txid     string
	Version  int32
	Size     uint32
	Vsize    uint32
	Weight   uint32
	LockTime uint32
	Vin      []wVin
	Vout     []wVout
}

// the reply objects and the structures they stand for, drawn together
func header(t *rapid.T) (obj, *wBlockHeaderResult) {
	w := &wBlockHeaderResult{Hash: str(t, "hash"), Confirmations: signed(t, 64, "conf"), Height: signed(t, 64, "height"), Version: signed(t, 64, "version"), VersionHex: str(t, "vhex"), MerkleRoot: str(t, "root"),
		Time: unsigned(t, 64, "time"), MedianTime: signed(t, 64, "median"), Nonce: signed(t, 64, "nonce"), Bits: str(t, "bits"), Difficulty: float(t, "diff"), ChainWork: str(t, "work"), PreviousBlockHash: str(t, "prev"), NextBlockHash: str(t, "next")}
	o := obj{"hash": w.Hash, "confirmations": w.Confirmations, "height": w.Height, "version": w.Version, "versionHex": w.VersionHex, "merkleroot": w.MerkleRoot, "time": w.Time, "mediantime": w.MedianTime, "nonce": w.Nonce,
		"bits": w.Bits, "difficulty": w.Difficulty, "chainwork": w.ChainWork, "nTx": 5, "previousblockhash": w.PreviousBlockHash, "nextblockhash": w.NextBlockHash}
	if rapid.IntRange(0, 5).Draw(t, "ends") == 0 { // the first and last blocks have no neighbours
		delete(o, "previousblockhash")
		delete(o, "nextblockhash")
		w.PreviousBlockHash, w.NextBlockHash = "", ""
	}
	return o, w
}

func block(t *rapid.T) (obj, *wBlockResult) {
	w := &wBlockResult{Hash: str(t, "hash"), Confirmations: signed(t, 64, "conf"), StrippedSize: int32(signed(t, 32, "stripped")), Size: int32(signed(t, 32, "size")), Weight: int32(signed(t, 32, "weight")), Height: signed(t, 64, "height"),
		Version: int32(signed(t, 32, "version")), VersionHex: str(t, "vhex"), MerkleRoot: str(t, "root"), NTx: uint32(unsigned(t, 32, "ntx")), Time: signed(t, 64, "time"), Nonce: uint32(unsigned(t, 32, "nonce")), Bits: str(t, "bits"),
		Difficulty: float(t, "diff"), ChainWork: str(t, "work"), PreviousHash: str(t, "prev"), NextHash: str(t, "next")}
	txs := []any{}
	for i := rapid.IntRange(0, 3).Draw(t, "txs"); i > 0; i-- {
		x := wTransactionResult{Hex: str(t, "hex"), Txid: str(t, "txid"), Version: int32(signed(t, 32, "tver")), Size: uint32(unsigned(t, 32, "tsize")), Vsize: uint32(unsigned(t, 32, "tvsize")), Weight: uint32(unsigned(t, 32, "tweight")), LockTime: uint32(unsigned(t, 32, "lock"))}
		vin, vout := []any{}, []any{}
		for k := rapid.IntRange(0, 2).Draw(t, "ins"); k > 0; k-- {
			v := wVin{Sequence: uint32(unsigned(t, 32, "seq"))}
			o := obj{"sequence": v.Sequence}
			if rapid.Bool().Draw(t, "coinbase") {
				v.Coinbase = str(t, "cb")
				o["coinbase"] = v.Coinbase
			} else {
				v.Txid, v.Vout, v.ScriptSig = str(t, "vtxid"), int(unsigned(t, 32, "vn")), wScriptSig{Asm: str(t, "asm"), Hex: str(t, "shex")}
				o["txid"], o["vout"], o["scriptSig"] = v.Txid, v.Vout, obj{"asm": v.ScriptSig.Asm, "hex": v.ScriptSig.Hex}
			}
			x.Vin, vin = append(x.Vin, v), append(vin, o)
		}
		for k := rapid.IntRange(0, 2).Draw(t, "outs"); k > 0; k-- {
			v := wVout{Value: float(t, "value"), N: int(unsigned(t, 32, "n")), ScriptPubKey: wScriptPubKey{Asm: str(t, "pasm"), Hex: str(t, "phex"), ReqSigs: int(unsigned(t, 8, "req")), Type: str(t, "type")}}
			addrs := []any{}
			for m := rapid.IntRange(0, 2).Draw(t, "addrs"); m > 0; m-- {
				a := str(t, "addr")
				v.ScriptPubKey.Addresses, addrs = append(v.ScriptPubKey.Addresses, a), append(addrs, a)
			}
			p := obj{"asm": v.ScriptPubKey.Asm, "hex": v.ScriptPubKey.Hex, "reqSigs": v.ScriptPubKey.ReqSigs, "type": v.ScriptPubKey.Type}
			if len(addrs) > 0 || rapid.Bool().Draw(t, "noaddrs") {
				p["addresses"] = addrs
			}
			x.Vout, vout = append(x.Vout, v), append(vout, obj{"value": v.Value, "n": v.N, "scriptPubKey": p})
		}
		w.Tx = append(w.Tx, x)
		txs = append(txs, obj{"hex": x.Hex, "txid": x.Txid, "hash": "x", "version": x.Version, "size": x.Size, "vsize": x.Vsize, "weight": x.Weight, "locktime": x.LockTime, "vin": vin, "vout": vout})
	}
	o := obj{"hash": w.Hash, "confirmations": w.Confirmations, "strippedsize": w.StrippedSize, "size": w.Size, "weight": w.Weight, "height": w.Height, "version": w.Version, "versionHex": w.VersionHex, "merkleroot": w.MerkleRoot, "tx": txs,
		"nTx": w.NTx, "time": w.Time, "mediantime": 7, "nonce": w.Nonce, "bits": w.Bits, "difficulty": w.Difficulty, "chainwork": w.ChainWork, "previousblockhash": w.PreviousHash, "nextblockhash": w.NextHash}
	return o, w
}

// render writes JSON in one of the ways servers do.
func render(t *rapid.T, v any) []byte {
	var b []byte
	var err error
	if rapid.Bool().Draw(t, "indent") {
		b, err = json.MarshalIndent(v, " ", "\t")
	} else {
		b, err = json.Marshal(v)
	}
	if err != nil {
		t.Fatal(err)
	}
	return b
}

// differ compares a result with the expected one, by the names of the fields; "" when equal.
func differ(got, want reflect.Value, at string) string {
	for got.Kind() == reflect.Pointer && !got.IsNil() {
		got = got.Elem()
	}
	for want.Kind() == reflect.Pointer {
		want = want.Elem()
	}
	ok := false
	switch want.Kind() {
	case reflect.Struct:
		if got.Kind() != reflect.Struct {
			break
		}
		for i := 0; i < want.NumField(); i++ {
			name := want.Type().Field(i).Name
			f := got.FieldByName(name)
			if !f.IsValid() {
				return at + "." + name + " is missing"
			}
			if d := differ(f, want.Field(i), at+"."+name); d != "" {
				return d
			}
		}
		return ""
	case reflect.Slice:
		if got.Kind() != reflect.Slice || got.Len() != want.Len() {
			break
		}
		for i := 0; i < want.Len(); i++ {
			if d := differ(got.Index(i), want.Index(i), fmt.Sprintf("%s[%d]", at, i)); d != "" {
				return d
			}
		}
		return ""
	case reflect.String:
		ok = got.Kind() == reflect.String && got.String() == want.String()
	case reflect.Float64:
		ok = got.CanFloat() && got.Float() == want.Float()
	default:
		ok = (got.CanInt() || got.CanUint()) && fmt.Sprint(got) == fmt.Sprint(want)
	}
	if !ok {
		return fmt.Sprintf("%s is %v (%v), want %v", at, got, got.Kind(), want)
	}
	return ""
}

type request struct {
	verb, path, user, pass string
	auth                   bool
	body                   []byte
}

// server answers each request as the current script says and keeps what it was asked.
type server struct {
	*httptest.Server
	mu     sync.Mutex
	got    []request
	answer func(w http.ResponseWriter, r *http.Request, body []byte)
}

func newServer() *server {
	s := &server{}
	s.Server = httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		b, _ := io.ReadAll(r.Body)
		u, p, ok := r.BasicAuth()
		s.mu.Lock()
		s.got = append(s.got, request{r.Method, r.URL.Path, u, p, ok, b})
		f := s.answer
		s.mu.Unlock()
		f(w, r, b)
	}))
	return s
}

func (s *server) set(f func(w http.ResponseWriter, r *http.Request, body []byte)) {
	s.mu.Lock()
	s.got, s.answer = nil, f
	s.mu.Unlock()
}

func (s *server) host() string { return strings.TrimPrefix(s.URL, "http://") }

func drop(w http.ResponseWriter, some string) {
	c, _, err := w.(http.Hijacker).Hijack()
	if err != nil {
		return
	}
	io.WriteString(c, some)
	c.Close()
}

// rpc is one call of a typed method.
type rpc struct {
	method string
	params []any
	call   func(c *xrpc.Client) (any, error)
	zero   func(v any) bool
}

func drawCall(t *rapid.T) rpc {
	isnil := func(v any) bool { return reflect.ValueOf(v).IsNil() }
	hash := str(t, "arg")
	switch rapid.SampledFrom([]string{"getblockhash", "getblockcount", "getblockheader", "getblock"}).Draw(t, "method") {
	case "getblockhash":
		h := int(signed(t, 64, "arg"))
		return rpc{"getblockhash", []any{h}, func(c *xrpc.Client) (any, error) { v, err := c.GetBlockHash(h); return v, err }, func(v any) bool { return v.(string) == "" }}
	case "getblockcount":
		return rpc{"getblockcount", nil, func(c *xrpc.Client) (any, error) { v, err := c.GetBlockCount(); return v, err }, func(v any) bool { return v.(int) == 0 }}
	case "getblockheader":
		return rpc{"getblockheader", []any{hash}, func(c *xrpc.Client) (any, error) { v, err := c.GetBlockHeader(hash); return v, err }, isnil}
	}
	return rpc{"getblock", []any{hash, nil}, func(c *xrpc.Client) (any, error) { v, err := c.GetBlock(hash); return v, err }, isnil}
}

// result draws a result of the method: as sent, and as to be returned.
func (p rpc) result(t *rapid.T) (any, any) {
	switch p.method {
	case "getblockhash":
		s := str(t, "hash")
		return s, s
	case "getblockcount":
		n := int(signed(t, 64, "count"))
		return n, n
	case "getblockheader":
		o, w := header(t)
		return o, w
	}
	o, w := block(t)
	return o, w
}

// wrong draws a result no server may give for the method.
func (p rpc) wrong(t *rapid.T) any {
	any1 := []any{true, []any{}, obj{"a": 1}, 1.5, "x", []any{1}}
	switch p.method {
	case "getblockhash":
		any1 = []any{true, []any{}, obj{"hash": "x"}, 1.5, 7, []any{"x"}}
	case "getblockcount":
		any1 = []any{true, []any{}, obj{"count": 3}, 1.5, "7", []any{7}, json.Number("9223372036854775808"), json.Number("1e300")}
	default:
		any1 = []any{true, []any{}, "x", 1.5, []any{obj{}}, obj{"hash": 5}, obj{"hash": "x", "height": "5"}, obj{"hash": "x", "height": json.Number("9223372036854775808")}, obj{"hash": "x", "difficulty": "1"}, obj{"hash": "x", "time": 1.5}}
	}
	return rapid.SampledFrom(any1).Draw(t, "wrong")
}

func (q request) check(p rpc, user, pass string) string {
	var r struct {
		Method *string          `json:"method"`
		Params *json.RawMessage `json:"params"`
		ID     *json.RawMessage `json:"id"`
	}
	if q.verb != "POST" || q.path != "/" {
		return fmt.Sprintf("%s %s", q.verb, q.path)
	}
	if !q.auth || q.user != user || q.pass != pass {
		return fmt.Sprintf("credentials %v %q %q, want %q %q", q.auth, q.user, q.pass, user, pass)
	}
	if err := json.Unmarshal(q.body, &r); err != nil || r.Method == nil || r.Params == nil || r.ID == nil {
		return fmt.Sprintf("request %s: %v", q.body, err)
	}
	if *r.Method != p.method {
		return fmt.Sprintf("method %q, want %q", *r.Method, p.method)
	}
	d := json.NewDecoder(bytes.NewReader(*r.Params))
	d.UseNumber()
	var got []any
	if err := d.Decode(&got); err != nil || got == nil || len(got) != len(p.params) {
		return fmt.Sprintf("parameters %s, want %v", *r.Params, p.params)
	}
	for i, w := range p.params {
		switch w := w.(type) {
		case int:
			if n, ok := got[i].(json.Number); !ok || n.String() != strconv.Itoa(w) {
				return fmt.Sprintf("parameters %s, want %v", *r.Params, p.params)
			}
		case string:
			if got[i] != w {
				return fmt.Sprintf("parameters %s, want %v", *r.Params, p.params)
			}
		default: // the verbosity that includes transactions
			if n, ok := got[i].(json.Number); !ok || n.String() < "2" {
				return fmt.Sprintf("parameters %s, want the transactions included", *r.Params)
			}
		}
	}
	return ""
}

func slowly(err error, start time.Time) bool {
	return errors.Is(err, context.DeadlineExceeded) && time.Since(start) > 4*time.Second
}

func TestP30(t *testing.T) {
	r := kit.New(t, "P30", "the server is a local HTTP server; the typed methods stand for the client's calls", "fields a reply leaves out are zero; fields the result types do not have are ignored", "user names have no colon (HTTP basic authentication)", "redirections, and success codes other than 200, are not specified", "text behind the reply object is not specified", "calls that take over 4 s against an answering server are not judged")
	s := newServer()
	defer s.Close()
	client := func(t *rapid.T) (*xrpc.Client, string, string) {
		user := strings.ReplaceAll(rapid.OneOf(rapid.Just(""), rapid.Just("user"), rapid.String()).Draw(t, "user"), ":", "")
		pass := rapid.OneOf(rapid.Just(""), rapid.Just("pa:ss"), rapid.String()).Draw(t, "pass")
		return xrpc.NewClient(s.host(), user, pass), user, pass
	}

	r.Run(t, "replies", 2500, 20, "every typed call with any arguments and credentials; replies with any field values, error objects, failure codes, no, null or wrong results, cut or altered text, or none at all; non-trivial: every case", func(t *rapid.T, c *kit.Case) {
		cl, user, pass := client(t)
		p := drawCall(t)
		var want any
		var code int
		var message string
		status := 200
		var body []byte
		reply := obj{"id": rapid.SampledFrom([]any{0, 1}).Draw(t, "id"), "error": nil}
		kind := rapid.SampledFrom([]string{"good", "good", "good", "error", "error", "failure", "null", "missing", "wrong", "text", "cut", "altered", "closed", "half", "long"}).Draw(t, "reply")
		switch kind {
		case "good":
			reply["result"], want = p.result(t)
			if rapid.Bool().Draw(t, "noerr") {
				delete(reply, "error")
			}
			body = render(t, reply)
			if rapid.IntRange(0, 49).Draw(t, "big") == 0 { // blocks are megabytes long
				c.Class("reply of several megabytes")
				body = bytes.Replace(body, []byte("{"), append([]byte("{"), bytes.Repeat([]byte(" "), rapid.SampledFrom([]int{65 << 10, 1 << 20, 5 << 20, 11 << 20}).Draw(t, "pad"))...), 1)
			}
		case "error":
			code, message = int(signed(t, 32, "code")), str(t, "message")
			status = rapid.SampledFrom([]int{200, 500, 404, 400, 401, 503, 300, 305}).Draw(t, "status")
			reply["error"] = obj{"code": code, "message": message}
			reply["result"] = nil
			if rapid.IntRange(0, 3).Draw(t, "both") == 0 {
				reply["result"], _ = p.result(t)
			}
			if kit.Uniform(t, 1, "much")[0] < 10 { // much text is still an error
				if rapid.Bool().Draw(t, "inmessage") {
					message = strings.Repeat(message+"-", 1+rapid.SampledFrom([]int{70 << 10, 1 << 20}).Draw(t, "size")/(len(message)+1))
					reply["error"] = obj{"code": code, "message": message}
				} else {
					reply["result"] = strings.Repeat("00", rapid.SampledFrom([]int{70 << 10, 1 << 20}).Draw(t, "size"))
				}
				c.Class("error in a large reply")
			}
			body = render(t, reply)
		case "failure":
			status = rapid.SampledFrom([]int{400, 401, 403, 404, 405, 429, 300, 305, 306, 500, 502, 503}).Draw(t, "status")
			reply["result"], _ = p.result(t)
			body = rapid.SampledFrom([][]byte{nil, []byte("oops\n"), []byte("{}"), []byte("null"), render(t, reply), render(t, reply["result"])}).Draw(t, "body")
		case "null":
			reply["result"] = nil
			body = render(t, reply)
		case "missing":
			body = rapid.SampledFrom([][]byte{render(t, reply), []byte("{}"), []byte("null"), []byte(`{"id":0}`)}).Draw(t, "body")
		case "wrong":
			reply["result"] = p.wrong(t)
			body = render(t, reply)
		case "text":
			body = rapid.SampledFrom([][]byte{nil, []byte(" "), []byte("<html>busy</html>"), []byte("[]"), []byte(`"x"`), []byte("7"), []byte("true"), []byte("{"), []byte(`{"result":}`), []byte("result"), []byte(`[{"result":1}]`), []byte("\x00\x01")}).Draw(t, "body")
		case "cut":
			reply["result"], _ = p.result(t)
			body = bytes.TrimRight(render(t, reply), " \n\t")
			body = body[:rapid.IntRange(0, len(body)-1).Draw(t, "cut")]
		case "altered":
			reply["result"], _ = p.result(t)
			body = kit.Mutate(t, render(t, reply), "m")
		case "closed", "half", "long":
			reply["result"], _ = p.result(t)
			body = render(t, reply)
		}
		s.set(func(w http.ResponseWriter, q *http.Request, _ []byte) {
			switch kind {
			case "closed":
				drop(w, "")
			case "half": // the connection ends within the announced body
				drop(w, fmt.Sprintf("HTTP/1.1 200 OK\r\nContent-Length: %d\r\n\r\n%s", len(body)+10, body[:len(body)-1]))
			case "long": // the connection ends within a chunk
				drop(w, fmt.Sprintf("HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n%x\r\n%s", len(body)+50, body[:len(body)/2]))
			default:
				w.Header().Set("Content-Type", "application/json")
				w.WriteHeader(status)
				w.Write(body)
			}
		})
		what := fmt.Sprintf("%s %v, reply %s %d %.500s", p.method, p.params, kind, status, body)
		var got any
		var err error
		start := time.Now()
		kit.NoPanic(t, what, func() { got, err = p.call(cl) })
		if slowly(err, start) {
			c.Excluded("slow")
			return
		}
		s.mu.Lock()
		reqs := s.got
		s.mu.Unlock()
		if len(reqs) != 1 {
			t.Fatalf("%s: %d requests", what, len(reqs))
		}
		if d := reqs[0].check(p, user, pass); d != "" {
			t.Fatalf("%s: sent %s", what, d)
		}
		switch kind {
		case "good":
			if err != nil {
				t.Fatalf("%s: %v", what, err)
			}
			if d := differ(reflect.ValueOf(got), reflect.ValueOf(want), "result"); d != "" {
				t.Fatalf("%s: %s", what, d)
			}
		case "altered": // unless it is still an object with a result
			var a struct {
				Result *json.RawMessage `json:"result"`
				Error  *json.RawMessage `json:"error"`
			}
			if e := json.NewDecoder(bytes.NewReader(body)).Decode(&a); e != nil || (a.Error == nil && a.Result == nil) || a.Error != nil {
				if err == nil {
					t.Fatalf("%s: returned %+v", what, got)
				}
			} else if err == nil {
				w := reflect.New(reflect.TypeOf(got))
				if e := json.Unmarshal(*a.Result, w.Interface()); e != nil || differ(reflect.ValueOf(got), w, "") != "" {
					t.Fatalf("%s: returned %+v", what, got)
				}
			}
		default:
			if err == nil {
				t.Fatalf("%s: returned %+v", what, got)
			}
		}
		if err != nil && !p.zero(got) {
			t.Fatalf("%s: error %v with result %+v", what, err, got)
		}
		if kind == "error" && (!strings.Contains(err.Error(), strconv.Itoa(code)) || !strings.Contains(err.Error(), message)) {
			t.Fatalf("%s: reported as %v", what, err)
		}
		c.Nontrivial(kind, p.method, body)
		c.Class(kind)
		c.Sample("%s -> %v", what, err)
	})

	r.Run(t, "concurrent", 60, 20, "2..6 goroutines with several calls each, sharing a client, get the answers to their own calls; non-trivial: every case", func(t *rapid.T, c *kit.Case) {
		cl, user, pass := client(t)
		n := rapid.IntRange(2, 6).Draw(t, "n")
		k := rapid.IntRange(1, 8).Draw(t, "k")
		s.set(func(w http.ResponseWriter, q *http.Request, b []byte) {
			var m struct {
				Method string
				Params []any
			}
			json.Unmarshal(b, &m)
			var res any
			switch m.Method {
			case "getblockhash":
				res = fmt.Sprint(m.Params[0])
			case "getblockheader":
				res = obj{"hash": m.Params[0]}
			case "getblock":
				res = obj{"hash": m.Params[0], "height": 7}
			}
			x := obj{"result": res}
			if m.Method == "getblockcount" {
				x = obj{"error": obj{"code": 3, "message": "no count"}}
			}
			e, _ := json.Marshal(x)
			w.Write(e)
		})
		bad := make([]string, n)
		var wg sync.WaitGroup
		for i := range bad {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for j := 0; j < k; j++ {
					id := i*100 + j
					hash := fmt.Sprintf("h%d", id)
					start := time.Now()
					var err error
					ok := false
					switch id % 4 {
					case 0:
						var g string
						g, err = cl.GetBlockHash(id)
						ok = err == nil && g == fmt.Sprint(id)
					case 1:
						var g *xrpc.BlockHeaderResult
						g, err = cl.GetBlockHeader(hash)
						ok = err == nil && g.Hash == hash && g.Height == 0
					case 2:
						var g *xrpc.BlockResult
						g, err = cl.GetBlock(hash)
						ok = err == nil && g.Hash == hash && g.Height == 7
					case 3:
						_, err = cl.GetBlockCount()
						ok = err != nil && strings.Contains(err.Error(), "no count")
					}
					if !ok && !slowly(err, start) {
						bad[i] = fmt.Sprintf("call %d: %v", id, err)
					}
				}
			}()
		}
		wg.Wait()
		for _, b := range bad {
			if b != "" {
				t.Fatalf("%s", b)
			}
		}
		s.mu.Lock()
		defer s.mu.Unlock()
		if len(s.got) != n*k {
			t.Fatalf("%d requests for %d calls", len(s.got), n*k)
		}
		for _, q := range s.got {
			if q.user != user || q.pass != pass || q.verb != "POST" {
				t.Fatalf("request %+v", q)
			}
		}
		c.Nontrivial(n, k, user)
		c.Sample("%d x %d calls", n, k)
	})

	r.Run(t, "aged", 1, 4, "six clients in use for over six seconds, of servers that take up to two seconds to answer, in pieces; non-trivial: every case", func(t *rapid.T, c *kit.Case) {
		const clients = 6
		type step struct{ rest, think, gap time.Duration }
		var plan [clients][]step
		ms := func(most int, label string) time.Duration {
			return time.Duration(kit.Uniform(t, 1, label)[0]) * time.Duration(most) * time.Millisecond / 255
		}
		for i := range plan {
			total := time.Duration(0)
			for len(plan[i]) < 12 && total < 6500*time.Millisecond {
				st := step{rest: ms(1500, "rest"), think: ms(1500, "think"), gap: ms(500, "gap")}
				if len(plan[i]) == 1 && i%2 == 0 {
					st.rest += 5100 * time.Millisecond // long idle
				}
				total += st.rest + st.think + st.gap
				plan[i] = append(plan[i], st)
			}
		}
		bad := make([]string, clients)
		var wg sync.WaitGroup
		for i := range plan {
			s := newServer()
			defer s.Close()
			cl := xrpc.NewClient(s.host(), "u", "p")
			wg.Add(1)
			go func() {
				defer wg.Done()
				for j, st := range plan[i] {
					time.Sleep(st.rest)
					want := fmt.Sprintf("h%d", i*100+j)
					s.set(func(w http.ResponseWriter, q *http.Request, b []byte) {
						e, _ := json.Marshal(obj{"result": want})
						time.Sleep(st.think)
						w.Write(e[:5])
						w.(http.Flusher).Flush()
						time.Sleep(st.gap)
						w.Write(e[5:])
					})
					start := time.Now()
					g, err := cl.GetBlockHash(j)
					if (err != nil || g != want) && !slowly(err, start) {
						bad[i] = fmt.Sprintf("client %d, call %d of %v: %q %v", i, j, plan[i], g, err)
						return
					}
				}
			}()
		}
		wg.Wait()
		for _, b := range bad {
			if b != "" {
				t.Fatal(b)
			}
		}
		c.Nontrivial(fmt.Sprint(plan))
		c.Sample("%v", plan)
	})

	r.Run(t, "silent", 1, 3, "servers that do not answer, or stop within the answer, or cannot be reached, end in an error within a minute; non-trivial: every case", func(t *rapid.T, c *kit.Case) {
		p := []rpc{drawCall(t), drawCall(t), drawCall(t)}
		quit := make(chan struct{})
		var l []*server
		for i := 0; i < 2; i++ {
			s := newServer()
			s.set(func(w http.ResponseWriter, q *http.Request, b []byte) {
				if i == 1 {
					w.Header().Set("Content-Length", "1000")
					io.WriteString(w, `{"result":`)
					w.(http.Flusher).Flush()
				}
				<-quit
			})
			l = append(l, s)
		}
		gone := httptest.NewServer(nil)
		host := []string{l[0].host(), l[1].host(), strings.TrimPrefix(gone.URL, "http://")}
		gone.Close()
		done := make(chan error, 3)
		for i := range p {
			go func() { _, err := p[i].call(xrpc.NewClient(host[i], "u", "p")); done <- err }()
		}
		late := time.After(60 * time.Second)
		var bad string
		for range p {
			select {
			case err := <-done:
				if err == nil {
					bad = "success without an answer"
				}
			case <-late:
				bad = "a call waits for an answer for over a minute"
			}
		}
		close(quit)
		for _, s := range l {
			s.CloseClientConnections()
			s.Close()
		}
		if bad != "" {
			t.Fatal(bad)
		}
		c.Nontrivial(p[0].method, p[1].method, p[2].method)
		c.Sample("%s, %s, %s", p[0].method, p[1].method, p[2].method)
	})
}
