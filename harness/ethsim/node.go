package ethsim

import (
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io"
	"math/big"
	"math/rand"
	"net"
	"net/http"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"

	"github.com/ethereum/go-ethereum/core/types"
	"github.com/ethereum/go-ethereum/rlp"

	"vharness/abigen"
	"vharness/ref"
	"vharness/rpcsim"
)

// Node is a node that answers one tool run and records its requests.
type Node struct {
	URL    string
	Handle func(q *rpcsim.Req) (result string, errmsg string)

	mu   sync.Mutex
	Reqs []*rpcsim.Req
	Bad  []string
	stop func()
}

var (
	srvOnce sync.Once
	srvURL  string
	srvErr  error
	nodes   sync.Map
	nodeN   int64
)

func serve() {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		srvErr = err
		return
	}
	srvURL = "http://" + l.Addr().String()
	go http.Serve(l, http.HandlerFunc(func(w http.ResponseWriter, req *http.Request) {
		n, ok := nodes.Load(req.URL.Path)
		if !ok {
			http.Error(w, "no such node", 404)
			return
		}
		body, _ := io.ReadAll(req.Body)
		w.Header().Set("Content-Type", "application/json")
		w.Write(n.(*Node).answer(body))
	}))
}

func (n *Node) answer(body []byte) []byte {
	q, err := rpcsim.ParseReq(body)
	n.mu.Lock()
	defer n.mu.Unlock()
	if err != nil {
		n.Bad = append(n.Bad, fmt.Sprintf("%v: %s", err, body))
		return []byte(`{"jsonrpc":"2.0","id":null,"error":{"code":-32700,"message":"parse error"}}`)
	}
	n.Reqs = append(n.Reqs, q)
	res, msg := n.Handle(q)
	if msg != "" {
		return []byte(fmt.Sprintf(`{"jsonrpc":"2.0","id":%s,"error":{"code":-32000,"message":%q}}`, q.ID, msg))
	}
	return []byte(fmt.Sprintf(`{"jsonrpc":"2.0","id":%s,"result":%s}`, q.ID, res))
}

// Listen starts a node on HTTP, or on a socket in dir.
func Listen(dir string, unix bool) (*Node, error) {
	if unix {
		return ListenAt(filepath.Join(dir, "n.ipc"))
	}
	return ListenAt("")
}

// ListenAt starts a node on the socket, or on HTTP without one.
func ListenAt(p string) (*Node, error) {
	n := &Node{}
	if p != "" {
		l, err := net.Listen("unix", p)
		if err != nil {
			return nil, err
		}
		os.Chmod(p, 0777)
		n.URL = p
		go func() {
			for {
				c, err := l.Accept()
				if err != nil {
					return
				}
				go func() {
					defer c.Close()
					d := json.NewDecoder(c)
					for {
						var raw json.RawMessage
						if d.Decode(&raw) != nil {
							return
						}
						if _, err := c.Write(append(n.answer(raw), '\n')); err != nil {
							return
						}
					}
				}()
			}
		}()
		n.stop = func() { l.Close() }
		return n, nil
	}
	srvOnce.Do(serve)
	if srvErr != nil {
		return nil, srvErr
	}
	path := fmt.Sprintf("/%d", atomic.AddInt64(&nodeN, 1))
	nodes.Store(path, n)
	n.URL = srvURL + path
	n.stop = func() { nodes.Delete(path) }
	return n, nil
}

func (n *Node) Close() { n.stop() }

// Requests with the method.
func (n *Node) Calls(method string) []*rpcsim.Req {
	n.mu.Lock()
	defer n.mu.Unlock()
	var out []*rpcsim.Req
	for _, q := range n.Reqs {
		if q.Method == method {
			out = append(out, q)
		}
	}
	return out
}

// Log is the list of requests.
func (n *Node) Log() string {
	n.mu.Lock()
	defer n.mu.Unlock()
	var l []string
	for _, q := range n.Reqs {
		s := string(q.Raw)
		if len(s) > 900 {
			s = s[:900] + "..."
		}
		l = append(l, s)
	}
	l = append(l, n.Bad...)
	return strings.Join(l, "\n")
}

// Tx is a decoded raw transaction.
type Tx struct {
	Nonce, Gas uint64
	Price      *big.Int
	Value      *big.Int
	To         string // 40 digits, or "" for a creation
	Data       []byte
	From       string
}

// DecodeTx decodes a raw transaction and recovers its sender.
func DecodeTx(raw []byte) (*Tx, error) {
	var t types.Transaction
	if err := rlp.DecodeBytes(raw, &t); err != nil {
		return nil, err
	}
	out := &Tx{Nonce: t.Nonce(), Gas: t.Gas(), Price: t.GasPrice(), Value: t.Value(), Data: t.Data()}
	if t.To() != nil {
		out.To = hex.EncodeToString(t.To()[:])
	}
	var signer types.Signer = types.HomesteadSigner{}
	if t.Protected() {
		signer = types.NewEIP155Signer(t.ChainId())
	}
	from, err := types.Sender(signer, &t)
	if err != nil {
		return nil, err
	}
	out.From = hex.EncodeToString(from[:])
	return out, nil
}

// Selector of a signature.
func Selector(sig string) []byte { return ref.Keccak([]byte(sig), 32)[:4] }

// Entry of a jump table.
type Entry struct {
	Sel        []byte
	Dest       uint32
	Start, End int // where it is, once there is a table
}

var preambles = []string{
	"6000357c0100000000000000000000000000000000000000000000000000000000900463ffffffff16",
	"63ffffffff6000357c0100000000000000000000000000000000000000000000000000000000900416",
	"63ffffffff7c01000000000000000000000000000000000000000000000000000000006000350416",
	"6000357c01000000000000000000000000000000000000000000000000000000009004",
	"63ffffffff60e060020a6000350416",
	"60e060020a60003504",
}

// Table makes contract code that dispatches to the entries.
func Table(g *rand.Rand, es []Entry) []byte {
	code := []byte{0x60, 0x80, 0x60, 0x40, 0x52}
	if g.Intn(2) == 0 { // a check for short input
		code = append(code, 0x60, 0x04, 0x36, 0x10, 0x61, 0x01, 0x00, 0x57)
	}
	p, _ := hex.DecodeString(preambles[g.Intn(len(preambles))])
	code = append(code, p...)
	for i, e := range es {
		es[i].Start = len(code)
		if g.Intn(2) == 0 {
			code = append(append(code, 0x80, 0x63), e.Sel...)
			code = append(code, 0x14)
		} else {
			code = append(append(code, 0x63), e.Sel...)
			code = append(code, 0x81, 0x14)
		}
		var b [4]byte
		binary.BigEndian.PutUint32(b[:], e.Dest)
		w := 2
		for w < 4 && e.Dest>>(8*uint(w)) != 0 || g.Intn(5) == 0 && w < 4 {
			w++
		}
		if e.Dest < 256 && g.Intn(4) == 0 {
			w = 1
		}
		code = append(code, byte(0x5f+w))
		code = append(code, b[4-w:]...)
		code = append(code, 0x57)
		es[i].End = len(code)
	}
	if g.Intn(3) == 0 { // what looks like an entry and is none
		sel := make([]byte, 4)
		g.Read(sel)
		if g.Intn(2) == 0 {
			code = append(append(append(code, 0x80, 0x63), sel...), 0x14)
		} else {
			code = append(append(append(code, 0x63), sel...), 0x81, 0x14)
		}
		switch g.Intn(3) {
		case 0:
			w := 5 + g.Intn(28)
			d := make([]byte, w)
			g.Read(d)
			code = append(append(append(code, byte(0x5f+w)), d...), 0x57)
		case 1:
			code = append(code, 0x61, byte(g.Intn(256)), byte(g.Intn(256)), 0x56)
		case 2:
			code = append(code, []byte{0x5f, 0x5b, 0x80, 0xff, 0}[g.Intn(5)], 0x57, 0x57, 0x57)
		}
	}
	code = append(code, 0x5b, 0x60, 0x00, 0x80, 0xfd)
	// the body mentions other selectors in ways that are no table
	for i := 0; i < 40; i++ {
		code = append(code, byte(g.Intn(256)))
	}
	return code
}

// Text is a value written as a command line argument.
func Text(g *rand.Rand, v *abigen.Value) string {
	elem := strings.TrimSuffix(v.Type, "[]")
	switch {
	case v.Type == "string":
		return string(v.Bytes)
	case v.Type == "bytes":
		return hexArg(g, v.Bytes)
	case v.Kind == abigen.ArrayOf:
		var parts []string
		for i, w := range v.Array {
			parts = append(parts, word(g, elem, w, v.Nums[i]))
		}
		return "[" + strings.Join(parts, ",") + "]"
	}
	return word(g, v.Type, v.Word, v.Num)
}

func hexArg(g *rand.Rand, b []byte) string {
	s := hex.EncodeToString(b)
	if g.Intn(4) == 0 {
		s = strings.ToUpper(s)
	}
	if g.Intn(3) != 0 {
		s = "0x" + s
	}
	return s
}

func word(g *rand.Rand, typ string, w abigen.Word, num *big.Int) string {
	if n, ok := abigen.IsFixed(typ); ok {
		return hexArg(g, w[:n])
	}
	switch typ {
	case "address":
		s := hex.EncodeToString(w[12:])
		if g.Intn(3) == 0 {
			s = mixed(g, s)
		}
		return "0x" + s
	case "bool":
		return fmt.Sprint(num.Sign() != 0)
	}
	return IntText(g, num)
}

// IntText writes an integer in one of its notations.
func IntText(g *rand.Rand, n *big.Int) string {
	switch g.Intn(4) {
	case 0:
		s := "0x" + mixed(g, new(big.Int).Abs(n).Text(16))
		if n.Sign() < 0 {
			s = "-" + s
		}
		return s
	case 1:
		if n.Sign() > 0 && g.Intn(8) == 0 {
			return "+" + n.String()
		}
	}
	return n.String()
}

func mixed(g *rand.Rand, s string) string {
	b := []byte(s)
	for i := range b {
		if b[i] >= 'a' && g.Intn(2) == 0 {
			b[i] -= 32
		}
	}
	return string(b)
}
