package evmgen

import (
	"encoding/json"
	"errors"
	"fmt"
	"math/big"
	"strconv"
	"strings"
	"sync"

	"github.com/ethereum/go-ethereum/common"
	"github.com/philhofer/seth"

	"vharness/rpcsim"
)

// UpAccount is an account of the upstream chain.
type UpAccount struct {
	Balance *big.Int
	Nonce   uint64
	Code    []byte
	Storage map[common.Hash]common.Hash
}

// Upstream is the node that a chain is forked from.
type Upstream struct {
	mu     sync.Mutex
	Blocks map[int64]map[common.Address]*UpAccount
	// Fault, if it is set, is asked before each request: a non-nil error is
	// the answer; a non-empty string replaces the result.
	Fault func(method string) (string, error)
	// Calls counts the requests, by method.
	Calls map[string]int
	// Bad holds requests that name other blocks or parameters than they should.
	Bad []string
}

// NewUpstream returns a node without accounts.
func NewUpstream() *Upstream {
	return &Upstream{Blocks: map[int64]map[common.Address]*UpAccount{}, Calls: map[string]int{}}
}

// Client returns a client of the node.
func (u *Upstream) Client() *seth.Client {
	return seth.NewClientTransport(&rpcsim.Direct{Handle: u.handle, Bad: func(s string) {
		u.mu.Lock()
		u.Bad = append(u.Bad, s)
		u.mu.Unlock()
	}})
}

func (u *Upstream) handle(q *rpcsim.Req) (string, error) {
	u.mu.Lock()
	defer u.mu.Unlock()
	u.Calls[q.Method]++
	if u.Fault != nil {
		s, err := u.Fault(q.Method)
		if err != nil || s != "" {
			return s, err
		}
	}
	np := 2
	if q.Method == "eth_getStorageAt" {
		np = 3
	}
	bad := func(f string, a ...interface{}) (string, error) {
		s := fmt.Sprintf(f, a...) + " in " + string(q.Raw)
		u.Bad = append(u.Bad, s)
		return "", &seth.RPCError{Code: -32602, Message: s}
	}
	if len(q.Params) != np {
		return bad("%d parameters", len(q.Params))
	}
	var addr common.Address
	if err := json.Unmarshal(q.Params[0], &addr); err != nil {
		return bad("address: %v", err)
	}
	bs := q.Str(np - 1)
	if bs == "earliest" {
		bs = "0x0"
	}
	n, err := strconv.ParseInt(strings.TrimPrefix(bs, "0x"), 16, 64)
	if err != nil || !strings.HasPrefix(bs, "0x") {
		return bad("block %q", bs)
	}
	st, ok := u.Blocks[n]
	if !ok {
		return bad("unknown block %d", n)
	}
	a := st[addr]
	if a == nil {
		a = &UpAccount{Balance: new(big.Int)}
	}
	switch q.Method {
	case "eth_getBalance":
		return fmt.Sprintf(`"0x%x"`, a.Balance), nil
	case "eth_getTransactionCount":
		return fmt.Sprintf(`"0x%x"`, a.Nonce), nil
	case "eth_getCode":
		return fmt.Sprintf(`"0x%x"`, a.Code), nil
	case "eth_getStorageAt":
		slot := common.HexToHash(q.Str(1))
		v := a.Storage[slot]
		return fmt.Sprintf(`"%s"`, v.Hex()), nil
	}
	return bad("method")
}

// ErrUpstream is the failure of a transport.
var ErrUpstream = errors.New("upstream: connection reset")
