package evmgen

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/big"
	"runtime/debug"
	"sort"
	"strings"

	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/core/vm"
	"github.com/ethereum/go-ethereum/crypto"
	"github.com/philhofer/seth"
	"github.com/philhofer/seth/tevm"
)

// Op is an operation on a simulated chain.
type Op struct {
	Kind string // mine, rpcsend, create, createat, call, send, add, sub, seal, or a read
	Tx   *Tx
	Addr common.Address // createat, add, sub, balance
	N    int64          // block of a read; -1 pending, -2 latest
	Full bool
	Sig  string
}

func (o *Op) String() string {
	s := o.Kind
	if o.Tx != nil {
		to := "create"
		if o.Tx.To != nil {
			to = o.Tx.To.Hex()
		}
		s += fmt.Sprintf(" from %s to %s gas %d price %d value %d input %x", o.Tx.From.Hex(), to, o.Tx.Gas, o.Tx.GasPrice, o.Tx.Value, o.Tx.Input)
	}
	if o.Addr != (common.Address{}) {
		s += " addr " + o.Addr.Hex()
	}
	if o.N != 0 {
		s += fmt.Sprintf(" block %d", o.N)
	}
	return s + " " + o.Sig
}

// Out is what an operation returned.
type Out struct {
	Ret   []byte
	Err   string
	Gas   uint64 // gas used, or estimated
	Addr  common.Address
	Text  string // JSON result of a request
	Panic string
	Stack string
	Hash  seth.Hash
}

func (o *Out) String() string {
	s := fmt.Sprintf("ret %x err %q gas %d addr %s", o.Ret, o.Err, o.Gas, o.Addr.Hex())
	if o.Text != "" {
		s += " result " + o.Text
	}
	if o.Panic != "" {
		s += " PANIC " + o.Panic + "\n" + o.Stack
	}
	return s
}

// SA converts an address.
func SA(a common.Address) *seth.Address { s := seth.Address(a); return &s }

// SethTx makes the transaction to be mined.
func (t *Tx) SethTx() *seth.Transaction {
	tx := &seth.Transaction{
		From:     SA(t.From),
		Gas:      seth.Uint64(t.Gas),
		GasPrice: seth.Int(*big.NewInt(t.GasPrice)),
		Value:    seth.Int(*new(big.Int).Set(t.Value)),
		Input:    append(seth.Data{}, t.Input...),
	}
	if t.To != nil {
		tx.To = SA(*t.To)
	}
	return tx
}

// CallArgs is the JSON form of the transaction in requests.
func (t *Tx) CallArgs() string {
	s := fmt.Sprintf(`{"from":"%s"`, strings.ToLower(t.From.Hex()))
	if t.To != nil {
		s += fmt.Sprintf(`,"to":"%s"`, strings.ToLower(t.To.Hex()))
	}
	s += fmt.Sprintf(`,"gas":"0x%x","gasPrice":"0x%x","value":"0x%x","data":"0x%x"}`, t.Gas, t.GasPrice, t.Value, t.Input)
	return s
}

// BlockArg is the JSON form of a block number.
func BlockArg(n int64) string {
	switch n {
	case -1:
		return `"pending"`
	case -2:
		return `"latest"`
	}
	return fmt.Sprintf(`"0x%x"`, n)
}

// RPC executes a request.
func RPC(t seth.Transport, method string, params ...string) (string, string) {
	req := &seth.RPCRequest{Version: "2.0", Method: method, ID: 7}
	for _, p := range params {
		req.Params = append(req.Params, json.RawMessage(p))
	}
	var res seth.RPCResponse
	if err := t.Execute(req, &res); err != nil {
		return "", "transport: " + err.Error()
	}
	if res.Error.Code != 0 || res.Error.Message != "" {
		return "", res.Error.Message
	}
	return string(res.Result), ""
}

func errs(err error) string {
	if err == nil {
		return ""
	}
	return err.Error()
}

// Apply executes the operation.
func (o *Op) Apply(c *tevm.Chain) (out Out) {
	defer func() {
		if e := recover(); e != nil {
			out.Panic = fmt.Sprint(e)
			out.Stack = string(debug.Stack())
		}
	}()
	before := uint64(c.State.Pending.GasUsed)
	switch o.Kind {
	case "mine":
		ret, h, err := c.Mine(o.Tx.SethTx())
		out.Ret, out.Err, out.Hash = ret, errs(err), h
		out.Gas = uint64(c.State.Pending.GasUsed) - before
	case "rpcsend":
		out.Text, out.Err = RPC(c, "eth_sendTransaction", o.Tx.CallArgs())
	case "create":
		a, err := c.Create(SA(o.Tx.From), o.Tx.Input)
		out.Err = errs(err)
		if err == nil {
			out.Addr = common.Address(a)
		}
	case "createat":
		out.Err = errs(c.CreateAt(SA(o.Addr), SA(o.Tx.From), o.Tx.Input))
	case "call":
		ret, err := c.Call(SA(o.Tx.From), SA(*o.Tx.To), o.Sig)
		out.Ret, out.Err = ret, errs(err)
	case "send":
		out.Err = errs(c.Send(SA(o.Tx.From), SA(*o.Tx.To), new(big.Int).Set(o.Tx.Value)))
	case "add":
		c.AddBalance(SA(o.Addr), new(big.Int).Set(o.Tx.Value))
	case "sub":
		c.SubBalance(SA(o.Addr), new(big.Int).Set(o.Tx.Value))
	case "seal":
		c.Seal()
	case "staticcall":
		ret, err := c.StaticCall(SA(o.Tx.From), SA(*o.Tx.To), o.Sig)
		out.Ret, out.Err = ret, errs(err)
	case "estimate":
		gas, err := c.EstimateGas(SA(o.Tx.From), SA(*o.Tx.To), o.Sig)
		out.Gas, out.Err = gas, errs(err)
	case "ethcall":
		out.Text, out.Err = RPC(c, "eth_call", o.Tx.CallArgs(), BlockArg(o.N))
	case "ethestimate":
		out.Text, out.Err = RPC(c, "eth_estimateGas", o.Tx.CallArgs(), BlockArg(o.N))
	case "balance":
		out.Text, out.Err = RPC(c, "eth_getBalance", `"`+strings.ToLower(o.Addr.Hex())+`"`, BlockArg(o.N))
	case "block":
		out.Text, out.Err = RPC(c, "eth_getBlockByNumber", BlockArg(o.N), fmt.Sprint(o.Full))
	case "balanceof":
		out.Text = c.BalanceOf(SA(o.Addr)).String()
	case "logs":
		b, _ := json.Marshal(c.Logs())
		out.Text = string(b)
	default:
		panic("evmgen: no operation " + o.Kind)
	}
	return
}

// Context returns the context of executions in the pending block.
func Context(c *tevm.Chain) *Block {
	p := c.State.Pending
	return &Block{
		Number:     uint64(*p.Number),
		Time:       uint64(p.Timestamp),
		GasLimit:   uint64(p.GasLimit),
		Difficulty: new(big.Int).Set((*big.Int)(p.Difficulty)),
		Coinbase:   common.Address(p.Miner),
	}
}

// GasLimit is the gas given to operations that do not name an amount.
const GasLimit = 6000000

// Calldata is the input of a call of a method without arguments.
func Calldata(sig string) []byte { return crypto.Keccak256([]byte(sig))[:4] }

// Apply executes the operation on the reference state. Reads leave it as it
// was; the effects of other operations are not finalised.
func (r *Ref) ApplyOp(b *Block, o *Op) (out Out) {
	fromRes := func(res Result) {
		out.Ret, out.Err = res.Ret, errs(res.Err)
	}
	switch o.Kind {
	case "mine", "rpcsend":
		res := r.Apply(b, o.Tx)
		fromRes(res)
		out.Gas = o.Tx.Gas - res.Left
		out.Addr = res.Created
	case "create":
		r.Begin()
		evm := r.EVM(b, o.Tx.From, new(big.Int))
		_, a, _, err := evm.Create(vm.AccountRef(o.Tx.From), o.Tx.Input, GasLimit, new(big.Int))
		out.Err = errs(err)
		if err == nil {
			out.Addr = a
		}
	case "createat":
		r.Begin()
		evm := r.EVM(b, o.Tx.From, new(big.Int))
		snap := r.State.Snapshot()
		r.State.CreateAccount(o.Addr)
		r.State.SetNonce(o.Addr, 1)
		contract := vm.NewContract(vm.AccountRef(o.Tx.From), vm.AccountRef(o.Addr), new(big.Int), GasLimit)
		contract.SetCallCode(&o.Addr, crypto.Keccak256Hash(o.Tx.Input), o.Tx.Input)
		ret, err := evm.Interpreter().Run(contract, nil, false)
		out.Err = errs(err)
		if err != nil {
			r.State.RevertToSnapshot(snap)
		} else {
			r.State.SetCode(o.Addr, ret)
		}
	case "call", "send":
		r.Begin()
		evm := r.EVM(b, o.Tx.From, new(big.Int))
		input, value := Calldata(o.Sig), new(big.Int)
		if o.Kind == "send" {
			input, value = nil, o.Tx.Value
		}
		ret, _, err := evm.Call(vm.AccountRef(o.Tx.From), *o.Tx.To, input, GasLimit, value)
		if o.Kind == "call" {
			out.Ret = ret
		}
		out.Err = errs(err)
	case "add":
		r.Begin()
		r.State.AddBalance(o.Addr, o.Tx.Value)
	case "sub":
		r.Begin()
		r.State.SubBalance(o.Addr, o.Tx.Value)
	case "staticcall", "estimate", "ethcall", "ethestimate":
		r.Begin()
		st := r.State
		r.State = st.Copy()
		defer func() { r.State = st }()
		evm := r.EVM(b, o.Tx.From, new(big.Int))
		gas := o.Tx.Gas
		if gas == 0 {
			gas = b.GasLimit
		}
		var ret []byte
		var left uint64
		var err error
		switch o.Kind {
		case "staticcall", "estimate":
			gas = GasLimit
			ret, left, err = evm.StaticCall(vm.AccountRef(o.Tx.From), *o.Tx.To, Calldata(o.Sig), gas)
		case "ethcall":
			var to common.Address
			if o.Tx.To != nil {
				to = *o.Tx.To
			}
			ret, left, err = evm.StaticCall(vm.AccountRef(o.Tx.From), to, o.Tx.Input, gas)
		case "ethestimate":
			if o.Tx.To != nil {
				_, left, err = evm.Call(vm.AccountRef(o.Tx.From), *o.Tx.To, o.Tx.Input, gas, o.Tx.Value)
			} else {
				_, _, left, err = evm.Create(vm.AccountRef(o.Tx.From), o.Tx.Input, gas, o.Tx.Value)
			}
		}
		out.Err = errs(err)
		switch o.Kind {
		case "staticcall":
			out.Ret = ret
		case "estimate":
			out.Gas = gas - left
		case "ethcall":
			if err == nil {
				out.Text = fmt.Sprintf(`"0x%x"`, ret)
			}
		case "ethestimate":
			if err == nil {
				out.Text = fmt.Sprintf(`"0x%x"`, gas-left)
			}
		}
	default:
		panic("evmgen: no reference for " + o.Kind)
	}
	return
}

// Accounts lists the addresses of the accounts of a chain.
func Accounts(c *tevm.Chain) map[common.Address]*tevm.Account {
	out := map[common.Address]*tevm.Account{}
	c.State.Accounts.Iterate(func(k, v []byte) bool {
		a := new(tevm.Account)
		copy(a[:], v)
		out[common.BytesToAddress(k)] = a
		return true
	})
	return out
}

// Total is the sum of all balances of the chain.
func Total(c *tevm.Chain) *big.Int {
	sum := new(big.Int)
	for _, a := range Accounts(c) {
		b := a.Balance()
		sum.Add(sum, b.Big())
	}
	return sum
}

// State describes the world state of a chain: accounts, code and storage.
func State(c *tevm.Chain) map[string]string {
	out := map[string]string{}
	for k, a := range Accounts(c) {
		b := a.Balance()
		if b.IsZero() && a.Nonce() == 0 && !a.Suicided() {
			continue // not observable
		}
		out["account "+k.Hex()] = fmt.Sprintf("balance %s nonce %d destroyed %v", b.Big(), a.Nonce(), a.Suicided())
	}
	c.State.Code.Iterate(func(k, v []byte) bool {
		if len(v) > 0 {
			out["code "+hex.EncodeToString(k)] = hex.EncodeToString(v)
		}
		return true
	})
	c.State.Storage.Iterate(func(k, v []byte) bool {
		for _, x := range v {
			if x != 0 {
				out["storage "+hex.EncodeToString(k)] = hex.EncodeToString(v)
				break
			}
		}
		return true
	})
	return out
}

// Blocks lists the answers about the pending block and the blocks of the
// chain from first on.
func Blocks(c *tevm.Chain, first int64) map[string]string {
	out := map[string]string{}
	latest, err := RPC(c, "eth_blockNumber")
	out["number"] = latest + err
	var top seth.Uint64
	json.Unmarshal([]byte(latest), &top)
	for n := first; n <= int64(top)+1; n++ {
		Answers(c, n, out)
	}
	Answers(c, -1, out)
	Answers(c, -2, out)
	return out
}

// Answers adds the answers about a block, its transactions and their receipts.
func Answers(c *tevm.Chain, n int64, out map[string]string) {
	short, err := RPC(c, "eth_getBlockByNumber", BlockArg(n), "false")
	out[fmt.Sprintf("block %d", n)] = short + err
	full, err := RPC(c, "eth_getBlockByNumber", BlockArg(n), "true")
	out[fmt.Sprintf("full block %d", n)] = full + err
	var b struct {
		Hash         string   `json:"hash"`
		Transactions []string `json:"transactions"`
	}
	json.Unmarshal([]byte(short), &b)
	if b.Hash != "" {
		byhash, err := RPC(c, "eth_getBlockByHash", `"`+b.Hash+`"`, "false")
		out[fmt.Sprintf("block %d by hash", n)] = byhash + err
	}
	for _, h := range b.Transactions {
		tx, err := RPC(c, "eth_getTransactionByHash", `"`+h+`"`)
		out["transaction "+h] = tx + err
		rx, err := RPC(c, "eth_getTransactionReceipt", `"`+h+`"`)
		out["receipt "+h] = rx + err
	}
}

// Observe describes everything that can be seen of a chain.
func Observe(c *tevm.Chain, first int64) map[string]string {
	out := State(c)
	for k, v := range Blocks(c, first) {
		out[k] = v
	}
	logs, _ := json.Marshal(c.Logs())
	out["logs"] = string(logs)
	return out
}

// Diff describes the difference of two descriptions.
func Diff(a, b map[string]string) string {
	var ks []string
	for k := range a {
		if w, ok := b[k]; !ok || w != a[k] {
			ks = append(ks, k)
		}
	}
	for k := range b {
		if _, ok := a[k]; !ok {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	var out []string
	for i, k := range ks {
		if i == 8 {
			out = append(out, fmt.Sprintf("and %d more", len(ks)-8))
			break
		}
		va, ok := a[k]
		if !ok {
			va = "(absent)"
		}
		vb, ok := b[k]
		if !ok {
			vb = "(absent)"
		}
		if len(va) > 700 {
			va = va[:700] + "..."
		}
		if len(vb) > 700 {
			vb = vb[:700] + "..."
		}
		out = append(out, fmt.Sprintf("%s:\n  %s\n  %s", k, va, vb))
	}
	return strings.Join(out, "\n")
}
