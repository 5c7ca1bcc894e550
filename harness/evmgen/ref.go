package evmgen

import (
	"encoding/binary"
	"errors"
	"math/big"

	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/core/state"
	"github.com/ethereum/go-ethereum/core/types"
	"github.com/ethereum/go-ethereum/core/vm"
	"github.com/ethereum/go-ethereum/crypto"
	"github.com/ethereum/go-ethereum/ethdb/memorydb"
	"github.com/ethereum/go-ethereum/params"
)

// memdb is an in-memory database without ancient blocks.
type memdb struct{ *memorydb.Database }

var errNone = errors.New("not supported")

func (memdb) HasAncient(string, uint64) (bool, error)                         { return false, errNone }
func (memdb) Ancient(string, uint64) ([]byte, error)                          { return nil, errNone }
func (memdb) Ancients() (uint64, error)                                       { return 0, errNone }
func (memdb) AncientSize(string) (uint64, error)                              { return 0, errNone }
func (memdb) AppendAncient(n uint64, hash, header, body, rx, td []byte) error { return errNone }
func (memdb) TruncateAncients(uint64) error                                   { return errNone }
func (memdb) Sync() error                                                     { return errNone }

func canTransfer(db vm.StateDB, addr common.Address, amount *big.Int) bool {
	return db.GetBalance(addr).Cmp(amount) >= 0
}

func transfer(db vm.StateDB, from, to common.Address, amount *big.Int) {
	db.SubBalance(from, amount)
	db.AddBalance(to, amount)
}

// Block is the context of an execution.
type Block struct {
	Number, Time, GasLimit uint64
	Difficulty             *big.Int
	Coinbase               common.Address
}

// Ref executes transactions over go-ethereum's own state.
type Ref struct {
	DB     state.Database
	State  *state.StateDB
	Hashes map[uint64]common.Hash
	ntx    int
}

// Config is the rule set of the simulated chain: everything up to Petersburg.
var Config = &params.ChainConfig{
	ChainID:             big.NewInt(5),
	HomesteadBlock:      new(big.Int),
	EIP150Block:         new(big.Int),
	EIP155Block:         new(big.Int),
	EIP158Block:         new(big.Int),
	ByzantiumBlock:      new(big.Int),
	ConstantinopleBlock: new(big.Int),
	PetersburgBlock:     new(big.Int),
	IstanbulBlock:       new(big.Int),
}

// NewRef returns an empty state.
func NewRef() *Ref {
	db := state.NewDatabase(memdb{memorydb.New()})
	st, err := state.New(common.Hash{}, db)
	if err != nil {
		panic(err)
	}
	return &Ref{DB: db, State: st, Hashes: map[uint64]common.Hash{}}
}

// BlockHash is the hash the simulated chain gives to a block number.
func BlockHash(n uint64) common.Hash {
	var b [8]byte
	binary.LittleEndian.PutUint64(b[:], n)
	return crypto.Keccak256Hash(b[:])
}

// EVM returns a machine over the state.
func (r *Ref) EVM(b *Block, origin common.Address, price *big.Int) *vm.EVM {
	return vm.NewEVM(vm.Context{
		CanTransfer: canTransfer,
		Transfer:    transfer,
		GetHash: func(n uint64) common.Hash {
			if h, ok := r.Hashes[n]; ok {
				return h
			}
			return BlockHash(n)
		},
		Origin:      origin,
		GasPrice:    price,
		Coinbase:    b.Coinbase,
		GasLimit:    b.GasLimit,
		BlockNumber: new(big.Int).SetUint64(b.Number),
		Time:        new(big.Int).SetUint64(b.Time),
		Difficulty:  new(big.Int).Set(b.Difficulty),
	}, r.State, Config, vm.Config{})
}

// Result is the outcome of an execution.
type Result struct {
	Ret     []byte
	Err     error
	Left    uint64
	Created common.Address
	Logs    []*types.Log
}

// Begin starts a transaction.
func (r *Ref) Begin() {
	r.ntx++
	var h common.Hash
	binary.BigEndian.PutUint64(h[:], uint64(r.ntx))
	r.State.Prepare(h, common.Hash{}, r.ntx)
}

// Apply executes a transaction, as a node does without buying gas; the
// changes are in r.State, not finalised.
func (r *Ref) Apply(b *Block, t *Tx) Result {
	r.Begin()
	evm := r.EVM(b, t.From, big.NewInt(t.GasPrice))
	var res Result
	nonce := r.State.GetNonce(t.From)
	if t.To == nil {
		res.Ret, res.Created, res.Left, res.Err = evm.Create(vm.AccountRef(t.From), t.Input, t.Gas, t.Value)
		if r.State.GetNonce(t.From) == nonce {
			r.State.SetNonce(t.From, nonce+1)
		}
	} else {
		r.State.SetNonce(t.From, nonce+1)
		res.Ret, res.Left, res.Err = evm.Call(vm.AccountRef(t.From), *t.To, t.Input, t.Gas, t.Value)
	}
	res.Logs = r.TxLogs()
	return res
}

// TxLogs returns the logs since Begin.
func (r *Ref) TxLogs() []*types.Log {
	var h common.Hash
	binary.BigEndian.PutUint64(h[:], uint64(r.ntx))
	return r.State.GetLogs(h)
}

// Finish ends the transaction: destroyed and empty accounts go away.
func (r *Ref) Finish() {
	root, err := r.State.Commit(true)
	if err == nil {
		r.State, err = state.New(root, r.DB)
	}
	if err != nil {
		panic(err)
	}
}

// Dump returns all accounts.
func (r *Ref) Dump() map[common.Address]state.DumpAccount {
	out := map[common.Address]state.DumpAccount{}
	for a, d := range r.State.RawDump(false, false, true).Accounts {
		out[a] = d
	}
	return out
}
