package rpcsim

import (
	"encoding/json"
	"fmt"

	"github.com/philhofer/seth"
)

// Direct is a transport that answers requests in process, so that it can be
// used in virtual time.
type Direct struct {
	// Handle returns the result JSON, or an error: an *seth.RPCError is sent
	// as an error response, any other error fails the transport.
	Handle func(q *Req) (string, error)
	// Bad is told of requests that cannot be parsed.
	Bad func(string)
}

func (d *Direct) Execute(req *seth.RPCRequest, res *seth.RPCResponse) error {
	buf, err := json.Marshal(req)
	if err != nil {
		return err
	}
	q, err := ParseReq(buf)
	if err != nil {
		if d.Bad != nil {
			d.Bad(fmt.Sprintf("%v: %s", err, buf))
		}
		return err
	}
	out, err := d.Handle(q)
	if re, ok := err.(*seth.RPCError); ok {
		res.ID, res.Version, res.Error = req.ID, "2.0", *re
		return nil
	}
	if err != nil {
		return err
	}
	res.ID, res.Version, res.Result = req.ID, "2.0", json.RawMessage(out)
	return nil
}

// Str decodes a string parameter.
func (q *Req) Str(i int) string {
	var s string
	if i < len(q.Params) {
		json.Unmarshal(q.Params[i], &s)
	}
	return s
}
