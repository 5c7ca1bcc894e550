// Package yubisim drives the stand-in for Yubico's library (yubisim.c).
package yubisim

// #cgo LDFLAGS: -lyubihsm
// #include <stdlib.h>
// #include <yubisim.h>
import "C"

import "unsafe"

// Operations of the event log.
const (
	InitConnector = int(C.SIM_INIT_CONNECTOR)
	Connect       = int(C.SIM_CONNECT)
	Create        = int(C.SIM_CREATE)
	Auth          = int(C.SIM_AUTH)
	Destroy       = int(C.SIM_DESTROY)
	List          = int(C.SIM_LIST)
	Pubkey        = int(C.SIM_PUBKEY)
	Sign          = int(C.SIM_SIGN)
	Generate      = int(C.SIM_GENERATE)
	Info          = int(C.SIM_INFO)
	DevInfo       = int(C.SIM_DEVINFO)
	Plain         = int(C.SIM_PLAIN)
)

// Event is one call as the library saw it.
type Event struct {
	Op, RC, Session int
	Authed          bool
	ID              int
	Len             int
	Data            []byte
}

// Object is an object held by the module.
type Object struct {
	ID, Type, Algo, Len, Domains, Sequence, Origin int
	Caps, Delegated                                [8]byte
	Label                                          string
	Pub                                            []byte
	PubAlgo                                        int
}

func ptr(b []byte) *C.uint8_t {
	if len(b) == 0 {
		b = []byte{0}
	}
	return (*C.uint8_t)(unsafe.Pointer(&b[0]))
}

func Reset()                             { C.sim_reset() }
func Password(p []byte)                  { C.sim_password(ptr(p), C.size_t(len(p))) }
func Fail(op, after, times, rc int)      { C.sim_fail(C.int(op), C.int(after), C.int(times), C.int(rc)) }
func Delay(op, usec int)                 { C.sim_delay(C.int(op), C.int(usec)) }
func SetSig(id int, sig []byte, rc int)  { C.sim_setsig(C.int(id), ptr(sig), C.size_t(len(sig)), C.int(rc)) }
func SetPub(id int, pub []byte, alg int) { C.sim_setpub(C.int(id), ptr(pub), C.size_t(len(pub)), C.int(alg)) }
func SetPlain(resp []byte, cmd int)      { C.sim_plain(ptr(resp), C.size_t(len(resp)), C.int(cmd)) }
func Live() int                          { return int(C.sim_live()) }
func Created() int                       { return int(C.sim_created()) }
func Busy() int                          { return int(C.sim_busy()) }

// Add puts an object on the module.
func Add(o *Object) {
	l := C.CString(o.Label)
	defer C.free(unsafe.Pointer(l))
	C.sim_describe(C.int(o.ID), C.yh_object_type(o.Type), C.yh_algorithm(o.Algo), ptr(o.Caps[:]), C.int(o.Len),
		C.int(o.Domains), C.int(o.Sequence), C.int(o.Origin), l, ptr(o.Delegated[:]),
		ptr(o.Pub), C.size_t(len(o.Pub)), C.int(o.PubAlgo))
}

// Events returns the calls from number from on.
func Events(from int) []Event {
	n := int(C.sim_nevents())
	var out []Event
	for i := from; i < n; i++ {
		var e C.sim_event
		C.sim_event_at(C.int(i), &e)
		l := int(e.len)
		if l > len(e.data) {
			l = len(e.data)
		}
		d := make([]byte, l)
		for k := range d {
			d[k] = byte(e.data[k])
		}
		out = append(out, Event{Op: int(e.op), RC: int(e.rc), Session: int(e.session), Authed: e.authed != 0, ID: int(e.id), Len: int(e.len), Data: d})
	}
	return out
}

// Logged is the number of calls so far.
func Logged() int { return int(C.sim_nevents()) }
