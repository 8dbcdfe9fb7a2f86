package zzverif

import (
	"bytes"
	"fmt"
	"iter"

	"reduction.dev/reduction/dkv/kv"
)

type hent struct {
	k, v []byte
	seq  uint64
	del  bool
}

func (e *hent) Key() []byte    { return e.k }
func (e *hent) Value() []byte  { return e.v }
func (e *hent) IsDelete() bool { return e.del }
func (e *hent) SeqNum() uint64 { return e.seq }
func (e *hent) String() string {
	if e.del {
		return fmt.Sprintf("%q#%d-", e.k, e.seq)
	}
	if len(e.v) > 8 {
		return fmt.Sprintf("%q#%d=(%d bytes)", e.k, e.seq, len(e.v))
	}
	return fmt.Sprintf("%q#%d=%q", e.k, e.seq, e.v)
}
func entStr(e kv.Entry) string {
	if e == nil {
		return "<nil>"
	}
	return (&hent{e.Key(), e.Value(), e.SeqNum(), e.IsDelete()}).String()
}
func entSame(a *hent, b kv.Entry) bool {
	return b != nil && bytes.Equal(a.k, b.Key()) && a.del == b.IsDelete() && a.seq == b.SeqNum() && (a.del || bytes.Equal(a.v, b.Value()))
}
func asKV(es []*hent) iter.Seq[kv.Entry] {
	return func(y func(kv.Entry) bool) {
		for _, e := range es {
			if !y(e) {
				return
			}
		}
	}
}
