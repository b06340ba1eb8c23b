// Command codec1 drives the Go v1 implementation.
package main

import (
	"errors"
	"math"

	"github.com/loopholelabs/polyglot"
	"verif/drv"
)

type impl struct {
	b *polyglot.Buffer
	e *polyglot.BufferEncoder
	n int
	d *polyglot.Decoder
}

func (m *impl) NewEncoder(i drv.Init) {
	m.e = nil
	switch i.M {
	case "size":
		b := make(polyglot.Buffer, 0, i.N)
		m.b = &b
	case "from":
		b := make(polyglot.Buffer, i.N, i.Cap)
		for j := range b[:i.Cap] {
			b[:i.Cap][j] = 0xCD
		}
		b.Reset()
		m.b = &b
	default:
		m.b = polyglot.NewBuffer()
	}
}

var kinds = []polyglot.Kind{
	polyglot.NilKind, polyglot.SliceKind, polyglot.MapKind, polyglot.AnyKind, polyglot.BytesKind,
	polyglot.StringKind, polyglot.ErrorKind, polyglot.BoolKind, polyglot.Uint8Kind, polyglot.Uint16Kind,
	polyglot.Uint32Kind, polyglot.Uint64Kind, polyglot.Int32Kind, polyglot.Int64Kind, polyglot.Float32Kind,
	polyglot.Float64Kind,
}

func k(i int) polyglot.Kind { return kinds[i] }

func (m *impl) Encode(s drv.Step, p []byte) {
	// most calls are chained: made on what the one before returned
	e := m.e
	if m.n++; e == nil || m.n%4 == 0 {
		e = polyglot.Encoder(m.b)
	}
	switch s.K {
	case 0:
		m.e = e.Nil()
	case 1:
		m.e = e.Slice(uint32(drv.U(p)), k(s.A))
	case 2:
		m.e = e.Map(uint32(drv.U(p)), k(s.A), k(s.B))
	case 4:
		m.e = e.Bytes(p)
	case 5:
		m.e = e.String(string(p))
	case 6:
		m.e = e.Error(errors.New(string(p)))
	case 7:
		m.e = e.Bool(p[0] != 0)
	case 8:
		m.e = e.Uint8(p[0])
	case 9:
		m.e = e.Uint16(uint16(drv.U(p)))
	case 10:
		m.e = e.Uint32(uint32(drv.U(p)))
	case 11:
		m.e = e.Uint64(drv.U(p))
	case 12:
		m.e = e.Int32(int32(uint32(drv.U(p))))
	case 13:
		m.e = e.Int64(int64(drv.U(p)))
	case 14:
		m.e = e.Float32(math.Float32frombits(uint32(drv.U(p))))
	case 15:
		m.e = e.Float64(math.Float64frombits(drv.U(p)))
	}
}
func (m *impl) Out() []byte      { return m.b.Bytes() }
func (m *impl) Room() int        { return cap(*m.b) - m.b.Len() }
func (m *impl) ResetOut()        { m.b.Reset() }
func (m *impl) Raw(b []byte) int { return m.b.Write(b) }
func (m *impl) Grow(n int) bool  { return false }
func (m *impl) Move(n int) bool  { return false }
func (m *impl) Open(b []byte)    { m.d = polyglot.GetDecoder(b) }
func (m *impl) Close() {
	if m.d != nil {
		m.d.Return()
		m.d = nil
	}
}
func (m *impl) Remaining() int   { return -1 }

var errs = map[error]int{
	polyglot.InvalidSlice: 1, polyglot.InvalidMap: 2, polyglot.InvalidBytes: 4,
	polyglot.InvalidString: 5, polyglot.InvalidError: 6, polyglot.InvalidBool: 7,
	polyglot.InvalidUint8: 8, polyglot.InvalidUint16: 9, polyglot.InvalidUint32: 10,
	polyglot.InvalidUint64: 11, polyglot.InvalidInt32: 12, polyglot.InvalidInt64: 13,
	polyglot.InvalidFloat32: 14, polyglot.InvalidFloat64: 15,
}

func ek(err error) int {
	for e, n := range errs {
		if errors.Is(err, e) {
			return n
		}
	}
	return -2
}

func (m *impl) Decode(s drv.Step, dst []byte) ([]byte, bool, int, []byte, string) {
	d := m.d
	num := func(n uint64, w int, err error) ([]byte, bool, int, []byte, string) {
		if err != nil { // and no value
			if n != 0 {
				return drv.BE(n, w), false, ek(err), nil, ""
			}
			return nil, false, ek(err), nil, ""
		}
		return drv.BE(n, w), true, -1, nil, ""
	}
	switch s.K {
	case 0:
		return nil, d.Nil(), 0, nil, ""
	case 1:
		n, err := d.Slice(k(s.A))
		return num(uint64(n), 4, err)
	case 2:
		n, err := d.Map(k(s.A), k(s.B))
		return num(uint64(n), 4, err)
	case 4:
		b, err := d.Bytes(dst)
		if err != nil {
			return b, false, ek(err), nil, ""
		}
		return append([]byte{}, b...), true, -1, b, ""
	case 5:
		t, err := d.String()
		if err != nil {
			return []byte(t), false, ek(err), nil, ""
		}
		return []byte(t), true, -1, nil, t
	case 6:
		v, err := d.Error()
		if err != nil {
			if v != nil {
				return []byte(v.Error() + "!"), false, ek(err), nil, ""
			}
			return nil, false, ek(err), nil, ""
		}
		t := v.Error()
		q := -1
		if !errors.Is(v, errors.New(t)) || errors.Is(v, errors.New(t+"x")) {
			q = -3
		}
		return []byte(t), true, q, nil, t
	case 7:
		v, err := d.Bool()
		if v {
			return num(1, 1, err)
		}
		return num(0, 1, err)
	case 8:
		n, err := d.Uint8()
		return num(uint64(n), 1, err)
	case 9:
		n, err := d.Uint16()
		return num(uint64(n), 2, err)
	case 10:
		n, err := d.Uint32()
		return num(uint64(n), 4, err)
	case 11:
		n, err := d.Uint64()
		return num(n, 8, err)
	case 12:
		n, err := d.Int32()
		return num(uint64(uint32(n)), 4, err)
	case 13:
		n, err := d.Int64()
		return num(uint64(n), 8, err)
	case 14:
		n, err := d.Float32()
		return num(uint64(math.Float32bits(n)), 4, err)
	case 15:
		n, err := d.Float64()
		return num(math.Float64bits(n), 8, err)
	}
	panic("kind")
}

func main() { drv.Run(func() drv.Impl { return &impl{} }) }
