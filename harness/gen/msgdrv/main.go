// The message driver: encodes and decodes messages of generated packages by
// reflection.  The import path of the library is filled in when the driver is
// copied, and reg.go, which names the packages, is written beside it.
package main

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"os"
	"reflect"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"syscall"

	"POLYGLOT"
)

type message interface {
	Encode(*polyglot.Buffer)
	Error(*polyglot.Buffer, error)
	Decode([]byte) error
}

type entry func() (types []any, news []any, enums [][]uint32)

var reg = map[int]entry{}

type Field struct {
	Go string `json:"go"`
	C  string `json:"c"`
	K  int    `json:"k"`
	M  int    `json:"m"`
	KK int    `json:"kk"`
}
type Step struct {
	O    string          `json:"o"`
	M    int             `json:"m"`
	V    json.RawMessage `json:"v"`
	K    int             `json:"k"`
	At   int             `json:"at"`   // D: 1 + index of the encoding to read, 0: In
	Cut  int             `json:"cut"`  // D: bytes to leave after that encoding, -1: all
	In   []int           `json:"in"`
	Slot int             `json:"slot"` // D: 0 new, -1 zero, -2 nil, >0 a kept target
}
type Case struct {
	ID  int       `json:"id"`
	Pkg int       `json:"pkg"`
	S   []Step    `json:"s"`
	T   [][]Field `json:"t"`
}
type Event struct {
	O    string `json:"o"`
	M    int    `json:"m"`
	K    int    `json:"k"`
	V    any    `json:"v"`
	D    []int  `json:"d"`
	N    int    `json:"n"`
	At   int    `json:"at"`
	Slot int    `json:"slot"`
	R    string `json:"r"`
	OK   bool   `json:"ok"`
	Mem  int    `json:"mem"`
	X    string `json:"x"`
}

func ints(b []byte) []int {
	r := make([]int, len(b))
	for i, x := range b {
		r[i] = int(x)
	}
	return r
}
func bytesOf(v any) []byte {
	l, _ := v.([]any)
	r := make([]byte, len(l))
	for i, x := range l {
		r[i] = byte(x.(float64))
	}
	return r
}
func be(n uint64, w int) []int {
	var b [8]byte
	binary.BigEndian.PutUint64(b[:], n)
	return ints(b[8-w:])
}
func num(b []byte) uint64 {
	var x [8]byte
	copy(x[8-len(b):], b)
	return binary.BigEndian.Uint64(x[:])
}

type drv struct {
	t [][]Field // message types
}

// dump
func (d *drv) val(f Field, v reflect.Value) any {
	if f.K == 16 {
		return d.msg(f.M, v)
	}
	switch v.Kind() {
	case reflect.Bool:
		if v.Bool() {
			return []int{1}
		}
		return []int{0}
	case reflect.Int32:
		return be(uint64(uint32(v.Int())), 4)
	case reflect.Int64:
		return be(uint64(v.Int()), 8)
	case reflect.Uint32:
		return be(v.Uint(), 4)
	case reflect.Uint64:
		return be(v.Uint(), 8)
	case reflect.Float32:
		p := v
		if !v.CanAddr() {
			p = reflect.New(v.Type()).Elem()
			p.Set(v)
		}
		return be(uint64(math.Float32bits(*p.Addr().Interface().(*float32))), 4)
	case reflect.Float64:
		return be(math.Float64bits(v.Float()), 8)
	case reflect.String:
		return ints([]byte(v.String()))
	case reflect.Slice:
		return ints(v.Bytes())
	}
	panic("unexpected type " + v.Type().String())
}
func (d *drv) msg(m int, p reflect.Value) any {
	if p.IsNil() {
		return []any{}
	}
	r := []any{1}
	for _, f := range d.t[m-1] {
		v := p.Elem().FieldByName(f.Go)
		switch f.C {
		case "one":
			r = append(r, d.val(f, v))
		case "list":
			l := []any{}
			for i := 0; i < v.Len(); i++ {
				l = append(l, d.val(f, v.Index(i)))
			}
			r = append(r, l)
		case "map":
			l := [][]any{}
			for _, k := range v.MapKeys() {
				l = append(l, []any{d.val(Field{K: f.KK}, k), d.val(f, v.MapIndex(k))})
			}
			sort.Slice(l, func(i, j int) bool { return fmt.Sprint(l[i][0]) < fmt.Sprint(l[j][0]) })
			r = append(r, l)
		}
	}
	return r
}

// build
func (d *drv) set(f Field, dst reflect.Value, v any) {
	if f.K == 16 {
		d.setMsg(f.M, dst, v)
		return
	}
	b := bytesOf(v)
	switch dst.Kind() {
	case reflect.Bool:
		dst.SetBool(b[0] != 0)
	case reflect.Int32:
		dst.SetInt(int64(int32(num(b))))
	case reflect.Int64:
		dst.SetInt(int64(num(b)))
	case reflect.Uint32, reflect.Uint64:
		dst.SetUint(num(b))
	case reflect.Float32:
		*dst.Addr().Interface().(*float32) = math.Float32frombits(uint32(num(b)))
	case reflect.Float64:
		*dst.Addr().Interface().(*float64) = math.Float64frombits(num(b))
	case reflect.String:
		dst.SetString(string(b))
	case reflect.Slice:
		dst.SetBytes(b)
	default:
		panic("unexpected type " + dst.Type().String())
	}
}
func (d *drv) setMsg(m int, dst reflect.Value, v any) {
	l := v.([]any)
	if len(l) == 0 {
		dst.Set(reflect.Zero(dst.Type()))
		return
	}
	p := reflect.New(dst.Type().Elem())
	for i, f := range d.t[m-1] {
		x := p.Elem().FieldByName(f.Go)
		switch f.C {
		case "one":
			d.set(f, x, l[i+1])
		case "list":
			for _, y := range l[i+1].([]any) {
				e := reflect.New(x.Type().Elem()).Elem()
				d.set(f, e, y)
				x.Set(reflect.Append(x, e))
			}
		case "map":
			es := l[i+1].([]any)
			if len(es) > 0 || i%2 == 0 { // an empty map may be nil or not
				x.Set(reflect.MakeMap(x.Type()))
			}
			for _, y := range es {
				k := reflect.New(x.Type().Key()).Elem()
				e := reflect.New(x.Type().Elem()).Elem()
				d.set(Field{K: f.KK}, k, y.([]any)[0])
				d.set(f, e, y.([]any)[1])
				x.SetMapIndex(k, e)
			}
		}
	}
	dst.Set(p)
}

// shape of a Go type: the wire kind of a value
func (d *drv) kind(t reflect.Type, types []any) (int, int) {
	switch t.Kind() {
	case reflect.Bool:
		return 7, 0
	case reflect.Int32:
		return 12, 0
	case reflect.Int64:
		return 13, 0
	case reflect.Uint32:
		return 10, 0
	case reflect.Uint64:
		return 11, 0
	case reflect.Float32:
		return 14, 0
	case reflect.Float64:
		return 15, 0
	case reflect.String:
		return 5, 0
	case reflect.Slice:
		if t.Elem().Kind() == reflect.Uint8 {
			return 4, 0
		}
	case reflect.Pointer:
		for i, x := range types {
			if reflect.TypeOf(x) == t {
				return 16, i + 1
			}
		}
	}
	return -1, 0
}
func (d *drv) shape(t reflect.Type, types []any) map[string]any {
	c, kk := "one", 0
	if t.Kind() == reflect.Map {
		c = "map"
		kk, _ = d.kind(t.Key(), types)
		t = t.Elem()
	} else if t.Kind() == reflect.Slice && t.Elem().Kind() != reflect.Uint8 {
		c = "list"
		t = t.Elem()
	}
	k, m := d.kind(t, types)
	return map[string]any{"c": c, "k": k, "m": m, "kk": kk}
}

type held struct {
	m    int
	p    reflect.Value
	dump string
}

func js(v any) string { b, _ := json.Marshal(v); return string(b) }

func run(c Case) (evs []Event) {
	d := &drv{t: c.T}
	types, news, enums := reg[c.Pkg]()
	buf := polyglot.NewBuffer()
	type enc struct{ m, at, end int }
	var encs []enc
	var keep []held
	slots := map[[2]int]reflect.Value{}
	before := func() []byte { return append([]byte(nil), buf.Bytes()...) }
	for _, s := range c.S {
		e := Event{O: s.O, M: s.M, K: s.K, V: []int{}, D: []int{}, R: "ok", Mem: -1, Slot: s.Slot}
		func() {
			defer func() {
				if x := recover(); x != nil {
					e.R, e.X = "panic", strings.SplitN(fmt.Sprint(x), "\n", 2)[0]
				}
			}()
			switch s.O {
			case "T":
				t := reflect.TypeOf(types[s.M-1]).Elem()
				l := []any{}
				for _, f := range c.T[s.M-1] {
					if x, ok := t.FieldByName(f.Go); ok {
						l = append(l, d.shape(x.Type, types))
					} else {
						l = append(l, map[string]any{"c": "missing", "k": 0, "m": 0, "kk": 0})
					}
				}
				e.V, e.N = l, t.NumField()
			case "U":
				l := []int{}
				for _, x := range enums[s.M-1] {
					l = append(l, int(x))
				}
				e.D = l
			case "N":
				e.V = d.msg(s.M, reflect.ValueOf(news[s.M-1]).Call(nil)[0])
			case "R":
				buf.Reset()
				encs = nil
				e.N = len(buf.Bytes())
			case "K": // some other value in the same buffer
				was := before()
				p := polyglot.Encoder(buf)
				switch s.K {
				case 0:
					p.Nil()
				case 5:
					p.String("other")
				case 10:
					p.Uint32(77)
				case 1:
					p.Slice(3, polyglot.BoolKind)
				}
				e.OK = bytes.HasPrefix(buf.Bytes(), was)
				e.D, e.N = ints(buf.Bytes()[len(was):]), len(buf.Bytes())
			case "E":
				was := before()
				var v any
				json.Unmarshal(s.V, &v)
				p := reflect.New(reflect.TypeOf(types[s.M-1])).Elem()
				d.setMsg(s.M, p, v)
				e.V = s.V
				pre := js(d.msg(s.M, p))
				p.Interface().(message).Encode(buf)
				e.OK = bytes.HasPrefix(buf.Bytes(), was) && pre == js(d.msg(s.M, p)) // and the message is as before
				if len(buf.Bytes()) < len(was) {
					was = was[:len(buf.Bytes())]
				}
				e.D, e.N = ints(buf.Bytes()[len(was):]), len(buf.Bytes())
				encs = append(encs, enc{s.M, len(was), len(buf.Bytes())})
			case "X":
				was := before()
				types[s.M-1].(message).Error(buf, errors.New(string(bytesI(s.In))))
				e.OK = bytes.HasPrefix(buf.Bytes(), was)
				e.V = s.In
				e.D, e.N = ints(buf.Bytes()[len(was):]), len(buf.Bytes())
				encs = append(encs, enc{0, len(was), len(buf.Bytes())})
			case "D":
				var in []byte
				if s.At > 0 {
					x := encs[s.At-1]
					in = buf.Bytes()[x.at:]
					if s.Cut >= 0 && x.end+s.Cut <= len(buf.Bytes()) {
						in = buf.Bytes()[x.at : x.end+s.Cut]
					}
					e.At = s.At
				} else {
					in = bytesI(s.In)
				}
				in = append([]byte(nil), in...)
				e.D = ints(in)
				var p reflect.Value
				t := reflect.TypeOf(types[s.M-1])
				switch {
				case s.Slot == -2:
					p = reflect.Zero(t)
				case s.Slot == -1:
					p = reflect.New(t.Elem())
				case s.Slot == 0:
					p = reflect.ValueOf(news[s.M-1]).Call(nil)[0]
				default:
					k := [2]int{s.M, s.Slot}
					if _, ok := slots[k]; !ok {
						slots[k] = reflect.ValueOf(news[s.M-1]).Call(nil)[0]
					}
					p = slots[k]
				}
				x := p.Interface().(message)
				var err error
				e.Mem = allocated(func() { err = x.Decode(in) }, func() {
					reflect.ValueOf(news[s.M-1]).Call(nil)[0].Interface().(message).Decode(in)
				})
				if err != nil {
					e.R = "no"
				} else {
					e.V = d.msg(s.M, p)
					if s.Slot <= 0 {
						keep = append(keep, held{s.M, p, js(e.V)})
					}
				}
				e.OK = bytes.Equal(in, bytesI(e.D)) // the input is as it was
				for i := range in {
					in[i] = 0xEE
				}
			case "P": // messages within messages: In, K times, then a nil
				e.D = s.In
				e.K = s.K
				in := append(bytes.Repeat(bytesI(s.In), s.K), 0)
				debug.SetMaxStack(1000000000) // as it is by default
				if reflect.ValueOf(news[s.M-1]).Call(nil)[0].Interface().(message).Decode(in) != nil {
					e.R = "no"
				}
			case "Z": // what was returned is still as it was returned
				e.OK = true
				for _, h := range keep {
					if js(d.msg(h.m, h.p)) != h.dump {
						e.OK = false
					}
				}
				e.N = len(buf.Bytes())
			}
		}()
		evs = append(evs, e)
		if e.R == "panic" {
			break
		}
	}
	return
}
func bytesI(l []int) []byte {
	r := make([]byte, len(l))
	for i, x := range l {
		r[i] = byte(x)
	}
	return r
}

// allocated is the memory f takes: the least of up to four measurements, the
// first of f itself and the others of g, as the runtime allocates now and then too.
func allocated(f func(), g func()) int {
	least := 0
	for i := 0; i < 4; i++ {
		var m0, m1 runtime.MemStats
		runtime.ReadMemStats(&m0)
		if m0.HeapAlloc > 256<<20 {
			runtime.GC()
			runtime.ReadMemStats(&m0)
		}
		if i == 0 {
			f()
		} else {
			g()
		}
		runtime.ReadMemStats(&m1)
		if n := int(m1.TotalAlloc - m0.TotalAlloc); i == 0 || n < least {
			least = n
		}
		if least <= 4096 {
			break
		}
	}
	return least
}

func main() {
	lim := syscall.Rlimit{Cur: 6 << 30, Max: 6 << 30}
	syscall.Setrlimit(syscall.RLIMIT_AS, &lim)
	debug.SetMaxStack(64 << 20)
	runtime.GC()
	debug.SetGCPercent(-1) // the collector runs between measurements only
	sc := bufio.NewScanner(os.Stdin)
	sc.Buffer(nil, 1<<28)
	w := bufio.NewWriter(os.Stdout)
	for sc.Scan() {
		var c Case
		if err := json.Unmarshal(sc.Bytes(), &c); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		fmt.Fprintf(w, "BEGIN %d\n", c.ID)
		w.Flush()
		b, err := json.Marshal(map[string]any{"id": c.ID, "ev": run(c)})
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		w.Write(b)
		w.WriteByte('\n')
		w.Flush()
	}
}
