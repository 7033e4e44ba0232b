package lib

import (
	"encoding/binary"
	"errors"
	"fmt"
	"unicode/utf8"
)

// An independent implementation of the wire format: length-prefixed protobuf.

// Kinds of packets.
const (
	WNone = iota
	WStart
	WData
	WCancel
)

// WPacket is a packet.
type WPacket struct {
	Kind            int
	Service, Method string
	Data            []byte
	DataIsZero      bool
	Complete        bool
	Error           string
	Cancel          bool
}

// IsMsg tells if the packet carries a message.
func (p *WPacket) IsMsg() bool {
	return (p.Kind == WStart || p.Kind == WData) && (len(p.Data) != 0 || p.DataIsZero)
}

func (p *WPacket) String() string {
	d := p.Data
	if len(d) > 12 {
		d = d[:12]
	}
	switch p.Kind {
	case WStart:
		return fmt.Sprintf("start(%q,%q,%x/%d,zero=%v)", p.Service, p.Method, d, len(p.Data), p.DataIsZero)
	case WData:
		return fmt.Sprintf("data(%x/%d,zero=%v,complete=%v,err=%q)", d, len(p.Data), p.DataIsZero, p.Complete, p.Error)
	case WCancel:
		return fmt.Sprintf("cancel(%v)", p.Cancel)
	}
	return "none"
}

// Equal compares packets (nil and empty data are the same).
func (p *WPacket) Equal(q *WPacket) bool {
	return p.Kind == q.Kind && p.Service == q.Service && p.Method == q.Method && string(p.Data) == string(q.Data) &&
		p.DataIsZero == q.DataIsZero && p.Complete == q.Complete && p.Error == q.Error && p.Cancel == q.Cancel
}

// Valid tells if the packet passes validation.
func (p *WPacket) Valid() bool {
	switch p.Kind {
	case WStart:
		return p.Service != "" && p.Method != ""
	case WData:
		return len(p.Data) != 0 || p.DataIsZero || p.Complete || p.Error != ""
	case WCancel:
		return true
	}
	return false
}

func appendVarint(b []byte, v uint64) []byte { return binary.AppendUvarint(b, v) }

func appendLen(b []byte, field int, data []byte) []byte {
	b = appendVarint(b, uint64(field)<<3|2)
	b = appendVarint(b, uint64(len(data)))
	return append(b, data...)
}

func appendBool(b []byte, field int, v bool) []byte {
	b = appendVarint(b, uint64(field)<<3)
	if v {
		return append(b, 1)
	}
	return append(b, 0)
}

// Encode is the canonical encoding.
func (p *WPacket) Encode() []byte {
	var body []byte
	switch p.Kind {
	case WStart:
		if p.Service != "" {
			body = appendLen(body, 1, []byte(p.Service))
		}
		if p.Method != "" {
			body = appendLen(body, 2, []byte(p.Method))
		}
		if len(p.Data) != 0 {
			body = appendLen(body, 3, p.Data)
		}
		if p.DataIsZero {
			body = appendBool(body, 4, true)
		}
		return appendLen(nil, 1, body)
	case WData:
		if len(p.Data) != 0 {
			body = appendLen(body, 1, p.Data)
		}
		if p.DataIsZero {
			body = appendBool(body, 2, true)
		}
		if p.Complete {
			body = appendBool(body, 3, true)
		}
		if p.Error != "" {
			body = appendLen(body, 4, []byte(p.Error))
		}
		return appendLen(nil, 2, body)
	case WCancel:
		return appendBool(nil, 3, p.Cancel)
	}
	return nil
}

// Frame adds the length prefix.
func Frame(b []byte) []byte {
	return append(binary.LittleEndian.AppendUint32(nil, uint32(len(b))), b...)
}

// Frames splits a recorded byte stream. rest is the incomplete end.
func Frames(b []byte) (out [][]byte, rest []byte) {
	for len(b) >= 4 {
		n := int(binary.LittleEndian.Uint32(b))
		if n > 100_000_000 || len(b) < 4+n {
			break
		}
		out = append(out, b[4:4+n])
		b = b[4+n:]
	}
	return out, b
}

// ErrGrey: implementations differ (invalid UTF-8, overlong varints).
var ErrGrey = errors.New("unspecified wire data")

// ErrWire is a decoding error.
var ErrWire = errors.New("invalid wire data")

// Field is a decoded field.
type Field struct {
	Num  int
	Type int
	V    uint64
	B    []byte
}

func uvarint(b []byte) (uint64, int) {
	var v uint64
	for i := 0; i < len(b) && i < 10; i++ {
		if i == 9 && b[i] > 1 && b[i] < 0x80 {
			return 0, -2
		}
		v |= uint64(b[i]&0x7f) << (7 * i)
		if b[i] < 0x80 {
			return v, i + 1
		}
	}
	return 0, -1
}

// ParseFields decodes the fields of a message. Groups are skipped.
func ParseFields(b []byte) (out []Field, err error) {
	for len(b) > 0 {
		tag, n := uvarint(b)
		if n == -2 {
			return nil, ErrGrey
		}
		if n < 0 || tag>>3 == 0 {
			return nil, ErrWire
		}
		if tag>>3 > 1<<29-1 {
			return nil, ErrGrey
		}
		b = b[n:]
		f := Field{Num: int(tag >> 3), Type: int(tag & 7)}
		switch f.Type {
		case 0:
			if f.V, n = uvarint(b); n < 0 {
				if n == -2 {
					return nil, ErrGrey
				}
				return nil, ErrWire
			}
			b = b[n:]
		case 1:
			if len(b) < 8 {
				return nil, ErrWire
			}
			b = b[8:]
		case 5:
			if len(b) < 4 {
				return nil, ErrWire
			}
			b = b[4:]
		case 2:
			l, n := uvarint(b)
			if n == -2 {
				return nil, ErrGrey
			}
			if n < 0 || l > uint64(len(b)-n) {
				return nil, ErrWire
			}
			f.B = b[n : n+int(l)]
			b = b[n+int(l):]
		case 3:
			n, err := skipGroup(b, f.Num, 0)
			if err != nil {
				return nil, err
			}
			b = b[n:]
		default:
			return nil, ErrWire
		}
		out = append(out, f)
	}
	return out, nil
}

func skipGroup(b []byte, num, depth int) (int, error) {
	if depth > 50 {
		return 0, ErrGrey
	}
	off := 0
	for {
		tag, n := uvarint(b[off:])
		if n == -2 || n > 0 && (tag>>3 == 0 || tag>>3 > 1<<29-1) {
			return 0, ErrGrey
		}
		if n < 0 {
			return 0, ErrWire
		}
		off += n
		switch tag & 7 {
		case 0:
			_, n := uvarint(b[off:])
			if n == -2 {
				return 0, ErrGrey
			}
			if n < 0 {
				return 0, ErrWire
			}
			off += n
		case 1:
			off += 8
		case 5:
			off += 4
		case 2:
			l, n := uvarint(b[off:])
			if n == -2 {
				return 0, ErrGrey
			}
			if n < 0 || l > uint64(len(b)-off-n) {
				return 0, ErrWire
			}
			off += n + int(l)
		case 3:
			n, err := skipGroup(b[off:], int(tag>>3), depth+1)
			if err != nil {
				return 0, err
			}
			off += n
		case 4:
			if int(tag>>3) != num {
				return 0, ErrGrey
			}
			return off, nil
		default:
			return 0, ErrWire
		}
		if off > len(b) {
			return 0, ErrWire
		}
	}
}

// Decode decodes a packet: the last body wins, a repeated body message of the
// same kind is merged.
func Decode(b []byte) (*WPacket, error) {
	fs, err := ParseFields(b)
	if err != nil {
		return nil, err
	}
	p := &WPacket{}
	str := func(b []byte) (string, error) {
		if !utf8.Valid(b) {
			return "", ErrGrey
		}
		return string(b), nil
	}
	for _, f := range fs {
		switch f.Num {
		case 1, 2:
			if f.Type != 2 {
				return nil, ErrGrey // unknown field or error
			}
			if p.Kind != f.Num {
				p = &WPacket{Kind: f.Num}
			}
			sub, err := ParseFields(f.B)
			if err != nil {
				return nil, err
			}
			for _, g := range sub {
				want := -1
				if f.Num == WStart {
					want = map[int]int{1: 2, 2: 2, 3: 2, 4: 0, 0: -1}[g.Num]
					if g.Num > 4 {
						want = -1
					}
				} else {
					want = map[int]int{1: 2, 2: 0, 3: 0, 4: 2}[g.Num]
					if g.Num > 4 {
						want = -1
					}
				}
				if want == -1 {
					continue
				}
				if g.Type != want {
					return nil, ErrGrey
				}
				switch f.Num*10 + g.Num {
				case 11:
					p.Service, err = str(g.B)
				case 12:
					p.Method, err = str(g.B)
				case 13, 21:
					p.Data = g.B
				case 14, 22:
					p.DataIsZero = g.V != 0
				case 23:
					p.Complete = g.V != 0
				case 24:
					p.Error, err = str(g.B)
				}
				if err != nil {
					return nil, err
				}
			}
		case 3:
			if f.Type != 0 {
				return nil, ErrGrey
			}
			p = &WPacket{Kind: WCancel, Cancel: f.V != 0}
		}
	}
	return p, nil
}

// DecodeStream decodes all packets of a recorded byte stream.
func DecodeStream(b []byte) (out []*WPacket, ends []int64, rest []byte, err error) {
	fr, rest := Frames(b)
	off := int64(0)
	for _, f := range fr {
		p, err := Decode(f)
		if err != nil {
			return out, ends, rest, err
		}
		off += int64(len(f)) + 4
		out = append(out, p)
		ends = append(ends, off)
	}
	return out, ends, rest, nil
}

// Nested stream packets.
const (
	RNone = iota
	RInit
	RAck
	RData
)

// RPacket is a nested stream packet.
type RPacket struct {
	Kind int
	Str  string // component id or ack error
	Data []byte
}

// Encode is the canonical encoding.
func (p *RPacket) Encode() []byte {
	switch p.Kind {
	case RInit, RAck:
		var body []byte
		if p.Str != "" {
			body = appendLen(nil, 1, []byte(p.Str))
		}
		return appendLen(nil, p.Kind, body)
	case RData:
		return appendLen(nil, 3, p.Data)
	}
	return nil
}

// DecodeR decodes a nested stream packet.
func DecodeR(b []byte) (*RPacket, error) {
	fs, err := ParseFields(b)
	if err != nil {
		return nil, err
	}
	p := &RPacket{}
	for _, f := range fs {
		switch f.Num {
		case 1, 2:
			if f.Type != 2 {
				return nil, ErrGrey // unknown field or error
			}
			if p.Kind != f.Num {
				p = &RPacket{Kind: f.Num}
			}
			sub, err := ParseFields(f.B)
			if err != nil {
				return nil, err
			}
			for _, g := range sub {
				if g.Num != 1 {
					continue
				}
				if g.Type != 2 {
					return nil, ErrGrey
				}
				if !utf8.Valid(g.B) {
					return nil, ErrGrey
				}
				p.Str = string(g.B)
			}
		case 3:
			if f.Type != 2 {
				return nil, ErrGrey // unknown field or error
			}
			p = &RPacket{Kind: RData, Data: f.B}
		}
	}
	return p, nil
}
