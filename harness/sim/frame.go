package sim

import (
	"encoding/binary"
	"fmt"
	"hash/fnv"
	"strconv"
	"strings"
)

// Frame is the wire format as documented, written and read independently of arpc's code.
type Frame struct {
	Reserved byte
	Cmd      byte // without stream bits
	Local    bool
	EOF      bool
	Err      bool
	Async    bool
	FlagRest byte
	MLen     int
	Seq      uint64
	Method   string
	Data     []byte
	OK       bool // method length fits
}

// Commands.
const (
	CmdReq    = 1
	CmdRsp    = 2
	CmdNotify = 3
	CmdPing   = 4
	CmdPong   = 5
	CmdStream = 6
)

// Parse reads a complete frame.
func Parse(b []byte) (f Frame) {
	f.Reserved = b[4]
	f.Cmd = b[5] & 0x3f
	f.Local = b[5]&0x80 != 0
	f.EOF = b[5]&0x40 != 0
	f.Err = b[6]&1 != 0
	f.Async = b[6]&2 != 0
	f.FlagRest = b[6] &^ 3
	f.MLen = int(b[7])
	f.Seq = binary.LittleEndian.Uint64(b[8:16])
	body := b[16:]
	if f.MLen <= len(body) {
		f.OK = true
		f.Method = string(body[:f.MLen])
		f.Data = body[f.MLen:]
	}
	return
}

// Bytes builds a frame.
func (f Frame) Bytes() []byte {
	b := make([]byte, 16, 16+len(f.Method)+len(f.Data))
	binary.LittleEndian.PutUint32(b, uint32(len(f.Method)+len(f.Data)))
	b[4] = f.Reserved
	b[5] = f.Cmd
	if f.Local {
		b[5] |= 0x80
	}
	if f.EOF {
		b[5] |= 0x40
	}
	if f.Err {
		b[6] |= 1
	}
	if f.Async {
		b[6] |= 2
	}
	b[6] |= f.FlagRest
	b[7] = byte(len(f.Method))
	binary.LittleEndian.PutUint64(b[8:], f.Seq)
	b = append(b, f.Method...)
	return append(b, f.Data...)
}

// Payload makes the self-describing payload of item id with the given size (at least its own label).
func Payload(id string, size int) string {
	head := id + "|" + strconv.Itoa(size) + "|"
	if size <= len(head) {
		return head
	}
	var sb strings.Builder
	sb.Grow(size)
	sb.WriteString(head)
	h := fnv.New32a()
	h.Write([]byte(head))
	x := h.Sum32() | 1
	for sb.Len() < size {
		if id[0] == 'z' { // compressible
			sb.WriteByte('z')
			continue
		}
		x ^= x << 13
		x ^= x >> 17
		x ^= x << 5
		sb.WriteByte(byte('!' + x%90))
	}
	return sb.String()
}

// Token identifies a payload: its id if it is intact, otherwise a digest.
func Token(s string) string {
	if s == "" {
		return ""
	}
	p := strings.SplitN(s, "|", 3)
	if len(p) == 3 && p[0] != "" {
		if n, err := strconv.Atoi(p[1]); err == nil && n < 1<<24 {
			if Payload(p[0], n) == s {
				return p[0]
			}
		}
	}
	h := fnv.New64a()
	h.Write([]byte(s))
	return fmt.Sprintf("?%d:%x", len(s), h.Sum64())
}
