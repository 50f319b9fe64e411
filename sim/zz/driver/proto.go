//go:build go1.24

package main

import (
	"bytes"
	"encoding/base64"
	"encoding/binary"
	"fmt"
	"net/netip"
	"sort"
	"strconv"
	"strings"
)

// Independent encoders and decoders of the wire formats (BEP 3, 7, 15, 23); nothing here uses the code under test.

const magic = 0x41727101980

func be32(b []byte) uint32 { return binary.BigEndian.Uint32(b) }
func be64(b []byte) uint64 { return binary.BigEndian.Uint64(b) }

func udpHead(first uint64, action uint32, tx uint32) []byte {
	b := make([]byte, 16)
	binary.BigEndian.PutUint64(b, first)
	binary.BigEndian.PutUint32(b[8:], action)
	binary.BigEndian.PutUint32(b[12:], tx)
	return b
}

type annFields struct {
	Hash, Peer     [20]byte
	Down, Left, Up uint64
	Event          uint32
	IP, Key        uint32
	NumWant        int32
	Port           uint16
}

func udpAnnounce(id uint64, tx uint32, a annFields) []byte {
	b := udpHead(id, 1, tx)
	b = append(b, a.Hash[:]...)
	b = append(b, a.Peer[:]...)
	b = binary.BigEndian.AppendUint64(b, a.Down)
	b = binary.BigEndian.AppendUint64(b, a.Left)
	b = binary.BigEndian.AppendUint64(b, a.Up)
	b = binary.BigEndian.AppendUint32(b, a.Event)
	b = binary.BigEndian.AppendUint32(b, a.IP)
	b = binary.BigEndian.AppendUint32(b, a.Key)
	b = binary.BigEndian.AppendUint32(b, uint32(a.NumWant))
	b = binary.BigEndian.AppendUint16(b, a.Port)
	return b
}

func parseAnnounce(b []byte) annFields {
	var a annFields
	copy(a.Hash[:], b[16:36])
	copy(a.Peer[:], b[36:56])
	a.Down, a.Left, a.Up = be64(b[56:]), be64(b[64:]), be64(b[72:])
	a.Event, a.IP, a.Key = be32(b[80:]), be32(b[84:]), be32(b[88:])
	a.NumWant = int32(be32(b[92:]))
	a.Port = binary.BigEndian.Uint16(b[96:])
	return a
}

// entry is one listed peer.
type entry struct {
	AP netip.AddrPort
	ID string // only in the dictionary model
}

func splitPeers(b []byte, six bool) ([]entry, error) {
	n := 6
	if six {
		n = 18
	}
	if len(b)%n != 0 {
		return nil, fmt.Errorf("peer list of %d bytes is no multiple of %d", len(b), n)
	}
	var out []entry
	for i := 0; i < len(b); i += n {
		a, _ := netip.AddrFromSlice(b[i : i+n-2])
		out = append(out, entry{AP: netip.AddrPortFrom(a, binary.BigEndian.Uint16(b[i+n-2:]))})
	}
	return out, nil
}

// ---------------------------------------------------------------- bencoding

// bdecode is a strict decoder that accepts any key order (BEP 3 order is C27's subject, not ours).
func bdecode(b []byte) (v any, rest []byte, err error) {
	if len(b) == 0 {
		return nil, nil, fmt.Errorf("truncated")
	}
	switch {
	case b[0] == 'i':
		e := bytes.IndexByte(b, 'e')
		if e < 2 {
			return nil, nil, fmt.Errorf("bad integer")
		}
		s := string(b[1:e])
		n, err := strconv.ParseInt(s, 10, 64)
		if err != nil || strconv.FormatInt(n, 10) != s {
			return nil, nil, fmt.Errorf("bad integer %q", s)
		}
		return n, b[e+1:], nil
	case b[0] == 'l':
		b = b[1:]
		l := []any{}
		for len(b) > 0 && b[0] != 'e' {
			var x any
			if x, b, err = bdecode(b); err != nil {
				return nil, nil, err
			}
			l = append(l, x)
		}
		if len(b) == 0 {
			return nil, nil, fmt.Errorf("unterminated list")
		}
		return l, b[1:], nil
	case b[0] == 'd':
		b = b[1:]
		d := map[string]any{}
		for len(b) > 0 && b[0] != 'e' {
			var k, x any
			if k, b, err = bdecode(b); err != nil {
				return nil, nil, err
			}
			ks, ok := k.(string)
			if !ok {
				return nil, nil, fmt.Errorf("key is no string")
			}
			if x, b, err = bdecode(b); err != nil {
				return nil, nil, err
			}
			if _, dup := d[ks]; dup {
				return nil, nil, fmt.Errorf("duplicate key %q", ks)
			}
			d[ks] = x
		}
		if len(b) == 0 {
			return nil, nil, fmt.Errorf("unterminated dictionary")
		}
		return d, b[1:], nil
	case b[0] >= '0' && b[0] <= '9':
		c := bytes.IndexByte(b, ':')
		if c < 0 || c > 10 {
			return nil, nil, fmt.Errorf("bad string length")
		}
		n, err := strconv.Atoi(string(b[:c]))
		if err != nil || n < 0 || c+1+n > len(b) {
			return nil, nil, fmt.Errorf("bad string length %q", b[:c])
		}
		return string(b[c+1 : c+1+n]), b[c+1+n:], nil
	}
	return nil, nil, fmt.Errorf("unexpected byte %q", b[0])
}

func bdict(b []byte) (map[string]any, error) {
	v, rest, err := bdecode(b)
	if err != nil {
		return nil, err
	}
	if len(rest) > 0 {
		return nil, fmt.Errorf("%d bytes after the dictionary", len(rest))
	}
	d, ok := v.(map[string]any)
	if !ok {
		return nil, fmt.Errorf("not a dictionary")
	}
	return d, nil
}

// ---------------------------------------------------------------- HTTP requests

// esc percent-encodes; style picks upper/lower hex and how much is escaped.
func esc(b []byte, style int, raw ...bool) string {
	var o strings.Builder
	for i, c := range b {
		un := c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '-' || c == '_' || c == '.' || c == '~'
		if len(raw) > 0 && raw[0] && strings.IndexByte("!*'()$,;:@/+", c) >= 0 {
			o.WriteByte(c)
			continue
		}
		if un && style&1 == 0 {
			o.WriteByte(c)
		} else if style&2 == 0 || style&4 != 0 && i%2 == 0 {
			fmt.Fprintf(&o, "%%%02X", c)
		} else {
			fmt.Fprintf(&o, "%%%02x", c)
		}
	}
	return o.String()
}

func unesc(s string) (string, bool) {
	var o []byte
	for i := 0; i < len(s); i++ {
		if s[i] == '%' {
			if i+2 >= len(s) {
				return "", false
			}
			n, err := strconv.ParseUint(s[i+1:i+3], 16, 8)
			if err != nil {
				return "", false
			}
			o = append(o, byte(n))
			i += 2
			continue
		}
		o = append(o, s[i])
	}
	return string(o), true
}

// hreq is a request as an independent reader understands it.
type hreq struct {
	Complete  bool // the header block has ended
	Plain     bool // one of the shapes the generators send: the expectation below is exact
	Path      string
	Params    [][2]string
	Forwarded string
	HasFwd    bool
	Body      string // bytes after the request
}

func parseHTTP(b []byte) hreq {
	var h hreq
	if bytes.HasPrefix(b, []byte("R0VU")) {
		d, err := base64.StdEncoding.DecodeString(string(b))
		if err != nil {
			return h
		}
		b = d
	}
	e := bytes.Index(b, []byte("\r\n\r\n"))
	if e < 0 {
		return h
	}
	h.Complete = true
	h.Body = string(b[e+4:])
	lines := strings.Split(string(b[:e]), "\r\n")
	f := strings.Split(lines[0], " ")
	if len(f) != 3 || f[0] != "GET" || !strings.HasPrefix(f[1], "/") || !strings.HasPrefix(f[2], "HTTP/1.") || len(b) > 2600 {
		return h
	}
	h.Plain = true
	q := ""
	h.Path = f[1]
	if i := strings.IndexByte(f[1], '?'); i >= 0 {
		h.Path, q = f[1][:i], f[1][i+1:]
	}
	if q != "" {
		for _, kv := range strings.Split(q, "&") {
			if kv == "" {
				continue
			}
			k, v := kv, "1"
			if i := strings.IndexByte(kv, '='); i >= 0 {
				k, v = kv[:i], kv[i+1:]
			}
			v, ok := unesc(v)
			if !ok || strings.Contains(k, "%") || kv == "info_hash" {
				h.Plain = false
			}
			if o, dup := h.get(k); dup && o != v && k != "info_hash" {
				h.Plain = false // any of the two may be meant
			}
			h.Params = append(h.Params, [2]string{k, v})
		}
		if strings.Count(q, "&") >= 44 {
			h.Plain = false
		}
	}
	for _, l := range lines[1:] {
		k, v, ok := strings.Cut(l, ": ")
		if !ok {
			h.Plain = false
			continue
		}
		if k == "X-Forwarded-For" {
			if h.HasFwd {
				h.Plain = false
			}
			h.HasFwd = true
			h.Forwarded = v
		}
	}
	return h
}

func (h *hreq) get(k string) (string, bool) {
	v, ok := "", false
	for _, p := range h.Params {
		if p[0] == k {
			v, ok = p[1], true
		}
	}
	return v, ok
}

// hrep is a parsed reply.
type hrep struct {
	Status string // "200", "" if the reply does not start with a status line
	Body   []byte
	Dict   map[string]any // non-nil if the body is one dictionary
	Err    string
}

func parseReply(b []byte) hrep {
	var r hrep
	s := string(b)
	if !strings.HasPrefix(s, "HTTP/1.") || len(s) < 12 || s[8] != ' ' {
		r.Err = fmt.Sprintf("no status line: %.60q", s)
		return r
	}
	r.Status = s[9:12]
	e := strings.Index(s, "\r\n\r\n")
	if e < 0 {
		r.Err = fmt.Sprintf("headers do not end: %.80q", s)
		return r
	}
	r.Body = b[e+4:]
	if len(r.Body) > 0 && r.Body[0] == 'd' {
		d, err := bdict(r.Body)
		if err != nil {
			r.Err = fmt.Sprintf("malformed dictionary: %v in %.200q", err, r.Body)
		}
		r.Dict = d
	}
	return r
}

func sortedKeys[V any](m map[string]V) []string {
	var k []string
	for x := range m {
		k = append(k, x)
	}
	sort.Strings(k)
	return k
}
