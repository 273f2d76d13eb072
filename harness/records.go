package main

// Independent encoder/decoder of Kafka message sets (magic 0, 1) and record
// batches (magic 2).

import (
	"bytes"
	"compress/gzip"
	"crypto/sha1"
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"hash/crc32"
	"io"

	"github.com/golang/snappy"
	"github.com/pierrec/lz4/v4"
)

type Hdr struct {
	K string
	V []byte // nil = null
}

type Rec struct {
	Off  int64
	Ts   int64
	Key  []byte // nil = null
	Val  []byte
	Hdrs []Hdr
}

// Batch is one stored unit of a partition log.
type Batch struct {
	Base, Last int64 // offset range covered (Last >= Base)
	Magic      int
	Codec      int // 0 none 1 gzip 2 snappy 3 lz4
	Control    bool
	Txn        bool
	LogAppend  bool // timestamp type
	MaxTs      int64
	Recs       []Rec // visible records (empty: compacted away)
	Raw        []byte
	Style      int // encoding variant (e.g. snappy block vs xerial)
}

var castagnoli = crc32.MakeTable(crc32.Castagnoli)

func bstr(b []byte) string {
	if b == nil {
		return nullMark
	}
	ok := len(b) <= 24
	for _, c := range b {
		if c < 0x21 || c > 0x7e || c == '"' || c == '\\' {
			ok = false
		}
	}
	if ok {
		return "s:" + string(b)
	}
	h := sha1.Sum(b)
	return fmt.Sprintf("h:%d:%s", len(b), hex.EncodeToString(h[:6]))
}

func xerialEncode(b []byte, block int) []byte {
	out := []byte{0x82, 'S', 'N', 'A', 'P', 'P', 'Y', 0, 0, 0, 0, 1, 0, 0, 0, 1}
	for len(b) > 0 {
		n := block
		if n > len(b) {
			n = len(b)
		}
		e := snappy.Encode(nil, b[:n])
		out = binary.BigEndian.AppendUint32(out, uint32(len(e)))
		out = append(out, e...)
		b = b[n:]
	}
	return out
}

func xerialDecode(b []byte) ([]byte, error) {
	if len(b) >= 16 && bytes.Equal(b[:8], []byte{0x82, 'S', 'N', 'A', 'P', 'P', 'Y', 0}) {
		b = b[16:]
		var out []byte
		for len(b) > 0 {
			if len(b) < 4 {
				return nil, errShort
			}
			n := int(binary.BigEndian.Uint32(b))
			if n > len(b)-4 {
				return nil, errShort
			}
			d, err := snappy.Decode(nil, b[4:4+n])
			if err != nil {
				return nil, err
			}
			out = append(out, d...)
			b = b[4+n:]
		}
		return out, nil
	}
	return snappy.Decode(nil, b)
}

func compress(codec, style int, b []byte) []byte {
	switch codec {
	case 0:
		return b
	case 1:
		var o bytes.Buffer
		w := gzip.NewWriter(&o)
		w.Write(b)
		w.Close()
		return o.Bytes()
	case 2:
		if style == 1 {
			return snappy.Encode(nil, b)
		}
		if style == 2 {
			return xerialEncode(b, 97)
		}
		return xerialEncode(b, 32*1024)
	case 3:
		var o bytes.Buffer
		w := lz4.NewWriter(&o)
		w.Write(b)
		w.Close()
		return o.Bytes()
	}
	panic("codec")
}

func decompress(codec int, b []byte) ([]byte, error) {
	switch codec {
	case 0:
		return b, nil
	case 1:
		r, err := gzip.NewReader(bytes.NewReader(b))
		if err != nil {
			return nil, err
		}
		return io.ReadAll(r)
	case 2:
		return xerialDecode(b)
	case 3:
		return io.ReadAll(lz4.NewReader(bytes.NewReader(b)))
	}
	return nil, fmt.Errorf("codec %d", codec)
}

func vbytes(w *wr, b []byte) {
	if b == nil {
		w.vi(-1)
		return
	}
	w.vi(int64(len(b)))
	w.b = append(w.b, b...)
}

func encRecV2(r Rec, base, baseTs int64) []byte {
	w := &wr{}
	w.i8(0)
	w.vi(r.Ts - baseTs)
	w.vi(r.Off - base)
	vbytes(w, r.Key)
	vbytes(w, r.Val)
	w.vi(int64(len(r.Hdrs)))
	for _, h := range r.Hdrs {
		w.vi(int64(len(h.K)))
		w.b = append(w.b, h.K...)
		vbytes(w, h.V)
	}
	o := &wr{}
	o.vi(int64(len(w.b)))
	return append(o.b, w.b...)
}

func (b *Batch) encode() {
	if b.Magic == 2 {
		var baseTs, maxTs int64
		if len(b.Recs) > 0 {
			baseTs = b.Recs[0].Ts
			maxTs = baseTs
		}
		var body []byte
		for _, r := range b.Recs {
			if r.Ts > maxTs {
				maxTs = r.Ts
			}
			body = append(body, encRecV2(r, b.Base, baseTs)...)
		}
		body = compress(b.Codec, b.Style, body)
		attr := int16(b.Codec)
		if b.LogAppend {
			attr |= 8
			maxTs = b.MaxTs
		}
		if b.Control {
			attr |= 0x20 | 0x10
		}
		if b.Txn {
			attr |= 0x10
		}
		w := &wr{}
		w.i16(attr)
		w.i32(int32(b.Last - b.Base))
		w.i64(baseTs)
		w.i64(maxTs)
		w.i64(-1)
		w.i16(-1)
		w.i32(-1)
		w.i32(int32(len(b.Recs)))
		w.b = append(w.b, body...)
		crc := crc32.Checksum(w.b, castagnoli)
		o := &wr{}
		o.i64(b.Base)
		o.i32(int32(4 + 1 + 4 + len(w.b)))
		o.i32(0) // leader epoch
		o.i8(2)
		o.i32(int32(crc))
		b.Raw = append(o.b, w.b...)
		return
	}
	// message sets
	one := func(off int64, codec int, logAppend bool, ts int64, key, val []byte) []byte {
		w := &wr{}
		w.i8(int8(b.Magic))
		attr := int8(codec)
		if logAppend && b.Magic == 1 {
			attr |= 8
		}
		w.i8(attr)
		if b.Magic == 1 {
			w.i64(ts)
		}
		encPrim(w, "nbytes", bx(key), false)
		encPrim(w, "nbytes", bx(val), false)
		crc := crc32.ChecksumIEEE(w.b)
		o := &wr{}
		o.i64(off)
		o.i32(int32(4 + len(w.b)))
		o.i32(int32(crc))
		return append(o.b, w.b...)
	}
	if b.Codec == 0 {
		b.Raw = nil
		for _, r := range b.Recs {
			b.Raw = append(b.Raw, one(r.Off, 0, false, r.Ts, r.Key, r.Val)...)
		}
		return
	}
	var inner []byte
	var maxTs int64
	for _, r := range b.Recs {
		off := r.Off
		if b.Magic == 1 {
			off = r.Off - b.Base
		}
		if r.Ts > maxTs {
			maxTs = r.Ts
		}
		inner = append(inner, one(off, 0, false, r.Ts, r.Key, r.Val)...)
	}
	if b.LogAppend {
		maxTs = b.MaxTs
	}
	b.Raw = one(b.Last, b.Codec, b.LogAppend, maxTs, nil, compress(b.Codec, b.Style, inner))
}

func bx(b []byte) any {
	if b == nil {
		return nil
	}
	return b
}

// DecodedBatch is what the independent decoder reads in a produce request.
type DecodedBatch struct {
	Problems  []string
	Base      int64
	LastDelta int64
	Count     int64
	Attr      int64
	Magic     int
	Deltas    []int64
	Recs      []Rec
}

func decVBytes(r *rd) ([]byte, error) {
	n, err := r.varint()
	if err != nil {
		return nil, err
	}
	if n == -1 {
		return nil, nil
	}
	if n < -1 {
		return nil, fmt.Errorf("negative length %d", n)
	}
	x, err := r.need(int(n))
	if err != nil {
		return nil, err
	}
	return append([]byte{}, x...), nil
}

// decodeBatches decodes every record batch in b (magic 2 only).
func decodeBatches(b []byte) []*DecodedBatch {
	var out []*DecodedBatch
	for len(b) > 0 {
		d := &DecodedBatch{}
		out = append(out, d)
		bad := func(f string, a ...any) { d.Problems = append(d.Problems, fmt.Sprintf(f, a...)) }
		if len(b) < 61 {
			bad("batch header short: %d bytes", len(b))
			return out
		}
		r := &rd{b: b}
		d.Base, _ = r.i64()
		bl, _ := r.i32()
		_, _ = r.i32()
		mg, _ := r.i8()
		d.Magic = int(mg)
		if mg != 2 {
			bad("magic %d", mg)
			return out
		}
		if bl < 49 || int(bl) > len(b)-12 {
			bad("batch length %d, available %d", bl, len(b)-12)
			return out
		}
		end := 12 + int(bl)
		crc, _ := r.i32()
		if uint32(crc) != crc32.Checksum(b[r.off:end], castagnoli) {
			bad("crc")
		}
		at, _ := r.i16()
		d.Attr = int64(at)
		ld, _ := r.i32()
		d.LastDelta = int64(ld)
		baseTs, _ := r.i64()
		maxTs, _ := r.i64()
		r.i64()
		r.i16()
		r.i32()
		cnt, _ := r.i32()
		d.Count = int64(cnt)
		body, err := decompress(int(at&7), b[r.off:end])
		if err != nil {
			bad("decompress: %v", err)
			b = b[end:]
			continue
		}
		rr := &rd{b: body}
		var seenMax int64 = -1 << 62
		for rr.off < len(body) {
			l, err := rr.varint()
			if err != nil || l < 0 || rr.off+int(l) > len(body) {
				bad("record length")
				break
			}
			rb := &rd{b: body[rr.off : rr.off+int(l)]}
			rr.off += int(l)
			rb.i8()
			td, e1 := rb.varint()
			od, e2 := rb.varint()
			k, e3 := decVBytes(rb)
			v, e4 := decVBytes(rb)
			hn, e5 := rb.varint()
			rec := Rec{Off: d.Base + od, Ts: baseTs + td, Key: k, Val: v}
			for _, e := range []error{e1, e2, e3, e4, e5} {
				if e != nil {
					bad("record: %v", e)
					break
				}
			}
			for i := int64(0); i < hn && i < 1000; i++ {
				hk, e1 := decVBytes(rb)
				hv, e2 := decVBytes(rb)
				if e1 != nil || e2 != nil {
					bad("header")
					break
				}
				rec.Hdrs = append(rec.Hdrs, Hdr{string(hk), hv})
			}
			if rb.off != len(rb.b) {
				bad("record has %d extra bytes", len(rb.b)-rb.off)
			}
			if rec.Ts > seenMax {
				seenMax = rec.Ts
			}
			d.Deltas = append(d.Deltas, od)
			d.Recs = append(d.Recs, rec)
		}
		if len(d.Recs) > 0 && seenMax != maxTs {
			bad("max timestamp %d, records have %d", maxTs, seenMax)
		}
		b = b[end:]
	}
	return out
}
