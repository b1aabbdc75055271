package p02

import (
	"encoding/pem"
	"fmt"
	"net/http/httptest"

	"verif/vt"

	"pgregory.net/rapid"
)

// node is an element of a DER encoding.
type node struct {
	tag  byte
	body []byte  // of a primitive element
	kids []*node // of a constructed element
}

// parseDER parses a sequence of elements, nil if it is none.
func parseDER(b []byte, depth int) (l []*node) {
	for len(b) > 0 {
		if len(b) < 2 || depth > 6 {
			return nil
		}
		tag, n, h := b[0], int(b[1]), 2
		if n >= 0x80 {
			k := n & 0x7f
			if k == 0 || k > 3 || len(b) < 2+k {
				return nil
			}
			n = 0
			for _, c := range b[2 : 2+k] {
				n = n<<8 | int(c)
			}
			h += k
		}
		if len(b) < h+n {
			return nil
		}
		nd := &node{tag: tag, body: append([]byte(nil), b[h:h+n]...)}
		if tag&0x20 != 0 {
			nd.kids = parseDER(nd.body, depth+1)
		}
		l, b = append(l, nd), b[h+n:]
	}
	return l
}

func (n *node) encode() []byte {
	b := n.body
	if n.kids != nil {
		b = encodeDER(n.kids)
	}
	out := []byte{n.tag}
	switch l := len(b); {
	case l < 0x80:
		out = append(out, byte(l))
	case l < 0x100:
		out = append(out, 0x81, byte(l))
	case l < 0x10000:
		out = append(out, 0x82, byte(l>>8), byte(l))
	default:
		out = append(out, 0x83, byte(l>>16), byte(l>>8), byte(l))
	}
	return append(out, b...)
}

func encodeDER(l []*node) (out []byte) {
	for _, n := range l {
		out = append(out, n.encode()...)
	}
	return out
}

// all lists the elements with the slices they are in.
func all(l *[]*node, out *[]place) {
	for i := range *l {
		*out = append(*out, place{l, i})
		if (*l)[i].kids != nil {
			all(&(*l)[i].kids, out)
		}
	}
}

type place struct {
	l *[]*node
	i int
}

// mutateDER changes the structure or the values of a DER encoding and keeps
// the lengths consistent.
func mutateDER(rt *rapid.T, in []byte) ([]byte, string) {
	root := parseDER(in, 0)
	if root == nil {
		return vt.Mutation(rt, in, "der")
	}
	desc := ""
	for i := rapid.SampledFrom([]int{1, 1, 1, 2, 3}).Draw(rt, "dern"); i > 0; i-- {
		var pl []place
		all(&root, &pl)
		if len(pl) == 0 {
			break
		}
		p := pl[vt.Uniform(rt, len(pl), "element")]
		n := (*p.l)[p.i]
		op := rapid.IntRange(0, 8).Draw(rt, "derop")
		desc += fmt.Sprintf("element %d of %d: op %d; ", p.i, len(pl), op)
		switch op {
		case 0:
			*p.l = append(append([]*node{}, (*p.l)[:p.i]...), (*p.l)[p.i+1:]...)
		case 1:
			*p.l = append(append(append([]*node{}, (*p.l)[:p.i+1]...), n), (*p.l)[p.i+1:]...)
		case 2:
			n.body, n.kids = nil, nil
		case 3:
			n.tag = byte(rapid.SampledFrom([]int{1, 2, 3, 4, 5, 6, 0x0a, 0x0c, 0x13, 0x16, 0x17, 0x30, 0x31, 0x80, 0xa0, 0x1f}).Draw(rt, "tag"))
		case 4:
			n.body, n.kids = vt.Expand(rapid.SampledFrom([]int{1, 2, 4, 8, 9, 31, 32, 33, 64, 200}).Draw(rt, "len"), rapid.Uint32().Draw(rt, "body"), rapid.IntRange(0, 3).Draw(rt, "kind")), nil
		case 5:
			o := pl[vt.Uniform(rt, len(pl), "other")]
			cp := parseDER((*o.l)[o.i].encode(), 0)
			if len(cp) == 1 {
				(*p.l)[p.i] = cp[0]
			}
		default:
			if n.kids == nil {
				n.body, _ = vt.Mutation(rt, n.body, "value")
			} else if len(n.kids) > 1 {
				j := vt.Uniform(rt, len(n.kids)-1, "swap")
				n.kids[j], n.kids[j+1] = n.kids[j+1], n.kids[j]
			}
		}
	}
	return encodeDER(root), desc
}

// pemOf returns the certificate of a server.
func pemOf(s *httptest.Server) []byte {
	return pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: s.Certificate().Raw})
}
