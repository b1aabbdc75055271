package vt

import (
	"bytes"
	"encoding/json"
	"fmt"
	"sort"
	"strconv"
	"strings"

	"pgregory.net/rapid"
)

// node is a place in a JSON tree.
type node struct {
	path string
	get  interface{}
	set  func(v interface{})
	del  func()
}

func walk(path string, v interface{}, set func(interface{}), del func(), out *[]node) {
	*out = append(*out, node{path, v, set, del})
	switch x := v.(type) {
	case map[string]interface{}:
		var keys []string
		for k := range x {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			k := k
			walk(path+"/"+k, x[k], func(v interface{}) { x[k] = v }, func() { delete(x, k) }, out)
		}
	case []interface{}:
		for i := range x {
			i := i
			walk(path+"/"+strconv.Itoa(i), x[i], func(v interface{}) { x[i] = v },
				func() { set(append(append([]interface{}{}, x[:i]...), x[i+1:]...)) }, out)
		}
	}
}

func parse(in []byte) interface{} {
	d := json.NewDecoder(bytes.NewReader(in))
	d.UseNumber()
	var v interface{}
	InfraIf(d.Decode(&v))
	return v
}

// MutateJSON changes one to three places of the JSON document in. Only paths
// that start with one of the prefixes are changed ("" for everything).
func MutateJSON(t *rapid.T, in []byte, label string, prefixes ...string) (out []byte, desc string) {
	root := parse(in)
	n := rapid.SampledFrom([]int{1, 1, 1, 1, 2, 3}).Draw(t, label+"n")
	var descs []string
	for i := 0; i < n; i++ {
		var all []node
		walk("", root, func(v interface{}) { root = v }, func() { root = nil }, &all)
		var nodes []node
		for _, nd := range all {
			for _, p := range prefixes {
				if strings.HasPrefix(nd.path, p) {
					nodes = append(nodes, nd)
					break
				}
			}
		}
		if len(nodes) == 0 {
			break
		}
		nd := nodes[Uniform(t, len(nodes), label+"node")]
		descs = append(descs, nd.path+": "+mutateNode(t, nd, nodes, label))
	}
	b, err := json.Marshal(root)
	InfraIf(err)
	return b, strings.Join(descs, "; ")
}

func mutateNode(t *rapid.T, nd node, nodes []node, label string) string {
	k := Uniform(t, 10, label+"op")
	switch k {
	case 0:
		nd.del()
		return "removed"
	case 1:
		nd.set(nil)
		return "null"
	case 2:
		o := nodes[Uniform(t, len(nodes), label+"other")]
		if !strings.HasPrefix(nd.path, o.path) && !strings.HasPrefix(o.path, nd.path) {
			nd.set(clone(o.get))
			return "copied from " + o.path
		}
	case 3:
		v := rapid.SampledFrom([]interface{}{"", "x", json.Number("0"), json.Number("-1"), json.Number("1.5"), json.Number("1e300"),
			json.Number("18446744073709551615"), true, false, []interface{}{}, map[string]interface{}{}, []interface{}{nil}, "AAAA", "ED25510"}).Draw(t, label+"repl")
		nd.set(clone(v))
		return fmt.Sprintf("replaced by %v", v)
	}
	switch x := nd.get.(type) {
	case string:
		if Uniform(t, 5, label+"resize") == 4 { // an encoding of other length
			more := rapid.SampledFrom([]string{"00", "AAAA", "ff", "=="}).Draw(t, label+"more")
			switch n := len(more); rapid.IntRange(0, 3).Draw(t, label+"end") {
			case 0:
				nd.set(x + more)
			case 1:
				nd.set(more + x)
			case 2:
				nd.set(x[:len(x)-min(n, len(x))])
			default:
				nd.set(x[min(n, len(x)):])
			}
			return "resized"
		}
		b, d := Mutation(t, []byte(x), label+"str")
		if rapid.Bool().Draw(t, label+"ascii") { // keep the base64 alphabet
			for i := range b {
				if i < len(x) && b[i] == x[i] {
					continue
				}
				b[i] = "ABCDwxyz0189+/ag"[b[i]%16]
			}
		}
		nd.set(string(b))
		return d
	case json.Number:
		u, err := strconv.ParseUint(string(x), 10, 64)
		if err == nil {
			u += rapid.SampledFrom([]uint64{1, ^uint64(0), 2, 256, 1 << 32, 86400}).Draw(t, label+"delta")
			nd.set(json.Number(strconv.FormatUint(u, 10)))
			return fmt.Sprintf("number %s -> %d", x, u)
		}
		nd.set(json.Number("0"))
		return "number -> 0"
	case bool:
		nd.set(!x)
		return "flipped"
	case nil:
		nd.set(map[string]interface{}{"IDENTITY": "x"})
		return "null -> object"
	case []interface{}:
		switch {
		case len(x) > 0 && rapid.Bool().Draw(t, label+"drop"):
			nd.set(clone(x[:len(x)-1]))
			return "last element dropped"
		case len(x) > 0:
			nd.set(append(clone(x).([]interface{}), clone(x[0])))
			return "first element appended"
		default:
			nd.set([]interface{}{"x"})
			return "element added"
		}
	case map[string]interface{}:
		c := clone(x).(map[string]interface{})
		c["EXTRA"] = "x"
		nd.set(c)
		return "member added"
	}
	nd.del()
	return "removed"
}

func clone(v interface{}) interface{} {
	switch x := v.(type) {
	case map[string]interface{}:
		m := map[string]interface{}{}
		for k, v := range x {
			m[k] = clone(v)
		}
		return m
	case []interface{}:
		s := make([]interface{}, len(x))
		for i, v := range x {
			s[i] = clone(v)
		}
		return s
	}
	return v
}
