// Drives the Go parser library through a script of commands (same protocol as cdriver.c).
package main

import (
	"bufio"
	"fmt"
	realos "os"
	"strconv"
	"strings"

	def "github.com/COVESA/vss-tools/binary/go_parser/datamodel"
	parser "github.com/COVESA/vss-tools/binary/go_parser/parserlib"
	"github.com/COVESA/vss-tools/binary/go_parser/simos"
)

var out *bufio.Writer
var nodes []*def.Node_t
var index map[*def.Node_t]int

func enc(s string) string {
	var b strings.Builder
	b.WriteString(" =")
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c > 32 && c < 127 && c != '%' {
			b.WriteByte(c)
		} else {
			fmt.Fprintf(&b, "%%%02X", c)
		}
	}
	return b.String()
}

func tname(t def.NodeTypes_t) string {
	switch t {
	case def.SENSOR:
		return "sensor"
	case def.ACTUATOR:
		return "actuator"
	case def.ATTRIBUTE:
		return "attribute"
	case def.BRANCH:
		return "branch"
	case def.STRUCT:
		return "struct"
	case def.PROPERTY:
		return "property"
	}
	return "unknown"
}

func walk(n *def.Node_t, parent int) {
	me := len(nodes)
	nodes = append(nodes, n)
	index[n] = me
	fmt.Fprintf(out, "N %d %d %s %d %d", me, parent, tname(parser.VSSgetType(n)), parser.VSSgetValidation(n), parser.VSSgetNumOfChildren(n))
	out.WriteString(enc(parser.VSSgetName(n)) + enc(parser.VSSgetUUID(n)) + enc(parser.VSSgetDescr(n)) + enc(parser.VSSgetDatatype(n)) + enc(parser.VSSgetUnit(n)) + fields(n) + "\n")
	for i := 0; i < parser.VSSgetNumOfAllowedElements(n); i++ {
		fmt.Fprintf(out, "A %d%s\n", me, enc(parser.VSSgetAllowedElement(n, i)))
	}
	if me > 0 && parser.VSSgetParent(n) != nodes[parent] {
		fmt.Fprintf(out, "E wrong parent of node %d\n", me)
	}
	if me == 0 && parser.VSSgetParent(n) != nil {
		fmt.Fprintf(out, "E root has a parent\n")
	}
	if parser.VSSgetChild(n, parser.VSSgetNumOfChildren(n)) != nil {
		fmt.Fprintf(out, "E child beyond the last one of node %d\n", me)
	}
	for i := 0; i < parser.VSSgetNumOfChildren(n); i++ {
		walk(parser.VSSgetChild(n, i), me)
	}
}

// results of earlier searches that the caller still holds
var holds []func() string

func check() {
	for _, h := range holds {
		if p := h(); p != "" {
			fmt.Fprintf(out, "E the held result of the search for %s changed\n", p)
			return
		}
	}
}

func num(s string) int {
	v, _ := strconv.Atoi(s)
	return v
}

func main() {
	in, err := realos.ReadFile(realos.Args[1])
	o, err2 := realos.Create(realos.Args[2])
	if err != nil || err2 != nil {
		realos.Exit(90)
	}
	out = bufio.NewWriter(o)
	defer func() {
		if r := recover(); r != nil {
			fmt.Fprintf(out, "P%s\n", enc(fmt.Sprint(r)))
			out.Flush()
			realos.Exit(3)
		}
	}()
	var root *def.Node_t
	cmd := 0
	for _, line := range strings.Split(string(in), "\n") {
		b := strings.Split(line, "\t")
		if line == "" {
			continue
		}
		if b[0] != "set" {
			fmt.Fprintf(out, "C %d %s\n", cmd, b[0])
			out.Flush()
			cmd++
		}
		switch {
		case b[0] == "set":
			switch b[1] {
			case "eio":
				simos.EioAt = int64(num(b[2]))
			case "chunk":
				simos.ChunkMax = int64(num(b[2]))
			case "seed":
				simos.Seed = uint64(num(b[2])) | 1
			}
		case b[0] == "read":
			f0 := simos.FiredEio
			r := parser.VSSReadTree(b[1])
			ok := 0
			if r != nil {
				ok = 1
			}
			fmt.Fprintf(out, "R %d %d\n", ok, simos.FiredEio-f0)
			simos.EioAt = -1
			if r != nil {
				root = r
				holds = nil
				nodes, index = nil, map[*def.Node_t]int{}
				walk(root, -1)
			}
		case root == nil:
		case b[0] == "walk":
			nodes, index = nil, map[*def.Node_t]int{}
			walk(root, -1)
		case b[0] == "search":
			val := -1
			ns := b[5:]
			var nsl []string
			if len(ns) > 0 {
				nsl = ns
			}
			sd, k := parser.VSSsearchNodes(b[1], root, num(b[4]), num(b[2]) == 1, num(b[3]) == 1, len(ns), nsl, &val)
			fmt.Fprintf(out, "S %d %d\n", k, val)
			for i := 0; i < k && i < len(sd); i++ {
				ix, ok := index[sd[i].NodeHandle]
				if !ok {
					ix = -1
				}
				fmt.Fprintf(out, "M %d%s\n", ix, enc(sd[i].NodePath))
			}
			if k >= 0 && k <= len(sd) {
				a, c, p := sd[:k:k], append(sd[:0:0], sd[:k]...), b[1]
				holds = append(holds, func() string {
					for i := range c {
						if a[i].NodePath != c[i].NodePath || a[i].NodeHandle != c[i].NodeHandle {
							return p
						}
					}
					return ""
				})
			}
		case b[0] == "leaflist":
			fmt.Fprintf(out, "L %d\n", parser.VSSGetLeafNodesList(root, b[1]))
		case b[0] == "uuidlist":
			fmt.Fprintf(out, "L %d\n", parser.VSSGetUuidList(root, b[1]))
		case b[0] == "write":
			parser.VSSWriteTree(b[1], root)
			fmt.Fprintf(out, "W\n")
		}
		if b[0] != "set" {
			check()
		}
	}
	fmt.Fprintf(out, "Z %d %d 0 0 0 %d\n", simos.FiredShort, simos.FiredEio, simos.Reads)
	out.Flush()
}
