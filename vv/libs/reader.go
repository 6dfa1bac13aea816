// Drives the Go library, in the same way as reader.c drives the C library.
package main

import (
	"bufio"
	"encoding/hex"
	"fmt"
	"os"
	"strconv"
	"strings"

	def "github.com/COVESA/vss-tools/binary/go_parser/datamodel"
	parser "github.com/COVESA/vss-tools/binary/go_parser/parserlib"
)

var out *bufio.Writer

func field(s string) {
	fmt.Fprintf(out, " .%s", hex.EncodeToString([]byte(s)))
}

func dump(n *def.Node_t, parent *def.Node_t, depth int) {
	if parser.VSSgetParent(n) != parent {
		fmt.Fprint(out, "badparent ")
	}
	fmt.Fprintf(out, "%d %d %d", depth, int(parser.VSSgetType(n)), parser.VSSgetValidation(n))
	for _, s := range []string{parser.VSSgetName(n), parser.VSSgetUUID(n), parser.VSSgetDescr(n), parser.VSSgetDatatype(n),
		n.Min, n.Max, parser.VSSgetUnit(n), n.DefaultAllowed} {
		field(s)
	}
	fmt.Fprintf(out, " %d", parser.VSSgetNumOfAllowedElements(n))
	for i := 0; i < parser.VSSgetNumOfAllowedElements(n); i++ {
		field(parser.VSSgetAllowedElement(n, i))
	}
	fmt.Fprint(out, ";")
	for i := 0; i < parser.VSSgetNumOfChildren(n); i++ {
		dump(parser.VSSgetChild(n, i), n, depth+1)
	}
	if parser.VSSgetChild(n, parser.VSSgetNumOfChildren(n)) != nil {
		fmt.Fprint(out, "badchild ")
	}
}

func nth(n *def.Node_t, k *int) *def.Node_t {
	if *k == 0 {
		return n
	}
	*k--
	for i := 0; i < parser.VSSgetNumOfChildren(n); i++ {
		if r := nth(parser.VSSgetChild(n, i), k); r != nil {
			return r
		}
	}
	return nil
}

func indexOf(n *def.Node_t, x *def.Node_t, k *int) bool {
	if n == x {
		return true
	}
	*k++
	for i := 0; i < parser.VSSgetNumOfChildren(n); i++ {
		if indexOf(parser.VSSgetChild(n, i), x, k) {
			return true
		}
	}
	return false
}

func main() {
	fd, _ := strconv.Atoi(os.Args[1])
	out = bufio.NewWriter(os.NewFile(uintptr(fd), "answers"))
	var slots [10]*def.Node_t
	in := bufio.NewScanner(os.Stdin)
	in.Buffer(make([]byte, 1<<16), 1<<16)
	for in.Scan() {
		f := strings.Split(in.Text(), "\t")
		num := func(i int) int { v, _ := strconv.Atoi(f[i]); return v }
		slot := num(1)
		switch f[0] {
		case "read":
			slots[slot] = parser.VSSReadTree(f[2])
			if slots[slot] != nil {
				dump(slots[slot], nil, 1)
			} else {
				fmt.Fprint(out, "none")
			}
		case "dump":
			dump(slots[slot], nil, 1)
		case "write":
			parser.VSSWriteTree(f[2], slots[slot])
			fmt.Fprint(out, "done")
		case "leaves":
			fmt.Fprint(out, parser.VSSGetLeafNodesList(slots[slot], f[2]))
		case "uuids":
			fmt.Fprint(out, parser.VSSGetUuidList(slots[slot], f[2]))
		case "search":
			k, validation := num(2), -1
			scope := f[7:]
			data, found := parser.VSSsearchNodes(f[3], nth(slots[slot], &k), num(4), f[5] == "1", f[6] == "1", len(scope), scope, &validation)
			fmt.Fprintf(out, "%d %d", found, validation)
			for i := 0; i < found && i < len(data); i++ {
				at := 0
				if !indexOf(slots[slot], data[i].NodeHandle, &at) {
					at = -1
				}
				fmt.Fprintf(out, " %d", at)
				field(data[i].NodePath)
			}
		}
		fmt.Fprintln(out)
		out.Flush()
	}
}
