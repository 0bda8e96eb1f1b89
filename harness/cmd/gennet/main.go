// Command gennet writes ../verifnet/zz_reexport.go: every exported identifier of
// the standard library's net package that verifnet does not replace itself, as
// an alias, a constant or a forwarding variable. It is run by hand (the output
// is committed); nothing at check time depends on it.
package main

import (
	"fmt"
	"go/importer"
	"go/token"
	"go/types"
	"os"
	"sort"
)

// replaced are the identifiers verifnet defines itself.
var replaced = map[string]bool{
	"UDPConn": true, "ListenPacket": true, "ListenUDP": true, "DialUDP": true,
	"ListenMulticastUDP": true, "ListenConfig": true,
}

func main() {
	pkg, err := importer.ForCompiler(token.NewFileSet(), "source", nil).Import("net")
	if err != nil {
		panic(err)
	}
	names := pkg.Scope().Names()
	sort.Strings(names)
	f, err := os.Create("verifnet/zz_reexport.go")
	if err != nil {
		panic(err)
	}
	defer f.Close()
	fmt.Fprintln(f, "// Code generated by cmd/gennet. DO NOT EDIT.\n\npackage verifnet\n\nimport \"net\"\n")
	for _, n := range names {
		o := pkg.Scope().Lookup(n)
		if !o.Exported() || replaced[n] {
			continue
		}
		switch o := o.(type) {
		case *types.TypeName:
			fmt.Fprintf(f, "type %s = net.%s\n", n, n)
		case *types.Const:
			fmt.Fprintf(f, "const %s = net.%s\n", n, n)
		case *types.Func, *types.Var:
			fmt.Fprintf(f, "var %s = net.%s\n", n, n)
		default:
			panic(fmt.Sprintf("%T", o))
		}
	}
}
