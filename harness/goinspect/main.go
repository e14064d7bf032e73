// Parses Go source files that arrive as JSON lines and describes what they declare, one JSON line each.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/constant"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
)

type pair [2]string

type field struct {
	Name string   `json:"name"`
	Type string   `json:"type"`
	Doc  []string `json:"doc"`
}

type typ struct {
	Name    string   `json:"name"`
	Params  []string `json:"params"`
	Kind    string   `json:"kind"`
	Text    string   `json:"text"`
	Fields  []field  `json:"fields"`
	Methods []string `json:"methods"`
	Doc     []string `json:"doc"`
	Idents  []string `json:"idents"`
}

type value struct {
	Keyword string   `json:"keyword"`
	Name    string   `json:"name"`
	Type    string   `json:"type"`
	Kind    string   `json:"kind"`
	Value   string   `json:"value"`
	Bytes   []int64  `json:"bytes"`
	Doc     []string `json:"doc"`
	Error   string   `json:"error"`
}

// A part of a function that deals with one field.
type step struct {
	ID     string   `json:"id"`
	Field  string   `json:"field"`
	Option bool     `json:"option"`
	Found  string   `json:"found"`
	Calls  []string `json:"calls"`
}

type missing struct {
	ID    string `json:"id"`
	Field string `json:"field"`
	Found string `json:"found"`
}

type fun struct {
	Name       string    `json:"name"`
	Recv       string    `json:"recv"`
	TypeParams []string  `json:"typeparams"`
	Params     []pair    `json:"params"`
	Results    []string  `json:"results"`
	Steps      []step    `json:"steps"`
	Missing    []missing `json:"missing"`
	Built      []pair    `json:"built"`
	Ends       int       `json:"ends"`
}

type file struct {
	Error   string   `json:"error"`
	Package string   `json:"package"`
	Doc     []string `json:"doc"`
	Imports []pair   `json:"imports"`
	Types   []typ    `json:"types"`
	Values  []value  `json:"values"`
	Funcs   []fun    `json:"funcs"`
	Asserts []string `json:"asserts"`
}

func doc(g *ast.CommentGroup) []string {
	out := []string{}
	if g != nil {
		for _, c := range g.List {
			out = append(out, c.Text)
		}
	}
	return out
}

func text(e ast.Expr) string { return strings.ReplaceAll(types.ExprString(e), " ", "") }

func names(l *ast.FieldList) []string {
	out := []string{}
	if l != nil {
		for _, f := range l.List {
			for _, n := range f.Names {
				out = append(out, n.Name)
			}
		}
	}
	return out
}

func pairs(l *ast.FieldList) []pair {
	out := []pair{}
	if l != nil {
		for _, f := range l.List {
			if len(f.Names) == 0 {
				out = append(out, pair{"", text(f.Type)})
			}
			for _, n := range f.Names {
				out = append(out, pair{n.Name, text(f.Type)})
			}
		}
	}
	return out
}

func idents(n ast.Node) []string {
	out := []string{}
	ast.Inspect(n, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.SelectorExpr:
			// what follows a package name is no type parameter
			return false
		case *ast.Field:
			out = append(out, idents(x.Type)...)
			return false
		case *ast.Ident:
			out = append(out, x.Name)
		}
		return true
	})
	return out
}

// The calls of the runtime package and of methods of the three interfaces within a node, in order.
func calls(n ast.Node) []string {
	type at struct {
		pos token.Pos
		s   string
	}
	var l []at
	ast.Inspect(n, func(n ast.Node) bool {
		c, ok := n.(*ast.CallExpr)
		if !ok {
			return true
		}
		f := c.Fun
		args := ""
		switch i := f.(type) {
		case *ast.IndexExpr:
			f, args = i.X, "["+text(i.Index)+"]"
		case *ast.IndexListExpr:
			var a []string
			for _, x := range i.Indices {
				a = append(a, text(x))
			}
			f, args = i.X, "["+strings.Join(a, ",")+"]"
		}
		s, ok := f.(*ast.SelectorExpr)
		if !ok {
			return true
		}
		if x, ok := s.X.(*ast.Ident); ok && x.Name == "buf" {
			l = append(l, at{s.Sel.Pos(), s.Sel.Name + args})
		} else if s.Sel.Name == "Encode" || s.Sel.Name == "Decode" || s.Sel.Name == "Size" {
			l = append(l, at{s.Sel.Pos(), "." + s.Sel.Name})
		}
		return true
	})
	sort.SliceStable(l, func(i, j int) bool { return l[i].pos < l[j].pos })
	out := []string{}
	for _, x := range l {
		out = append(out, x.s)
	}
	return out
}

// The first field of v that is mentioned.
func fieldOf(n ast.Node) string {
	found := ""
	ast.Inspect(n, func(n ast.Node) bool {
		if s, ok := n.(*ast.SelectorExpr); ok && found == "" {
			if x, ok := s.X.(*ast.Ident); ok && x.Name == "v" {
				found = s.Sel.Name
				return false
			}
		}
		return found == ""
	})
	return found
}

func body(f *fun, b *ast.BlockStmt) {
	ast.Inspect(b, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.SelectorExpr:
			if i, ok := x.X.(*ast.Ident); ok && i.Name == "buf" && (x.Sel.Name == "EndMarker" || x.Sel.Name == "EndMarkerSize") {
				f.Ends++
			}
		case *ast.CallExpr:
			fn := x.Fun
			if i, ok := fn.(*ast.IndexExpr); ok {
				fn = i.X
			}
			s, ok := fn.(*ast.SelectorExpr)
			if !ok {
				return true
			}
			p, ok := s.X.(*ast.Ident)
			if !ok || p.Name != "buf" {
				return true
			}
			at := -1
			switch s.Sel.Name {
			case "EncodeField", "EncodeFieldOption":
				at = 1
			case "SizeField", "SizeFieldOption":
				at = 0
			}
			if at < 0 || at >= len(x.Args) {
				return true
			}
			f.Steps = append(f.Steps, step{ID: text(x.Args[at]), Field: fieldOf(x), Option: strings.HasSuffix(s.Sel.Name, "Option"), Calls: calls(x)[1:]})
		case *ast.CaseClause:
			for _, e := range x.List {
				if _, ok := e.(*ast.BasicLit); !ok {
					continue
				}
				s := step{ID: text(e), Calls: []string{}}
				for _, st := range x.Body {
					if a, ok := st.(*ast.AssignStmt); ok {
						s.Calls = append(s.Calls, calls(a)...)
						if l, ok := a.Lhs[0].(*ast.SelectorExpr); ok {
							s.Field = l.Sel.Name
						}
						if l, ok := a.Lhs[0].(*ast.Ident); ok && len(a.Lhs) == 1 && text(a.Rhs[0]) == "true" {
							s.Found = l.Name
						}
					}
				}
				f.Steps = append(f.Steps, s)
			}
		case *ast.IfStmt:
			found := text(x.Cond)
			ast.Inspect(x.Body, func(n ast.Node) bool {
				if c, ok := n.(*ast.CompositeLit); ok && c.Type != nil && text(c.Type) == "buf.MissingFieldError" {
					m := missing{Found: found}
					for _, e := range c.Elts {
						if kv, ok := e.(*ast.KeyValueExpr); ok {
							switch text(kv.Key) {
							case "ID":
								m.ID = text(kv.Value)
							case "Field":
								if l, ok := kv.Value.(*ast.BasicLit); ok {
									m.Field = constant.StringVal(constant.MakeFromLiteral(l.Value, l.Kind, 0))
								}
							}
						}
					}
					f.Missing = append(f.Missing, m)
				}
				return true
			})
		case *ast.ReturnStmt:
			for _, e := range x.Results {
				if c, ok := e.(*ast.CompositeLit); ok {
					for _, e := range c.Elts {
						if kv, ok := e.(*ast.KeyValueExpr); ok {
							f.Built = append(f.Built, pair{text(kv.Key), text(kv.Value)})
						}
					}
				}
			}
		}
		return true
	})
}

// Constants are checked by the type checker, in a file of their own.
func literal(v *value, kw, typ string, src string) {
	if strings.Contains(typ, "big.Int") {
		v.Kind = "big"
		v.Value = strings.ReplaceAll(src, " ", "")
		return
	}
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, "x.go", fmt.Sprintf("package x\n%s X %s = %s\n", kw, typ, src), 0)
	if err != nil {
		v.Error = err.Error()
		return
	}
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}}
	conf := types.Config{Importer: importer.Default()}
	if _, err := conf.Check("x", fs, []*ast.File{f}, info); err != nil {
		v.Error = err.Error()
		return
	}
	e := f.Decls[0].(*ast.GenDecl).Specs[0].(*ast.ValueSpec).Values[0]
	if c, ok := e.(*ast.CompositeLit); ok {
		v.Kind = "bytes"
		v.Bytes = []int64{}
		for _, e := range c.Elts {
			n, _ := constant.Int64Val(info.Types[e].Value)
			v.Bytes = append(v.Bytes, n)
		}
		return
	}
	k := info.Types[e].Value
	if k == nil {
		v.Error = "not a constant"
		return
	}
	switch k.Kind() {
	case constant.Bool:
		v.Kind, v.Value = "bool", k.String()
	case constant.String:
		v.Kind, v.Value = "string", constant.StringVal(k)
	case constant.Int, constant.Float:
		if strings.HasPrefix(typ, "float") {
			x, _ := constant.Float64Val(constant.ToFloat(k))
			v.Kind, v.Value = "float", fmt.Sprintf("%x", x)
			b, _ := json.Marshal(x)
			v.Value = string(b)
		} else {
			v.Kind, v.Value = "int", k.ExactString()
		}
	}
}

func describe(src string) (out file) {
	out.Doc, out.Imports, out.Types, out.Values, out.Funcs, out.Asserts = []string{}, []pair{}, []typ{}, []value{}, []fun{}, []string{}
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, "f.go", src, parser.ParseComments|parser.SkipObjectResolution)
	if err != nil {
		out.Error = err.Error()
		return
	}
	out.Package, out.Doc = f.Name.Name, doc(f.Doc)
	for _, d := range f.Decls {
		switch d := d.(type) {
		case *ast.GenDecl:
			for _, s := range d.Specs {
				g := d.Doc
				switch s := s.(type) {
				case *ast.ImportSpec:
					n := ""
					if s.Name != nil {
						n = s.Name.Name
					}
					out.Imports = append(out.Imports, pair{n, strings.Trim(s.Path.Value, "\"")})
				case *ast.TypeSpec:
					if s.Doc != nil {
						g = s.Doc
					}
					t := typ{Name: s.Name.Name, Params: names(s.TypeParams), Doc: doc(g), Fields: []field{}, Methods: []string{}, Idents: idents(s.Type)}
					switch x := s.Type.(type) {
					case *ast.StructType:
						t.Kind = "struct"
						for _, f := range x.Fields.List {
							for _, n := range f.Names {
								t.Fields = append(t.Fields, field{n.Name, text(f.Type), doc(f.Doc)})
							}
							if len(f.Names) == 0 {
								t.Fields = append(t.Fields, field{"", text(f.Type), doc(f.Doc)})
							}
						}
					case *ast.InterfaceType:
						t.Kind = "interface"
						t.Methods = names(x.Methods)
					default:
						t.Kind = "other"
						t.Text = text(s.Type)
					}
					out.Types = append(out.Types, t)
				case *ast.ValueSpec:
					if s.Names[0].Name == "_" {
						out.Asserts = append(out.Asserts, text(s.Type)+"="+text(s.Values[0]))
						continue
					}
					if s.Doc != nil {
						g = s.Doc
					}
					v := value{Keyword: d.Tok.String(), Name: s.Names[0].Name, Doc: doc(g), Bytes: []int64{}}
					if s.Type != nil {
						v.Type = text(s.Type)
					}
					if len(s.Values) == 1 {
						e := s.Values[0]
						literal(&v, v.Keyword, v.Type, src[fs.Position(e.Pos()).Offset:fs.Position(e.End()).Offset])
					} else {
						v.Error = "no value"
					}
					out.Values = append(out.Values, v)
				}
			}
		case *ast.FuncDecl:
			x := fun{Name: d.Name.Name, TypeParams: names(d.Type.TypeParams), Params: pairs(d.Type.Params), Steps: []step{}, Missing: []missing{}, Built: []pair{}, Results: []string{}}
			if d.Recv != nil {
				x.Recv = text(d.Recv.List[0].Type)
			}
			for _, r := range pairs(d.Type.Results) {
				x.Results = append(x.Results, r[1])
			}
			body(&x, d.Body)
			out.Funcs = append(out.Funcs, x)
		}
	}
	return
}

func main() {
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	w := bufio.NewWriter(os.Stdout)
	for {
		line, err := in.ReadBytes('\n')
		if len(line) == 0 && err != nil {
			return
		}
		var src string
		if err := json.Unmarshal(line, &src); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(1)
		}
		b, err := json.Marshal(describe(src))
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(1)
		}
		w.Write(b)
		w.WriteByte('\n')
		w.Flush()
	}
}
