// Package drive checks code that wbnf generates from a grammar, by reflection.
package drive

import (
	"fmt"
	"reflect"
	"sort"
	"strings"

	"github.com/arr-ai/wbnf/ast"
	"github.com/arr-ai/wbnf/cmd/codegen"
)

var nodeType = reflect.TypeOf((*ast.Node)(nil)).Elem()

// isNode says whether t is a generated type of nodes.
func isNode(t reflect.Type) bool {
	return t.Kind() == reflect.Struct && t.NumField() == 1 && t.Field(0).Type == nodeType && t.Field(0).Anonymous
}

// kids returns what a branch holds under a name.
func kids(n ast.Node, name string) []ast.Node {
	b, ok := n.(ast.Branch)
	if !ok {
		return nil
	}
	switch c := b[name].(type) {
	case ast.One:
		return []ast.Node{c.Node}
	case ast.Many:
		return c
	}
	return nil
}

// Names lists the names under which a branch holds anything, in the order of the generated code.
func Names(n ast.Node) []string {
	b, ok := n.(ast.Branch)
	if !ok {
		return nil
	}
	var names []string
	for name := range b {
		names = append(names, name)
	}
	sort.Slice(names, func(i, j int) bool {
		a, b := strings.ToUpper(names[i]), strings.ToUpper(names[j])
		return a < b || a == b && names[i] < names[j]
	})
	return names
}

// elemType is the type of the nodes that the accessors of a name return, if they do.
func elemType(t reflect.Type, name string) (reflect.Type, bool) {
	name = codegen.GoName(name)
	for _, prefix := range []string{"One", "All"} {
		if m, ok := t.MethodByName(prefix + name); ok && m.Type.NumIn() == 1 && m.Type.NumOut() == 1 {
			out := m.Type.Out(0)
			if out.Kind() == reflect.Ptr || out.Kind() == reflect.Slice {
				out = out.Elem()
			}
			return out, isNode(out)
		}
	}
	return nil, false
}

// Event is a call of a callback.
type Event struct {
	Kind string // Enter or Exit
	Type string
	Node ast.Node
	rt   reflect.Type
}

// Value is the node as a value of its generated type.
func (e Event) Value() any {
	v := reflect.New(e.rt).Elem()
	v.Field(0).Set(reflect.ValueOf(e.Node))
	return v.Interface()
}

func (e Event) String() string {
	s := "nothing"
	if e.Node != nil {
		s = strings.Join(strings.Fields(fmt.Sprint(e.Node)), " ")
	}
	if len(s) > 100 {
		s = s[:100] + "..."
	}
	return e.Kind + e.Type + " " + s
}

func same(a, b ast.Node) bool {
	if x, ok := a.(ast.Branch); ok {
		y, ok := b.(ast.Branch)
		return ok && reflect.ValueOf(x).Pointer() == reflect.ValueOf(y).Pointer()
	}
	if _, ok := b.(ast.Branch); ok {
		return false
	}
	return a == b
}

// The outcomes of a callback.
const (
	Continue = iota
	ExitNode
	Abort
)

// Plan says what callbacks do: for those of a type, whether there is one, and for
// each call the outcome.
type Plan struct {
	Skip     map[string]bool `json:"skip,omitempty"`     // callbacks, such as EnterTermNode, that aren't there
	Outcomes map[int]int     `json:"outcomes,omitempty"` // by number of the call
}

type walker struct {
	plan  Plan
	ops   reflect.Type
	trace []Event
}

func (w *walker) has(kind, typ string) bool {
	_, ok := w.ops.FieldByName(kind + typ)
	return ok && !w.plan.Skip[kind+typ]
}

func (w *walker) call(kind string, t reflect.Type, n ast.Node) int {
	if !w.has(kind, t.Name()) {
		return Continue
	}
	w.trace = append(w.trace, Event{kind, t.Name(), n, t})
	return w.plan.Outcomes[len(w.trace)-1]
}

// inner says whether there may be nodes below those of a type.
func (w *walker) inner(t reflect.Type) bool {
	_, ok := w.ops.MethodByName("Walk" + t.Name())
	return ok
}

// visit is what a walk does. It returns false to abort.
func (w *walker) visit(t reflect.Type, n ast.Node) bool {
	if o := w.call("Enter", t, n); o != Continue {
		return o == ExitNode
	}
	for _, name := range Names(n) {
		kt, ok := elemType(t, name)
		if !ok {
			continue
		}
		for _, k := range kids(n, name) {
			if w.inner(kt) {
				if !w.visit(kt, k) {
					return false
				}
				continue
			}
			// This has no nodes below it. Exiting it exits the node that holds it.
			if o := w.call("Enter", kt, k); o != Continue {
				return o == ExitNode
			}
		}
	}
	return w.call("Exit", t, n) != Abort
}

// Visits returns the callbacks that a complete walk calls.
func Visits(ops any, root any) []Event {
	w := &walker{ops: reflect.TypeOf(ops)}
	w.visit(reflect.TypeOf(root), reflect.ValueOf(root).Field(0).Interface().(ast.Node))
	return w.trace
}

// CheckWalk walks below root, which is a node of a generated type. ops is the
// generated WalkerOps, exiter and aborter are the generated NodeExiter and Aborter.
func CheckWalk(ops, root, exiter, aborter any, plan Plan) error {
	ot := reflect.TypeOf(ops)
	model := &walker{plan: plan, ops: ot}
	rt := reflect.TypeOf(root)
	rn := reflect.ValueOf(root).Field(0).Interface().(ast.Node)
	var aborted bool
	if model.inner(rt) {
		aborted = !model.visit(rt, rn)
	} else {
		// The outcome is handed on.
		aborted = model.call("Enter", rt, rn) != Continue
	}

	var trace []Event
	v := reflect.New(ot).Elem()
	for i := 0; i < ot.NumField(); i++ {
		f := ot.Field(i)
		if plan.Skip[f.Name] {
			continue
		}
		kind := "Enter"
		if strings.HasPrefix(f.Name, "Exit") {
			kind = "Exit"
		}
		typ := strings.TrimPrefix(f.Name, kind)
		v.Field(i).Set(reflect.MakeFunc(f.Type, func(args []reflect.Value) []reflect.Value {
			trace = append(trace, Event{Kind: kind, Type: typ, Node: args[0].Field(0).Interface().(ast.Node)})
			out := reflect.New(f.Type.Out(0)).Elem()
			switch plan.Outcomes[len(trace)-1] {
			case ExitNode:
				out.Set(reflect.ValueOf(exiter))
			case Abort:
				out.Set(reflect.ValueOf(aborter))
			}
			return []reflect.Value{out}
		}))
	}
	out := v.MethodByName("Walk").Call([]reflect.Value{reflect.ValueOf(root)})[0]
	for i := 0; i < len(trace) || i < len(model.trace); i++ {
		a, b := Event{Kind: "nothing"}, Event{Kind: "nothing"}
		if i < len(model.trace) {
			a = model.trace[i]
		}
		if i < len(trace) {
			b = trace[i]
		}
		if a.Kind != b.Kind || a.Type != b.Type || !same(a.Node, b.Node) {
			return fmt.Errorf("callback %d of a walk: want %v\ngot %v", i, a, b)
		}
	}
	if got := !out.IsNil(); got != aborted {
		return fmt.Errorf("the walk returned %v, though its callbacks aborted it: %v", out, aborted)
	}
	return nil
}

// Strict makes CheckAccessors report known findings.
var Strict bool

// CheckAccessors compares the accessors of the nodes of generated types, from root
// down, with what the AST holds. If tokens is set, unnamed tokens need no accessor. It counts the accessors, and those which returned something.
func CheckAccessors(root any, tokens bool) (n, full int, err error) {
	v := reflect.ValueOf(root)
	if !Strict {
		v = unwrap(v)
	}
	t := v.Type()
	node := v.Field(0).Interface().(ast.Node)
	for _, name := range Names(node) {
		if strings.HasPrefix(name, "@") {
			continue
		}
		want := kids(node, name)
		goName := codegen.GoName(name)
		if name == "" {
			goName = "Token"
		}
		_, hasOne := t.MethodByName("One" + goName)
		_, hasAll := t.MethodByName("All" + goName)
		_, hasRef := t.MethodByName(goName + "Ref")
		leaf := !hasAccessors(t)
		switch {
		case leaf && name == "":
			// Such a type has just a String method.
			p := reflect.New(t)
			p.Elem().Set(v)
			got := p.MethodByName("String").Call(nil)[0].String()
			if want := text(node); got != want {
				return n, full, fmt.Errorf("%s.String() is %q, want %q", t.Name(), got, want)
			}
			n++
			full++
			continue
		case !hasOne && !hasAll && hasRef:
		case name == "" && tokens:
		case !hasOne && !hasAll:
			return n, full, fmt.Errorf("%s has no accessor for %q, of which the AST holds %v", t.Name(), name, short(node))
		case !hasAll && len(want) > 1 && (name != "" || Strict) && !alike(want): // see the known findings on ""
			return n, full, fmt.Errorf("%s has an accessor for just one %q, of which the AST holds %d: %v", t.Name(), name, len(want), short(node))
		}
	}
	for i := 0; i < t.NumMethod(); i++ {
		m := t.Method(i)
		if m.Type.NumIn() != 1 || m.Type.NumOut() != 1 {
			continue
		}
		kind, goName := accessor(m)
		switch kind {
		case "":
			continue
		case "Choice":
			if err := checkChoice(v, m, node); err != nil {
				return n, full, err
			}
			n++
			continue
		}
		n++
		var want []ast.Node
		for _, name := range Names(node) {
			if name == "" && goName == "Token" || name != "" && codegen.GoName(name) == goName {
				want = append(want, kids(node, name)...)
			}
		}
		if goName == "Token" && kind == "One" && len(want) == 0 {
			// A rule that merely stands for another one hands out the token of the latter.
			continue
		}
		if len(want) > 0 {
			full++
		}
		got := m.Func.Call([]reflect.Value{v})[0]
		describe := func(format string, args ...any) error {
			return fmt.Errorf("%s.%s() of %s: %s", t.Name(), m.Name, short(node), fmt.Sprintf(format, args...))
		}
		switch out := m.Type.Out(0); {
		case kind == "Ref":
			if len(want) == 0 != got.IsNil() || len(want) > 0 && !same(got.Interface().(ast.Node), want[0]) {
				return n, full, describe("want %v, got %v", want, got)
			}
		case out.Kind() == reflect.String:
			s := ""
			if len(want) > 0 {
				s = text(want[0])
			}
			if got.String() != s {
				return n, full, describe("want %q, got %q", s, got.String())
			}
		case out.Kind() == reflect.Slice && out.Elem().Kind() == reflect.String:
			if got.Len() != len(want) {
				return n, full, describe("want %v, got %v", want, got)
			}
			for i, w := range want {
				if got.Index(i).String() != text(w) {
					return n, full, describe("want %v, got %v", want, got)
				}
			}
		case out.Kind() == reflect.Ptr && isNode(out.Elem()):
			if got.IsNil() != (len(want) == 0) {
				return n, full, describe("want %v, got %v", want, got)
			}
			if len(want) > 0 {
				if !same(got.Elem().Field(0).Interface().(ast.Node), want[0]) {
					return n, full, describe("want %v, got %v", want[0], got)
				}
				a, b, err := CheckAccessors(got.Elem().Interface(), tokens)
				n += a
				full += b
				if err != nil {
					return n, full, err
				}
			}
		case out.Kind() == reflect.Slice && isNode(out.Elem()):
			if got.Len() != len(want) {
				return n, full, describe("want %v, got %v", want, got)
			}
			for i, w := range want {
				if !same(got.Index(i).Field(0).Interface().(ast.Node), w) {
					return n, full, describe("child %d: want %v, got %v", i, w, got.Index(i))
				}
				a, b, err := CheckAccessors(got.Index(i).Interface(), tokens)
				n += a
				full += b
				if err != nil {
					return n, full, err
				}
			}
		default:
			n--
		}
	}
	return n, full, nil
}

// unwrap returns the node of a rule, given the node of a name that stands for it
// (x=rule). This is a known finding: one gets the latter as if it were the former.
func unwrap(v reflect.Value) reflect.Value {
	t := v.Type()
	node := v.Field(0).Interface().(ast.Node)
	rule := ""
	for _, name := range Names(node) {
		if strings.HasPrefix(name, "@") {
			continue
		}
		if rule != "" || name == "" {
			return v
		}
		rule = name
	}
	if rule == "" || !strings.HasSuffix(t.Name(), codegen.GoTypeName(rule)) {
		return v
	}
	ks := kids(node, rule)
	if _, has := elemType(t, rule); has || len(ks) != 1 {
		return v
	}
	w := reflect.New(t).Elem()
	w.Field(0).Set(reflect.ValueOf(ks[0]))
	return w
}

// alike says whether all nodes are the same token. One accessor suffices then.
func alike(ns []ast.Node) bool {
	for _, n := range ns {
		if text(n) == "" || text(n) != text(ns[0]) || len(Names(n)) > 1 {
			return false
		}
	}
	return true
}

// accessor tells which kind of accessor a method is, and of which name.
func accessor(m reflect.Method) (kind, goName string) {
	switch {
	case m.Type.NumIn() != 1 || m.Type.NumOut() != 1:
	case m.Name == "Choice":
		return m.Name, ""
	case strings.HasSuffix(m.Name, "Ref") && m.Type.Out(0) == nodeType:
		return "Ref", strings.TrimSuffix(m.Name, "Ref")
	case strings.HasPrefix(m.Name, "One"), strings.HasPrefix(m.Name, "All"):
		return m.Name[:3], m.Name[3:]
	}
	return "", ""
}

func hasAccessors(t reflect.Type) bool {
	for i := 0; i < t.NumMethod(); i++ {
		if kind, _ := accessor(t.Method(i)); kind != "" {
			return true
		}
	}
	return false
}

func checkChoice(v reflect.Value, m reflect.Method, node ast.Node) error {
	ks := kids(node, "@choice")
	if len(ks) == 0 {
		return nil // unspecified
	}
	want := int(reflect.ValueOf(ks[0].(ast.Extra).Data).Int())
	if got := m.Func.Call([]reflect.Value{v})[0].Int(); int(got) != want {
		return fmt.Errorf("%s.Choice() of %s is %d, want %d", v.Type().Name(), short(node), got, want)
	}
	return nil
}

// text is the only token of a node.
func text(n ast.Node) string {
	if l, ok := n.(ast.Leaf); ok {
		return l.Scanner().String()
	}
	for _, k := range kids(n, "") {
		return k.Scanner().String()
	}
	return ""
}

func short(n ast.Node) string {
	s := strings.Join(strings.Fields(fmt.Sprint(n)), " ")
	if len(s) > 200 {
		s = s[:200] + "..."
	}
	return s
}
