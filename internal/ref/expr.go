// Package ref is the reference model: a plain reading of the documentation of
// restruct, written independently of its code. It works on lists of bits and
// favours obviousness over everything else.
package ref

import (
	"errors"
	"fmt"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"reflect"
	"strings"
)

// ErrUnspecified is returned for expressions whose meaning is left open, and
// which nothing may be concluded from.
var ErrUnspecified = errors.New("unspecified")

// Const is an untyped constant.
type Const struct{ V constant.Value }

// Nil is the untyped nil.
type Nil struct{}

// Env resolves identifiers to Go values.
type Env func(name string) (interface{}, bool)

// Node is a parsed expression; conditional expressions are not part of Go.
type Node interface{}

// Cond is the conditional operator.
type Cond struct{ C, T, F Node }

// Parse parses an expression with Go's parser.
func Parse(src string) (Node, error) {
	// restruct also knows string literals written $'...'.
	for {
		i := strings.Index(src, "$'")
		if i < 0 {
			break
		}
		j := strings.IndexByte(src[i+2:], '\'')
		if j < 0 {
			return nil, errors.New("unterminated")
		}
		src = src[:i] + `"` + strings.ReplaceAll(src[i+2:i+2+j], `"`, `\"`) + `"` + src[i+2+j+1:]
	}
	subs := map[string]Node{}
	for {
		i := strings.Index(src, "?")
		if i < 0 {
			break
		}
		if strings.ContainsAny(src, "'\"") {
			return parseCond(src) // simple conditional expressions only
		}
		// The conditional expression extends to the brackets or commas around it.
		from, to := i, i
		depth := 0
	left:
		for ; from > 0; from-- {
			switch src[from-1] {
			case ')', ']':
				depth++
			case '(', '[':
				if depth == 0 {
					break left
				}
				depth--
			case ',':
				if depth == 0 {
					break left
				}
			}
		}
		depth = 0
	right:
		for ; to < len(src); to++ {
			switch src[to] {
			case '(', '[':
				depth++
			case ')', ']':
				if depth == 0 {
					break right
				}
				depth--
			case ',':
				if depth == 0 {
					break right
				}
			}
		}
		name := fmt.Sprintf("_cond%d", len(subs))
		n, err := parseCond(src[from:to])
		if err != nil {
			return nil, err
		}
		subs[name] = n
		src = src[:from] + " " + name + " " + src[to:]
	}
	e, err := parser.ParseExpr(src)
	if err != nil {
		return nil, err
	}
	var bad error
	ast.Inspect(e, func(n ast.Node) bool {
		switch n := n.(type) {
		case nil, *ast.ParenExpr, *ast.Ident, *ast.BinaryExpr, *ast.StarExpr, *ast.SelectorExpr, *ast.IndexExpr:
		case *ast.BasicLit:
			if n.Kind == token.IMAG {
				bad = ErrUnspecified
			}
		case *ast.UnaryExpr:
			if n.Op == token.ARROW || n.Op == token.TILDE {
				bad = errors.New("not an expression")
			}
		case *ast.CallExpr:
			if n.Ellipsis != token.NoPos {
				bad = ErrUnspecified
			}
		case *ast.IndexListExpr:
			bad = ErrUnspecified
		default:
			bad = fmt.Errorf("unsupported expression %T", n)
		}
		return bad == nil
	})
	if bad != nil {
		return nil, bad
	}
	if len(subs) > 0 {
		return Scoped{e, subs}, nil
	}
	return e, nil
}

// parseCond parses a conditional expression with one ? and one : outside of
// brackets.
func parseCond(src string) (Node, error) {
	i := strings.Index(src, "?")
	depth, colon := 0, -1
	for k := i + 1; k < len(src); k++ {
		switch src[k] {
		case '(', '[':
			depth++
		case ')', ']':
			depth--
		case '?':
			if depth == 0 {
				return nil, ErrUnspecified // nested
			}
		case ':':
			if depth == 0 && colon >= 0 {
				return nil, errors.New("unexpected :")
			} else if depth == 0 {
				colon = k
			}
		}
	}
	if colon < 0 {
		return nil, errors.New("missing :")
	}
	c, err := Parse(src[:i])
	if err != nil {
		return nil, err
	}
	t, err := Parse(src[i+1 : colon])
	if err != nil {
		return nil, err
	}
	f, err := Parse(src[colon+1:])
	if err != nil {
		return nil, err
	}
	for _, n := range []Node{t, f} {
		if b, ok := n.(*ast.BinaryExpr); ok && b.Op == token.LOR {
			return nil, ErrUnspecified
		}
	}
	return Cond{c, t, f}, nil
}

// Scoped is an expression that uses names for parts of it.
type Scoped struct {
	N    Node
	Subs map[string]Node
}

var exprCache = map[string]Node{}

// EvalString evaluates an expression of a struct tag.
func EvalString(src string, env Env) (interface{}, error) {
	n, ok := exprCache[src]
	if !ok {
		var err error
		if n, err = Parse(src); err != nil {
			return nil, err
		}
		exprCache[src] = n
	}
	return Eval(n, env)
}

// Eval evaluates an expression as Go does. The result is a Go value, a Const
// or Nil.
func Eval(n Node, env Env) (interface{}, error) {
	switch n := n.(type) {
	case Cond:
		c, err := Eval(n.C, env)
		if err != nil {
			return nil, err
		}
		b, ok := truth(c)
		if !ok {
			return nil, errors.New("condition is not a bool")
		}
		if b {
			return Eval(n.T, env)
		}
		return Eval(n.F, env)
	case Scoped:
		var suberr error
		res, err := Eval(n.N, func(name string) (interface{}, bool) {
			if s, ok := n.Subs[name]; ok {
				x, err := Eval(s, func(name string) (interface{}, bool) {
					if s, ok := n.Subs[name]; ok {
						x, err := Eval(s, env)
						return x, err == nil
					}
					return env(name)
				})
				if err != nil {
					suberr = err
				}
				return x, err == nil
			}
			return env(name)
		})
		if errors.Is(suberr, ErrUnspecified) {
			return nil, suberr
		}
		return res, err
	case *ast.ParenExpr:
		return Eval(n.X, env)
	case *ast.Ident:
		switch n.Name {
		case "true":
			return Const{constant.MakeBool(true)}, nil
		case "false":
			return Const{constant.MakeBool(false)}, nil
		case "nil":
			return Nil{}, nil
		}
		v, ok := env(n.Name)
		if !ok {
			return nil, fmt.Errorf("undefined: %s", n.Name)
		}
		return v, nil
	case *ast.BasicLit:
		if n.Kind == token.IMAG {
			return nil, ErrUnspecified
		}
		v := constant.MakeFromLiteral(n.Value, n.Kind, 0)
		if v.Kind() == constant.Unknown {
			return nil, errors.New("bad literal")
		}
		if n.Kind == token.STRING {
			return constant.StringVal(v), nil
		}
		if n.Kind == token.FLOAT {
			// An integral float constant still is a float constant.
			f, _ := constant.Float64Val(v)
			return Const{floatConst{constant.MakeFloat64(f)}}, nil
		}
		return Const{v}, nil
	case *ast.UnaryExpr:
		if n.Op == token.AND {
			v, err := place(n.X, env)
			if err != nil {
				return nil, err
			}
			if !v.CanAddr() {
				return nil, ErrUnspecified // variables have no address here
			}
			if !v.CanInterface() {
				return nil, errors.New("unexported")
			}
			return v.Addr().Interface(), nil
		}
		x, err := Eval(n.X, env)
		if err != nil {
			return nil, err
		}
		return Unary(n.Op, x)
	case *ast.BinaryExpr:
		return evalBinary(n, env)
	case *ast.StarExpr:
		x, err := Eval(n.X, env)
		if err != nil {
			return nil, err
		}
		v := reflect.ValueOf(x)
		if v.Kind() != reflect.Ptr || v.IsNil() {
			return nil, errors.New("cannot indirect")
		}
		return v.Elem().Interface(), nil
	case *ast.SelectorExpr:
		x, err := Eval(n.X, env)
		if err != nil {
			return nil, err
		}
		return member(x, n.Sel.Name)
	case *ast.IndexExpr:
		x, err := Eval(n.X, env)
		if err != nil {
			return nil, err
		}
		i, err := Eval(n.Index, env)
		if err != nil {
			return nil, err
		}
		return index(x, i)
	case *ast.CallExpr:
		f, err := Eval(n.Fun, env)
		if err != nil {
			return nil, err
		}
		var args []interface{}
		for _, a := range n.Args {
			v, err := Eval(a, env)
			if err != nil {
				return nil, err
			}
			args = append(args, v)
		}
		return call(f, args)
	}
	return nil, fmt.Errorf("unsupported expression %T", n)
}

// place evaluates the operand of &, which is addressable in places.
func place(n Node, env Env) (reflect.Value, error) {
	switch n := n.(type) {
	case *ast.ParenExpr:
		return place(n.X, env)
	case *ast.StarExpr:
		x, err := Eval(n.X, env)
		if err != nil {
			return reflect.Value{}, err
		}
		if v := reflect.ValueOf(x); v.Kind() == reflect.Ptr && !v.IsNil() {
			return v.Elem(), nil
		}
		return reflect.Value{}, errors.New("cannot indirect")
	case *ast.SelectorExpr:
		v, err := place(n.X, env)
		if err != nil {
			return v, err
		}
		if v.Kind() == reflect.Ptr && !v.IsNil() {
			v = v.Elem()
		}
		if v.Kind() == reflect.Struct {
			if f := v.FieldByName(n.Sel.Name); f.IsValid() {
				return f, nil
			}
		}
	case *ast.IndexExpr:
		v, err := place(n.X, env)
		if err != nil {
			return v, err
		}
		if v.Kind() == reflect.Slice || v.Kind() == reflect.Array {
			i, err := Eval(n.Index, env)
			if err != nil {
				return v, err
			}
			if _, err := index(v.Interface(), i); err != nil {
				return v, err
			}
			k, ok := ToInt(i)
			if !ok {
				return v, ErrUnspecified
			}
			return v.Index(int(k)), nil
		}
	}
	x, err := Eval(n, env)
	if err != nil {
		return reflect.Value{}, err
	}
	return reflect.ValueOf(x), nil
}

// floatConst marks a constant as a floating-point constant.
type floatConst struct{ constant.Value }

func isFloatConst(c Const) bool { _, ok := c.V.(floatConst); return ok }

func plain(c Const) constant.Value {
	if f, ok := c.V.(floatConst); ok {
		return f.Value
	}
	return c.V
}

// ConstValue gives the value of an untyped constant as int64, uint64, float64
// or bool.
func ConstValue(c Const) interface{} {
	v := plain(c)
	if isFloatConst(c) {
		f, _ := constant.Float64Val(v)
		return f
	}
	switch v.Kind() {
	case constant.Bool:
		return constant.BoolVal(v)
	case constant.Int:
		if i, ok := constant.Int64Val(v); ok {
			return i
		}
		if u, ok := constant.Uint64Val(v); ok {
			return u
		}
	}
	return nil
}

func truth(x interface{}) (bool, bool) {
	if c, ok := x.(Const); ok {
		if c.V.Kind() == constant.Bool {
			return constant.BoolVal(c.V), true
		}
		return false, false
	}
	v := reflect.ValueOf(x)
	if v.Kind() == reflect.Bool {
		return v.Bool(), true
	}
	return false, false
}

// Truth tells the value of a condition.
func Truth(x interface{}) (bool, bool) { return truth(x) }

// ToInt tells the value of an integer expression.
func ToInt(x interface{}) (int64, bool) {
	if c, ok := x.(Const); ok {
		if isFloatConst(c) || c.V.Kind() != constant.Int {
			return 0, false
		}
		return constant.Int64Val(c.V)
	}
	v := reflect.ValueOf(x)
	switch {
	case v.CanInt():
		return v.Int(), true
	case v.CanUint():
		return int64(v.Uint()), true
	}
	return 0, false
}

func member(x interface{}, name string) (interface{}, error) {
	if p, ok := x.(map[string]interface{}); ok {
		if v, ok := p[name]; ok {
			return v, nil
		}
		return nil, errors.New("no such symbol")
	}
	v := reflect.ValueOf(x)
	if v.Kind() == reflect.Ptr {
		if v.IsNil() {
			return nil, errors.New("nil pointer")
		}
		v = v.Elem()
		if v.Kind() == reflect.Ptr {
			return nil, ErrUnspecified
		}
	}
	if v.Kind() != reflect.Struct {
		return nil, errors.New("not a struct")
	}
	f := v.FieldByName(name)
	if !f.IsValid() || !f.CanInterface() {
		return nil, errors.New("no such field")
	}
	return f.Interface(), nil
}

func index(x, i interface{}) (interface{}, error) {
	if _, ok := x.(map[string]interface{}); ok {
		return nil, errors.New("a package has no elements")
	}
	v := reflect.ValueOf(x)
	switch v.Kind() {
	case reflect.Map:
		k, err := ConvertTo(i, v.Type().Key())
		if err != nil {
			return nil, err
		}
		e := v.MapIndex(k)
		if !e.IsValid() {
			e = reflect.Zero(v.Type().Elem())
		}
		return e.Interface(), nil
	case reflect.Array, reflect.Slice, reflect.String:
		var n int64
		if c, ok := i.(Const); ok {
			if isFloatConst(c) || c.V.Kind() != constant.Int {
				return nil, errors.New("bad index")
			}
			var exact bool
			if n, exact = constant.Int64Val(c.V); !exact {
				return nil, errors.New("index out of range")
			}
		} else if iv := reflect.ValueOf(i); iv.CanInt() {
			n = iv.Int()
		} else if iv.CanUint() {
			if iv.Uint() > 1<<62 {
				return nil, errors.New("index out of range")
			}
			n = int64(iv.Uint())
		} else {
			return nil, errors.New("bad index")
		}
		if n < 0 || n >= int64(v.Len()) {
			return nil, errors.New("index out of range")
		}
		return v.Index(int(n)).Interface(), nil
	}
	return nil, errors.New("cannot index")
}

func call(f interface{}, args []interface{}) (res interface{}, err error) {
	v := reflect.ValueOf(f)
	if v.Kind() != reflect.Func || v.IsNil() {
		return nil, errors.New("not a function")
	}
	if v.Type().NumIn() != len(args) || v.Type().NumOut() != 1 {
		return nil, errors.New("wrong number of arguments")
	}
	var in []reflect.Value
	for i, a := range args {
		c, err := ConvertTo(a, v.Type().In(i))
		if err != nil {
			return nil, err
		}
		in = append(in, c)
	}
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("%v", r)
		}
	}()
	return v.Call(in)[0].Interface(), nil
}

// ConvertTo converts an operand to the type it is assigned to.
func ConvertTo(x interface{}, t reflect.Type) (reflect.Value, error) {
	switch x := x.(type) {
	case Nil:
		switch t.Kind() {
		case reflect.Ptr, reflect.Map, reflect.Slice, reflect.Func:
			return reflect.Zero(t), nil
		}
		return reflect.Value{}, errors.New("nil is not assignable")
	case Const:
		return convertConst(x, t)
	}
	v := reflect.ValueOf(x)
	if v.Type() == t {
		return v, nil
	}
	if v.Kind() == t.Kind() && v.Type().ConvertibleTo(t) {
		// restruct does not tell named types from their underlying types.
		return v.Convert(t), nil
	}
	return reflect.Value{}, fmt.Errorf("cannot use %s as %s", v.Type(), t)
}

func convertConst(c Const, t reflect.Type) (reflect.Value, error) {
	out := reflect.New(t).Elem()
	v := plain(c)
	switch {
	case v.Kind() == constant.Bool:
		if t.Kind() != reflect.Bool {
			return out, errors.New("cannot use bool constant")
		}
		out.SetBool(constant.BoolVal(v))
	case isFloatConst(c):
		if t.Kind() != reflect.Float32 && t.Kind() != reflect.Float64 {
			if out.CanInt() || out.CanUint() {
				// 2.0 is assignable to an integer in Go; left open here.
				return out, ErrUnspecified
			}
			return out, errors.New("cannot use float constant")
		}
		f, _ := constant.Float64Val(v)
		out.SetFloat(f)
	case v.Kind() == constant.Int:
		switch {
		case out.CanInt():
			i, exact := constant.Int64Val(v)
			if !exact || out.OverflowInt(i) {
				return out, ErrUnspecified // constant overflow
			}
			out.SetInt(i)
		case out.CanUint():
			u, exact := constant.Uint64Val(v)
			if !exact || out.OverflowUint(u) {
				return out, ErrUnspecified
			}
			out.SetUint(u)
		case out.CanFloat():
			f, _ := constant.Float64Val(v)
			out.SetFloat(f)
		default:
			return out, errors.New("cannot use int constant")
		}
	default:
		return out, errors.New("cannot convert constant")
	}
	return out, nil
}

// Unary applies a unary operator.
func Unary(op token.Token, x interface{}) (interface{}, error) {
	if c, ok := x.(Const); ok {
		v := plain(c)
		switch op {
		case token.ADD, token.SUB:
			if v.Kind() == constant.Bool {
				if op == token.ADD {
					return nil, ErrUnspecified
				}
				return nil, errors.New("not defined for bool")
			}
			r := constant.UnaryOp(op, v, 0)
			if isFloatConst(c) {
				return Const{floatConst{r}}, nil
			}
			return small(Const{r})
		case token.XOR:
			if isFloatConst(c) || v.Kind() != constant.Int {
				return nil, errors.New("not defined")
			}
			return small(Const{constant.UnaryOp(op, v, 0)})
		case token.NOT:
			if v.Kind() != constant.Bool {
				return nil, errors.New("not defined")
			}
			return Const{constant.UnaryOp(op, v, 0)}, nil
		}
		return nil, errors.New("not defined")
	}
	if _, ok := x.(Nil); ok {
		return nil, errors.New("not defined for nil")
	}
	if op == token.ADD {
		k := reflect.ValueOf(x).Kind()
		if k >= reflect.Int && k <= reflect.Float64 {
			return basicOf(x), nil
		}
		return nil, ErrUnspecified
	}
	x = basicOf(x)
	if o := opsFor(x); o != nil {
		if f := o.unary[op]; f != nil {
			return f(x), nil
		}
	}
	return nil, fmt.Errorf("operator %s not defined for %T", op, x)
}

// small leaves constants open that do not fit in 64 bits.
func small(c Const) (interface{}, error) {
	if c.V.Kind() == constant.Int {
		if _, ok := constant.Int64Val(c.V); !ok {
			return nil, ErrUnspecified
		}
	}
	return c, nil
}

func isShift(op token.Token) bool { return op == token.SHL || op == token.SHR }

func isComparison(op token.Token) bool {
	switch op {
	case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
		return true
	}
	return false
}

func evalBinary(n *ast.BinaryExpr, env Env) (interface{}, error) {
	x, err := Eval(n.X, env)
	if err != nil {
		return nil, err
	}
	if n.Op == token.LAND || n.Op == token.LOR {
		l, ok := truth(x)
		if !ok {
			return nil, errors.New("not a bool")
		}
		if l == (n.Op == token.LOR) {
			return l, nil
		}
		y, err := Eval(n.Y, env)
		if err != nil {
			return nil, err
		}
		r, ok := truth(y)
		if !ok {
			return nil, errors.New("not a bool")
		}
		return r, nil
	}
	y, err := Eval(n.Y, env)
	if err != nil {
		return nil, err
	}
	return Binary(n.Op, x, y)
}

// Binary applies a binary operator to evaluated operands.
func Binary(op token.Token, x, y interface{}) (res interface{}, err error) {
	if op == token.LAND || op == token.LOR {
		l, ok1 := truth(x)
		r, ok2 := truth(y)
		if !ok1 || !ok2 {
			return nil, errors.New("not a bool")
		}
		if op == token.LAND {
			return l && r, nil
		}
		return l || r, nil
	}
	_, xnil := x.(Nil)
	_, ynil := y.(Nil)
	if xnil || ynil {
		if op != token.EQL && op != token.NEQ {
			return nil, errors.New("operator not defined on nil")
		}
		if xnil {
			x, y = y, x
		}
		if _, ok := x.(Nil); ok {
			return nil, errors.New("nil compared with nil")
		}
		if _, ok := x.(map[string]interface{}); ok {
			return nil, errors.New("use of a package as a value")
		}
		v := reflect.ValueOf(x)
		switch v.Kind() {
		case reflect.Ptr, reflect.Map, reflect.Slice, reflect.Func:
			return v.IsNil() == (op == token.EQL), nil
		}
		return nil, errors.New("nil is not comparable to this type")
	}
	cx, xc := x.(Const)
	cy, yc := y.(Const)
	if isShift(op) {
		return shift(op, x, y)
	}
	if xc && yc {
		return constBinary(op, cx, cy)
	}
	if xc || yc {
		// The constant is converted to the type of the other operand.
		if xc {
			y = basicOf(y)
			v, err := convertConst(cx, reflect.TypeOf(y))
			if err != nil {
				return nil, err
			}
			x = v.Interface()
		} else {
			x = basicOf(x)
			v, err := convertConst(cy, reflect.TypeOf(x))
			if err != nil {
				return nil, err
			}
			y = v.Interface()
		}
	}
	if tx, ty := reflect.TypeOf(x), reflect.TypeOf(y); tx != ty && tx.Kind() == ty.Kind() {
		return nil, ErrUnspecified // named and unnamed types mixed
	}
	x, y = basicOf(x), basicOf(y)
	if reflect.TypeOf(x) != reflect.TypeOf(y) {
		return nil, fmt.Errorf("mismatched types %T and %T", x, y)
	}
	o := opsFor(x)
	if o == nil {
		if op == token.EQL || op == token.NEQ {
			if !reflect.TypeOf(x).Comparable() {
				return nil, errors.New("not comparable")
			}
			return (x == y) == (op == token.EQL), nil
		}
		return nil, fmt.Errorf("operator %s not defined for %T", op, x)
	}
	f := o.binary[op]
	if f == nil {
		return nil, fmt.Errorf("operator %s not defined for %T", op, x)
	}
	defer func() {
		if r := recover(); r != nil {
			res, err = nil, fmt.Errorf("%v", r)
		}
	}()
	return f(x, y), nil
}

func constBinary(op token.Token, x, y Const) (res interface{}, err error) {
	vx, vy := plain(x), plain(y)
	if (vx.Kind() == constant.Bool) != (vy.Kind() == constant.Bool) {
		return nil, errors.New("mismatched constants")
	}
	if vx.Kind() == constant.Bool {
		if op == token.EQL || op == token.NEQ {
			return constant.Compare(vx, op, vy), nil
		}
		return nil, errors.New("operator not defined on bool")
	}
	for _, v := range []constant.Value{vx, vy} {
		if _, ok := constant.Int64Val(constant.ToInt(v)); v.Kind() == constant.Int && !ok {
			return nil, ErrUnspecified // more than an int64
		}
	}
	isFloat := isFloatConst(x) || isFloatConst(y)
	if isComparison(op) {
		return constant.Compare(vx, op, vy), nil
	}
	switch op {
	case token.ADD, token.SUB, token.MUL:
	case token.QUO, token.REM:
		if op == token.REM && isFloat {
			return nil, errors.New("operator not defined on float")
		}
		if constant.Sign(vy) == 0 {
			if isFloat {
				return nil, ErrUnspecified
			}
			return nil, errors.New("division by zero")
		}
		if op == token.QUO && !isFloat {
			op = token.QUO_ASSIGN // integer division
		}
	case token.AND, token.OR, token.XOR, token.AND_NOT:
		if isFloat {
			return nil, errors.New("operator not defined on float")
		}
	default:
		return nil, errors.New("operator not defined")
	}
	if isFloat {
		// restruct keeps float constants as float64.
		fx, _ := constant.Float64Val(vx)
		fy, _ := constant.Float64Val(vy)
		r, err := Binary(op, fx, fy)
		if err != nil {
			return nil, err
		}
		f := r.(float64)
		c := constant.MakeFloat64(f)
		if c.Kind() == constant.Unknown {
			return nil, ErrUnspecified
		}
		return Const{floatConst{c}}, nil
	}
	return small(Const{constant.BinaryOp(vx, op, vy)})
}

func shift(op token.Token, x, y interface{}) (interface{}, error) {
	var n uint64
	cy, yc := y.(Const)
	if yc {
		if isFloatConst(cy) {
			return nil, ErrUnspecified
		}
		if cy.V.Kind() != constant.Int {
			return nil, errors.New("bad shift count")
		}
		u, ok := constant.Uint64Val(cy.V)
		if !ok {
			return nil, errors.New("negative shift count")
		}
		n = u
	} else {
		v := reflect.ValueOf(y)
		if v.CanInt() {
			return nil, ErrUnspecified // signed shift counts are newer than the library
		}
		if !v.CanUint() {
			return nil, errors.New("bad shift count")
		}
		n = v.Uint()
	}
	if cx, ok := x.(Const); ok {
		if isFloatConst(cx) {
			return nil, ErrUnspecified
		}
		if cx.V.Kind() != constant.Int {
			return nil, errors.New("cannot shift")
		}
		if !yc {
			return nil, ErrUnspecified
		}
		if _, ok := constant.Int64Val(cx.V); n > 512 || !ok {
			return nil, ErrUnspecified
		}
		return small(Const{constant.Shift(cx.V, op, uint(n))})
	}
	x = basicOf(x)
	if o := opsFor(x); o != nil && o.shift != nil {
		return o.shift(op, x, n), nil
	}
	return nil, errors.New("cannot shift")
}

// basicOf strips the name of a named basic type.
func basicOf(x interface{}) interface{} {
	v := reflect.ValueOf(x)
	if t, ok := basicTypes[v.Kind()]; ok && v.Type() != t {
		return v.Convert(t).Interface()
	}
	return x
}

// Basic strips the name of a named basic type from a value.
func Basic(x interface{}) interface{} { return basicOf(x) }

var basicTypes = map[reflect.Kind]reflect.Type{}

type ops struct {
	unary  map[token.Token]func(interface{}) interface{}
	binary map[token.Token]func(x, y interface{}) interface{}
	shift  func(op token.Token, x interface{}, n uint64) interface{}
}

var opTable = map[reflect.Type]*ops{}

func opsFor(x interface{}) *ops { return opTable[reflect.TypeOf(x)] }

type unary = map[token.Token]func(interface{}) interface{}
type binaryOps = map[token.Token]func(x, y interface{}) interface{}

// The operators below are compiled by the Go compiler for every basic type:
// they are what Go computes.

func register[T any](o *ops) {
	t := reflect.TypeOf((*T)(nil)).Elem()
	basicTypes[t.Kind()] = t
	opTable[t] = o
}

func compare[T interface {
	~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr | ~float32 | ~float64 | ~string
}](o *ops) {
	o.binary[token.EQL] = func(x, y interface{}) interface{} { return x.(T) == y.(T) }
	o.binary[token.NEQ] = func(x, y interface{}) interface{} { return x.(T) != y.(T) }
	o.binary[token.LSS] = func(x, y interface{}) interface{} { return x.(T) < y.(T) }
	o.binary[token.LEQ] = func(x, y interface{}) interface{} { return x.(T) <= y.(T) }
	o.binary[token.GTR] = func(x, y interface{}) interface{} { return x.(T) > y.(T) }
	o.binary[token.GEQ] = func(x, y interface{}) interface{} { return x.(T) >= y.(T) }
	o.binary[token.ADD] = func(x, y interface{}) interface{} { return x.(T) + y.(T) }
}

func arith[T interface {
	~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr | ~float32 | ~float64
}]() *ops {
	o := &ops{unary: unary{}, binary: binaryOps{}}
	compare[T](o)
	o.binary[token.SUB] = func(x, y interface{}) interface{} { return x.(T) - y.(T) }
	o.binary[token.MUL] = func(x, y interface{}) interface{} { return x.(T) * y.(T) }
	o.binary[token.QUO] = func(x, y interface{}) interface{} { return x.(T) / y.(T) }
	o.unary[token.SUB] = func(x interface{}) interface{} { return -x.(T) }
	register[T](o)
	return o
}

func integer[T interface {
	~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr
}]() {
	o := arith[T]()
	o.binary[token.REM] = func(x, y interface{}) interface{} { return x.(T) % y.(T) }
	o.binary[token.AND] = func(x, y interface{}) interface{} { return x.(T) & y.(T) }
	o.binary[token.OR] = func(x, y interface{}) interface{} { return x.(T) | y.(T) }
	o.binary[token.XOR] = func(x, y interface{}) interface{} { return x.(T) ^ y.(T) }
	o.binary[token.AND_NOT] = func(x, y interface{}) interface{} { return x.(T) &^ y.(T) }
	o.unary[token.XOR] = func(x interface{}) interface{} { return ^x.(T) }
	o.shift = func(op token.Token, x interface{}, n uint64) interface{} {
		if op == token.SHL {
			return x.(T) << n
		}
		return x.(T) >> n
	}
}

func init() {
	integer[int]()
	integer[int8]()
	integer[int16]()
	integer[int32]()
	integer[int64]()
	integer[uint]()
	integer[uint8]()
	integer[uint16]()
	integer[uint32]()
	integer[uint64]()
	integer[uintptr]()
	arith[float32]()
	arith[float64]()
	s := &ops{unary: unary{}, binary: binaryOps{}}
	compare[string](s)
	register[string](s)
	register[bool](&ops{
		unary: unary{token.NOT: func(x interface{}) interface{} { return !x.(bool) }},
		binary: binaryOps{
			token.EQL: func(x, y interface{}) interface{} { return x.(bool) == y.(bool) },
			token.NEQ: func(x, y interface{}) interface{} { return x.(bool) != y.(bool) },
		},
	})
}

// ClearCache forgets parsed expressions.
func ClearCache() { exprCache = map[string]Node{} }
