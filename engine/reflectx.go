package main

import (
	"go/types"
	"reflect"

	"golang.org/x/tools/go/ssa"
)

// RVal models a reflect.Value: a type plus either an addressable cell or a plain value.
type RVal struct {
	t    types.Type
	addr *Value
	v    Value
}

func (r *RVal) get() Value {
	if r.addr != nil {
		return *r.addr
	}
	return r.v
}

func kindOf(t types.Type) uint {
	if t == nil {
		return 0
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		m := map[types.BasicKind]reflect.Kind{types.Bool: reflect.Bool, types.Int: reflect.Int, types.Int8: reflect.Int8, types.Int16: reflect.Int16, types.Int32: reflect.Int32, types.Int64: reflect.Int64,
			types.Uint: reflect.Uint, types.Uint8: reflect.Uint8, types.Uint16: reflect.Uint16, types.Uint32: reflect.Uint32, types.Uint64: reflect.Uint64, types.Uintptr: reflect.Uintptr,
			types.Float32: reflect.Float32, types.Float64: reflect.Float64, types.Complex64: reflect.Complex64, types.Complex128: reflect.Complex128, types.String: reflect.String, types.UnsafePointer: reflect.UnsafePointer}
		return uint(m[u.Kind()])
	case *types.Pointer:
		return uint(reflect.Ptr)
	case *types.Slice:
		return uint(reflect.Slice)
	case *types.Array:
		return uint(reflect.Array)
	case *types.Struct:
		return uint(reflect.Struct)
	case *types.Map:
		return uint(reflect.Map)
	case *types.Chan:
		return uint(reflect.Chan)
	case *types.Signature:
		return uint(reflect.Func)
	case *types.Interface:
		return uint(reflect.Interface)
	}
	return 0
}

func rv(v Value) *RVal {
	if r, ok := v.(*RVal); ok {
		return r
	}
	return &RVal{}
}

// fieldMatches walks fields breadth first through embedded structs, as reflect's promotion does.
func fieldMatches(root *RVal, match func(string) bool) []*RVal {
	level := []*RVal{root}
	for len(level) > 0 {
		var found, next []*RVal
		for _, r := range level {
			st, ok := r.t.Underlying().(*types.Struct)
			if !ok {
				continue
			}
			s, ok := r.get().(Struct)
			if !ok {
				continue
			}
			for i := 0; i < st.NumFields(); i++ {
				f := st.Field(i)
				fr := &RVal{t: f.Type(), addr: &s[i]}
				if match(f.Name()) {
					found = append(found, fr)
				}
				if f.Embedded() {
					if p, ok := f.Type().Underlying().(*types.Pointer); ok {
						if c, _ := s[i].(*Value); c != nil {
							next = append(next, &RVal{t: p.Elem(), addr: c})
						}
					} else if _, ok := f.Type().Underlying().(*types.Struct); ok {
						next = append(next, fr)
					}
				}
			}
		}
		if len(found) > 0 {
			return found
		}
		level = next
	}
	return nil
}

func registerReflect() {
	reg := func(n string, f intrinsic) { intrinsics[n] = f }
	reg("reflect.ValueOf", func(m *Machine, fn *ssa.Function, a []Value) Value {
		i := a[0].(Iface)
		return &RVal{t: i.t, v: i.v}
	})
	reg("reflect.TypeOf", func(m *Machine, fn *ssa.Function, a []Value) Value {
		i := a[0].(Iface)
		if i.t == nil {
			return Iface{}
		}
		rt := m.P.pkgs["reflect"].Type("rtype").Type()
		return Iface{t: types.NewPointer(rt), v: i.t}
	})
	reg("(*reflect.rtype).Size", func(m *Machine, fn *ssa.Function, a []Value) Value {
		return uintptr(types.SizesFor("gc", "amd64").Sizeof(a[0].(types.Type)))
	})
	reg("(*reflect.rtype).Kind", func(m *Machine, fn *ssa.Function, a []Value) Value { return kindOf(a[0].(types.Type)) })
	reg("(*reflect.rtype).String", func(m *Machine, fn *ssa.Function, a []Value) Value { return a[0].(types.Type).String() })
	elem := func(m *Machine, r *RVal) Value {
		if r.t == nil {
			return &RVal{}
		}
		switch u := r.t.Underlying().(type) {
		case *types.Pointer:
			c, _ := r.get().(*Value)
			if c == nil {
				return &RVal{}
			}
			return &RVal{t: u.Elem(), addr: c}
		case *types.Interface:
			i := r.get().(Iface)
			return &RVal{t: i.t, v: i.v}
		}
		m.goPanic(m.runtimeErr("reflect: call of reflect.Value.Elem"))
		return nil
	}
	reg("reflect.Indirect", func(m *Machine, fn *ssa.Function, a []Value) Value {
		r := rv(a[0])
		if kindOf(r.t) != uint(reflect.Ptr) {
			return r
		}
		return elem(m, r)
	})
	reg("(reflect.Value).Elem", func(m *Machine, fn *ssa.Function, a []Value) Value { return elem(m, rv(a[0])) })
	reg("(reflect.Value).Kind", func(m *Machine, fn *ssa.Function, a []Value) Value { return kindOf(rv(a[0]).t) })
	reg("(reflect.Kind).String", func(m *Machine, fn *ssa.Function, a []Value) Value { return reflect.Kind(asI64(a[0])).String() })
	reg("(reflect.Value).IsValid", func(m *Machine, fn *ssa.Function, a []Value) Value { return rv(a[0]).t != nil })
	reg("(reflect.Value).CanSet", func(m *Machine, fn *ssa.Function, a []Value) Value { return rv(a[0]).addr != nil })
	reg("(reflect.Value).Interface", func(m *Machine, fn *ssa.Function, a []Value) Value {
		r := rv(a[0])
		if kindOf(r.t) == uint(reflect.Interface) {
			return r.get()
		}
		return Iface{canon(r.t), copyVal(r.get())}
	})
	reg("(reflect.Value).FieldByNameFunc", func(m *Machine, fn *ssa.Function, a []Value) Value {
		f := a[1].(*Closure)
		ms := fieldMatches(rv(a[0]), func(n string) bool { return m.truth(m.callClosure(f, []Value{n}, m.lastFr)) })
		if len(ms) != 1 {
			return &RVal{}
		}
		return ms[0]
	})
	reg("(reflect.Value).FieldByName", func(m *Machine, fn *ssa.Function, a []Value) Value {
		ms := fieldMatches(rv(a[0]), func(n string) bool { return n == a[1].(string) })
		if len(ms) != 1 {
			return &RVal{}
		}
		return ms[0]
	})
	set := func(m *Machine, r *RVal, v Value) {
		if r.addr == nil {
			m.goPanic(m.runtimeErr("reflect.Value.Set using unaddressable value"))
		}
		m.store(r.addr, copyVal(v))
	}
	reg("(reflect.Value).SetString", func(m *Machine, fn *ssa.Function, a []Value) Value { set(m, rv(a[0]), a[1]); return nil })
	reg("(reflect.Value).SetBool", func(m *Machine, fn *ssa.Function, a []Value) Value { set(m, rv(a[0]), a[1]); return nil })
	reg("(reflect.Value).SetFloat", func(m *Machine, fn *ssa.Function, a []Value) Value {
		r := rv(a[0])
		set(m, r, m.conv(r.t, types.Typ[types.Float64], a[1]))
		return nil
	})
	reg("(reflect.Value).SetInt", func(m *Machine, fn *ssa.Function, a []Value) Value {
		r := rv(a[0])
		set(m, r, m.conv(r.t, types.Typ[types.Int64], a[1]))
		return nil
	})
	reg("(reflect.Value).Set", func(m *Machine, fn *ssa.Function, a []Value) Value {
		r, x := rv(a[0]), rv(a[1])
		if kindOf(r.t) == uint(reflect.Interface) {
			it := r.t.Underlying().(*types.Interface)
			if x.t == nil {
				m.goPanic(m.runtimeErr("reflect: call of reflect.Value.Set on zero Value"))
			}
			if !types.Implements(x.t, it) {
				m.goPanic(m.runtimeErr("reflect.Set: value of type " + x.t.String() + " is not assignable to type " + r.t.String()))
			}
			set(m, r, Iface{canon(x.t), x.get()})
			return nil
		}
		if x.t == nil || !types.AssignableTo(x.t, r.t) {
			m.goPanic(m.runtimeErr("reflect.Set: value is not assignable to type " + r.t.String()))
		}
		set(m, r, x.get())
		return nil
	})
	reg("(reflect.Value).Len", func(m *Machine, fn *ssa.Function, a []Value) Value {
		switch x := rv(a[0]).get().(type) {
		case Slice:
			return len(x)
		case string:
			return len(x)
		case Array:
			return len(x)
		case *MapV:
			return x.n
		}
		panic(unsupported("reflect Len"))
	})
	reg("(reflect.Value).IsNil", func(m *Machine, fn *ssa.Function, a []Value) Value {
		switch x := rv(a[0]).get().(type) {
		case *Value:
			return x == nil
		case Slice:
			return x == nil
		case *MapV:
			return x == nil
		case *Closure:
			return x == nil
		case Iface:
			return x.t == nil
		case *Chan:
			return x == nil
		}
		panic(unsupported("reflect IsNil"))
	})
	reg("(reflect.Value).Float", func(m *Machine, fn *ssa.Function, a []Value) Value { return rv(a[0]).get() })
	reg("(reflect.Value).String", func(m *Machine, fn *ssa.Function, a []Value) Value { return rv(a[0]).get() })
	reg("(reflect.Value).Int", func(m *Machine, fn *ssa.Function, a []Value) Value {
		return m.conv(types.Typ[types.Int64], rv(a[0]).t, rv(a[0]).get())
	})
}
