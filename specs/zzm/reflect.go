package zzm

import (
	"reflect"

	v "github.com/yields/ant/internal/zzv"
)

// A reflect.Value is its identity; what it is a part of is a function of it.
//
//verif:opaque reflect.Value
type repValue struct{ id int }

// ValueID is the identity of a value.
func ValueID(x reflect.Value) int { return v.Rep[repValue](x).id }

// ValueAt is the value with the identity.
func ValueAt(id int) reflect.Value { return v.FromRep[reflect.Value](repValue{id}) }

// KindOf is the kind of a type.
func KindOf(t reflect.Type) reflect.Kind {
	k := v.UF[reflect.Kind]("reflect.kind", t)
	v.Assume(v.And(k >= 1, k <= 26))
	return k
}

// ElemOf is the element type.
func ElemOf(t reflect.Type) reflect.Type {
	e := v.UF[reflect.Type]("reflect.elem", t)
	v.Assume(e != nil)
	return e
}

//verif:model (reflect.Type).Kind
func typeKind(t reflect.Type) reflect.Kind { return KindOf(t) }

//verif:model (reflect.Type).Elem
func typeElem(t reflect.Type) reflect.Type {
	return ElemOf(t)
}

//verif:model (reflect.Type).Name
func typeName(t reflect.Type) string { return v.UF[string]("reflect.name", t) }

//verif:model (reflect.Type).String
func typeString(t reflect.Type) string { return v.UF[string]("reflect.string", t) }

//verif:model (reflect.Type).NumField
func typeNumField(t reflect.Type) int { return NumFields(t) }

// NumFields is the number of fields of a struct type.
func NumFields(t reflect.Type) int {
	n := v.UF[int]("reflect.numfield", t)
	v.Assume(v.And(0 <= n, n < 1<<30))
	return n
}

// FieldType, FieldTag and FieldPkg describe the i-th field.
func FieldType(t reflect.Type, i int) reflect.Type {
	f := v.UF[reflect.Type]("reflect.fieldtype", t, i)
	v.Assume(f != nil)
	return f
}
func FieldTag(t reflect.Type, i int) string { return v.UF[string]("reflect.fieldtag", t, i) }
func FieldPkg(t reflect.Type, i int) string { return v.UF[string]("reflect.fieldpkg", t, i) }

//verif:model (reflect.Type).Field
func typeField(t reflect.Type, i int) (f reflect.StructField) {
	f.Name = v.UF[string]("reflect.fieldname", t, i)
	f.PkgPath = FieldPkg(t, i)
	f.Type = FieldType(t, i)
	f.Tag = reflect.StructTag(FieldTag(t, i))
	f.Index = v.UF[[]int]("reflect.fieldindex", t, i)
	v.Assume(v.And(len(f.Index) == 1, v.SeqOf(f.Index).At(0) == i))
	f.Anonymous = v.UF[bool]("reflect.fieldanon", t, i)
	return
}

//verif:model (reflect.StructField).IsExported
func fieldIsExported(f reflect.StructField) bool { return f.PkgPath == "" }

// TagValue is the value of the key in a struct tag.
func TagValue(tag, key string) string { return v.UF[string]("reflect.tag", tag, key) }

//verif:model (reflect.StructTag).Get
func tagGet(tag reflect.StructTag, key string) string { return TagValue(string(tag), key) }

//verif:model (reflect.StructTag).Lookup
func tagLookup(tag reflect.StructTag, key string) (string, bool) {
	s := TagValue(string(tag), key)
	has := v.UF[bool]("reflect.hastag", tag, key)
	v.Assume(v.Imp(!has, s == ""))
	return s, has
}

// DynType is the dynamic type of x.
func DynType(x any) reflect.Type {
	t := v.UF[reflect.Type]("reflect.dyntype", x)
	v.Assume((t == nil) == (x == nil))
	return t
}

//verif:model reflect.TypeOf
func reflectTypeOf(x any) reflect.Type { return DynType(x) }

// ValueType is the type of a value, nil for the zero Value.
func ValueType(x reflect.Value) reflect.Type {
	return v.UF[reflect.Type]("reflect.valuetype", ValueID(x))
}

//verif:model reflect.ValueOf
func reflectValueOf(x any) reflect.Value {
	r := ValueAt(v.UF[int]("reflect.valueof", x))
	v.Assume(ValueType(r) == DynType(x))
	return r
}

//verif:model (reflect.Value).Kind
func valueKind(x reflect.Value) reflect.Kind {
	t := ValueType(x)
	return v.Ite(t == nil, reflect.Invalid, KindOf(t))
}

//verif:model (reflect.Value).Type
func valueType(x reflect.Value) reflect.Type {
	t := ValueType(x)
	v.Assert("Type is not asked of the zero Value", t != nil)
	return t
}

//verif:model (reflect.Value).IsValid
func valueIsValid(x reflect.Value) bool { return ValueType(x) != nil }

// IsNilValue tells whether the value is a nil pointer, map, ...
func IsNilValue(x reflect.Value) bool { return v.UF[bool]("reflect.isnil", ValueID(x)) }

//verif:model (reflect.Value).IsNil
func valueIsNil(x reflect.Value) bool {
	t := ValueType(x)
	v.Assert("IsNil is not asked of the zero Value", t != nil)
	k := KindOf(t)
	v.Assert("IsNil is only asked of what can be nil", v.Or(v.And(k >= reflect.Chan, k <= reflect.Slice), k == reflect.UnsafePointer))
	return IsNilValue(x)
}

// Pointee is what the pointer points to.
func Pointee(x reflect.Value) reflect.Value {
	r := ValueAt(v.UF[int]("reflect.pointee", ValueID(x)))
	v.Assume(v.Imp(!IsNilValue(x), ValueType(r) == ElemOf(ValueType(x))))
	v.Assume(v.Imp(IsNilValue(x), ValueType(r) == nil))
	return r
}

//verif:model (reflect.Value).Elem
func valueElem(x reflect.Value) reflect.Value {
	t := ValueType(x)
	v.Assert("Elem is only asked of a pointer", t != nil && KindOf(t) == reflect.Ptr)
	return Pointee(x)
}

// FieldValue is the i-th field of the value.
func FieldValue(x reflect.Value, i int) reflect.Value {
	id := ValueID(x)
	f := v.UF[int]("reflect.field", id, i)
	v.Assume(v.And(v.UF[int]("reflect.fieldof", f) == id, v.UF[int]("reflect.fieldno", f) == i))
	r := ValueAt(f)
	v.Assume(ValueType(r) == FieldType(ValueType(x), i))
	return r
}

// FieldOf and FieldNo tell which field of which value x is.
func FieldOf(x reflect.Value) int { return v.UF[int]("reflect.fieldof", ValueID(x)) }
func FieldNo(x reflect.Value) int { return v.UF[int]("reflect.fieldno", ValueID(x)) }

//verif:model (reflect.Value).Field
func valueField(x reflect.Value, i int) reflect.Value {
	t := ValueType(x)
	v.Assert("Field is only asked of a struct, for a field it has", t != nil && KindOf(t) == reflect.Struct && v.And(0 <= i, i < NumFields(t)))
	return FieldValue(x, i)
}

//verif:model (reflect.Value).FieldByIndex
func valueFieldByIndex(x reflect.Value, index []int) reflect.Value {
	v.Assert("FieldByIndex is asked for a field", len(index) == 1)
	return valueField(x, index[0])
}

// Element is the i-th element of the slice value.
func Element(x reflect.Value, i int) reflect.Value {
	id := ValueID(x)
	e := v.UF[int]("reflect.index", id, i)
	v.Assume(v.And(v.UF[int]("reflect.elementof", e) == id, v.UF[int]("reflect.elementno", e) == i))
	r := ValueAt(e)
	v.Assume(ValueType(r) == ElemOf(ValueType(x)))
	return r
}

// ElementOf and ElementNo tell which element of which slice x is.
func ElementOf(x reflect.Value) int { return v.UF[int]("reflect.elementof", ValueID(x)) }
func ElementNo(x reflect.Value) int { return v.UF[int]("reflect.elementno", ValueID(x)) }

// Len is the length of a slice value.
func Len(x reflect.Value) int {
	n := v.UF[int]("reflect.len", ValueID(x))
	v.Assume(n >= 0)
	return n
}

//verif:model (reflect.Value).Len
func valueLen(x reflect.Value) int { return Len(x) }

//verif:model (reflect.Value).Index
func valueIndex(x reflect.Value, i int) reflect.Value {
	t := ValueType(x)
	v.Assert("Index is only asked of a slice, for an element it has", t != nil && KindOf(t) == reflect.Slice && v.And(0 <= i, i < Len(x)))
	return Element(x, i)
}

//verif:model reflect.MakeSlice
func reflectMakeSlice(t reflect.Type, n, c int) reflect.Value {
	v.Assert("MakeSlice is only asked for slices", v.And(KindOf(t) == reflect.Slice, v.And(0 <= n, n <= c)))
	r := ValueAt(v.Any[int]())
	v.Assume(v.And(ValueType(r) == t, Len(r) == n))
	return r
}

//verif:model reflect.Zero
func reflectZero(t reflect.Type) reflect.Value {
	r := ValueAt(v.UF[int]("reflect.zero", t))
	v.Assume(v.And(ValueType(r) == t, Len(r) == 0))
	return r
}

//verif:model reflect.New
func reflectNew(t reflect.Type) reflect.Value {
	r := ValueAt(v.Any[int]())
	p := ValueType(r)
	v.Assume(p != nil)
	v.Assume(v.And(KindOf(p) == reflect.Ptr, v.And(ElemOf(p) == t, !IsNilValue(r))))
	return r
}

// Boxed is the value as an interface.
func Boxed(x reflect.Value) any { return v.UF[any]("reflect.boxed", ValueID(x)) }

//verif:model (reflect.Value).Interface
func valueInterface(x reflect.Value) any {
	r := Boxed(x)
	v.Assume(v.And(r != nil, v.And(v.UF[int]("reflect.valueof", r) == ValueID(x), DynType(r) == ValueType(x))))
	return r
}
