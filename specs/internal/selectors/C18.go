package selectors

import (
	"errors"
	"sync"

	"github.com/andybalholm/cascadia"
	v "github.com/yields/ant/internal/zzv"
)

func selectorValidSpec(sel string) bool      { return v.UF[bool]("selector.valid", sel) }
func selTextSpec(s cascadia.Selector) string { return v.UF[string]("selector.text", s) }

var errSelectorSpec = errors.New("bad selector")

func selectorOfSpec(sel string) cascadia.Selector {
	s := v.Any[cascadia.Selector]()
	v.Assume(v.And(s != nil, selTextSpec(s) == sel))
	return s
}

// stored checks what is remembered: only valid selectors, as themselves.
func storedSpec(k, x any) {
	key, ok := k.(string)
	v.Assert("C18: a selector is remembered by its text", ok)
	s, ok := x.(cascadia.Selector)
	v.Assert("C18: as what it compiles to", v.And(ok, v.And(s != nil, selTextSpec(s) == key)))
	v.Assert("C18: failures are never remembered", selectorValidSpec(key))
}

// remembered is what may be stored: nothing, or what stored allows.
func rememberedSpec(k any) (any, bool) {
	key, ok := k.(string)
	v.Assert("C18: a selector is looked up by its text", ok)
	if v.And(selectorValidSpec(key), v.Any[bool]()) {
		return selectorOfSpec(key), true
	}
	return nil, false
}

//verif:property C18
//verif:covers every selector after every history of compilations, by any goroutines
func verif_C18_compile(selector string, global bool) {
	v.Requires(cache != nil) // set when the package is initialised
	c := NewCache()
	v.Stub("(*sync.Map).Load", func(m *sync.Map, k any) (any, bool) { return rememberedSpec(k) })
	v.Stub("(*sync.Map).Store", func(m *sync.Map, k, x any) { storedSpec(k, x) })
	v.Stub("(*sync.Map).LoadOrStore", func(m *sync.Map, k, x any) (any, bool) {
		storedSpec(k, x)
		if y, ok := rememberedSpec(k); ok {
			return y, true
		}
		return x, false
	})
	v.Stub("(*sync.Map).Delete", func(m *sync.Map, k any) {})
	v.Stub("github.com/andybalholm/cascadia.Compile", func(sel string) (cascadia.Selector, error) {
		if !selectorValidSpec(sel) {
			return nil, errSelectorSpec
		}
		return selectorOfSpec(sel), nil
	})
	var s cascadia.Selector
	var err error
	if global {
		s, err = Compile(selector)
	} else {
		s, err = c.Compile(selector)
	}
	v.Cover("compiled")
	v.Ensures("C18: a valid selector compiles to itself", v.Imp(selectorValidSpec(selector), v.And(err == nil, v.And(s != nil, selTextSpec(s) == selector))))
	v.Ensures("C18: any other is an error", v.Imp(!selectorValidSpec(selector), v.And(err != nil, s == nil)))
}
