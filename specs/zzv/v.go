// Package zzv is the specification vocabulary. It is overlaid into the module
// by the verifier, which gives every function here its meaning; the bodies
// below are never run.
package zzv

// Requires states a precondition: assumed when the contract is verified,
// an obligation of the caller when it is used.
func Requires(cond bool) {}

// Ensures states a postcondition: an obligation when the contract is
// verified, assumed when it is used.
func Ensures(label string, cond bool) {}

// Assume adds a fact.
func Assume(cond bool) {}

// Assert states an obligation.
func Assert(label string, cond bool) {}

// Cover states that the point must be reachable (vacuity check).
func Cover(label string) {}

// Any is an arbitrary value.
func Any[T any]() (x T) { return }

// AnyFresh is an arbitrary value whose references are new objects.
func AnyFresh[T any]() (x T) { return }

// Havoc gives the target an arbitrary value.
func Havoc[T any](p *T) {}

// HavocRow gives all elements of s arbitrary values.
func HavocRow[T any](s []T) {}

// HavocMap gives the map arbitrary contents.
func HavocMap[K comparable, V any](m map[K]V) {}

// CopyMap makes dst equal to src.
func CopyMap[M ~map[K]V, K comparable, V any](dst, src M) {}

// UF is an uninterpreted function of its arguments.
func UF[T any](name string, args ...any) (x T) { return }

// Forall quantifies over all values of K.
func Forall[K any](f func(K) bool) bool { return true }

// Forall2 quantifies over all pairs.
func Forall2[K, L any](f func(K, L) bool) bool { return true }

// Exists quantifies over all values of K.
func Exists[K any](f func(K) bool) bool { return true }

// ForallIn quantifies over lo <= i < hi.
func ForallIn(lo, hi int, f func(i int) bool) bool { return true }

// ExistsIn quantifies over lo <= i < hi.
func ExistsIn(lo, hi int, f func(i int) bool) bool { return true }

// Imp is implication without short circuit.
func Imp(a, b bool) bool { return !a || b }

// Iff is equivalence.
func Iff(a, b bool) bool { return a == b }

// And and Or do not branch.
func And(a, b bool) bool { return a && b }
func Or(a, b bool) bool  { return a || b }

// Same is identity of all parts, for values that cannot be compared too.
func Same[T any](a, b T) (same bool) { return }

// Ite is a conditional without branching.
func Ite[T any](c bool, a, b T) (x T) { return }

// Seq is a mathematical sequence.
type Seq[T any] struct{ _ [0]T }

func SeqOf[T any](s []T) (q Seq[T])          { return }
func EmptySeq[T any]() (q Seq[T])            { return }
func UnitSeq[T any](x T) (q Seq[T])          { return }
func (q Seq[T]) Len() (n int)                { return }
func (q Seq[T]) At(i int) (x T)              { return }
func (q Seq[T]) Append(x T) (r Seq[T])       { return }
func (q Seq[T]) Concat(o Seq[T]) (r Seq[T])  { return }
func (q Seq[T]) Slice(lo, hi int) (r Seq[T]) { return }
func (q Seq[T]) Eq(o Seq[T]) (b bool)        { return }
func (q Seq[T]) HasPrefix(o Seq[T]) (b bool) { return }
func (q Seq[T]) Contains(x T) (b bool)       { return }

// GMap is a ghost map.
type GMap[K comparable, V any] struct {
	_ [0]K
	_ [0]V
}

func (m *GMap[K, V]) Get(k K) (x V) { return }
func (m *GMap[K, V]) Set(k K, x V)  {}
func (m *GMap[K, V]) Havoc()        {}
func (m *GMap[K, V]) Clear()        {}

// HavocUnless keeps the entries for which keep holds.
func (m *GMap[K, V]) HavocUnless(keep func(K) bool) {}

// HeapT is a heap snapshot.
type HeapT struct{ id int }

// Heap takes a snapshot of the heap.
func Heap() (h HeapT) { return }

// At evaluates f in the snapshot h.
func At[T any](h HeapT, f func() T) (x T) { return }

// Rep is the representation of a value of an opaque type.
func Rep[R, T any](x T) (r R) { return }

// FromRep is the value of an opaque type with the representation.
func FromRep[T, R any](r R) (x T) { return }

// Load and Store access the representation of an opaque object.
func Load[R, T any](p *T) (r R) { return }
func Store[R, T any](p *T, r R) {}

// Iter is the number of completed iterations of a loop.
type Iter int

// Loop registers invariants for the loops run inside calls of the named
// function: f is called with the loop's variables, and calls Inv.
func Loop(fn string, f any) {}

// Inv states a loop invariant.
func Inv(label string, cond bool) {}

// Stub replaces the named function or method by f inside this contract.
func Stub(fn string, f any) {}

// Intercept is Stub for calls, where f may call the original by name.
func Intercept(fn string, f any) {}

// Recursive is Stub for calls of a function that is already running: the
// induction hypothesis of a recursive function.
func Recursive(fn string, f any) {}

// On registers a hook on an event of an object.
func On(event string, obj any, f func()) {}

// Fire runs the hooks of an event.
func Fire(event string, obj any) {}

// OnGo registers hooks for go statements: before and after run in the
// parent, child runs in the new goroutine before its function, exit after.
func OnGo(before, after, child, exit func()) {}

// Guard states the access discipline of a location.
func Guard[T any](label string, p *T, rd, wr func() bool) {}

// GuardMap states the access discipline of a map's contents.
func GuardMap[M ~map[K]V, K comparable, V any](label string, m M, rd, wr func() bool) {}

// MayPanic turns panics into normal path ends.
func MayPanic() {}

// Unchecked turns the implicit safety obligations off.
func Unchecked() {}

// Fresh tells whether the reference was allocated since the contract began.
func Fresh(p any) bool { return false }

// Allocated tells that the reference was allocated before the contract.
func Allocated(p any) bool { return false }

// Addr is the identity of a reference, a map, a channel, a slice's array.
func Addr(p any) (n int) { return }

// Is tells whether the dynamic type of x is T.
func Is[T any](x any) bool { return false }

// IsFunc tells that f is the named function.
func IsFunc(f any, name string) bool { return false }

// Split forks the execution on the condition.
func Split(cond bool) bool { return cond }

// Modifies lists the locations a contract may change, in use mode.
func Modifies(ps ...any) {}

// Old marks nothing.
func Old[T any](x T) T { return x }

// Machine marks mathematical integer evaluation: specification code
// evaluates + - * over the mathematical integers.
func Wrap64(x int) int { return x }

// Now fires nothing; reserved.
func Unreachable(label string) {}

// String theory helpers.
func StrHasPrefix(s, p string) (b bool)           { return }
func StrHasSuffix(s, p string) (b bool)           { return }
func StrContains(s, sub string) (b bool)          { return }
func StrIndex(s, sub string, from int) (n int)    { return }
func StrReplaceAll(s, old, new string) (r string) { return }
func StrFromInt(n int) (s string)                 { return }
func StrToInt(s string) (n int)                   { return }

// BigInt is an uninterpreted function with any mathematical integer value.
func BigInt(name string, args ...any) (n int) { return }

// Visited tells, in a loop invariant of a range over a map, whether the key
// was produced.
func Visited[K comparable](k K) (b bool) { return }
