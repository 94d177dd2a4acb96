// Package vc is the specification vocabulary. The bodies are never executed
// by the verifier: each function is interpreted by name.
package vc

func Forall(lo, hi int, f func(i int) bool) bool { panic("spec") }
func Exists(lo, hi int, f func(i int) bool) bool { panic("spec") }
func ForallInt(f func(i int) bool) bool          { panic("spec") }
func ForallStr(f func(s string) bool) bool       { panic("spec") }
func ExistsStr(f func(s string) bool) bool       { panic("spec") }

// ForallKey quantifies over the entries of a map
func ForallKey[K comparable, V any](m map[K]V, f func(k K, v V) bool) bool { panic("spec") }
func ExistsKey[K comparable, V any](m map[K]V, f func(k K, v V) bool) bool { panic("spec") }
func Has[K comparable, V any](m map[K]V, k K) bool                         { panic("spec") }
func SameKeys[K comparable, V, W any](a map[K]V, b map[K]W) bool           { panic("spec") }

// Old evaluates f in the state at entry
func Old[T any](f func() T) T { panic("spec") }

// Pure evaluates f in the current state without splitting cases (in models)
func Pure[T any](f func() T) T { panic("spec") }

func And(bs ...bool) bool     { panic("spec") }
func Imp(a, b bool) bool      { panic("spec") }
func Iff(a, b bool) bool      { panic("spec") }
func Same[T any](a, b T) bool { panic("spec") } // identity

// Fresh: the object was allocated by the call
func Fresh[T any](p T) bool { panic("spec") }
func IsNil[T any](p T) bool { panic("spec") }
func Base[T any](s []T) int { panic("spec") }

// Alloc is the newest object of the current state (bases and pointers compare by age)
func Ref[T any](p T) int { panic("spec") }
func Alloc() int         { panic("spec") }

// Seen: the key was already visited by the enclosing map iteration
func Seen[K comparable](k K) bool { panic("spec") }

// MapLoop: the loop is a map iteration (in a clause about iterations)
func MapLoop() bool { panic("spec") }

// Key: the key being visited by the map iteration around the loop
func Key[K comparable]() K { panic("spec") }

// UF is an uninterpreted function
func UF[T any](name string, args ...interface{}) T { panic("spec") }

// Any is an arbitrary value
func Any[T any]() T  { panic("spec") }
func New[T any]() *T { panic("spec") }

func Assume(b bool)              { panic("spec") }
func Assert(name string, b bool) { panic("spec") }
func Unreachable(name string)    { panic("spec") }

// Mod lists what a function may write
func Mod[T any](p T)                        { panic("spec") }
func ModElems[T any](s []T)                 { panic("spec") }
func ModMap[K comparable, V any](m map[K]V) { panic("spec") }

// Events: calls of unknown code made so far on the path
func Event(name string, args ...interface{})     { panic("spec") }
func Count(name string) int                      { panic("spec") }
func Loops(name string) int                      { panic("spec") } // loops passed that may have made such calls
func LoopPos(name string) int                    { panic("spec") } // where the first of these loops comes
func Pos(name string, n int) int                 { panic("spec") }
func Arg[T any](name string, n, i int) T         { panic("spec") }
func Ret[T any](name string, n, i int) T         { panic("spec") }
func At[T any](name string, n int, f func() T) T { panic("spec") }

// PanicOf is the value the call panicked with, nil if it returned
func PanicOf(name string, n int) interface{} { panic("spec") }

// strings
func Prefix(s, p string) bool   { panic("spec") }
func Matches(s, re string) bool { panic("spec") }
func Bytes(b []byte) string     { panic("spec") }

// Ghost state of library objects, and what a reader delivers
func Ghost[T any](p interface{}, name string) T { panic("spec") }
func ReaderText(r interface{}) string           { panic("spec") }

// The JSON text a value encodes to, and whether it can be encoded
func JSONText(v interface{}) string { panic("spec") }
func Encodable(v interface{}) bool  { panic("spec") }

// Strs is the content of a string slice, as a value
type Strs uintptr

func Elems(p []string) Strs      { panic("spec") }
func StrAt(a Strs, i int) string { panic("spec") }

// LibError is a new error of a library: none of the repository's error types
func LibError() error { panic("spec") }
