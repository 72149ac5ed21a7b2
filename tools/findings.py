KNOWN = [
 ("C03", "entry points", "exported constructor of unexported type", "methods of an unexported type are not reported when nothing in the program calls them or converts the type to an interface, although callers can obtain a value: type c struct{}; func New() *c; func (*c) M() { leaf() }"),
 ("C03", "entry points", "exported variable of unexported type", "as above, the value being obtained from an exported variable: type c struct{}; var X c; func (c) M() { leaf() }"),
 ("C03", "entry points", "method of generic type", "methods of a generic type that is never instantiated are not reported: type C[T any] struct{}; func (C[T]) M() { leaf() }"),
]
KNOWN += [
 ("C03", "limits", "channel ok", "a function value received with v, ok := <-c is not followed: c <- f; v, _ := <-c; v() (the type-flow call graph of golang.org/x/tools drops it)"),
 ("C03", "limits", "channel range", "a function value received by ranging over a channel is not followed: for v := range c { v() }"),
 ("C03", "limits", "converted struct", "a function value in a field is not followed through a conversion between struct types: D(C{f}).F()"),
]
FIXED += [
 ("C04", "fix: analyse arguments with side effects in calls to sort.Slice", "sort.Slice(f(), less) and the like lost the capabilities of f"),
]
FIXED += [
 ("C18", "fix: do not set the default granularity in the caller's Config", "an analysis or comparison set the granularity of the caller's Config, so a later analysis with the same Config used the wrong granularity"),
]
FIXED += [
 ("C21", "fix: remove the temporary clones made by capslock-git-diff", "temporary clones were left behind"),
 ("C21", "fix: resolve revisions in the repository being compared, not in its clone", "origin/main meant the local branch main, and names such as main~1, main@{1} or a remote-only branch were refused"),
 ("C21", "fix: ignore the caller's git environment in temporary clones", "with GIT_DIR and the like set, as in a hook, the user's own repository was checked out and its index changed"),
]
FIXED += [
 ("C15", "fix: escape backslashes in graph output", "the graph could not be parsed when a function's name contained a struct tag with a quotation mark, as in F[struct{A int \"json:\\\"a\\\"\"}]"),
]
FIXED += [
 ("C24", "fix: leave out standard library packages of other platforms from package lists", "with -goos=windows, packages of the standard library that exist only on that platform, such as internal/syscall/windows, were listed among the analysed packages"),
]
FIXED += [
 ("C03", "fix: follow interface calls to methods of instantiated types", "a method of an instantiated generic type called through an interface was not followed: type L[T any] struct{}; func (L[T]) Run() { leaf() }; func F(i interface{ Run() }) { i.Run() } with F(L[int]{})"),
 ("C17", "fix: name instances of generic functions the same way in every run", "names of instances of generic functions varied between runs when identical type arguments were written differently in several packages: g.Do[t.T] in one, g.Do[u.T] with type T = t.T in another"),
]
