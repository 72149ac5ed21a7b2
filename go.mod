module verif

go 1.23.3

require (
	github.com/google/capslock v0.0.0
	golang.org/x/tools v0.32.0
	google.golang.org/protobuf v1.36.6
)

require (
	github.com/fatih/color v1.18.0 // indirect
	github.com/mattn/go-colorable v0.1.13 // indirect
	github.com/mattn/go-isatty v0.0.20 // indirect
	golang.org/x/mod v0.24.0 // indirect
	golang.org/x/sync v0.13.0 // indirect
	golang.org/x/sys v0.32.0 // indirect
)

replace github.com/google/capslock => /repo
