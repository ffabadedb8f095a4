module gosym

go 1.26.0

require (
	github.com/dgryski/go-farm v0.0.0-20240924180020-3414d57e47da
	golang.org/x/tools v0.52.0
)

require (
	golang.org/x/mod v0.42.0 // indirect
	golang.org/x/sync v0.24.0 // indirect
)
