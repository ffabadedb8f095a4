module github.com/sethvargo/go-envconfig

go 1.23.0
