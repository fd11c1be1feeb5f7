module verif/harness

go 1.24

require github.com/corywalker/expreduce v0.0.0

replace github.com/corywalker/expreduce => /repo
require (
	github.com/corywalker/mathbigext v0.0.0-20181030033443-6dc8c7f3bee3
	github.com/kavehmz/prime v1.0.0
	github.com/op/go-logging v0.0.0-20160315200505-970db520ece7
	github.com/orcaman/concurrent-map v1.0.0
	github.com/stretchr/testify v1.9.0
	github.com/wcharczuk/go-chart v2.0.1+incompatible
	gopkg.in/readline.v1 v1.0.0-20160726135117-62c6fe619375
	modernc.org/wl v1.0.0
)

require (
	github.com/blend/go-sdk v1.20220411.3 // indirect
	github.com/chzyer/test v1.0.0 // indirect
	github.com/davecgh/go-spew v1.1.1 // indirect
	github.com/go-bindata/go-bindata v3.1.2+incompatible // indirect
	github.com/golang/freetype v0.0.0-20170609003504-e2365dfdc4a0 // indirect
	github.com/pmezard/go-difflib v1.0.0 // indirect
	golang.org/x/image v0.22.0 // indirect
	gopkg.in/yaml.v3 v3.0.1 // indirect
	modernc.org/golex v1.1.0 // indirect
	modernc.org/strutil v1.2.0 // indirect
)
